------------------------------- MODULE Query -------------------------------
(* SQL over ODB-2 tables.  A table is a stream of frames whose columns may come in another order, with others beside
   them, or with another type; a query names columns (or members of a bitfield), and a scan looks at each row through
   the layout it adopted last.  With two tables the first one is scanned again for every row of the second one.
   The scan must adopt the layout of a frame at its first row, also after it went back to the first row of a table.

   Cells are symbols; "m" is missing.  A comparison with a missing value is neither true nor false, and a row is selected
   when the condition is true.  The second operand of a disjunction is looked at if the first one is not true.

   Left out, as the SQL engine (eckit, not a part of odc) decides it: conditions on columns of more than one table.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxFrames, MaxRows, Lays, Lays2, Vals, Tabs, Modes, Sampled, EmitOn

VARIABLES pc, tabs, q, lvl, at, lay, rew, out
vars == <<pc, tabs, q, lvl, at, lay, rew, out>>

Pick(S) == IF Sampled THEN {RandomElement(S)} ELSE S

Cols(t, l) == IF t = 1 THEN CASE l \in {1, 5} -> <<"A", "B", "F">>   \* 5: A has another type
                              [] l = 2 -> <<"F", "B", "A">>
                              [] l = 3 -> <<"B", "A", "F", "X">>
                              [] l = 4 -> <<"A", "F">>
              ELSE CASE l = 1 -> <<"C", "D">>
                     [] l = 2 -> <<"D", "C">>
                     [] l = 3 -> <<"X2", "C", "D">>
Idx(t, l, c) == LET s == Cols(t, l) IN CHOOSE i \in 1..Len(s) : s[i] = c
Has(t, l, c) == \E i \in 1..Len(Cols(t, l)) : Cols(t, l)[i] = c

\* the members x and y of the symbols of a bitfield
Member(p, s) == CASE s = "m" -> "m"
                  [] s = "a" -> "a"
                  [] s = "b" -> IF p = "Fx" THEN "b" ELSE "a"
                  [] s = "c" -> IF p = "Fx" THEN "a" ELSE "b"
Base(i) == IF i \in {"Fx", "Fy"} THEN "F" ELSE i
TabOf(i) == IF i \in {"C", "D", "X2"} THEN 2 ELSE 1
Ord(s) == CASE s = "a" -> 1 [] s = "b" -> 2 [] s = "c" -> 3

Items == {"A", "B", "F", "Fx", "Fy"} \cup (IF Tabs = 2 THEN {"C", "D"} ELSE {})
Known == Vals \ {"m"}

Atoms == [op : {"eq", "ne", "lt", "null", "notnull"}, item : {"A", "B", "C"} \cap Items, sym : Known]
      \cup [op : {"eq", "ne", "null"}, item : {"F", "Fx", "Fy"}, sym : Known]
NoAtom == [op |-> "true", item |-> "A", sym |-> "a"]
\* members have only the values of "a" and "b"
OkAtom(x) == x.item \in {"Fx", "Fy"} => x.sym \in {"a", "b"}

(* three valued logic: "t", "f", "m" *)
Bool(b) == IF b THEN "t" ELSE "f"
Atom(x, V(_)) ==
    CASE x.op = "true" -> "t"
      [] x.op = "null" -> Bool(V(x.item) = "m")
      [] x.op = "notnull" -> Bool(V(x.item) # "m")
      [] OTHER -> IF V(x.item) = "m" THEN "m"
                  ELSE CASE x.op = "eq" -> Bool(V(x.item) = x.sym)
                         [] x.op = "ne" -> Bool(V(x.item) # x.sym)
                         [] x.op = "lt" -> Bool(Ord(V(x.item)) < Ord(x.sym))
And(a, b) == IF a = "f" \/ b = "f" THEN "f" ELSE IF a = "m" \/ b = "m" THEN "m" ELSE "t"
Or(a, b) == IF a = "t" THEN "t" ELSE IF a = "m" \/ b = "m" THEN "m" ELSE b
Not(a) == CASE a = "t" -> "f" [] a = "f" -> "t" [] OTHER -> "m"
Cond(w, V(_)) ==
    CASE w.k = "one" -> Atom(w.x, V)
      [] w.k = "not" -> Not(Atom(w.x, V))
      [] w.k = "and" -> And(Atom(w.x, V), Atom(w.y, V))
      [] w.k = "or" -> Or(Atom(w.x, V), Atom(w.y, V))
      [] w.k = "notor" -> Not(Or(Atom(w.x, V), Atom(w.y, V)))

NoQuery == [sel |-> <<>>, star |-> FALSE, w |-> [k |-> "one", x |-> NoAtom, y |-> NoAtom], mode |-> "rows"]
Init == /\ pc = "build" /\ tabs = <<<<>>>> /\ q = NoQuery
        /\ lvl = 0 /\ at = <<>> /\ lay = <<>> /\ rew = <<>> /\ out = <<>>

\* rows are kept as the format has them: in the order of the frame's columns
Row(t, l) == [1..Len(Cols(t, l)) -> Vals]
RandomRow(t, l) == [i \in 1..Len(Cols(t, l)) |-> RandomElement(Vals)]
T == Len(tabs)
AddFrame ==
    /\ pc = "build" /\ Len(tabs[T]) < MaxFrames
    /\ \E l \in Pick(IF T = 1 THEN Lays ELSE Lays2), n \in Pick(1..MaxRows) :
         \E r \in (IF Sampled THEN {[i \in 1..n |-> RandomRow(T, l)]} ELSE [1..n -> Row(T, l)]) :
            tabs' = [tabs EXCEPT ![T] = Append(@, [lay |-> l, rows |-> r])]
    /\ UNCHANGED <<pc, q, lvl, at, lay, rew, out>>
NextTable == /\ pc = "build" /\ T < Tabs /\ tabs[T] # <<>> /\ tabs' = Append(tabs, <<>>)
             /\ UNCHANGED <<pc, q, lvl, at, lay, rew, out>>

\* the columns a query needs of table t
Sel == IF q.star THEN Cols(1, tabs[1][1].lay) ELSE q.sel
Range(s) == {s[i] : i \in DOMAIN s}
AtomItems(x) == IF x.op = "true" THEN {} ELSE {x.item}
Used(t) == {Base(i) : i \in {j \in Range(Sel) \cup AtomItems(q.w.x) \cup AtomItems(q.w.y) : TabOf(j) = t}}
Bad(t, l) == \E c \in Used(t) : ~Has(t, l, c)
\* the names of a query are those of the first frames; a table from which it needs nothing is no part of it
Resolved(qq) == LET names == Range(qq.sel) \cup AtomItems(qq.w.x) \cup AtomItems(qq.w.y)
                IN /\ \A i \in names : Has(TabOf(i), tabs[TabOf(i)][1].lay, Base(i))
                   /\ qq.w.x.op # "true" /\ qq.w.y.op # "true" => TabOf(qq.w.x.item) = TabOf(qq.w.y.item)
                   /\ T = 2 => \A t \in 1..T : \E i \in names : TabOf(i) = t

Wheres == {[k |-> k, x |-> x, y |-> y] : k \in {"and", "or", "notor"}, x \in {a \in Atoms : OkAtom(a)}, y \in {a \in Atoms : OkAtom(a)}}
     \cup {[k |-> k, x |-> x, y |-> NoAtom] : k \in {"one", "not"}, x \in {a \in Atoms : OkAtom(a)}}
     \cup {NoQuery.w}
\* an exhaustive run takes a few queries
FewWheres == {NoQuery.w, [k |-> "one", x |-> [op |-> "ne", item |-> "A", sym |-> "a"], y |-> NoAtom]}
FewSels == IF Tabs = 1 THEN {<<"A">>, <<"Fy", "B">>} ELSE {<<"A", "D">>}
RandomSel(n) == [i \in 1..n |-> RandomElement(Items)]

Begin ==
    /\ pc = "build" /\ T = Tabs /\ tabs[T] # <<>>
    /\ (Sampled => (\A t \in 1..T : Len(tabs[t]) = MaxFrames) \/ RandomElement(1..4) = 1)
    /\ \E star \in (IF Tabs = 1 THEN Pick({TRUE, FALSE}) ELSE {FALSE}), md \in Pick(Modes) :
         \E s \in (IF star THEN {<<>>} ELSE IF Sampled THEN {RandomSel(RandomElement(1..4))} ELSE FewSels),
            w \in (IF Sampled THEN {RandomElement({"x", "c"})} ELSE {"x"}) :
            \E ww \in (IF Sampled THEN {IF w = "x" THEN RandomElement(Wheres) ELSE NoQuery.w} ELSE FewWheres) :
              LET qq == [sel |-> s, star |-> star, w |-> ww, mode |-> IF star THEN "rows" ELSE md] IN
                 Resolved(qq) /\ q' = qq
    /\ pc' = "scan" /\ lvl' = T
    /\ at' = [t \in 1..T |-> <<1, 0>>] /\ lay' = [t \in 1..T |-> tabs[t][1].lay] /\ rew' = [t \in 1..T |-> FALSE]
    /\ UNCHANGED <<tabs, out>>

NextPos(t) == IF at[t][2] < Len(tabs[t][at[t][1]].rows) THEN <<at[t][1], at[t][2] + 1>> ELSE <<at[t][1] + 1, 1>>

\* a value as the scan sees it: by position, in the layout it has
Seen(i) == LET t == TabOf(i)
               r == tabs[t][at[t][1]].rows[at[t][2]]
               v == r[Idx(t, lay[t], Base(i))]
           IN IF i = Base(i) THEN v ELSE Member(i, v)

Advance ==
    /\ pc = "scan" /\ lvl \in 1..T
    /\ LET t == lvl
           p == NextPos(t)
       IN IF p[1] > Len(tabs[t])
          THEN IF lvl = T THEN pc' = "done" /\ UNCHANGED <<lvl, at, lay, rew>>
               ELSE lvl' = lvl + 1 /\ UNCHANGED <<pc, at, lay, rew>>
          ELSE /\ at' = [u \in 1..T |-> IF u = t THEN p ELSE IF u < t THEN <<1, 0>> ELSE at[u]]
               /\ LET adopt == p[2] = 1 /\ (p[1] > 1 \/ rew[t])
                      l == tabs[t][p[1]].lay
                  IN IF adopt /\ Bad(t, l) THEN pc' = "error" /\ UNCHANGED <<lay, lvl, rew>>
                     ELSE /\ lay' = IF adopt THEN [lay EXCEPT ![t] = l] ELSE lay
                          /\ rew' = [u \in 1..T |-> IF u = t THEN FALSE ELSE IF u < t THEN TRUE ELSE rew[u]]
                          /\ lvl' = lvl - 1 /\ UNCHANGED pc
    /\ UNCHANGED <<tabs, q, out>>

Test ==
    /\ pc = "scan" /\ lvl = 0
    /\ out' = IF Cond(q.w, Seen) = "t"
              THEN Append(out, [f |-> at[1][1], v |-> [i \in DOMAIN Sel |-> Seen(Sel[i])]]) ELSE out
    /\ lvl' = 1
    /\ UNCHANGED <<pc, tabs, q, at, lay, rew>>

Next == AddFrame \/ NextTable \/ Begin \/ Advance \/ Test
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Over == pc \in {"done", "error"}

\* While rows are looked at, every table is seen through the layout of the frame of its row
LayoutCurrent == pc = "scan" /\ lvl = 0 => \A t \in 1..T : lay[t] = tabs[t][at[t][1]].lay

(* The result, without a scan *)
Positions(t) == LET F[i \in 0..Len(tabs[t])] ==
                      IF i = 0 THEN <<>> ELSE F[i - 1] \o [j \in DOMAIN tabs[t][i].rows |-> <<i, j>>]
                IN F[Len(tabs[t])]
Cell(pos, i) == LET t == TabOf(i)
                    fr == tabs[t][pos[t][1]]
                    v == fr.rows[pos[t][2]][Idx(t, fr.lay, Base(i))]
                IN IF i = Base(i) THEN v ELSE Member(i, v)
Selected(pos) == Cond(q.w, LAMBDA i : Cell(pos, i)) = "t"
Result(pos) == [f |-> pos[1][1], v |-> [i \in DOMAIN Sel |-> Cell(pos, Sel[i])]]
Combos == IF T = 1 THEN [i \in DOMAIN Positions(1) |-> <<Positions(1)[i]>>]
          ELSE LET a == Positions(1)
                   b == Positions(2)
               IN [k \in 1..(Len(a) * Len(b)) |-> <<a[((k - 1) % Len(a)) + 1], b[((k - 1) \div Len(a)) + 1]>>]
Expected == LET S == SelectSeq(Combos, LAMBDA p : Selected(p)) IN [i \in DOMAIN S |-> Result(S[i])]
Answer == pc = "done" => out = Expected
Refused == pc = "error" => \E t \in 1..T : \E i \in DOMAIN tabs[t] : Bad(t, tabs[t][i].lay)
Answered == pc = "done" => \A t \in 1..T : \A i \in DOMAIN tabs[t] : ~Bad(t, tabs[t][i].lay)
\* what was delivered before the error is right, too
PrefixBeforeError == pc = "error" /\ T = 1 =>
    LET good == SelectSeq(Combos, LAMBDA p : \A i \in 1..p[1][1] : ~Bad(1, tabs[1][i].lay))
        S == SelectSeq(good, LAMBDA p : Selected(p))
    IN out = [i \in DOMAIN S |-> Result(S[i])]

-----------------------------------------------------------------------------
(* What the other modes deliver of these rows *)
Distinct == {out[i].v : i \in DOMAIN out}
Count == Len(out)
Col(k) == SelectSeq([i \in DOMAIN out |-> out[i].v[k]], LAMBDA s : s # "m")
MaxOf(k) == IF Col(k) = <<>> THEN "m" ELSE LET R == Range(Col(k)) IN CHOOSE x \in R : \A y \in R : Ord(y) <= Ord(x)
MinOf(k) == IF Col(k) = <<>> THEN "m" ELSE LET R == Range(Col(k)) IN CHOOSE x \in R : \A y \in R : Ord(x) <= Ord(y)
Agg == [k \in DOMAIN Sel |-> [n |-> Len(Col(k)), max |-> MaxOf(k), min |-> MinOf(k)]]
\* a selected column whose type is another one in a later frame
Retyped == \E i \in DOMAIN tabs[1] : (tabs[1][i].lay = 5) # (tabs[1][1].lay = 5)

Emit == EmitOn /\ Over => PrintT("@@" \o ToJson([tabs |-> tabs, sel |-> Sel, star |-> q.star, w |-> q.w, mode |-> q.mode,
            out |-> out, err |-> pc = "error", count |-> Count, agg |-> Agg,
            retyped |-> Retyped /\ "A" \in Range(Sel)]))
=============================================================================
