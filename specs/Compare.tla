------------------------------ MODULE Compare ------------------------------
(* odc compare: two files, row by row.  A file is a sequence of rows, each with the definitions of its columns, cut into
   frames.  The tool compares the definitions where a frame of either file begins, and the cells of every pair of rows;
   the verdict must be the equality of the two tables, whatever the frames.
   Values: "a", "b" differ; "t" differs from "a" by less than the tolerance for reals; "m" missing; "n" NaN; "i" inf. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Types, Vals, MaxRows, MaxMut, Sampled, EmitOn

VARIABLES pc, one, two, cutA, cutB, muts, exc, excT, nanok, pos, skip, verdict
vars == <<pc, one, two, cutA, cutB, muts, exc, excT, nanok, pos, skip, verdict>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
Numeric == {"I", "R", "D", "B"}
Col(n, t) == [name |-> n, type |-> t, bits |-> 1]

Init == /\ pc = "build" /\ one = <<>> /\ two = <<>> /\ cutA = {} /\ cutB = {} /\ muts = 0
        /\ exc = {} /\ excT = {} /\ nanok = FALSE /\ pos = 1 /\ skip = {} /\ verdict = "none"

ColSets == {<<Col("A", t), Col("B", u)>> : t \in Types, u \in Types} \cup {<<Col("A", t)>> : t \in Types}

\* Rows of the first file; the columns may change
AddRow ==
    /\ pc = "build" /\ Len(one) < MaxRows
    /\ \E cs \in (IF one = <<>> THEN Pick(ColSets)
                  ELSE Pick({one[Len(one)].cols} \cup (IF Sampled /\ RandomElement(1..4) = 1 THEN ColSets ELSE {}))) :
        \E v \in (IF Sampled THEN {[i \in DOMAIN cs |-> RandomElement(Vals)]} ELSE [DOMAIN cs -> Vals]) :
            one' = Append(one, [cols |-> cs, v |-> v])
    /\ two' = one'
    /\ UNCHANGED <<pc, cutA, cutB, muts, exc, excT, nanok, pos, skip, verdict>>

Built == /\ pc = "build" /\ one # <<>> /\ (Sampled => Len(one) >= 2)
         /\ pc' = "mutate" /\ UNCHANGED <<one, two, cutA, cutB, muts, exc, excT, nanok, pos, skip, verdict>>

-----------------------------------------------------------------------------
(* Mutations of the second file *)
Fuzzy == {"t", "n", "i"}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
From(f(_), k) == [i \in DOMAIN two |-> IF i >= k THEN f(two[i]) ELSE two[i]]
HasCol(r, c) == c \in DOMAIN r.cols
MCell(i, c, v) == IF HasCol(two[i], c) THEN [two EXCEPT ![i].v[c] = v] ELSE two
MName(k, c) == From(LAMBDA r : IF HasCol(r, c) THEN [r EXCEPT !.cols[c].name = "C"] ELSE r, k)
MBits(k, c) == From(LAMBDA r : IF HasCol(r, c) THEN [r EXCEPT !.cols[c].bits = 2] ELSE r, k)
MType(k, c, t) == IF \A i \in k..Len(two) : HasCol(two[i], c) =>
                        two[i].cols[c].type \in Numeric /\ ~(two[i].v[c] \in Fuzzy) /\ (HasCol(one[i], c) => ~(one[i].v[c] \in Fuzzy))
                  THEN From(LAMBDA r : IF HasCol(r, c) THEN [r EXCEPT !.cols[c].type = t] ELSE r, k) ELSE two
MDrop(k, c) == From(LAMBDA r : IF HasCol(r, c) /\ Len(r.cols) > 1
                               THEN [cols |-> Without(r.cols, c), v |-> Without(r.v, c)] ELSE r, k)
MAdd(k) == From(LAMBDA r : [cols |-> Append(r.cols, Col("E", "I")), v |-> Append(r.v, "a")], k)
MSwap(k) == From(LAMBDA r : IF Len(r.cols) = 2 THEN [cols |-> <<r.cols[2], r.cols[1]>>, v |-> <<r.v[2], r.v[1]>>]
                            ELSE r, k)
MRowOut(i) == Without(two, i)
MRowTwice(i) == SubSeq(two, 1, i) \o SubSeq(two, i, Len(two))
MRowSwap(i) == IF i < Len(two) THEN [two EXCEPT ![i] = two[i + 1], ![i + 1] = two[i]] ELSE two

Structural == {MName(k, c) : k \in DOMAIN two, c \in {1, 2}} \cup {MBits(k, c) : k \in DOMAIN two, c \in {1, 2}}
              \cup {MDrop(k, c) : k \in DOMAIN two, c \in {1, 2}} \cup {MAdd(k) : k \in DOMAIN two}
              \cup {MSwap(k) : k \in DOMAIN two}
TypeMuts == IF Len(two) = Len(one)
            THEN {MType(k, c, t) : k \in DOMAIN two, c \in {1, 2}, t \in Types \cap Numeric} ELSE {}
Cells == {MCell(i, c, v) : i \in DOMAIN two, c \in {1, 2}, v \in Vals}
Rows == {MRowOut(i) : i \in DOMAIN two} \cup {MRowTwice(i) : i \in DOMAIN two} \cup {MRowSwap(i) : i \in DOMAIN two}

\* fuzzy values stay in columns whose type is the same in both files
Mixed == LET ts(f, n) == {f[i].cols[c].type : i \in DOMAIN f, c \in {1, 2}} IN
    \E i \in DOMAIN two \cap DOMAIN one : \E c \in {1, 2} : HasCol(two[i], c) /\ HasCol(one[i], c) /\
        one[i].cols[c].type # two[i].cols[c].type /\ (one[i].v[c] \in Fuzzy \/ two[i].v[c] \in Fuzzy \/
             "S" \in {one[i].cols[c].type, two[i].cols[c].type})

Mutate ==
    /\ pc = "mutate" /\ muts < MaxMut /\ two # <<>>
    /\ \E S \in Pick({Structural, TypeMuts, Cells, Rows}) : \E m \in Pick(S) : two' = m
    /\ muts' = muts + 1
    /\ UNCHANGED <<pc, one, cutA, cutB, exc, excT, nanok, pos, skip, verdict>>

\* Frames: a new one where the definitions change, and wherever else
Needed(f) == {i \in 2..Len(f) : f[i].cols # f[i - 1].cols}
Cuts(f) == {Needed(f) \cup x : x \in (IF Sampled THEN {RandomElement(SUBSET (2..Len(f)))} ELSE SUBSET (2..Len(f)))}

Start ==
    /\ pc = "mutate" /\ ~Mixed
    /\ \E a \in Cuts(one), b \in Cuts(two) : cutA' = a \cup {1} /\ cutB' = b \cup {1}
    /\ \E x \in Pick(IF Sampled THEN {{}, {"A"}, {"B"}, {"A", "B"}, {"C"}} ELSE {{}, {"A"}}) : exc' = x
    /\ \E x \in Pick(IF Sampled THEN {{}, {"A"}, {"B"}} ELSE {{}, {"A"}}) : excT' = x
    /\ nanok' \in (IF "n" \in Vals THEN Pick(BOOLEAN) ELSE {FALSE})
    /\ pc' = "walk"
    /\ UNCHANGED <<one, two, muts, pos, skip, verdict>>

-----------------------------------------------------------------------------
Class(t, v) == IF t \in {"R", "D"} /\ v = "t" THEN "a" ELSE v
EqCell(t, x, y) == \/ x = "m" /\ y = "m"
                   \/ x # "m" /\ y # "m" /\ ~(t \in {"R", "D"} /\ "n" \in {x, y} /\ ~nanok) /\ Class(t, x) = Class(t, y)
EqBits(c, d) == c.type = "B" => c.bits = d.bits
EqCols(cs, ds) == /\ Len(cs) = Len(ds)
                  /\ \A i \in DOMAIN cs : /\ cs[i].name = ds[i].name
                                          /\ cs[i].name \in exc \cup excT \/
                                             (cs[i].type = ds[i].type /\ EqBits(cs[i], ds[i]))
EqRow(r, s) == \A i \in DOMAIN r.cols : r.cols[i].name \in exc \/ EqCell(r.cols[i].type, r.v[i], s.v[i])
Equal == /\ Len(one) = Len(two)
         /\ \A i \in DOMAIN one : EqCols(one[i].cols, two[i].cols) /\ EqRow(one[i], two[i])

\* The tool
Step ==
    /\ pc = "walk"
    /\ IF pos > Len(one) \/ pos > Len(two)
       THEN /\ verdict' = (IF pos > Len(one) /\ pos > Len(two) THEN "same" ELSE "differ")
            /\ pc' = "done" /\ UNCHANGED <<pos, skip>>
       ELSE LET r == one[pos] s == two[pos] IN
            LET fresh == pos \in cutA \cup cutB IN
            LET sk == IF fresh THEN {i \in DOMAIN r.cols : r.cols[i].name \in exc} ELSE skip IN
            IF fresh /\ ~EqCols(r.cols, s.cols)
            THEN verdict' = "differ" /\ pc' = "done" /\ UNCHANGED <<pos, skip>>
            ELSE IF \E i \in DOMAIN r.cols \ sk : ~EqCell(r.cols[i].type, r.v[i], s.v[i])
            THEN verdict' = "differ" /\ pc' = "done" /\ skip' = sk /\ UNCHANGED pos
            ELSE pos' = pos + 1 /\ skip' = sk /\ UNCHANGED <<pc, verdict>>
    /\ UNCHANGED <<one, two, cutA, cutB, muts, exc, excT, nanok>>

Next == AddRow \/ Built \/ Mutate \/ Start \/ Step
Spec == Init /\ [][Next]_vars

Sound == pc = "done" => (verdict = "same") = Equal
\* Equality does not depend on how the files are cut, and is symmetric for equal types
Reflexive == pc = "done" /\ one = two /\ (\A i \in DOMAIN one : ~("n" \in {one[i].v[c] : c \in DOMAIN one[i].v}))
             => verdict = "same"

Emit == (EmitOn /\ pc = "done") =>
    PrintT("@@" \o ToJson([one |-> one, two |-> two, a |-> cutA, b |-> cutB, exc |-> exc, exct |-> excT, nanok |-> nanok,
                           same |-> Equal, at |-> pos, muts |-> muts]))
=============================================================================
