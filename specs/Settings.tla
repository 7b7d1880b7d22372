----------------------------- MODULE Settings -----------------------------
(* The configured missing values and what becomes of the data encoded under them.
   A value is a symbol; the symbols in Miss are those that can be configured as the missing value of integers (mi) or of
   reals (md).  An item is a frame of one integer-like and one real-like column (and all their types) holding the same
   sequence of symbols; it remembers the missing values in force when it was encoded.
   A cell counts as missing iff it equals the missing value its item was encoded with; readers deliver what was written,
   whatever is configured at the time; queries deliver missing cells as the missing value configured when they run.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Miss, Values, MaxItems, MaxRows, MaxSteps, Sampled, EmitOn
ASSUME Miss \subseteq Values

VARIABLES pc, mi, md, ints, items, log
vars == <<pc, mi, md, ints, items, log>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
Default == CHOOSE x \in Miss : x = "A"

Init == pc = "run" /\ mi = Default /\ md = Default /\ ints \in {"long", "double"} /\ items = <<>> /\ log = <<>>

Do(rec) == log' = Append(log, rec)
Rec(act) == [act |-> act, mi |-> mi, md |-> md, ints |-> ints, n |-> 0, sel |-> <<>>, cells |-> <<>>, miss |-> <<>>, misr |-> <<>>,
             out |-> <<>>, outr |-> <<>>]

\* Applications
Sequences(n) == UNION {[1..k -> Values] : k \in 1..n}
IsMissing(it, which) == [i \in DOMAIN it.cells |-> it.cells[i] = (IF which = "i" THEN it.mi ELSE it.md)]
Delivered(it, which) == it.cells
Queried(it, which, m) == [i \in DOMAIN it.cells |-> IF IsMissing(it, which)[i] THEN m ELSE it.cells[i]]

SetInt == \E v \in Pick(Miss \ {mi}) : mi' = v /\ Do([Rec("setint") EXCEPT !.mi = v]) /\ UNCHANGED <<pc, md, ints, items>>
SetDbl == \E v \in Pick(Miss \ {md}) : md' = v /\ Do([Rec("setdbl") EXCEPT !.md = v]) /\ UNCHANGED <<pc, mi, ints, items>>
SetInts == LET v == IF ints = "long" THEN "double" ELSE "long" IN
           ints' = v /\ Do([Rec("setints") EXCEPT !.ints = v]) /\ UNCHANGED <<pc, mi, md, items>>
Write == /\ Len(items) < MaxItems
         /\ \E c \in (IF Sampled THEN LET n == RandomElement(1..MaxRows) IN {[i \in 1..n |-> RandomElement(Values)]}
                      ELSE Sequences(MaxRows)) :
              /\ items' = Append(items, [cells |-> c, mi |-> mi, md |-> md])
              /\ Do([Rec("write") EXCEPT !.cells = c, !.n = Len(items) + 1])
         /\ UNCHANGED <<pc, mi, md, ints>>
\* Items are read, or queried, alone or several together, as the frames of one file
Files == {<<k>> : k \in DOMAIN items} \cup
         (IF Len(items) > 1 THEN {<<j, k>> : j, k \in DOMAIN items} \cup {[k \in DOMAIN items |-> k]} ELSE {})
All(sel, F(_)) == LET A[i \in 0..Len(sel)] == IF i = 0 THEN <<>> ELSE A[i - 1] \o F(items[sel[i]]) IN A[Len(sel)]
Read == \E sel \in Pick(Files) :
          /\ Do([Rec("read") EXCEPT !.sel = sel, !.cells = All(sel, LAMBDA x : Delivered(x, "i")),
                 !.miss = All(sel, LAMBDA x : IsMissing(x, "i")), !.misr = All(sel, LAMBDA x : IsMissing(x, "r"))])
          /\ UNCHANGED <<pc, mi, md, ints, items>>
Query == \E sel \in Pick(Files) :
          /\ Do([Rec("query") EXCEPT !.sel = sel, !.out = All(sel, LAMBDA x : Queried(x, "i", mi)),
                 !.outr = All(sel, LAMBDA x : Queried(x, "r", md)),
                 !.miss = All(sel, LAMBDA x : IsMissing(x, "i")), !.misr = All(sel, LAMBDA x : IsMissing(x, "r"))])
          /\ UNCHANGED <<pc, mi, md, ints, items>>

Next == pc = "run" /\ Len(log) < MaxSteps /\ (SetInt \/ SetDbl \/ SetInts \/ Write \/ Read \/ Query)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Sum(q) == LET A[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE A[i - 1] + q[i] IN A[Len(q)]
\* What is read is what was written, and missing exactly where the value in force at the time of writing was written
RoundTrip == \A j \in DOMAIN log : log[j].act = "read" =>
    LET written(n) == CHOOSE x \in 1..(j - 1) : log[x].act = "write" /\ log[x].n = n
        S == log[j].sel
        from(m) == IF m = 0 THEN 0 ELSE Sum([i \in 1..m |-> Len(log[written(S[i])].cells)])
    IN \A m \in DOMAIN S : LET x == log[written(S[m])] IN
       \A i \in DOMAIN x.cells : LET p == from(m - 1) + i IN
           log[j].cells[p] = x.cells[i] /\ (log[j].miss[p] <=> x.cells[i] = x.mi) /\ (log[j].misr[p] <=> x.cells[i] = x.md)
\* Changing settings does not change encoded data
Own == [][\A k \in DOMAIN items : items'[k] = items[k]]_vars
\* The same item read twice is the same, whatever happened between
Stable == \A i, j \in DOMAIN log : (log[i].act = "read" /\ log[j].act = "read" /\ log[i].sel = log[j].sel) =>
    (log[i].cells = log[j].cells /\ log[i].miss = log[j].miss /\ log[i].misr = log[j].misr)
Emit == (EmitOn /\ Len(log) = MaxSteps /\ items # <<>>) => PrintT("@@" \o ToJson([log |-> log, items |-> items]))
=============================================================================
