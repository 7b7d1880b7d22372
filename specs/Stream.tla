------------------------------ MODULE Stream ------------------------------
(* Navigation of a stream of frames.  A frame has a column signature (frames of one signature can be aggregated), a
   number of rows and properties.  Modelled is the reader: a cursor `it` over the tables, which are read on demand and kept
   (`cache` tables have been read), and a call `next` that starts a logical frame and, when aggregating, extends it as
   long as the following table is compatible and the row limit permits.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxFrames, MinFrames, Sigs, Rows, Keys, PropVals,
          Limits,      \* row limits; 0 is none
          Sampled, EmitOn

VARIABLES file, agg, lim, pc, it, first, cache, group, out, merged
vars == <<file, agg, lim, pc, it, first, cache, group, out, merged>>

EndIt == 0
N == Len(file)
SeqSum(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE S[i - 1] + file[s[i]].n IN S[Len(s)]
Absent == 0
NoProps == [k \in Keys |-> Absent]

Init == /\ file = <<>> /\ agg = FALSE /\ lim = 0 /\ pc = "write" /\ it = 1 /\ first = TRUE /\ cache = 0
        /\ group = <<>> /\ out = <<>> /\ merged = <<>>

Pick(S) == IF Sampled THEN {RandomElement(S)} ELSE S

AddFrame ==
    /\ pc = "write" /\ N < MaxFrames
    /\ \E s \in Pick(Sigs), n \in Pick(Rows), p \in Pick([Keys -> PropVals \cup {Absent}]) :
          file' = Append(file, [sig |-> s, n |-> n, p |-> p])
    /\ UNCHANGED <<agg, lim, pc, it, first, cache, group, out, merged>>

\* Opening a reader reads no table yet
Open ==
    /\ pc = "write" /\ N >= MinFrames
    /\ \/ agg' = FALSE /\ lim' = 0
       \/ agg' = TRUE /\ lim' \in Pick(Limits)
    /\ pc' = "idle"
    /\ UNCHANGED <<file, it, first, cache, group, out, merged>>

\* Reading at most one table beyond those read so far; 0 is the end
Ensure(i) == IF i <= N THEN i ELSE EndIt
Max(a, b) == IF a > b THEN a ELSE b

\* next() is called
Call ==
    /\ pc = "idle"
    /\ LET i == IF first THEN Ensure(1) ELSE Ensure(it + 1) IN
       /\ first' = FALSE /\ it' = i
       /\ IF i = EndIt THEN pc' = "end" /\ UNCHANGED <<cache, group, merged>>
          ELSE /\ pc' = "extend" /\ cache' = Max(cache, i) /\ group' = <<i>>
               /\ merged' = file[i].p
    /\ UNCHANGED <<file, agg, lim, out>>

CanExtend ==
    /\ agg /\ it + 1 <= N
    /\ lim > 0 => SeqSum(group) + file[it + 1].n <= lim
    /\ file[it + 1].sig = file[group[1]].sig

Extend ==
    /\ pc = "extend" /\ CanExtend
    /\ it' = it + 1 /\ cache' = Max(cache, it + 1) /\ group' = Append(group, it + 1)
    /\ merged' = [k \in Keys |-> IF merged[k] # Absent THEN merged[k] ELSE file[it + 1].p[k]]
    /\ UNCHANGED <<file, agg, lim, pc, first, out>>

Return ==
    /\ pc = "extend" /\ ~CanExtend
    \* a table is looked at before it is known not to belong
    /\ cache' = IF agg /\ it + 1 <= N THEN Max(cache, it + 1) ELSE cache
    /\ IF lim > 0 /\ SeqSum(group) > lim
       THEN pc' = "error" /\ UNCHANGED out       \* one frame exceeds the limit: reported
       ELSE pc' = "idle" /\ out' = Append(out, [g |-> group, n |-> SeqSum(group), p |-> merged])
    /\ UNCHANGED <<file, agg, lim, it, first, group, merged>>

Next == AddFrame \/ Open \/ Call \/ Extend \/ Return
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Every frame once, in order
InOrder == LET F[i \in 0..Len(out)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o out[i].g
           IN F[Len(out)] = [j \in 1..Len(F[Len(out)]) |-> j]
AllVisited == pc = "end" => LET F[i \in 0..Len(out)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(out[i].g) IN F[Len(out)] = N
Homogeneous == \A i \in DOMAIN out : \A a, b \in DOMAIN out[i].g : file[out[i].g[a]].sig = file[out[i].g[b]].sig
Limited == \A i \in DOMAIN out : lim > 0 => out[i].n <= lim
Maximal == agg => \A i \in 1..(Len(out) - 1) :
              LET a == out[i] b == out[i + 1] IN
              \/ file[a.g[1]].sig # file[b.g[1]].sig
              \/ lim > 0 /\ a.n + file[b.g[1]].n > lim
Single == ~agg => \A i \in DOMAIN out : Len(out[i].g) = 1
ErrorOnlyIfTooLarge == pc = "error" => lim > 0 /\ file[it].n > lim
ReadAhead == cache <= (IF it = EndIt THEN N ELSE it + 1)
\* Properties of a logical frame: those of its frames, the first winning
Properties == \A i \in DOMAIN out : \A k \in Keys :
    LET has == {j \in DOMAIN out[i].g : file[out[i].g[j]].p[k] # Absent} IN
    out[i].p[k] = IF has = {} THEN Absent
                  ELSE file[out[i].g[CHOOSE j \in has : \A m \in has : j <= m]].p[k]

Emit == (EmitOn /\ pc \in {"end", "error"}) =>
    PrintT("@@" \o ToJson([file |-> file, agg |-> agg, lim |-> lim, out |-> out, err |-> pc = "error"]))
=============================================================================
