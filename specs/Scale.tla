-------------------------------- MODULE Scale --------------------------------
(* Files of any size.  A file is a sequence of blocks; a block is a frame that is repeated, and a frame is a sequence of
   runs of rows that hold the same value.  What is asked of a file (its rows, how many hold a value and which are the
   first and the last of them, its frames, how they are put together under a limit, the runs of equal values in each) is
   computed from the runs; for small sizes it is checked to be what the rows themselves say, so that it can be relied on
   for sizes at which counters, buffers and tables of the implementation come to their limits.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Lengths, Reps, Values, Limits, MaxBlocks, MaxRuns, MaxRows, Small, Sampled, EmitOn

VARIABLES pc, file, limit, change
vars == <<pc, file, limit, change>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
Init == pc = "build" /\ file = <<>> /\ limit = 0 /\ change = [how |-> "none", at |-> 0]

SumN(rs) == LET F[i \in 0..Len(rs)] == IF i = 0 THEN 0 ELSE F[i - 1] + rs[i].n IN F[Len(rs)]
Rows(f) == LET F[i \in 0..Len(f)] == IF i = 0 THEN 0 ELSE F[i - 1] + f[i].rep * SumN(f[i].runs) IN F[Len(f)]
InRuns(rs, v) == LET F[i \in 0..Len(rs)] == IF i = 0 THEN 0 ELSE F[i - 1] + (IF rs[i].v = v THEN rs[i].n ELSE 0) IN F[Len(rs)]
Count(f, v) == LET F[i \in 0..Len(f)] == IF i = 0 THEN 0 ELSE F[i - 1] + f[i].rep * InRuns(f[i].runs, v) IN F[Len(f)]
\* Numbers of the first and last row that hold v (from 1)
Holds(b, v) == \E i \in DOMAIN b.runs : b.runs[i].v = v
First(f, v) == LET i == CHOOSE i \in DOMAIN f : Holds(f[i], v) /\ \A j \in 1..(i - 1) : ~Holds(f[j], v) IN
               LET rs == f[i].runs IN
               LET k == CHOOSE k \in DOMAIN rs : rs[k].v = v /\ \A j \in 1..(k - 1) : rs[j].v # v IN
               Rows(SubSeq(f, 1, i - 1)) + SumN(SubSeq(rs, 1, k - 1)) + 1
LastRow(f, v) == LET i == CHOOSE i \in DOMAIN f : Holds(f[i], v) /\ \A j \in (i + 1)..Len(f) : ~Holds(f[j], v) IN
              LET rs == f[i].runs IN
              LET k == CHOOSE k \in DOMAIN rs : rs[k].v = v /\ \A j \in (k + 1)..Len(rs) : rs[j].v # v IN
              Rows(SubSeq(f, 1, i)) - SumN(SubSeq(rs, k + 1, Len(rs)))
FrameRows(f) == LET F[i \in 0..Len(f)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o [j \in 1..f[i].rep |-> SumN(f[i].runs)] IN F[Len(f)]
\* Frames put together: as many as fit (a limit of 0 is none)
Groups(ns, lim) ==
    LET F[i \in 0..Len(ns)] ==
        IF i = 0 THEN <<>>
        ELSE LET g == F[i - 1] IN
             IF g # <<>> /\ (lim = 0 \/ g[Len(g)] + ns[i] <= lim) THEN [g EXCEPT ![Len(g)] = @ + ns[i]] ELSE Append(g, ns[i])
    IN F[Len(ns)]
\* Runs of equal values within the frames (neighbouring runs of a frame have different values)
Runs(f) == LET F[i \in 0..Len(f)] == IF i = 0 THEN 0 ELSE F[i - 1] + f[i].rep * Len(f[i].runs) IN F[Len(f)]
Same(f, c) == c.how = "none"

Add == /\ pc = "build" /\ Len(file) < MaxBlocks
       /\ \E k \in Pick(1..MaxRuns), r \in Pick(Reps) :
          \E rs \in (IF Sampled THEN {[i \in 1..k |-> [n |-> RandomElement(Lengths), v |-> RandomElement({v \in Values : v % 2 = i % 2})]]}
                     ELSE {s \in [1..k -> [n : Lengths, v : Values]] : \A i \in 1..(k - 1) : s[i].v # s[i + 1].v}) :
             /\ Rows(Append(file, [rep |-> r, runs |-> rs])) <= MaxRows
             /\ file' = Append(file, [rep |-> r, runs |-> rs])
       /\ UNCHANGED <<pc, limit, change>>
\* The file that it is compared with may have one cell changed, or a row less, at one end of a run
Edges == {1, Rows(file)} \cup {First(file, v) : v \in {x \in Values : \E i \in DOMAIN file : Holds(file[i], x)}}
         \cup {LastRow(file, v) : v \in {x \in Values : \E i \in DOMAIN file : Holds(file[i], x)}}
Ready == /\ pc = "build" /\ file # <<>>
         /\ \E l \in Pick({0} \cup {x \in Limits : \A i \in DOMAIN file : SumN(file[i].runs) <= x}),
               h \in Pick({"none", "value", "drop"}) : \E p \in Pick(Edges) :
              limit' = l /\ change' = [how |-> h, at |-> IF h = "none" THEN 0 ELSE p]
         /\ pc' = "done" /\ UNCHANGED file
Next == Add \/ Ready

-----------------------------------------------------------------------------
(* The rows themselves, for small sizes *)
RunRows(rs) == LET F[i \in 0..Len(rs)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o [j \in 1..rs[i].n |-> rs[i].v] IN F[Len(rs)]
FrameList(f) == LET F[i \in 0..Len(f)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o [j \in 1..f[i].rep |-> RunRows(f[i].runs)] IN F[Len(f)]
Flat(fs) == LET F[i \in 0..Len(fs)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o fs[i] IN F[Len(fs)]
Held == {v \in Values : Count(file, v) > 0}
Exact == (Small /\ file # <<>>) =>
    LET fs == FrameList(file) IN LET rows == Flat(fs) IN
    /\ Rows(file) = Len(rows)
    /\ \A v \in Values : Count(file, v) = Cardinality({i \in DOMAIN rows : rows[i] = v})
    /\ \A v \in Held : LET is == {i \in DOMAIN rows : rows[i] = v} IN
            /\ First(file, v) \in is /\ LastRow(file, v) \in is
            /\ \A i \in is : First(file, v) <= i /\ i <= LastRow(file, v)
    /\ Len(FrameRows(file)) = Len(fs) /\ \A i \in DOMAIN fs : FrameRows(file)[i] = Len(fs[i])
    /\ Runs(file) = Cardinality({<<i, j>> \in (DOMAIN fs) \X (1..MaxRows) :
            j <= Len(fs[i]) /\ (j = 1 \/ fs[i][j - 1] # fs[i][j])})
Grouped == (pc = "done") =>
    LET g == Groups(FrameRows(file), limit) IN
    /\ LET F[i \in 0..Len(g)] == IF i = 0 THEN 0 ELSE F[i - 1] + g[i] IN F[Len(g)] = Rows(file)
    /\ limit > 0 => /\ \A i \in DOMAIN g : g[i] <= limit
                    /\ \A i \in 1..(Len(g) - 1) : g[i] + g[i + 1] > limit \/ Len(g) < Len(FrameRows(file))
    /\ limit = 0 => Len(g) = 1
Emit == (EmitOn /\ pc = "done") =>
    PrintT("@@" \o ToJson([file |-> file, rows |-> Rows(file), frames |-> FrameRows(file), limit |-> limit,
                           groups |-> Groups(FrameRows(file), limit), runs |-> Runs(file), change |-> change,
                           vals |-> {[v |-> v, n |-> Count(file, v), first |-> First(file, v), last |-> LastRow(file, v)] : v \in Held}]))
=============================================================================
