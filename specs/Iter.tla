-------------------------------- MODULE Iter --------------------------------
(* Iterators over the rows of readers (Shares = TRUE: a copy of an iterator is the same iterator) or over the tables of
   a reader (Shares = FALSE: a copy goes its own way).  Every pass starts at the first element and visits all of them in
   order; what is done with one iterator does not move another.
   files[k] is a sequence of frames, each the number of its rows; an element is a row, or a frame.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Shares, NFiles, MaxReaders, MaxFrames, RowCounts, Ids, MaxSteps, Sampled, EmitOn

VARIABLES pc, files, readers, cursors, its, log, seen
vars == <<pc, files, readers, cursors, its, log, seen>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
Init == /\ pc = "build" /\ files = [k \in 1..NFiles |-> <<>>] /\ readers = <<>> /\ cursors = <<>>
        /\ its = [i \in Ids |-> 0] /\ log = <<>> /\ seen = <<>>

Build == /\ pc = "build"
         /\ \E k \in Pick(1..NFiles) : Len(files[k]) < MaxFrames /\
              \E n \in Pick(RowCounts) : files' = [files EXCEPT ![k] = Append(@, n)]
         /\ UNCHANGED <<pc, readers, cursors, its, log, seen>>
Ready == /\ pc = "build" /\ pc' = "run" /\ UNCHANGED <<files, readers, cursors, its, log, seen>>

\* the elements of a file: <<frame, row>>; frames without rows have no row
Elements(f) ==
    IF ~Shares THEN [i \in DOMAIN f |-> <<i, 0>>]
    ELSE LET E[i \in 0..Len(f)] == IF i = 0 THEN <<>> ELSE E[i - 1] \o [j \in 1..f[i] |-> <<i, j>>] IN E[Len(f)]
At(c) == LET e == Elements(files[c.f]) IN
         IF c.pos > Len(e) THEN [more |-> FALSE, frame |-> 0, row |-> 0]
         ELSE [more |-> TRUE, frame |-> e[c.pos][1], row |-> e[c.pos][2]]

Step(act, i, j, c) == Append(log, [act |-> act, it |-> i, from |-> j, at |-> c])
Live == {i \in Ids : its[i] # 0}

Open == /\ pc = "run" /\ Len(readers) < MaxReaders /\ Len(log) < MaxSteps
        /\ \E k \in Pick(1..NFiles) : /\ readers' = Append(readers, k)
                                      /\ log' = Step("open", k, 0, [more |-> FALSE, frame |-> 0, row |-> 0])
        /\ UNCHANGED <<pc, files, cursors, its, seen>>

Begin == /\ pc = "run" /\ readers # <<>> /\ Len(log) < MaxSteps
         /\ \E r \in Pick(DOMAIN readers), i \in Pick(Ids) :
              LET c == [f |-> readers[r], pos |-> 1] IN
              /\ cursors' = Append(cursors, c)
              /\ seen' = Append(seen, IF At(c).more THEN <<At(c)>> ELSE <<>>)
              /\ its' = [its EXCEPT ![i] = Len(cursors) + 1]
              /\ log' = Step("begin", i, r, At(c))
         /\ UNCHANGED <<pc, files, readers>>

\* A row iterator can be advanced at the end and stays there
CanAdvance(i) == Shares \/ At(cursors[its[i]]).more
Advance == /\ pc = "run" /\ Len(log) < MaxSteps
           /\ \E i \in Pick({x \in Live : CanAdvance(x)}) :
                LET k == its[i] IN
                LET c == IF At(cursors[k]).more THEN [cursors[k] EXCEPT !.pos = @ + 1] ELSE cursors[k] IN
                /\ cursors' = [cursors EXCEPT ![k] = c]
                /\ seen' = [seen EXCEPT ![k] = IF At(c).more THEN Append(@, At(c)) ELSE @]
                /\ log' = Step("next", i, 0, At(c))
           /\ UNCHANGED <<pc, files, readers, its>>

Copy == /\ pc = "run" /\ Len(log) < MaxSteps
        /\ \E j \in Pick(Live), i \in Pick(Ids) :
             /\ i # j
             /\ IF Shares THEN its' = [its EXCEPT ![i] = its[j]] /\ UNCHANGED <<cursors, seen>>
                ELSE /\ cursors' = Append(cursors, cursors[its[j]]) /\ seen' = Append(seen, seen[its[j]])
                     /\ its' = [its EXCEPT ![i] = Len(cursors) + 1]
             /\ log' = Step("copy", i, j, At(cursors[its[j]]))
        /\ UNCHANGED <<pc, files, readers>>

Look == /\ pc = "run" /\ Len(log) < MaxSteps
        /\ \E i \in Pick(Live) : log' = Step("look", i, 0, At(cursors[its[i]]))
        /\ UNCHANGED <<pc, files, readers, cursors, its, seen>>

Drop == /\ pc = "run" /\ Len(log) < MaxSteps
        /\ \E i \in Pick(Live) : its' = [its EXCEPT ![i] = 0] /\ log' = Step("drop", i, 0, [more |-> FALSE, frame |-> 0, row |-> 0])
        /\ UNCHANGED <<pc, files, readers, cursors, seen>>

Next == Build \/ Ready \/ Open \/ Begin \/ Advance \/ Copy \/ Look \/ Drop
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Every pass visits the elements from the first in order
InOrder == \A k \in DOMAIN cursors :
    LET e == Elements(files[cursors[k].f]) IN
    /\ Len(seen[k]) <= Len(e)
    /\ \A n \in DOMAIN seen[k] : seen[k][n] = [more |-> TRUE, frame |-> e[n][1], row |-> e[n][2]]
AllSeen == \A k \in DOMAIN cursors : ~At(cursors[k]).more => Len(seen[k]) = Len(Elements(files[cursors[k].f]))
\* Only the iterator acted upon (and, for rows, its copies) moves
Independent == [][pc = "run" => \A i \in Live : (its'[i] = its[i] /\
    (log'[Len(log')].act = "next" => its[log'[Len(log')].it] # its[i])) => At(cursors'[its'[i]]) = At(cursors[its[i]])]_vars

Emit == (EmitOn /\ pc = "run" /\ Len(log) = MaxSteps) =>
    PrintT("@@" \o ToJson([files |-> files, readers |-> readers, log |-> log]))
=============================================================================
