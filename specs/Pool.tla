------------------------------- MODULE Pool -------------------------------
(* Decoding an aggregated frame with several threads.  The tables of the frame form a queue; a thread takes the next table,
   reads its data through its own view of the handle, and writes the table's rows into its own slice of the target.  A
   thread that fails leaves its loop; the caller waits for all threads and reports a failure if any failed.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, MaxTables, MinTables, Rows, MaxFaults, Sampled, EmitOn

VARIABLES rows, next, tab, phase, buf, cells, faults, result, hist, started
vars == <<rows, next, tab, phase, buf, cells, faults, result, hist, started>>

T == Len(rows)
Off(i) == LET F[j \in 0..T] == IF j = 0 THEN 0 ELSE F[j - 1] + rows[j] IN F[i - 1]
Total == Off(T + 1)
Pick(S) == IF Sampled THEN {RandomElement(S)} ELSE S

Init == /\ rows = <<>> /\ next = 1 /\ tab = [t \in Threads |-> 0] /\ phase = [t \in Threads |-> "take"]
        /\ buf = [t \in Threads |-> 0] /\ cells = <<>> /\ faults = 0 /\ result = "none" /\ hist = <<>> /\ started = FALSE

AddTable == /\ ~started /\ T < MaxTables
            /\ \E n \in Pick(Rows) : rows' = Append(rows, n)
            /\ UNCHANGED <<next, tab, phase, buf, cells, faults, result, hist, started>>
Start == /\ ~started /\ T >= MinTables
         /\ started' = TRUE /\ cells' = [i \in 1..Total |-> <<0, 0>>]
         /\ UNCHANGED <<rows, next, tab, phase, buf, faults, result, hist>>

Take(t) == /\ started /\ phase[t] = "take"
           /\ IF next <= T
              THEN /\ tab' = [tab EXCEPT ![t] = next] /\ next' = next + 1 /\ phase' = [phase EXCEPT ![t] = "read"]
              ELSE /\ phase' = [phase EXCEPT ![t] = "end"] /\ UNCHANGED <<tab, next>>
           /\ UNCHANGED <<rows, buf, cells, faults, result, hist, started>>

ReadData(t) == /\ phase[t] = "read"
               /\ buf' = [buf EXCEPT ![t] = tab[t]] /\ phase' = [phase EXCEPT ![t] = "write"]
               /\ hist' = Append(hist, [t |-> t, ok |-> TRUE])
               /\ UNCHANGED <<rows, next, tab, cells, faults, result, started>>

FailData(t) == /\ phase[t] = "read" /\ faults < MaxFaults
               /\ faults' = faults + 1 /\ phase' = [phase EXCEPT ![t] = "failed"]
               /\ hist' = Append(hist, [t |-> t, ok |-> FALSE])
               /\ UNCHANGED <<rows, next, tab, buf, cells, result, started>>

WriteRows(t) == /\ phase[t] = "write"
                /\ cells' = [i \in 1..Total |-> IF i > Off(tab[t]) /\ i <= Off(tab[t]) + rows[tab[t]]
                                                THEN <<buf[t], i - Off(tab[t])>> ELSE cells[i]]
                /\ phase' = [phase EXCEPT ![t] = "take"]
                /\ UNCHANGED <<rows, next, tab, buf, faults, result, hist, started>>

Join == /\ started /\ result = "none" /\ \A t \in Threads : phase[t] \in {"end", "failed"}
        /\ result' = IF \E t \in Threads : phase[t] = "failed" THEN "error" ELSE "ok"
        /\ UNCHANGED <<rows, next, tab, phase, buf, cells, faults, hist, started>>

Step == \E t \in Threads : Take(t) \/ ReadData(t) \/ FailData(t) \/ WriteRows(t)
Next == AddTable \/ Start \/ Step \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(Step) /\ WF_vars(Join)

-----------------------------------------------------------------------------
Serial == [i \in 1..Total |-> LET k == CHOOSE j \in 1..T : i > Off(j) /\ i <= Off(j) + rows[j] IN <<k, i - Off(k)>>]
OkIsSerial == result = "ok" => cells = Serial
OnlyRight == started => \A i \in 1..Total : cells[i] = <<0, 0>> \/ cells[i] = Serial[i]
ErrorReported == result # "none" => (result = "error" <=> faults > 0)
OneOwner == \A a, b \in Threads : a # b /\ phase[a] \in {"read", "write"} /\ phase[b] \in {"read", "write"} => tab[a] # tab[b]
Terminates == started ~> (result # "none")

Emit == (EmitOn /\ result # "none") =>
    PrintT("@@" \o ToJson([rows |-> rows, threads |-> Cardinality(Threads), hist |-> hist, result |-> result]))
=============================================================================
