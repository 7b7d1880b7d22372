------------------------------ MODULE Shared ------------------------------
(* Workers, each with its own view (a position) of one shared data handle.  A read takes the lock, moves the handle to
   the worker's position if it is elsewhere, reads, and advances the worker's position.  An operation of the handle is one
   step, so that every interleaving of the operations of different workers is explored.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Workers,      \* numbers from 1
          MaxOps,       \* reads of a worker
          Positions,    \* seek before a read to one of these; -1 (read on) is written as Cont
          Lengths, Size,
          MaxFaults,
          Locked,       \* FALSE: the design without the lock, for which the property must fail
          Sampled, EmitOn

Cont == 99
VARIABLES script, ip, phase, hpos, mpos, got, lock, faults, order
vars == <<script, ip, phase, hpos, mpos, got, lock, faults, order>>

Min(a, b) == IF a < b THEN a ELSE b
Max0(a) == IF a < 0 THEN 0 ELSE a
Ops == [p : Positions \cup {Cont}, n : Lengths]
Pick(S) == IF Sampled THEN {RandomElement(S)} ELSE S

Init == /\ script = [w \in Workers |-> <<>>] /\ ip = [w \in Workers |-> 1] /\ phase = [w \in Workers |-> "idle"]
        /\ hpos = 0 /\ mpos = [w \in Workers |-> 0] /\ got = [w \in Workers |-> <<>>] /\ lock = 0 /\ faults = 0
        /\ order = <<>>

\* A worker decides on its next operation when it gets there
Decide(w) ==
    /\ phase[w] = "idle" /\ ip[w] > Len(script[w]) /\ Len(script[w]) < MaxOps
    /\ \E o \in Pick(Ops) :
        /\ script' = [script EXCEPT ![w] = Append(@, o)]
        /\ mpos' = [mpos EXCEPT ![w] = IF o.p = Cont THEN @ ELSE o.p]
    /\ phase' = [phase EXCEPT ![w] = "wants"]
    /\ UNCHANGED <<ip, hpos, got, lock, faults, order>>

Acquire(w) ==
    /\ phase[w] = "wants"
    /\ Locked => lock = 0
    /\ lock' = w
    /\ phase' = [phase EXCEPT ![w] = IF hpos = mpos[w] THEN "there" ELSE "seek"]
    /\ order' = Append(order, w)
    /\ UNCHANGED <<script, ip, hpos, mpos, got, faults>>

SeekH(w) ==
    /\ phase[w] = "seek"
    /\ hpos' = mpos[w]
    /\ phase' = [phase EXCEPT ![w] = "there"]
    /\ UNCHANGED <<script, ip, mpos, got, lock, faults, order>>

Read(w) ==
    /\ phase[w] = "there"
    /\ LET n == Min(script[w][ip[w]].n, Max0(Size - hpos)) IN
       /\ hpos' = hpos + n
       /\ mpos' = [mpos EXCEPT ![w] = @ + n]
       /\ got' = [got EXCEPT ![w] = Append(@, [s |-> hpos, n |-> n, ok |-> TRUE])]
    /\ ip' = [ip EXCEPT ![w] = @ + 1] /\ phase' = [phase EXCEPT ![w] = "idle"] /\ lock' = 0
    /\ UNCHANGED <<script, faults, order>>

\* The handle fails: the lock is given back, the position is kept and the worker is told
Fail(w) ==
    /\ phase[w] = "there" /\ faults < MaxFaults
    /\ got' = [got EXCEPT ![w] = Append(@, [s |-> hpos, n |-> 0, ok |-> FALSE])]
    /\ faults' = faults + 1
    /\ ip' = [ip EXCEPT ![w] = @ + 1] /\ phase' = [phase EXCEPT ![w] = "idle"] /\ lock' = 0
    /\ UNCHANGED <<script, hpos, mpos, order>>

Next == \E w \in Workers : Decide(w) \/ Acquire(w) \/ SeekH(w) \/ Read(w) \/ Fail(w)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What worker w must get, whatever the others do
PosAt(w) == LET F[i \in 0..MaxOps] ==
                IF i = 0 THEN 0
                ELSE LET o == script[w][i] s == IF o.p = Cont THEN F[i - 1] ELSE o.p IN
                     IF got[w][i].ok THEN s + Min(o.n, Max0(Size - s)) ELSE s
            IN F
StartAt(w, i) == IF script[w][i].p = Cont THEN PosAt(w)[i - 1] ELSE script[w][i].p
OwnBytes == \A w \in Workers : \A i \in DOMAIN got[w] :
    got[w][i].ok => /\ got[w][i].s = StartAt(w, i)
                    /\ got[w][i].n = Min(script[w][i].n, Max0(Size - StartAt(w, i)))
Exclusive == Locked => Cardinality({w \in Workers : phase[w] \in {"seek", "there"}}) <= 1

Done == \A w \in Workers : ip[w] = MaxOps + 1
Emit == (EmitOn /\ Done) => PrintT("@@" \o ToJson([script |-> script, got |-> got, order |-> order]))
=============================================================================
