-------------------------------- MODULE Sink --------------------------------
(* Writing frames to a destination that may stop accepting bytes.
   A frame is two writes, its header and its data, of U units each (a unit is some number of bytes, at least one, chosen
   when a behaviour is replayed).  A destination accepts room units in all, and step units in one write; what it does
   with a write it cannot take whole depends on its mode: "part" takes what fits, the others take nothing; "once" takes
   what fits of that write and all of any later one.
   Mode = "encode": an encoder is used for several destinations, one after the other.
   Mode = "writer": a row writer with a buffer of cap rows; rows, flush and close reach the destination when the buffer
   is written as a frame.  If that fails the action reports it and the rows of that frame are given up; the writer goes
   on with the rows that follow, which are written if the destination has recovered.                                 *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Mode, U, MaxFrames, MaxRows, MaxActs, MaxCalls, Dests, Modes, Sampled, EmitOn

VARIABLES pc, frames, dest, dest0, part, got, err, calls, buf, written, lost, acts
vars == <<pc, frames, dest, dest0, part, got, err, calls, buf, written, lost, acts>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
Inf == 1000
\* "handle" and "stream" can be any destination; memory and descriptors take what fits
DModes(k) == IF k \in {"stream", "handle"} THEN Modes ELSE {"part"}
Total == 2 * U * MaxFrames
NoDest == [kind |-> "none", room |-> 0, step |-> Inf, mode |-> "part"]
Destinations == {[kind |-> k, room |-> r, step |-> s, mode |-> m] :
                   k \in Dests, r \in 0..Total \cup {Inf}, s \in {1, U - 1, U, Inf}, m \in Modes}
DestOk(d) == d.mode \in DModes(d.kind) /\ ((d.step # Inf \/ d.mode = "once") => d.kind \in {"stream", "handle"} /\ (d.step # Inf => d.room = Inf))

\* "stop": nothing is accepted any more; the unit it stops at
Init == /\ pc = "idle" /\ dest = NoDest /\ dest0 = NoDest /\ part = 0 /\ got = 0 /\ err = FALSE /\ calls = <<>> /\ buf = 0 /\ written = 0 /\ lost = 0
        /\ acts = <<>>
        /\ frames \in 1..MaxFrames           \* encode: frames of the data; writer: rows per frame

-----------------------------------------------------------------------------
Open == /\ pc = "idle"
        /\ IF Mode = "encode" THEN Len(calls) < MaxCalls ELSE acts = <<>> /\ dest = NoDest
        /\ dest' \in Pick({d \in Destinations : DestOk(d)})
        /\ dest0' = dest'
        /\ part' = 0 /\ got' = 0 /\ err' = FALSE /\ written' = 0 /\ lost' = 0
        /\ pc' = (IF Mode = "encode" THEN "write" ELSE "rows")
        /\ UNCHANGED <<frames, calls, buf, acts>>

\* One write of U units
Fits == got + U <= dest.room /\ U <= dest.step
Take == IF Fits THEN U
        ELSE IF ~(dest.mode \in {"part", "once"}) /\ dest.step = Inf THEN 0
        ELSE LET r == dest.room - got IN IF r < dest.step THEN (IF r < U THEN r ELSE U)
                                         ELSE IF dest.step < U THEN dest.step ELSE U
Write(parts, then) ==
    /\ part < parts
    /\ got' = got + Take
    /\ IF Fits THEN part' = part + 1 /\ UNCHANGED err ELSE err' = TRUE /\ part' = parts
    /\ dest' = (IF ~Fits /\ dest.mode = "once" THEN [dest EXCEPT !.room = Inf, !.step = Inf] ELSE dest)
    /\ pc' = (IF part' = parts THEN then ELSE pc)

EncodeWrite == /\ pc = "write" /\ Mode = "encode"
               /\ Write(2 * frames, "return")
               /\ UNCHANGED <<frames, dest0, calls, buf, written, lost, acts>>
Return == /\ pc = "return" /\ Mode = "encode"
          /\ calls' = Append(calls, [d |-> dest0, ok |-> ~err, got |-> got])
          /\ pc' = "idle"
          /\ UNCHANGED <<frames, dest, dest0, part, got, err, buf, written, lost, acts>>

\* The row writer
Act(a) == acts' = Append(acts, [act |-> a, ok |-> TRUE])
Row == /\ pc = "rows" /\ Len(acts) < MaxActs - 1 /\ buf + written + lost < MaxRows
       /\ Act("row") /\ buf' = buf + 1
       /\ IF buf + 1 = frames THEN pc' = "flush" /\ part' = 0 /\ err' = FALSE ELSE UNCHANGED <<pc, part, err>>
       /\ UNCHANGED <<frames, dest, dest0, got, calls, written, lost>>
Flush == /\ pc = "rows"
         /\ \E a \in Pick({"flush", "close"}) :
              /\ Len(acts) < MaxActs - (IF a = "close" THEN 0 ELSE 1)
              /\ Act(a)
              /\ IF buf > 0 THEN pc' = "flush" /\ part' = 0 /\ err' = FALSE
                 ELSE pc' = (IF a = "close" THEN "closed" ELSE "rows") /\ UNCHANGED <<part, err>>
         /\ UNCHANGED <<frames, dest, dest0, got, calls, buf, written, lost>>
WriterWrite == /\ pc = "flush" /\ Write(2, "flushed")
               /\ UNCHANGED <<frames, dest0, calls, buf, written, lost, acts>>
Flushed == /\ pc = "flushed"
           /\ acts' = [acts EXCEPT ![Len(acts)].ok = ~err]
           /\ pc' = (IF acts[Len(acts)].act # "close" THEN "rows" ELSE IF err THEN "failed" ELSE "closed")
           /\ buf' = 0
           /\ IF err THEN lost' = lost + buf /\ UNCHANGED written ELSE written' = written + buf /\ UNCHANGED lost
           /\ UNCHANGED <<frames, dest, dest0, part, got, err, calls>>
Recover == /\ (dest.room # Inf \/ dest.step # Inf)
           /\ pc = "rows" /\ lost > 0 /\ Len(acts) < MaxActs - 1
           /\ dest' = [dest EXCEPT !.room = Inf, !.step = Inf]
           /\ Act("recover")
           /\ UNCHANGED <<pc, frames, dest0, part, got, err, calls, buf, written, lost>>

Next == Open \/ EncodeWrite \/ Return \/ Row \/ Flush \/ WriterWrite \/ Flushed \/ Recover
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Success means that everything was taken; a failure that it could not be
Honest == \A i \in DOMAIN calls : LET c == calls[i] IN
    /\ c.ok <=> c.got = 2 * U * frames
    /\ c.ok <=> (c.d.room >= 2 * U * frames /\ c.d.step >= U)
    /\ c.got <= c.d.room
\* Of the rows appended those not in the destination are in the buffer, unless an error was reported
Reported == Mode = "writer" =>
    /\ pc \in {"closed", "failed"} => buf = 0
    /\ buf + written + lost = Len(SelectSeq(acts, LAMBDA a : a.act = "row"))
    /\ pc \in {"rows", "closed", "failed"} => (lost > 0 <=> \E i \in DOMAIN acts : ~acts[i].ok)
    /\ pc = "failed" => ~acts[Len(acts)].ok
    /\ got <= dest.room
\* A destination is only ever appended to
Grows == [][(pc \in {"write", "flush"}) => got' >= got]_vars

Emit == (EmitOn /\ (IF Mode = "encode" THEN pc = "idle" /\ Len(calls) = MaxCalls ELSE pc \in {"closed", "failed"})) =>
    PrintT("@@" \o ToJson([frames |-> frames, dest |-> dest0, calls |-> calls, acts |-> acts, got |-> got, end |-> pc]))
=============================================================================
