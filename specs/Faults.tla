------------------------------- MODULE Faults -------------------------------
(* A stream of NF frames with one fault, read frame by frame.  A frame is a sequence of regions; a reader consumes them
   in order.  Faults: the stream is cut (before, or inside, a region), a byte of a region is changed, or something that
   is not a frame follows the last frame.
   Readers differ in when they notice that the rows of a frame are not all there:
     sized    knows the size of its source and refuses the frame           (path, memory, file: Table::readTable)
     unsized  hands out the frame, and fails when its rows are decoded     (descriptor, stream)
     rows     reads the rows before it hands out the first                 (row iterator)                            *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxFrames, EmitOn

Header == <<"magic", "order", "version", "digest", "hsize", "var">>
Regions == Header \o <<"rows">>
RIdx == 1..7
Modes == {"sized", "unsized", "rows"}

VARIABLES nf, fault, mode, f, r, flipped, delivered, result
vars == <<nf, fault, mode, f, r, flipped, delivered, result>>

NoFault == [kind |-> "none", f |-> 0, r |-> 0, inside |-> FALSE]
Fault(n) == {NoFault, [kind |-> "junk", f |-> n + 1, r |-> 1, inside |-> FALSE]}
            \cup [kind : {"cut"}, f : 1..n, r : RIdx, inside : BOOLEAN]
            \cup [kind : {"flip"}, f : 1..n, r : RIdx, inside : {TRUE}]

Init == /\ nf \in 1..MaxFrames /\ fault \in Fault(nf) /\ mode \in Modes
        /\ f = 1 /\ r = 1 /\ flipped = FALSE /\ delivered = <<>> /\ result = "reading"

\* How much of region i of frame n is there: "all", "some", "none"
Present(n, i) ==
    IF fault.kind = "junk" /\ n = nf + 1 THEN (IF i = 1 THEN "some" ELSE "none")
    ELSE IF n > nf THEN "none"
    ELSE IF fault.kind # "cut" THEN "all"
    ELSE IF n < fault.f \/ (n = fault.f /\ i < fault.r) THEN "all"
    ELSE IF n = fault.f /\ i = fault.r /\ fault.inside THEN "some"
    ELSE "none"

Changed(n, i) == fault.kind = "flip" /\ fault.f = n /\ fault.r = i

Fail == result' = "error" /\ UNCHANGED <<nf, fault, mode, f, r, flipped, delivered>>

\* The end of the stream is only an end where a frame could begin
End == /\ result = "reading" /\ r = 1 /\ Present(f, 1) = "none"
       /\ result' = "end" /\ UNCHANGED <<nf, fault, mode, f, r, flipped, delivered>>

Truncated == result = "reading" /\ r \in 2..6 /\ Present(f, r) # "all" /\ Fail
BadMagic  == result = "reading" /\ r = 1 /\ (Present(f, 1) = "some" \/ (Present(f, 1) = "all" /\ Changed(f, 1))) /\ Fail

ReadHeader ==
    /\ result = "reading" /\ r \in 1..6 /\ Present(f, r) = "all" /\ ~(r = 1 /\ Changed(f, 1))
    /\ IF r = 6 /\ (flipped \/ Changed(f, 6))    \* the checksum covers what the size and order say is the header
       THEN Fail
       ELSE /\ r' = r + 1
            /\ flipped' = (flipped \/ Changed(f, r))
            /\ UNCHANGED <<nf, fault, mode, f, delivered, result>>

\* a change of the order indicator, version, digest or size may also be noticed before the checksum is computed
Early == result = "reading" /\ r \in 3..6 /\ flipped /\ Fail

ReadRows ==
    /\ result = "reading" /\ r = 7
    /\ IF Present(f, 7) = "all"
       THEN /\ delivered' = Append(delivered, IF Changed(f, 7) THEN "changed" ELSE "good")
            /\ f' = f + 1 /\ r' = 1 /\ flipped' = FALSE
            /\ UNCHANGED <<nf, fault, mode, result>>
       ELSE IF mode = "unsized"
            THEN /\ delivered' = Append(delivered, "fails")
                 /\ result' = "error" /\ UNCHANGED <<nf, fault, mode, f, r, flipped>>
            ELSE Fail

Next == End \/ Truncated \/ BadMagic \/ ReadHeader \/ Early \/ ReadRows
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
AtBoundary == fault.kind = "cut" /\ fault.r = 1 /\ ~fault.inside
Done == result # "reading"
\* frames that are completely there, before the fault
Complete == IF fault.kind = "none" \/ fault.kind = "junk" THEN nf
            ELSE IF fault.kind = "flip" /\ fault.r = 7 THEN nf
            ELSE fault.f - 1

ReportedExactly == Done => (result = "end" <=> (fault.kind = "none" \/ AtBoundary \/ (fault.kind = "flip" /\ fault.r = 7)))
NothingLost     == Done => Len(SelectSeq(delivered, LAMBDA d : d # "fails")) = Complete
NoneInvented    == \A i \in 1..Len(delivered) :
                       /\ delivered[i] = "fails" => i = fault.f /\ fault.kind = "cut"
                       /\ delivered[i] = "changed" => i = fault.f /\ fault.kind = "flip" /\ fault.r = 7
Ends == <>(result # "reading")

Emit == (EmitOn /\ Done) => PrintT("@@" \o ToJson(
            [nf |-> nf, fault |-> fault, region |-> IF fault.r = 0 THEN "" ELSE Regions[fault.r], mode |-> mode,
             delivered |-> delivered, result |-> result]))
=============================================================================
