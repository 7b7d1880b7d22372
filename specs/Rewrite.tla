------------------------------ MODULE Rewrite ------------------------------
(* Tools that rewrite a file.  compact and fixrowsize read row by row and write through a buffer of Buf rows that is
   flushed when it is full, when the definitions of the columns change and at the end; set does the same and replaces
   the values of a column by a constant; mdset copies frame by frame and changes the definition of a column, or the
   value of a column encoded as a constant, in the header only.
   A frame has a signature sig (names, types and widths), a variant def of the definitions that do not take part in the
   signature (bitfields, missing values), and rows; const[c] says that a column is encoded as a constant.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Tools, MaxFrames, MinFrames, MaxRows, Sigs, Defs, Vals, Bufs, Sampled, EmitOn

\* the columns of each signature, in the order of the frame: 1 and 2 have the columns A and B (2 with another type or
\* width of B), 3 only A, 4 has them in the other order
ColsOf(s) == CASE s = 1 -> <<"A", "B">> [] s = 2 -> <<"A", "B">> [] s = 3 -> <<"A">> [] s = 4 -> <<"B", "A">>
Has(s, c) == \E i \in DOMAIN ColsOf(s) : ColsOf(s)[i] = c
All == {"A", "B"}
New == "new"      \* the constant given to set and mdset

VARIABLES tool, buf, arg, file, pc, fr, row, cur, pending, out, seen
vars == <<tool, buf, arg, file, pc, fr, row, cur, pending, out, seen>>

Pick(S) == IF Sampled THEN {RandomElement(S)} ELSE S
None == [sig |-> 0, def |-> 0]
NoArg == [col |-> "", val |-> FALSE, typ |-> FALSE]

Init == /\ tool = "" /\ buf = 0 /\ arg = NoArg /\ file = <<>> /\ pc = "write" /\ fr = 1 /\ row = 1
        /\ cur = None /\ pending = <<>> /\ out = <<>> /\ seen = 0

\* values of the rows; a constant column has one value
RowSets(n, k) == [1..n -> [All -> Vals]]
AddFrame ==
    /\ pc = "write" /\ Len(file) < MaxFrames
    /\ \E s \in Pick(Sigs), d \in Pick(Defs), n \in Pick(0..MaxRows), k \in Pick([All -> BOOLEAN]) :
        \E r \in (IF Sampled THEN {[i \in 1..n |-> [c \in All |-> RandomElement(Vals)]]} ELSE RowSets(n, k)) :
          /\ ~Sampled => \A c \in All : k[c] => \A i \in 1..n : r[i][c] = r[1][c]
          /\ file' = Append(file, [sig |-> s, def |-> d, const |-> k,
                                   rows |-> [i \in 1..n |-> [c \in All |-> IF k[c] THEN r[1][c] ELSE r[i][c]]]])
    /\ UNCHANGED <<tool, buf, arg, pc, fr, row, cur, pending, out, seen>>

Args(t) == CASE t = "compact" -> {NoArg}
             [] t = "set" -> {[col |-> c, val |-> TRUE, typ |-> FALSE] : c \in All}
             [] t = "mdset" -> {[col |-> c, val |-> v, typ |-> y] : c \in All, v \in BOOLEAN, y \in BOOLEAN}

Start ==
    /\ pc = "write" /\ Len(file) >= MinFrames
    /\ \E t \in Pick(Tools) : \E a \in Pick(Args(t)), b \in Pick(Bufs) :
          /\ tool' = t /\ arg' = a /\ buf' = b
          /\ pc' = IF t = "mdset" THEN "frame" ELSE "row"
    /\ UNCHANGED <<file, fr, row, cur, pending, out, seen>>

Upd(r) == IF arg.val THEN [r EXCEPT ![arg.col] = New] ELSE r
Frame(p) == [sig |-> cur.sig, def |-> cur.def, rows |-> p, t |-> FALSE]

\* An iterator skips frames without rows
SkipEmpty ==
    /\ pc = "row" /\ fr <= Len(file) /\ row > Len(file[fr].rows)
    /\ fr' = fr + 1 /\ row' = 1
    /\ UNCHANGED <<tool, buf, arg, file, pc, cur, pending, out, seen>>

Same == cur.sig = file[fr].sig /\ cur.def = file[fr].def

Refuse ==
    /\ pc = "row" /\ fr <= Len(file) /\ row = 1 /\ row <= Len(file[fr].rows)
    /\ tool = "set" /\ ~Has(file[fr].sig, arg.col)
    /\ pc' = "error"
    /\ UNCHANGED <<tool, buf, arg, file, fr, row, cur, pending, out, seen>>

\* Other definitions: what is buffered is written first
Change ==
    /\ pc = "row" /\ fr <= Len(file) /\ row <= Len(file[fr].rows) /\ row = 1 /\ ~Same
    /\ ~(tool = "set" /\ ~Has(file[fr].sig, arg.col))
    /\ out' = IF pending = <<>> THEN out ELSE Append(out, Frame(pending))
    /\ pending' = <<>> /\ cur' = [sig |-> file[fr].sig, def |-> file[fr].def]
    /\ UNCHANGED <<tool, buf, arg, file, pc, fr, row, seen>>

CopyRow ==
    /\ pc = "row" /\ fr <= Len(file) /\ row <= Len(file[fr].rows) /\ Same
    /\ ~(tool = "set" /\ ~Has(file[fr].sig, arg.col))
    /\ LET p == Append(pending, Upd(file[fr].rows[row])) IN
       IF Len(p) = buf THEN out' = Append(out, Frame(p)) /\ pending' = <<>>
       ELSE pending' = p /\ UNCHANGED out
    /\ row' = row + 1 /\ seen' = seen + 1
    /\ UNCHANGED <<tool, buf, arg, file, pc, fr, cur>>

Close ==
    /\ pc = "row" /\ fr > Len(file)
    /\ out' = IF pending = <<>> THEN out ELSE Append(out, Frame(pending))
    /\ pending' = <<>> /\ pc' = "done"
    /\ UNCHANGED <<tool, buf, arg, file, fr, row, cur, seen>>

\* mdset
MdFrame ==
    /\ pc = "frame" /\ fr <= Len(file)
    /\ LET f == file[fr] IN
       IF ~Has(f.sig, arg.col) \/ (arg.val /\ ~f.const[arg.col])
       THEN pc' = "error" /\ UNCHANGED <<out, fr, seen>>
       ELSE /\ out' = Append(out, [sig |-> f.sig, def |-> f.def, rows |-> [i \in DOMAIN f.rows |-> Upd(f.rows[i])],
                                   t |-> arg.typ])
            /\ fr' = fr + 1 /\ seen' = seen + Len(f.rows) /\ UNCHANGED pc
    /\ UNCHANGED <<tool, buf, arg, file, row, cur, pending>>
MdEnd == /\ pc = "frame" /\ fr > Len(file) /\ pc' = "done"
         /\ UNCHANGED <<tool, buf, arg, file, fr, row, cur, pending, out, seen>>

Next == AddFrame \/ Start \/ SkipEmpty \/ Refuse \/ Change \/ CopyRow \/ Close \/ MdFrame \/ MdEnd
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Flat(fs) == LET F[i \in 0..Len(fs)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o
                    [j \in DOMAIN fs[i].rows |-> [sig |-> fs[i].sig, def |-> fs[i].def, r |-> fs[i].rows[j]]]
            IN F[Len(fs)]
Prefix(s, n) == SubSeq(s, 1, n)
Expected == LET f == Flat(file) IN [i \in DOMAIN f |-> [f[i] EXCEPT !.r = Upd(f[i].r)]]

\* The output holds the rows of the input under their own definitions, in order, changed as asked
Preserves == LET o == Flat(out) \o [i \in DOMAIN pending |-> [sig |-> cur.sig, def |-> cur.def, r |-> pending[i]]]
             IN pc # "write" => o = Prefix(Expected, seen)
Complete == pc = "done" => Flat(out) = Expected
Bounded == tool # "mdset" => \A i \in DOMAIN out : Len(out[i].rows) \in 1..buf
\* Frames are as large as possible
Compacted == pc = "done" /\ tool # "mdset" => \A i \in 1..(Len(out) - 1) :
    \/ Len(out[i].rows) = buf
    \/ [out[i] EXCEPT !.rows = <<>>] # [out[i + 1] EXCEPT !.rows = <<>>]
SameFrames == pc = "done" /\ tool = "mdset" => /\ Len(out) = Len(file)
    /\ \A i \in DOMAIN out : Len(out[i].rows) = Len(file[i].rows) /\ out[i].sig = file[i].sig
\* Refused exactly if the column is not there (mdset: or its value is not in the header)
Refused == pc = "error" => \E i \in DOMAIN file : \/ ~Has(file[i].sig, arg.col)
                                                  \/ tool = "mdset" /\ arg.val /\ ~file[i].const[arg.col]
\* Doing it twice changes nothing more
Idempotent == pc = "done" /\ tool # "mdset" => \A i \in DOMAIN out : \A j \in DOMAIN out[i].rows :
    Upd(out[i].rows[j]) = out[i].rows[j]

Emit == (EmitOn /\ pc \in {"done", "error"}) =>
    PrintT("@@" \o ToJson([tool |-> tool, arg |-> arg, buf |-> buf, file |-> file, out |-> out, err |-> pc = "error",
                           n |-> seen]))
=============================================================================
