------------------------------ MODULE Writer ------------------------------
(* The row writer.  Rows are collected in a buffer of cap slots and written as one frame when it is full, on flush, on
   redefinition of the widths and on close.  A slot has stride words; a row fills the first of them with the words of
   its cells, one per cell and more for a wide string.  The buffer is allocated with the first row, and given up when
   the rows become wider.
   A file is written in sessions, one after the other; a session truncates the file or appends to it.
   A word is <<row, column, number of the word>>: where it ends up tells whether rows are mixed up.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCols, MaxWidth, MaxRows, MaxActs, MaxSessions, Caps, Sampled, EmitOn

VARIABLES pc, defs, gen, ready, cap, size, stride, mem, props, file, rows, acts, sessions
vars == <<pc, defs, gen, ready, cap, size, stride, mem, props, file, rows, acts, sessions>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
\* a definition of the columns: their widths in words, 0 for a column that is no string
DefSets == UNION {[1..n -> 0..MaxWidth] : n \in 1..MaxCols}
W(d, i) == IF d[i] = 0 THEN 1 ELSE d[i]
RECURSIVE Sum(_, _)
Sum(d, n) == IF n = 0 THEN 0 ELSE W(d, n) + Sum(d, n - 1)
Width(d) == Sum(d, Len(d))
Words(r, d) == [k \in 1..Width(d) |->
                  LET i == CHOOSE j \in 1..Len(d) : Sum(d, j - 1) < k /\ k <= Sum(d, j) IN <<r, i, k - Sum(d, i - 1)>>]
Junk == <<0, 0, 0>>

Init == /\ pc = "closed" /\ defs = <<>> /\ gen = 0 /\ ready = FALSE /\ cap = 1 /\ size = 1 /\ stride = 0 /\ mem = <<>> /\ props = 0
        /\ file = <<>> /\ rows = <<>> /\ acts = <<>> /\ sessions = 0

Act(a, x) == acts' = Append(acts, [act |-> a, arg |-> x])
Last == Len(acts) = MaxActs - 1      \* only closing is left

Open == /\ pc = "closed" /\ sessions < MaxSessions /\ ~Last
        /\ \E app \in Pick(IF sessions = 0 THEN {FALSE} ELSE BOOLEAN), c \in Pick(Caps) :
             /\ Act("open", [append |-> app, cap |-> c])
             /\ cap' = c /\ size' = c
             /\ file' = (IF app THEN file ELSE <<>>)
             /\ rows' = (IF app THEN rows ELSE <<>>)
        /\ sessions' = sessions + 1
        /\ pc' = "open" /\ defs' = <<>> /\ ready' = FALSE /\ stride' = 0 /\ mem' = <<>> /\ props' = 0
        /\ UNCHANGED gen

\* (Re)defining the columns, when no rows are waiting
Define == /\ pc = "open" /\ ~Last /\ mem = <<>>
          /\ \E d \in Pick(DefSets) :
               /\ defs' = d
               /\ Act("define", d)
          /\ gen' = gen + 1
          /\ ready' = FALSE
          /\ UNCHANGED <<pc, cap, size, stride, mem, props, file, rows, sessions>>
\* A name that is in use is refused; the columns have to be defined again
Repeat == /\ pc = "open" /\ ~Last /\ mem = <<>> /\ Len(defs) > 1
          /\ Act("repeat", 0)
          /\ defs' = <<>> /\ ready' = FALSE
          /\ UNCHANGED <<pc, gen, cap, size, stride, mem, props, file, rows, sessions>>

Flushed == IF mem = <<>> THEN file
           ELSE Append(file, [gen |-> gen, defs |-> defs, props |-> props,
                              rows |-> [i \in 1..(Len(mem) \div stride) |-> SubSeq(mem, (i - 1) * stride + 1, (i - 1) * stride + Width(defs))]])

\* The header can be written again at any time; it writes the rows that are waiting
Header == /\ pc = "open" /\ ~Last /\ defs # <<>>
          /\ Act("header", 0)
          /\ file' = Flushed /\ mem' = <<>>
          /\ stride' = (IF stride < Width(defs) THEN 0 ELSE stride)
          /\ ready' = TRUE
          /\ UNCHANGED <<pc, defs, gen, cap, size, props, rows, sessions>>

Row == /\ pc = "open" /\ ~Last /\ ready /\ Len(rows) < MaxRows
       /\ Act("row", 0)
       /\ rows' = Append(rows, [gen |-> gen, defs |-> defs])
       /\ LET s == IF stride = 0 THEN Width(defs) ELSE stride
              c == IF stride = 0 THEN size ELSE cap
              m == mem \o Words(Len(rows'), defs) \o [k \in 1..(s - Width(defs)) |-> Junk]
              full == Len(m) = c * s
          IN /\ stride' = s /\ cap' = c
             /\ mem' = (IF full THEN <<>> ELSE m)
             /\ file' = (IF ~full THEN file
                         ELSE Append(file, [gen |-> gen, defs |-> defs, props |-> props,
                                            rows |-> [i \in 1..c |-> SubSeq(m, (i - 1) * s + 1, (i - 1) * s + Width(defs))]]))
       /\ UNCHANGED <<pc, defs, gen, ready, size, props, sessions>>
\* before the header is written, this is an error
NoRow == /\ pc = "open" /\ ~Last /\ ~ready /\ \A i \in DOMAIN acts : acts[i].act \in {"open", "define", "norow", "repeat"}
         /\ Act("norow", 0)
         /\ UNCHANGED <<pc, defs, gen, ready, cap, size, stride, mem, props, file, rows, sessions>>

Flush == /\ pc = "open" /\ ~Last /\ ready
         /\ Act("flush", 0)
         /\ file' = Flushed /\ mem' = <<>>
         /\ UNCHANGED <<pc, defs, gen, ready, cap, size, stride, props, rows, sessions>>

Resize == /\ pc = "open" /\ ~Last /\ ready
          /\ \E i \in Pick({j \in DOMAIN defs : defs[j] > 0}), w \in Pick(1..MaxWidth) :
               /\ Act("resize", [col |-> i, width |-> w])
               /\ defs' = [defs EXCEPT ![i] = w]
          /\ file' = Flushed /\ mem' = <<>>
          /\ stride' = (IF stride < Width(defs') THEN 0 ELSE stride)
          /\ UNCHANGED <<pc, gen, ready, cap, size, props, rows, sessions>>
\* of a column that is not there: an error, the rows are written all the same
NoResize == /\ pc = "open" /\ ~Last /\ ready
            /\ Act("noresize", 0)
            /\ file' = Flushed /\ mem' = <<>>
            /\ UNCHANGED <<pc, defs, gen, ready, cap, size, stride, props, rows, sessions>>

\* Properties belong to the frames written from then on
Prop == /\ pc = "open" /\ ~Last /\ props < 2
        /\ props' = props + 1
        /\ Act("prop", props')
        /\ UNCHANGED <<pc, defs, gen, ready, cap, size, stride, mem, file, rows, sessions>>

\* The number of rows asked for later is that of the next buffer
Size == /\ pc = "open" /\ ~Last
        /\ \E n \in Pick(Caps) : size' = n /\ Act("bufsize", n)
        /\ UNCHANGED <<pc, defs, gen, ready, cap, stride, mem, props, file, rows, sessions>>

Close == /\ pc = "open" /\ (defs = <<>> \/ ready \/ mem = <<>>)
         /\ \E drop \in Pick(BOOLEAN) : Act("close", drop)
         /\ file' = Flushed /\ mem' = <<>>
         /\ pc' = "closed"
         /\ UNCHANGED <<defs, gen, ready, cap, size, stride, props, rows, sessions>>

Next == Open \/ Define \/ Repeat \/ Header \/ Row \/ NoRow \/ Flush \/ Resize \/ NoResize \/ Prop \/ Size \/ Close
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Concat(SubSeq(s, 1, Len(s) - 1)) \o s[Len(s)]
Written == Concat([f \in DOMAIN file |-> file[f].rows])
Waiting == IF mem = <<>> THEN <<>> ELSE [i \in 1..(Len(mem) \div stride) |-> SubSeq(mem, (i - 1) * stride + 1, (i - 1) * stride + Width(defs))]

\* The rows written and waiting are the rows appended, in order, every word in its place
Exact == LET all == Written \o Waiting IN
    /\ Len(all) = Len(rows)
    /\ \A r \in DOMAIN rows : all[r] = Words(r, rows[r].defs)
\* in frames with the definition their rows were appended under
Frames == \A f \in DOMAIN file :
    /\ Len(file[f].rows) \in 1..6
    /\ \A i \in DOMAIN file[f].rows : LET r == file[f].rows[i][1][1] IN rows[r].gen = file[f].gen /\ rows[r].defs = file[f].defs
NothingLost == pc = "closed" => mem = <<>>
InBuffer == Len(mem) <= cap * stride
\* what has been written stays
Grows == [][(file' # <<>> /\ sessions' = sessions) => SubSeq(file', 1, Len(file)) = file]_vars

Emit == (EmitOn /\ pc = "closed" /\ (sessions = MaxSessions \/ Len(acts) = MaxActs)) =>
    PrintT("@@" \o ToJson([acts |-> acts,
                           frames |-> [f \in DOMAIN file |-> [gen |-> file[f].gen, defs |-> file[f].defs, props |-> file[f].props,
                                                              rows |-> [i \in DOMAIN file[f].rows |-> file[f].rows[i][1][1]]]]]))
=============================================================================
