------------------------------- MODULE Order -------------------------------
(* Byte order.  Every frame begins with a number that tells the order of its bytes, and its numbers of more than one
   byte are in that order; the markers of rows are always in network order, text has no order.  Frames of both orders
   may follow each other.
   Here numbers have two bytes of one bit each.  A frame is: a magic byte, the order mark, the number of columns and of
   rows, for every column its kind and its base, and the rows.  Cells of kind "w" are numbers of two bytes, of kind "b"
   offsets of one byte from the base, cells of kind "c" are the base and take no bytes.
   A reader goes through the bytes with no other knowledge than that of the order of the current frame.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxFrames, MaxCols, MaxRows, Jobs, Sampled, EmitOn

VARIABLES pc, job, native, file, bytes, pos, ord, at, cur, got, out
vars == <<pc, job, native, file, bytes, pos, ord, at, cur, got, out>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
Orders == {"L", "B"}
Kinds == {"w", "b", "c"}
Num(v, o) == IF o = "L" THEN <<v % 2, v \div 2>> ELSE <<v \div 2, v % 2>>
Of(b, o) == IF o = "L" THEN b[1] + 2 * b[2] ELSE 2 * b[1] + b[2]
KindByte == [w |-> 5, b |-> 6, c |-> 7]
KindOf(x) == CHOOSE k \in Kinds : KindByte[k] = x
Magic == 9

(* The writer *)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(SubSeq(s, 2, Len(s)))
CellBytes(c, v, o) == CASE c.kind = "w" -> Num(v, o) [] c.kind = "b" -> <<v - c.base>> [] OTHER -> <<>>
RowBytes(cols, r, o) == Num(r.k, "B") \o Cat([i \in 1..(Len(cols) - r.k) |-> CellBytes(cols[r.k + i], r.v[r.k + i], o)])
FrameBytes(f, o) == <<Magic>> \o Num(1, o) \o Num(Len(f.cols), o) \o Num(Len(f.rows), o)
                 \o Cat([i \in DOMAIN f.cols |-> <<KindByte[f.cols[i].kind]>> \o Num(f.cols[i].base, o)])
                 \o Cat([i \in DOMAIN f.rows |-> RowBytes(f.cols, f.rows[i], o)])

\* the leading columns a row may share with the one before
Keep(p, v) == IF p = <<>> THEN 0 ELSE CHOOSE n \in 0..Len(v) : /\ \A i \in 1..n : p[i] = v[i]
                                                              /\ (n < Len(v) => p[n + 1] # v[n + 1])
Cells(c) == CASE c.kind = "w" -> 0..3 [] c.kind = "b" -> {c.base, c.base + 1} [] OTHER -> {c.base}
SomeCols(n) == IF Sampled THEN {[i \in 1..n |-> [kind |-> RandomElement(Kinds), base |-> RandomElement(0..2)]]}
               ELSE [1..n -> [kind : Kinds, base : {1, 2}]]
SomeRow(cols) == IF Sampled THEN {[i \in DOMAIN cols |-> RandomElement(Cells(cols[i]))]}
                 ELSE {v \in [DOMAIN cols -> 0..3] : \A i \in DOMAIN cols : v[i] \in Cells(cols[i])}

NoFrame == [ord |-> "L", cols |-> <<>>, rows |-> <<>>]
Init == /\ pc = "build" /\ job \in Jobs /\ native \in Orders /\ file = <<>> /\ bytes = <<>> /\ pos = 0 /\ ord = "?"
        /\ at = "magic" /\ cur = NoFrame /\ got = <<>> /\ out = <<>>
Last == file[Len(file)]
AddFrame == /\ pc = "build" /\ Len(file) < MaxFrames /\ (file # <<>> => Last.rows # <<>>)
            /\ \E o \in Pick(Orders), n \in Pick(1..MaxCols), like \in Pick(BOOLEAN) :
                 \E c \in (IF like /\ file # <<>> THEN {Last.cols} ELSE SomeCols(n)) :
                    file' = Append(file, [ord |-> o, cols |-> c, rows |-> <<>>])
            /\ UNCHANGED <<pc, job, native, bytes, pos, ord, at, cur, got, out>>
AddRow == /\ pc = "build" /\ file # <<>> /\ Len(Last.rows) < MaxRows
          /\ \E v \in SomeRow(Last.cols) :
               LET p == IF Last.rows = <<>> THEN <<>> ELSE Last.rows[Len(Last.rows)].v IN
               \E k \in Pick(0..Keep(p, v)) :
                  file' = [file EXCEPT ![Len(file)].rows = Append(@, [k |-> k, v |-> v])]
          /\ UNCHANGED <<pc, job, native, bytes, pos, ord, at, cur, got, out>>
Begin == /\ pc = "build" /\ file # <<>> /\ \A i \in DOMAIN file : file[i].rows # <<>>
         /\ (Sampled => Len(file) = MaxFrames \/ RandomElement(1..3) = 1)
         /\ bytes' = Cat([i \in DOMAIN file |-> FrameBytes(file[i], file[i].ord)])
         /\ pc' = "read" /\ UNCHANGED <<job, native, file, pos, ord, at, cur, got, out>>

-----------------------------------------------------------------------------
(* The reader.  at: what comes next; cur: the frame so far, with the numbers of its header *)
B(i) == bytes[pos + i]
N == Of(<<B(1), B(2)>>, ord)
Go(n, next) == pos' = pos + n /\ at' = next
Prev == IF cur.rows = <<>> THEN <<>> ELSE cur.rows[Len(cur.rows)]
RowSize(cols, k) == LET F[i \in k..Len(cols)] == IF i = k THEN 0 ELSE F[i - 1] + (CASE cols[i].kind = "w" -> 2 [] cols[i].kind = "b" -> 1 [] OTHER -> 0)
                    IN F[Len(cols)]
RECURSIVE CellsAt(_, _, _)
CellsAt(cols, k, p) == IF k = Len(cols) THEN <<>>
                       ELSE LET c == cols[k + 1] IN
                            CASE c.kind = "w" -> <<Of(<<bytes[p + 1], bytes[p + 2]>>, ord)>> \o CellsAt(cols, k + 1, p + 2)
                              [] c.kind = "b" -> <<c.base + bytes[p + 1]>> \o CellsAt(cols, k + 1, p + 1)
                              [] OTHER -> <<c.base>> \o CellsAt(cols, k + 1, p)

Step ==
    /\ pc = "read"
    /\ CASE at = "magic" ->
              IF pos = Len(bytes) THEN pc' = "end" /\ UNCHANGED <<pos, at, ord, cur, got>>
              ELSE IF B(1) # Magic THEN pc' = "error" /\ UNCHANGED <<pos, at, ord, cur, got>>
              ELSE Go(1, "mark") /\ UNCHANGED <<pc, ord, cur, got>>
         [] at = "mark" ->
              /\ ord' = (IF Of(<<B(1), B(2)>>, native) = 1 THEN native ELSE IF native = "L" THEN "B" ELSE "L")
              /\ Go(2, "ncols") /\ UNCHANGED <<pc, cur, got>>
         [] at = "ncols" -> Go(2, "nrows") /\ cur' = [n |-> N, m |-> 0, cols |-> <<>>, rows |-> <<>>] /\ UNCHANGED <<pc, ord, got>>
         [] at = "nrows" -> Go(2, "column") /\ cur' = [cur EXCEPT !.m = N] /\ UNCHANGED <<pc, ord, got>>
         [] at = "column" ->
              LET c == [kind |-> KindOf(B(1)), base |-> Of(<<B(2), B(3)>>, ord)] IN
              /\ cur' = [cur EXCEPT !.cols = Append(@, c)]
              /\ Go(3, IF Len(cur.cols) + 1 = cur.n THEN "row" ELSE "column")
              /\ UNCHANGED <<pc, ord, got>>
         [] at = "row" ->
              LET k == Of(<<B(1), B(2)>>, "B")
                  v == SubSeq(Prev, 1, k) \o CellsAt(cur.cols, k, pos + 2)
                  full == Len(cur.rows) + 1 = cur.m
              IN /\ pos' = pos + 2 + RowSize(cur.cols, k)
                 /\ cur' = [cur EXCEPT !.rows = Append(@, v)]
                 /\ at' = IF full THEN "magic" ELSE "row"
                 /\ got' = IF full THEN Append(got, [cols |-> cur'.cols, rows |-> cur'.rows]) ELSE got
                 /\ UNCHANGED <<pc, ord>>
    /\ UNCHANGED <<job, native, file, bytes, out>>

\* What was read is written again, in the native order, with the shortest rows, and read again
Minimal(f) == [cols |-> f.cols, rows |-> [i \in DOMAIN f.rows |->
                 [k |-> IF i = 1 THEN 0 ELSE Keep(f.rows[i - 1], f.rows[i]), v |-> f.rows[i]]]]
Rewrite == /\ pc = "end" /\ job = "rewrite" /\ out = <<>>
           /\ out' = got /\ bytes' = Cat([i \in DOMAIN got |-> FrameBytes(Minimal(got[i]), native)])
           /\ pc' = "read" /\ pos' = 0 /\ at' = "magic" /\ ord' = "?" /\ got' = <<>>
           /\ UNCHANGED <<job, native, file, cur>>

Next == AddFrame \/ AddRow \/ Begin \/ Step \/ Rewrite
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Table == [i \in DOMAIN file |-> [cols |-> file[i].cols, rows |-> [j \in DOMAIN file[i].rows |-> file[i].rows[j].v]]]
NoError == pc # "error"
\* The table read does not depend on the order of any frame, nor on that of the machine
Same == pc = "end" => got = Table
\* Rewriting keeps the table, and leaves no frame in another order than the native one
Rewritten == (pc = "end" /\ out # <<>>) => ord = native /\ got = out
\* While a frame is read its own order is used
Own == (pc = "read" /\ out = <<>> /\ at \in {"column", "row"}) => ord = file[Len(got) + 1].ord

Emit == (EmitOn /\ pc = "end" /\ (job # "rewrite" \/ out # <<>>)) => PrintT("@@" \o ToJson([job |-> job, file |-> file]))
=============================================================================
