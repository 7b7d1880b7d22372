------------------------------- MODULE Import -------------------------------
(* The import of a text: a header with the types of the columns, and lines of values.  The reader is a line ahead of
   the rows it hands on.  Its description of the columns changes as it goes: a string column becomes as wide as the
   widest string so far, and a column is known to have missing values from the first one on.  Whoever takes its rows
   is told when the description has changed; the writer then begins another frame.  Rows a query does not select are
   not written, but the changes they bring are not forgotten.
   A line with a value that is none of its column's, with no value at all where there should be one, or with too many
   or too few of them ends the import with an error.  Blank lines mean nothing.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCols, MaxLines, Buffer, Queries, Sampled, EmitOn

VARIABLES pc, cols, text, q, nextLine, wid, miss, fresh, row, pend, frames
vars == <<pc, cols, text, q, nextLine, wid, miss, fresh, row, pend, frames>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S

\* N: numbers, S: strings.  s1, s2 and s3 are strings of as many words, e is the empty one
Syms(ty) == IF ty = "N" THEN {"a", "b", "null", "bad"} ELSE {"s1", "s2", "s3", "e", "null"}
Words(v) == CASE v = "s2" -> 2 [] v = "s3" -> 3 [] OTHER -> 1
Plain == {"row", "tail"}                  \* tail: with a delimiter after the last value
Broken == {"short", "long", "hole"}       \* hole: a value is left empty
Fields(c) == [i \in DOMAIN c |-> RandomElement(Syms(c[i]))]
RowsOf(c) == IF Sampled THEN {IF RandomElement(1..6) = 1 THEN Fields(c)
                              ELSE [i \in DOMAIN c |-> RandomElement(Syms(c[i]) \ {"bad"})]}
             ELSE {f \in [DOMAIN c -> UNION {Syms(c[i]) : i \in DOMAIN c}] : \A i \in DOMAIN c : f[i] \in Syms(c[i])}
LinesOf(c) == {[k |-> k, f |-> f] : k \in (IF Sampled THEN {RandomElement({"row", "row", "row", "tail"})} ELSE {"row"}), f \in RowsOf(c)}
SomeLine(c) == IF ~Sampled THEN LinesOf(c) \cup {[k |-> k, f |-> <<>>] : k \in Broken \cup {"blank"}}
               ELSE LET n == RandomElement(1..14)
                    IN IF n = 1 THEN {[k |-> RandomElement(Broken), f |-> f] : f \in RowsOf(c)}
                       ELSE IF n <= 3 THEN {[k |-> "blank", f |-> <<>>]}
                       ELSE LinesOf(c)

NoQuery == [op |-> "all", c |-> 1, out |-> <<>>]
Ops(ty) == {"all", "null", "some", "eq"}
Outs(n) == {[i \in 1..n |-> i], [i \in 1..n |-> n + 1 - i], <<n>>}
QuerySet(c) == IF Queries THEN {[op |-> op, c |-> i, out |-> o] : op \in {"all", "null", "some", "eq"}, i \in DOMAIN c, o \in Outs(Len(c))}
               ELSE {[NoQuery EXCEPT !.out = [i \in DOMAIN c |-> i]]}

Init == /\ pc = "new" /\ cols = <<>> /\ q = NoQuery
        /\ text = <<>> /\ nextLine = 1 /\ row = <<>> /\ fresh = FALSE /\ frames = <<>> /\ pend = <<>>
        /\ wid = <<>> /\ miss = <<>>
Header == /\ pc = "new" /\ pc' = "build"
          /\ \E n \in Pick(1..MaxCols) :
               \E c \in (IF Sampled THEN {[i \in 1..n |-> RandomElement({"N", "S"})]} ELSE [1..n -> {"N", "S"}]) :
                 /\ cols' = c /\ q' \in Pick(QuerySet(c))
                 /\ wid' = [i \in DOMAIN c |-> 1] /\ miss' = [i \in DOMAIN c |-> FALSE]
          /\ UNCHANGED <<text, nextLine, fresh, row, pend, frames>>

AddLine == /\ pc = "build" /\ Len(text) < MaxLines
           /\ \E l \in SomeLine(cols) : text' = Append(text, l)
           /\ UNCHANGED <<pc, cols, q, nextLine, wid, miss, fresh, row, pend, frames>>
Begin == /\ pc = "build"
         /\ (Sampled => Len(text) = MaxLines \/ RandomElement(1..5) = 1)
         /\ pc' = "first" /\ UNCHANGED <<cols, text, q, nextLine, wid, miss, fresh, row, pend, frames>>

-----------------------------------------------------------------------------
(* The reader *)
Wrong(l) == l.k \in Broken \/ (l.k \in Plain /\ \E i \in DOMAIN l.f : l.f[i] = "bad")
Max(a, b) == IF a > b THEN a ELSE b
\* Takes a line; a blank one is passed over
Read(told) ==
    IF nextLine > Len(text) THEN pc' = "end" /\ row' = <<>> /\ UNCHANGED <<nextLine, wid, miss, fresh>>
    ELSE LET l == text[nextLine] IN
         /\ nextLine' = nextLine + 1
         /\ IF l.k = "blank" THEN UNCHANGED <<pc, row, wid, miss, fresh>>
            ELSE IF Wrong(l) THEN pc' = "error" /\ row' = <<>> /\ UNCHANGED <<wid, miss, fresh>>
            ELSE LET w == [i \in DOMAIN cols |-> IF cols[i] = "S" /\ l.f[i] # "null" THEN Max(wid[i], Words(l.f[i])) ELSE wid[i]]
                     m == [i \in DOMAIN cols |-> miss[i] \/ l.f[i] = "null"]
                 IN /\ wid' = w /\ miss' = m /\ row' = l.f /\ pc' = "offer"
                    /\ fresh' = (told \/ fresh \/ w # wid \/ m # miss)

First == pc = "first" /\ Read(TRUE) /\ UNCHANGED <<cols, text, q, pend, frames>>

(* The query *)
Holds(r) == CASE q.op = "all" -> TRUE
              [] q.op = "null" -> r[q.c] = "null"
              [] q.op = "some" -> r[q.c] # "null"
              [] OTHER -> r[q.c] = (IF cols[q.c] = "N" THEN "a" ELSE "s1")
\* what the query sees: a column not known to have missing values has none
Seen(r) == [i \in DOMAIN r |-> IF r[i] = "null" /\ ~miss[i] THEN "raw" ELSE r[i]]

(* The writer: rows wait in a frame described as the reader's columns were when it was begun *)
Put(d, r) == [d EXCEPT !.rows = Append(@, r)]
Desc == [wid |-> [k \in DOMAIN q.out |-> wid[q.out[k]]], miss |-> [k \in DOMAIN q.out |-> miss[q.out[k]]], rows |-> <<>>]
Flush(fs, p) == IF p = <<>> \/ p[1].rows = <<>> THEN fs ELSE Append(fs, p[1])
Write == /\ pc = "offer" /\ row # <<>>
         /\ LET sel == Holds(Seen(row))
                p1 == IF fresh THEN <<Desc>> ELSE pend
                f1 == IF fresh THEN Flush(frames, pend) ELSE frames
                p2 == IF sel THEN <<Put(p1[1], [k \in DOMAIN q.out |-> row[q.out[k]]])>> ELSE p1
                full == Len(p2[1].rows) = Buffer
            IN /\ frames' = IF full THEN Flush(f1, p2) ELSE f1
               /\ pend' = IF full THEN <<[p2[1] EXCEPT !.rows = <<>>]>> ELSE p2
         /\ fresh' = FALSE /\ row' = <<>>
         /\ UNCHANGED <<pc, cols, text, q, nextLine, wid, miss>>
Again == pc = "offer" /\ row = <<>> /\ Read(FALSE) /\ UNCHANGED <<cols, text, q, pend, frames>>
Close == /\ pc = "end" /\ frames' = Flush(frames, pend) /\ pend' = <<>> /\ pc' = "done"
         /\ UNCHANGED <<cols, text, q, nextLine, wid, miss, fresh, row>>

Next == Header \/ AddLine \/ Begin \/ First \/ Write \/ Again \/ Close
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE RowsOfFrames(_)
RowsOfFrames(fs) == IF fs = <<>> THEN <<>> ELSE fs[1].rows \o RowsOfFrames(SubSeq(fs, 2, Len(fs)))
Lines(n) == SelectSeq(SubSeq(text, 1, n), LAMBDA l : l.k \in Plain)
Selected(n) == LET s == SelectSeq(Lines(n), LAMBDA l : Holds(l.f))
               IN [j \in DOMAIN s |-> [k \in DOMAIN q.out |-> s[j].f[q.out[k]]]]
\* the line that ends the import, if any
FirstWrong == LET W == {i \in DOMAIN text : Wrong(text[i])} IN IF W = {} THEN 0 ELSE CHOOSE i \in W : \A j \in W : i <= j

Table == pc = "done" => FirstWrong = 0 /\ RowsOfFrames(frames) = Selected(Len(text))
Refused == pc = "error" => FirstWrong = nextLine - 1
\* whatever is written at any time is a beginning of the table
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Beginning == Prefix(RowsOfFrames(frames), Selected(nextLine - 1))
\* no row is in a frame that cannot hold it
Fits == \A d \in {frames[i] : i \in DOMAIN frames} \cup {pend[i] : i \in DOMAIN pend} :
          \A i \in DOMAIN d.rows : \A k \in DOMAIN q.out :
             /\ (cols[q.out[k]] = "S" => Words(d.rows[i][k]) <= d.wid[k])
             /\ (d.rows[i][k] = "null" => d.miss[k])
Informed == pc = "offer" /\ row # <<>> => \A i \in DOMAIN row : Seen(row)[i] # "raw"

Emit == EmitOn /\ pc \in {"done", "error"} =>
    PrintT("@@" \o ToJson([cols |-> cols, text |-> text, q |-> q, err |-> pc = "error", at |-> FirstWrong,
             rows |-> Selected(IF FirstWrong = 0 THEN Len(text) ELSE FirstWrong - 1)]))
=============================================================================
