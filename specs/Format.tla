------------------------------ MODULE Format ------------------------------
(* The published ODB-2 format, as an acceptor of files.  A file is a sequence of frames; a frame is a header that
   describes its columns and the size of its data, and rows that start with a marker: the number of leading columns that
   keep the value of the previous row.
   The trace is the content of a file as read by a reader that is independent of odc, preceded by the table that the
   writer was given.  Cells are numbered per column: 0 is the missing value (and the empty string), -1 is NaN, other
   values are numbered in ascending order.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Trace == ndJsonDeserialize("trace.ndjson")

VARIABLES l,      \* next event
          tab,    \* the table given to the writer: [cols, rows, cuts, props]
          done,   \* rows of the table found in the file so far
          cut,    \* frames of the table found in the file so far
          fr,     \* header of the current frame, or NoFrame
          n,      \* rows of the current frame read so far
          left,   \* bytes of the data section not read yet
          prev    \* previous row of the frame
vars == <<l, tab, done, cut, fr, n, left, prev>>

NoFrame == [cols |-> <<>>, nrows |-> 0, after |-> <<0>>]
NoTable == [cols |-> <<>>, rows |-> <<>>, cuts |-> <<>>, props |-> {}]
TInt == 1  TReal == 2  TString == 3  TBits == 4  TDouble == 5

Width == [constant |-> 0, constant_string |-> 0, long_constant_string |-> 0, constant_or_missing |-> 1,
          real_constant_or_missing |-> 1, int8 |-> 1, int8_missing |-> 1, int16 |-> 2, int16_missing |-> 2, int32 |-> 4,
          long_real |-> 8, short_real |-> 4, short_real2 |-> 4, int8_string |-> 1, int16_string |-> 2, chars |-> 8]
IntCodecs == {"constant", "constant_or_missing", "int8", "int16", "int32", "int8_missing", "int16_missing"}
RealCodecs == {"constant", "real_constant_or_missing", "long_real", "short_real", "short_real2"}
StringCodecs == {"constant_string", "long_constant_string", "int8_string", "int16_string", "chars"}
Codecs(t) == IF t \in {TInt, TBits} THEN IntCodecs ELSE IF t \in {TReal, TDouble} THEN RealCodecs ELSE StringCodecs

SetOf(s) == {s[i] : i \in DOMAIN s}
\* Bytes of the cells of a row that starts at column k + 1, for every k
After(cols) == FoldRight(LAMBDA c, acc : <<acc[1] + Width[c.codec]>> \o acc, cols, <<0>>)

\* What the header says about a column agrees with the rows of the frame
ColumnOK(c, given, cells) ==
    LET vals == cells \ {0, -1} IN
    /\ c.n = given.n /\ c.t = given.t /\ c.bits = given.bits
    /\ c.codec \in Codecs(c.t)
    /\ c.t # TString =>
         /\ (c.hm # 0) = (0 \in cells)                        \* declares missing values exactly if there are any
         /\ (-1 \notin cells /\ vals # {}) =>                   \* minimum and maximum
                /\ c.min \in vals /\ \A v \in vals : c.min <= v
                /\ c.max \in vals /\ \A v \in vals : v <= c.max
    /\ c.codec \in {"constant", "constant_string", "long_constant_string"} => Cardinality(cells) = 1
    /\ c.codec \in {"int8", "int16"} => 0 \notin cells

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]

Init == /\ l = 1 /\ tab = NoTable /\ done = 0 /\ cut = 0 /\ fr = NoFrame /\ n = 0 /\ left = 0 /\ prev = <<>>

Complete == n = fr.nrows /\ left = 0

\* A new file begins: the previous one must have been complete
Table ==
    /\ Is("table") /\ Complete /\ done = Len(tab.rows) /\ cut = Len(tab.cuts)
    /\ tab' = [cols |-> E.cols, rows |-> E.rows, cuts |-> E.cuts, props |-> SetOf(E.props)]
    /\ done' = 0 /\ cut' = 0 /\ fr' = NoFrame /\ n' = 0 /\ left' = 0 /\ prev' = <<>>

Header ==
    /\ Is("frame") /\ Complete /\ cut < Len(tab.cuts)
    /\ E.magic /\ E.md5 /\ E.hl /\ E.version = <<0, 5>> /\ E.prev = 0
    /\ E.nrows = tab.cuts[cut + 1] /\ done + E.nrows <= Len(tab.rows)
    /\ Len(E.cols) = Len(tab.cols)
    /\ \A i \in DOMAIN E.cols : ColumnOK(E.cols[i], tab.cols[i], {tab.rows[done + j][i] : j \in 1..E.nrows})
    /\ {p \in SetOf(E.props) : p[1] # "encoder"} = tab.props /\ Len(E.props) <= Cardinality(tab.props) + 1
    /\ fr' = [cols |-> E.cols, nrows |-> E.nrows, after |-> After(E.cols)] /\ n' = 0 /\ left' = E.ds /\ cut' = cut + 1
    /\ prev' = [i \in 1..Len(E.cols) |-> 0]
    /\ UNCHANGED <<tab, done>>

Row ==
    /\ Is("row") /\ n < fr.nrows
    /\ E.k \in 0..Len(fr.cols) /\ Len(E.c) = Len(fr.cols) - E.k
    /\ left' = left - 2 - fr.after[E.k + 1] /\ left' >= 0
    /\ prev' = [i \in 1..Len(fr.cols) |-> IF i <= E.k THEN prev[i] ELSE E.c[i - E.k]]
    /\ prev' = tab.rows[done + 1]
    /\ n' = n + 1 /\ done' = done + 1
    /\ UNCHANGED <<tab, cut, fr>>

\* End of the file: nothing missing, no byte left over
Eof ==
    /\ Is("eof") /\ Complete /\ E.left = 0 /\ done = Len(tab.rows) /\ cut = Len(tab.cuts)
    /\ UNCHANGED <<tab, done, cut, fr, n, left, prev>>

Next == Table \/ Header \/ Row \/ Eof
Spec == Init /\ [][Next]_vars

NeverTooMany == done <= Len(tab.rows) /\ left >= 0

Progress == TLCSet(1, l - 1)
Accepted == PrintT("@@" \o ToString(TLCGet(1))) /\ TLCGet(1) = Len(Trace)
=============================================================================
