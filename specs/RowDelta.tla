------------------------------ MODULE RowDelta ------------------------------
(* One frame's data section: a sequence of rows, each a marker k (columns 1..k keep the previous row's value) and the
   values of columns k+1..NC.  A writer may use any legal marker.  Three readers of the implementation are modelled:
     - the row iterator, which retains the previous row                       (ReaderIterator)
     - the columnar decoder, which only materialises selected columns and back-fills runs of unchanged values lazily
       (Table::decode), tracking the last start column and the last decoded row per column
     - the span collector, which records the set of values of each column without materialising rows (Table::decodeSpan)
   All of them must agree with the meaning of the wire (Expand).                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NC,       \* number of columns
          MaxRows,
          Vals,     \* cell symbols; "m" is an explicitly encoded missing value
          MinLen,   \* readers only start on wires of at least this length
          Sampled,  \* TRUE: random values (simulation of larger instances)
          EmitOn

Miss == "i"   \* what a column holds before its first encoded value: the missing value of the column
Cols == 1..NC

VARIABLES wire, phase, sel, pos, cur, lastStart, lastDec, mat, seen

vars == <<wire, phase, sel, pos, cur, lastStart, lastDec, mat, seen>>

-----------------------------------------------------------------------------
\* Meaning of a wire: the rows it denotes
RECURSIVE ExpandTo(_, _)
ExpandTo(w, n) ==
    IF n = 0 THEN [c \in Cols |-> Miss]
    ELSE LET prev == ExpandTo(w, n - 1) IN
         [c \in Cols |-> IF c <= w[n].k THEN prev[c] ELSE w[n].v[c - w[n].k]]

Column(w, c) == [n \in 1..Len(w) |-> ExpandTo(w, n)[c]]

-----------------------------------------------------------------------------
Init == /\ wire = <<>> /\ phase = "write" /\ sel = {} /\ pos = 0
        /\ cur = [c \in Cols |-> Miss]
        /\ lastStart = 0 /\ lastDec = [c \in Cols |-> 1]
        /\ mat = [c \in Cols |-> <<>>] /\ seen = [c \in Cols |-> {}]

WriteRow ==
    /\ phase = "write" /\ Len(wire) < MaxRows
    /\ \E k \in 0..NC :
          IF Sampled
          THEN wire' = Append(wire, [k |-> k, v |-> [i \in 1..(NC - k) |-> RandomElement(Vals)]])
          ELSE \E v \in [1..(NC - k) -> Vals] : wire' = Append(wire, [k |-> k, v |-> v])
    /\ UNCHANGED <<phase, sel, pos, cur, lastStart, lastDec, mat, seen>>

\* The reader picks the columns it wants. Before the first row, selected columns hold the missing value.
StartRead ==
    /\ phase = "write" /\ wire # <<>> /\ Len(wire) >= MinLen
    /\ \E s \in (IF Sampled THEN {Cols, {c \in Cols : RandomElement({TRUE, FALSE})}} ELSE SUBSET Cols) :
        /\ sel' = s
        /\ mat' = [c \in Cols |-> IF c \in s THEN [n \in 1..Len(wire) |-> IF n = 1 THEN Miss ELSE "?"] ELSE <<>>]
    /\ phase' = "read"
    \* a column skipped by the first row's marker contributes a missing value to the span
    /\ seen' = [c \in Cols |-> IF c <= wire[1].k THEN {Miss} ELSE {}]
    /\ UNCHANGED <<wire, pos, cur, lastStart, lastDec>>

Fill(col, from, to) == [n \in DOMAIN col |-> IF n > from /\ n <= to THEN col[from] ELSE col[n]]

ReadRow ==
    /\ phase = "read" /\ pos < Len(wire)
    /\ LET r == wire[pos + 1]
           n == pos + 1
           \* runs that end here are back-filled before the new value is decoded
           filled == [c \in Cols |-> IF c \in sel /\ c > r.k /\ c <= lastStart
                                     THEN Fill(mat[c], lastDec[c], n - 1) ELSE mat[c]]
       IN /\ mat' = [c \in Cols |-> IF c \in sel /\ c > r.k
                                    THEN [filled[c] EXCEPT ![n] = r.v[c - r.k]] ELSE filled[c]]
          /\ lastDec' = [c \in Cols |-> IF c \in sel /\ c > r.k THEN n ELSE lastDec[c]]
          /\ lastStart' = r.k
          /\ cur' = [c \in Cols |-> IF c > r.k THEN r.v[c - r.k] ELSE cur[c]]
          /\ seen' = [c \in Cols |-> IF c > r.k THEN seen[c] \cup {r.v[c - r.k]} ELSE seen[c]]
          /\ pos' = n
    /\ UNCHANGED <<wire, phase, sel>>

Finish ==
    /\ phase = "read" /\ pos = Len(wire)
    /\ mat' = [c \in Cols |-> IF c \in sel THEN Fill(mat[c], lastDec[c], Len(wire)) ELSE mat[c]]
    /\ phase' = "done"
    /\ UNCHANGED <<wire, sel, pos, cur, lastStart, lastDec, seen>>

Next == WriteRow \/ StartRead \/ ReadRow \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
IteratorAgrees == phase = "read" /\ pos > 0 => cur = ExpandTo(wire, pos)
DecoderAgrees  == phase = "done" => \A c \in sel : mat[c] = Column(wire, c)
SpanAgrees     == phase = "done" => \A c \in Cols : seen[c] = {Column(wire, c)[n] : n \in 1..Len(wire)}
\* columns not selected are never materialised
Untouched      == \A c \in Cols \ sel : mat[c] = <<>>

Emit == (EmitOn /\ phase = "done" /\ sel = Cols) =>
            PrintT("@@" \o ToJson([wire |-> wire, cols |-> [c \in Cols |-> Column(wire, c)]]))
=============================================================================
