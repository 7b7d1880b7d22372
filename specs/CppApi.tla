------------------------------- MODULE CppApi -------------------------------
(* The objects of the C++ interface are values.  Readers give frames; a frame can be copied, moved, assigned, filtered,
   decoded (all of it or into a slice of what the decoder was given), asked for its span and its bytes; it outlives the
   reader that gave it.  Nothing done to one object shows in another, and what fails changes nothing.
   How integers are delivered (longs, or doubles) is a setting that takes effect on what is read from then on; the frames
   there are, and their copies, stay as they are.
   A stream is a sequence of tables [cols, rows, props, from, const]: rows hold values that are small numbers, which the
   test gives a meaning in the type of the column.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Readers, Frames, Spans, Limits, Names, MaxSteps, Ops, Prelude, Sampled, EmitOn

VARIABLES reader, frame, span, longs, log
vars == <<reader, frame, span, longs, log>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
\* Behaviours that are sampled prefer objects that are something
Of(S, good) == IF ~Sampled THEN S ELSE IF good # {} /\ RandomElement(1..5) # 1 THEN {RandomElement(good)} ELSE {RandomElement(S)}
Null == [null |-> TRUE, parts |-> <<>>, mem |-> FALSE, longs |-> TRUE]
NoReader == [open |-> FALSE, s |-> 1, agg |-> FALSE, lim |-> 0, at |-> 0, longs |-> TRUE]
NoSpan == [has |-> FALSE, vals |-> <<>>, from |-> <<>>, mem |-> FALSE]

Ord(c) == CASE c = "a" -> 1 [] c = "b" -> 2 [] c = "s" -> 4 [] OTHER -> 0
\* The value in column c and row r of table k
V(k, c, r, const) == IF c \in const THEN k % 2 ELSE (k + ((r * Ord(c)) \div 2)) % 3
T(k, st, i, cols, n, props, const) ==
    [cols |-> cols, rows |-> [r \in 1..n |-> [j \in 1..Len(cols) |-> V(k, cols[j], r, const)]],
     props |-> props, from |-> <<st, i>>, const |-> const]
Streams == << <<T(1, 1, 1, <<"a", "b", "s">>, 2, {"p"}, {"b"}), T(2, 1, 2, <<"a", "b", "s">>, 1, {"p", "q"}, {"b", "s"}),
                T(3, 1, 3, <<"s", "a">>, 3, {}, {}), T(4, 1, 4, <<"s", "a">>, 2, {"q"}, {"s"}),
                T(5, 1, 5, <<"a", "b", "s">>, 2, {"p"}, {})>>,
              <<T(6, 2, 1, <<"b">>, 3, {"q"}, {}), T(7, 2, 2, <<"b">>, 2, {"p"}, {"b"}), T(8, 2, 3, <<"b">>, 1, {}, {})>>,
              <<>>,
              <<T(9, 4, 1, <<"a", "s">>, 2, {}, {"s"}), T(10, 4, 2, <<"a", "s">>, 2, {"q"}, {}), T(11, 4, 3, <<"a", "s">>, 1, {}, {})>> >>

Init0 == /\ reader = [r \in Readers |-> NoReader] /\ frame = [f \in Frames |-> Null] /\ span = [x \in Spans |-> NoSpan]
         /\ longs = TRUE /\ log = <<>>
L(fn, args, rc, val) == [fn |-> fn, args |-> args, rc |-> rc, val |-> val]
Log(fn, args, rc, val) == log' = Append(log, L(fn, args, rc, val))

SumRows(p) == LET F[i \in 0..Len(p)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(p[i].rows) IN F[Len(p)]
AllRows(p) == LET F[i \in 0..Len(p)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o p[i].rows IN F[Len(p)]
Props(p) == UNION {{<<k, CHOOSE i \in DOMAIN p : k \in p[i].props /\ \A j \in 1..(i - 1) : k \notin p[j].props>> : k \in p[m].props} : m \in DOMAIN p}
Cols(p) == p[1].cols
HasCol(p, c) == \E j \in DOMAIN Cols(p) : Cols(p)[j] = c
Pos(p, c) == CHOOSE j \in DOMAIN Cols(p) : Cols(p)[j] = c
Sel(p, cs) == [i \in DOMAIN cs |-> Pos(p, cs[i])]
Range(s) == {s[i] : i \in DOMAIN s}

\* The table (if any) that a reader is going to give, and the frames it puts together
LastOf(rd, i) ==
    LET st == Streams[rd.s]
        Fits(j) == /\ st[j].cols = st[i].cols
                   /\ rd.lim = 0 \/ SumRows(SubSeq(st, i, j)) <= rd.lim
        G[j \in i..Len(st)] == IF j < Len(st) /\ Fits(j + 1) THEN G[j + 1] ELSE j
    IN IF rd.agg THEN G[i] ELSE i

Open(r) == \E s \in Pick(DOMAIN Streams), agg \in Pick(BOOLEAN), lim \in Pick(Limits) :
    /\ (~agg) => lim = 0
    /\ reader' = [reader EXCEPT ![r] = [open |-> TRUE, s |-> s, agg |-> agg, lim |-> lim, at |-> 0, longs |-> longs]]
    /\ Log("open", <<r, s, agg, lim>>, 0, <<>>) /\ UNCHANGED <<frame, span>>
Drop(r) == /\ reader[r].open
           /\ reader' = [reader EXCEPT ![r] = NoReader] /\ Log("drop", <<r>>, 0, <<>>) /\ UNCHANGED <<frame, span>>
NextFrame(r, f) ==
    LET rd == reader[r] IN
    /\ rd.open /\ rd.longs = longs /\ UNCHANGED span
    /\ LET i == rd.at + 1 IN
       IF i > Len(Streams[rd.s])
       THEN frame' = [frame EXCEPT ![f] = Null] /\ Log("next", <<r, f>>, 1, <<>>) /\ UNCHANGED reader
       ELSE LET j == LastOf(rd, i) IN
            IF rd.lim > 0 /\ SumRows(SubSeq(Streams[rd.s], i, j)) > rd.lim
            THEN Log("next", <<r, f>>, 2, <<>>) /\ UNCHANGED <<reader, frame>>
            ELSE /\ frame' = [frame EXCEPT ![f] = [null |-> FALSE, parts |-> SubSeq(Streams[rd.s], i, j), mem |-> FALSE, longs |-> longs]]
                 /\ reader' = [reader EXCEPT ![r].at = j] /\ Log("next", <<r, f>>, 0, <<>>)

Copy(how, f, g) == /\ how = "new" => f # g
                   /\ frame' = [frame EXCEPT ![g] = frame[f]]
                   /\ Log("copy", <<how, f, g>>, 0, <<>>) /\ UNCHANGED <<reader, span>>
Move(how, f, g) == /\ f # g
                   /\ frame' = [frame EXCEPT ![g] = frame[f], ![f] = Null]
                   /\ Log("move", <<how, f, g>>, 0, <<>>) /\ UNCHANGED <<reader, span>>
Clear(f) == /\ frame' = [frame EXCEPT ![f] = Null] /\ Log("clear", <<f>>, 0, <<>>) /\ UNCHANGED <<reader, span>>

\* What a frame says of itself
Info(f) == /\ IF frame[f].null THEN Log("info", <<f>>, 2, <<>>)
              ELSE LET p == frame[f].parts IN
                   Log("info", <<f>>, 0, [rows |-> SumRows(p), cols |-> Cols(p), props |-> {<<x[1], p[x[2]].from>> : x \in Props(p)},
                                          from |-> [i \in DOMAIN p |-> p[i].from], mem |-> frame[f].mem])
           /\ UNCHANGED <<reader, frame, span>>
Bytes(f) == /\ IF frame[f].null THEN Log("bytes", <<f>>, 2, <<>>)
               ELSE LET p == frame[f].parts IN
                    Log("bytes", <<f>>, 0, [from |-> [i \in DOMAIN p |-> p[i].from], cols |-> Cols(p), rows |-> AllRows(p)])
            /\ UNCHANGED <<reader, frame, span>>

AName(k) == IF ~Sampled THEN Names ELSE IF RandomElement(1..6) # 1 THEN {RandomElement(Names \ {"z"})} ELSE {RandomElement(Names)}
Lists == {<<>>} \cup {<<c>> : c \in Names} \cup {<<c, d>> : c \in Names, d \in Names} \cup
         (IF Sampled THEN {<<c, d, e>> : c \in Names, d \in Names, e \in Names} ELSE {<<"a", "b", "s">>})
GoodLists == {l \in Lists : Cardinality({l[i] : i \in DOMAIN l}) = Len(l) /\ \A i \in DOMAIN l : l[i] # "z"}
AList(k) == Of(Lists, GoodLists)
\* An SQL filter gives a frame of its own; with nothing to do (no text) it copies
Filter(f, g) ==
    \E cs \in AList(Len(log)), w \in AName(Len(log)), v \in Pick(0..3), how \in Pick({"copy", "all", "cols", "where"}) :
    LET p == frame[f].parts
        ok == /\ ~frame[f].null
              /\ how \in {"cols", "where"} => \A c \in Range(cs) : HasCol(p, c)
              /\ how = "where" => HasCol(p, w)
        dst == IF how = "all" THEN Cols(p) ELSE cs
        sel == SelectSeq(AllRows(p), LAMBDA row : how = "where" => row[Pos(p, w)] = v)
        out == [k \in DOMAIN sel |-> [j \in DOMAIN dst |-> sel[k][Pos(p, dst[j])]]]
        made == CASE how = "copy" -> p
                  [] OTHER -> << [cols |-> dst, rows |-> out, props |-> {}, from |-> <<0, 0>>, const |-> {}] >>
    IN /\ how \in {"cols", "where"} => (cs # <<>> /\ Cardinality(Range(cs)) = Len(cs))
       /\ IF ~ok THEN Log("filter", <<f, g, how, cs, w, v>>, 2, <<>>) /\ UNCHANGED frame
          ELSE /\ frame' = [frame EXCEPT ![g] = IF how # "copy" /\ sel = <<>> THEN Null ELSE [null |-> FALSE, parts |-> made, mem |-> TRUE, longs |-> longs]]
               /\ Log("filter", <<f, g, how, cs, w, v>>, 0, <<IF how # "copy" /\ sel = <<>> THEN 1 ELSE 0>>)
       /\ UNCHANGED <<reader, span>>

\* Spans.  Values only are compared
SpanVals(p, cs) == [i \in DOMAIN cs |-> <<cs[i], {AllRows(p)[r][Pos(p, cs[i])] : r \in DOMAIN AllRows(p)}>>]
Canon(cs) == Cardinality(Range(cs)) = Len(cs)
SpanOf(f, x) ==
    \E cs \in (IF Sampled /\ RandomElement(1..3) # 1 THEN {RandomElement({<<"a">>, <<"b">>, <<"s">>, <<"s", "a">>})} ELSE AList(Len(log))), only \in Pick(BOOLEAN) :
    LET p == frame[f].parts
        ok == /\ ~frame[f].null /\ \A c \in Range(cs) : HasCol(p, c)
              /\ only => \A i \in DOMAIN p, c \in Range(cs) : c \in p[i].const
    IN /\ Canon(cs)
       /\ only => frame[f].null \/ \A i \in DOMAIN p : p[i].from # <<0, 0>>
       /\ IF ~ok THEN Log("span", <<f, x, cs, only>>, 2, <<>>) /\ UNCHANGED span
          ELSE /\ span' = [span EXCEPT ![x] = [has |-> TRUE, vals |-> SpanVals(p, cs), from |-> [i \in DOMAIN p |-> p[i].from], mem |-> frame[f].mem]]
               /\ Log("span", <<f, x, cs, only>>, 0, span'[x])
       /\ UNCHANGED <<reader, frame>>
\* (spans that differ in the values of one column, or in nothing)
SpanAny(f, x) ==
    LET p == frame[f].parts IN
    /\ ~frame[f].null
    /\ \E cs \in {<<Cols(p)[1]>>, <<Cols(p)[Len(Cols(p))]>>, Cols(p)} :
          /\ span' = [span EXCEPT ![x] = [has |-> TRUE, vals |-> SpanVals(p, cs), from |-> [i \in DOMAIN p |-> p[i].from], mem |-> frame[f].mem]]
          /\ Log("span", <<f, x, cs, FALSE>>, 0, span'[x])
    /\ UNCHANGED <<reader, frame>>
MoveSpan(how, x, y) == /\ x # y /\ span[x].has
                       /\ span' = [span EXCEPT ![y] = span[x], ![x] = NoSpan]
                       /\ Log("movespan", <<how, x, y>>, 0, span[x]) /\ UNCHANGED <<reader, frame>>
SameSpan(x, y) == /\ span[x].has /\ span[y].has
                  /\ Log("same", <<x, y>>, 0, <<IF Range(span[x].vals) = Range(span[y].vals) THEN 1 ELSE 0>>)
                  /\ UNCHANGED <<reader, frame, span>>
\* The typed values of one column; only a column of that kind has them
Kind(c) == CASE c = "a" -> "int" [] c = "b" -> "dbl" [] c = "s" -> "str" [] OTHER -> "none"
Values(x) == \E c \in AName(Len(log)), k \in Pick({"int", "dbl", "str"}) :
    /\ span[x].has
    /\ LET is == {i \in DOMAIN span[x].vals : span[x].vals[i][1] = c} IN
       IF is = {} \/ Kind(c) # k THEN Log("values", <<x, c, k>>, 2, <<>>)
       ELSE Log("values", <<x, c, k>>, 0, span[x].vals[CHOOSE i \in is : TRUE][2])
    /\ UNCHANGED <<reader, frame, span>>

\* Decoding into rows off+1..off+m of what the decoder has (n rows), taken as a slice, or as a slice of a slice (pre
\* rows before it); cells beyond the rows of the frame stay as they were, whether it succeeds or fails
Decode(f) ==
    \E cs \in AList(Len(log)), n \in Pick({0, 3, 6, 9}), off \in Pick(0..3), m \in Pick(0..7), pre \in Pick({-1, 0, 1}), th \in Pick({0, 1, 2, 5}) :
    LET p == frame[f].parts
        ok == /\ ~frame[f].null
              /\ th > 0 /\ Canon(cs) /\ \A c \in Range(cs) : HasCol(p, c)
              /\ \/ cs = <<>>     \* no columns have any number of rows
                 \/ ((pre >= 0) => pre <= off) /\ off + m <= n /\ SumRows(p) <= m
    IN /\ IF ~ok THEN Log("decode", <<f, cs, n, off, m, pre, th, frame[f].longs>>, 2, <<>>)
          ELSE Log("decode", <<f, cs, n, off, m, pre, th, frame[f].longs>>, 0,
                   [r \in DOMAIN AllRows(p) |-> [j \in DOMAIN cs |-> AllRows(p)[r][Pos(p, cs[j])]]])
       /\ UNCHANGED <<reader, frame, span>>

Ints == /\ longs' = ~longs /\ Log("ints", <<longs'>>, 0, <<>>) /\ UNCHANGED <<reader, frame, span>>

InitNext == \E s \in DOMAIN Streams, agg \in BOOLEAN :
    LET rd == [open |-> TRUE, s |-> s, agg |-> agg, lim |-> 0, at |-> 0, longs |-> TRUE] IN
    /\ s # 3
    /\ reader = [r \in Readers |-> IF r = "r" THEN [rd EXCEPT !.at = LastOf(rd, 1)] ELSE NoReader]
    /\ frame = [f \in Frames |-> IF f = "f" THEN [null |-> FALSE, parts |-> SubSeq(Streams[s], 1, LastOf(rd, 1)), mem |-> FALSE, longs |-> TRUE] ELSE Null]
    /\ span = [x \in Spans |-> NoSpan] /\ longs = TRUE
    /\ log = <<L("open", <<"r", s, agg, 0>>, 0, <<>>), L("next", <<"r", "f">>, 0, <<>>)>>
Init == IF Prelude THEN InitNext ELSE Init0

AFrame == Of(Frames, {f \in Frames : ~frame[f].null})
ASpan == Of(Spans, {x \in Spans : span[x].has})
AReader == Of(Readers, {r \in Readers : reader[r].open})
Has(o) == \E x \in Ops : x = o
RandomDrop(k) == Sampled => RandomElement(1..2) = 1
Step0 ==
    \/ Has("read") /\ \E r \in Pick(Readers) : Open(r) \/ (RandomDrop(Len(log)) /\ Drop(r))
    \/ Has("next") /\ \E r \in AReader, f \in Pick(Frames) : NextFrame(r, f)
    \/ Has("move") /\ \E f \in AFrame, g \in Pick(Frames), how \in Pick({"new", "assign"}) : Copy(how, f, g) \/ Move(how, f, g)
    \/ Has("move") /\ \E f \in Pick(Frames) : RandomDrop(Len(log)) /\ Clear(f)
    \/ Has("ask") /\ \E f \in AFrame : Info(f) \/ Bytes(f)
    \/ Has("filter") /\ \E f \in AFrame, g \in Pick(Frames) : Filter(f, g)
    \/ Has("span") /\ \E f \in AFrame, x \in Pick(Spans) : SpanOf(f, x)
    \/ Has("span") /\ \E x \in ASpan, y \in Pick(Spans), how \in Pick({"new", "assign"}) : MoveSpan(how, x, y)
    \/ Has("span") /\ \E x \in Spans, y \in Spans : (Sampled => x # y) /\ SameSpan(x, y)
    \/ Has("span") /\ \E x \in ASpan : Values(x)
    \/ Has("same") /\ \E f \in AFrame, x \in Spans : SpanAny(f, x)
    \/ Has("same") /\ \E x \in Spans, y \in Spans : x # y /\ SameSpan(x, y)
    \/ Has("decode") /\ \E f \in AFrame : Decode(f)
Step ==
    \/ Has("ints") /\ RandomDrop(Len(log)) /\ Ints
    \/ UNCHANGED longs /\ Step0
Next == Len(log) < MaxSteps /\ Step

-----------------------------------------------------------------------------
Last == log'[Len(log')]
Names_(a) == {a[i] : i \in DOMAIN a}
\* What is not named in a call does not change; what fails changes nothing
Named(slot) == \E i \in DOMAIN Last.args : Last.args[i] = slot
Targets == CASE Last.fn \in {"open", "drop"} -> {Last.args[1]}
             [] Last.fn = "next" -> {Last.args[1], Last.args[2]}
             [] Last.fn \in {"copy", "movespan"} -> {Last.args[2], Last.args[3]}
             [] Last.fn = "move" -> {Last.args[2], Last.args[3]}
             [] Last.fn = "clear" -> {Last.args[1]}
             [] Last.fn \in {"filter", "span"} -> {Last.args[2]}
             [] OTHER -> {}
Independent == [][/\ \A r \in Readers : reader'[r] # reader[r] => r \in Targets
                  /\ \A f \in Frames : frame'[f] # frame[f] => f \in Targets
                  /\ \A x \in Spans : span'[x] # span[x] => x \in Targets]_vars
Failed == [][Last.rc = 2 => UNCHANGED <<reader, frame, span, longs>>]_vars
\* Setting how integers are delivered does not change what there is
Stay == [][Last.fn = "ints" => UNCHANGED <<reader, frame, span>>]_vars
CopyKeeps == [][Last.fn = "copy" => frame'[Last.args[2]] = frame[Last.args[2]]]_vars
MoveTakes == [][Last.fn = "move" => /\ frame'[Last.args[2]].null
                                    /\ frame'[Last.args[3]] = frame[Last.args[2]]]_vars
\* A filter neither invents rows nor values
FilterSub == [][(Last.fn = "filter" /\ Last.rc = 0) =>
                  LET q == frame'[Last.args[2]].parts IN SumRows(q) <= SumRows(frame[Last.args[1]].parts)]_vars
Shape == /\ \A f \in Frames : frame[f].null <=> frame[f].parts = <<>>
         /\ \A f \in Frames : \A i \in DOMAIN frame[f].parts : frame[f].parts[i].cols = Cols(frame[f].parts)

Emit == (EmitOn /\ Len(log) = MaxSteps) => PrintT("@@" \o ToJson([log |-> log, streams |-> Streams]))
=============================================================================
