------------------------------- MODULE Fortran -------------------------------
(* The Fortran interface (module odc): types with methods of which many take optional arguments.  What a call does
   depends on the objects it names and on the arguments of this call; an argument that is absent has its documented
   default, whatever earlier calls - on this or any other object - were given.  Columns, members and properties are
   counted from 1.  Frames are encoded to Fortran units and read back from the files behind them.
   An optional argument is <<>> (absent) or <<value>>.  Sizes and addresses in the specification are in words of eight
   bytes; arguments in bytes are multiplied by the harness.  A call that fails (rc 2) changes nothing.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Readers, Frames, Decoders, Encoders, Ops, Prelude, MaxFiles, MaxSteps, Sampled, EmitOn

VARIABLES files, unit, reader, frame, dec, enc, missing, log
vars == <<files, unit, reader, frame, dec, enc, missing, log>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Get(o, default) == IF o = <<>> THEN default ELSE o[1]
None == [state |-> "none"]
Max(a, b) == IF a > b THEN a ELSE b
Sum(s, n) == LET F[i \in 0..n] == IF i = 0 THEN 0 ELSE F[i - 1] + s[i] IN F[n]

-----------------------------------------------------------------------------
(* Files there are at the beginning; src tells where the values of a frame come from *)
N(nm) == [name |-> nm, type |-> "int", w |-> 1, bits |-> <<>>]
Str(nm, k) == [name |-> nm, type |-> "str", w |-> k, bits |-> <<>>]
B(nm, b) == [name |-> nm, type |-> "bits", w |-> 1, bits |-> b]
Fr(cols, n, p, k) == [cols |-> cols, n |-> n, props |-> [i \in DOMAIN p |-> <<p[i], k>>], src |-> <<0, k>>]
Base == << <<Fr(<<N("a"), Str("s", 2)>>, 2, <<"p">>, 1), Fr(<<Str("s", 2), N("a")>>, 1, <<"p", "q">>, 2), Fr(<<N("a"), Str("s", 2)>>, 1, <<>>, 3),
             Fr(<<B("c", <<3, 1>>), N("a"), N("b")>>, 2, <<"q">>, 4)>>,
           <<Fr(<<N("a")>>, 1, <<>>, 5), Fr(<<N("a")>>, 2, <<"p">>, 6), Fr(<<N("a")>>, 1, <<"q">>, 7)>>,
           <<Fr(<<Str("s", 1), N("a"), Str("u", 3), N("b")>>, 3, <<"q">>, 8)>> >>

L(fn, args) == [fn |-> fn, args |-> args, rc |-> 0, val |-> <<>>]
NewReader(k) == [state |-> "open", file |-> k, mode |-> "?", lim |-> -1, at |-> 0]
NewFr(r) == [state |-> "made", r |-> r, file |-> 0, g |-> <<>>]
NewDec(cm) == [state |-> "made", cols |-> <<>>, rows |-> 0, cm |-> cm, arr |-> <<>>]
NewEnc == [state |-> "made", cols |-> <<>>, rows |-> 0, auto |-> FALSE, rpf |-> 10000, arr |-> <<>>, props |-> <<>>]
Init0 == /\ files = Base /\ unit = None /\ missing = [int |-> 0, dbl |-> 0]
         /\ reader = [r \in Readers |-> None] /\ frame = [f \in Frames |-> None]
         /\ dec = [d \in Decoders |-> None] /\ enc = [e \in Encoders |-> None] /\ log = <<>>
\* Some of the exploration begins with the objects that are needed for anything
Init == CASE Prelude = "none" -> Init0
          [] Prelude = "frames" ->
               /\ files = Base /\ unit = None /\ missing = [int |-> 0, dbl |-> 0]
               /\ reader = [r \in Readers |-> IF r = "r" THEN NewReader(1) ELSE IF r = "s" THEN NewReader(2) ELSE None]
               /\ frame = [f \in Frames |-> IF f = "f" THEN NewFr("r") ELSE IF f = "g" THEN NewFr("s") ELSE None]
               /\ dec = [d \in Decoders |-> None] /\ enc = [e \in Encoders |-> None]
               /\ log = <<L("open", <<"r", 1>>), L("open", <<"s", 2>>), L("finit", <<"f", "r">>), L("finit", <<"g", "s">>)>>
          [] Prelude = "decoder" ->
               /\ files = Base /\ unit = None /\ missing = [int |-> 0, dbl |-> 0]
               /\ reader = [r \in Readers |-> IF r = "r" THEN [NewReader(3) EXCEPT !.mode = "single", !.at = 1] ELSE None]
               /\ frame = [f \in Frames |-> IF f = "f" THEN [NewFr("r") EXCEPT !.file = 3, !.g = <<1>>] ELSE None]
               /\ dec = [d \in Decoders |-> IF d = "d" THEN NewDec(TRUE) ELSE None] /\ enc = [e \in Encoders |-> None]
               /\ log = <<L("open", <<"r", 3>>), L("finit", <<"f", "r">>), [L("next", <<"f", <<>>, <<>>>>) EXCEPT !.val = <<3>>], L("dinit", <<"d", <<>>>>)>>
          [] OTHER ->
               /\ files = Append(Base, <<>>) /\ unit = [state |-> "open", file |-> Len(Base) + 1, writable |-> TRUE]
               /\ missing = [int |-> 0, dbl |-> 0]
               /\ reader = [r \in Readers |-> None] /\ frame = [f \in Frames |-> None] /\ dec = [d \in Decoders |-> None]
               /\ enc = [e \in Encoders |-> IF e = "e" THEN [NewEnc EXCEPT !.cols = <<[name |-> "s", type |-> "str", bits |-> <<>>, size |-> 2, own |-> <<>>],
                                                                                    [name |-> "a", type |-> "dbl", bits |-> <<>>, size |-> 0, own |-> <<>>]>>]
                                            ELSE None]
               /\ log = <<L("unit", <<"new">>), L("einit", <<"e">>), L("eadd", <<"e", "s", "str">>), L("eadd", <<"e", "a", "dbl">>),
                          L("esize", <<"e", 1, <<>>, <<2>>>>)>>

Room == Len(log) < MaxSteps
Log(fn, args, rc, val) == log' = Append(log, [fn |-> fn, args |-> args, rc |-> rc, val |-> val])
Quiet == UNCHANGED <<files, unit, reader, frame, dec, enc, missing>>
Fails(fn, args) == Log(fn, args, 2, <<>>) /\ Quiet
Made(o) == {x \in DOMAIN o : o[x] # None}
Free(o) == {x \in DOMAIN o : o[x] = None}
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

-----------------------------------------------------------------------------
(* Readers and frames *)
BeingWritten == IF unit = None THEN 0 ELSE unit.file
Open == Room /\ \E r \in Pick(Free(reader)), k \in Pick((0..Len(files)) \ ({BeingWritten} \ {0})) :
          IF k = 0 THEN Fails("open", <<r, 0>>)          \* there is no such file
          ELSE /\ reader' = [reader EXCEPT ![r] = NewReader(k)]
               /\ Log("open", <<r, k>>, 0, <<>>) /\ UNCHANGED <<files, unit, frame, dec, enc, missing>>
Close == Room /\ \E r \in Pick(Made(reader)) :
          /\ reader' = [reader EXCEPT ![r] = None]
          /\ frame' = [f \in Frames |-> IF frame[f] # None /\ frame[f].r = r THEN [frame[f] EXCEPT !.r = "closed"] ELSE frame[f]]
          /\ Log("close", <<r>>, 0, <<>>) /\ UNCHANGED <<files, unit, dec, enc, missing>>
NewFrame == Room /\ \E f \in Pick(Free(frame)), r \in Pick(Made(reader)) :
          /\ frame' = [frame EXCEPT ![f] = NewFr(r)]
          /\ Log("finit", <<f, r>>, 0, <<>>) /\ UNCHANGED <<files, unit, reader, dec, enc, missing>>
FreeFrame == Room /\ \E f \in Pick(Made(frame)) :
          /\ frame' = [frame EXCEPT ![f] = None]
          /\ Log("ffree", <<f>>, 0, <<>>) /\ UNCHANGED <<files, unit, reader, dec, enc, missing>>
Copy == Room /\ \E f \in Pick(Made(frame)), g \in Pick(Free(frame)) :
          /\ frame' = [frame EXCEPT ![g] = frame[f]]
          /\ Log("copy", <<f, g>>, 0, <<>>) /\ UNCHANGED <<files, unit, reader, dec, enc, missing>>

RowsOf(st, a, b) == Sum([i \in 1..Len(st) |-> IF i >= a THEN st[i].n ELSE 0], b)
Key(f) == {<<f.cols[i].name, f.cols[i].type, f.cols[i].w>> : i \in DOMAIN f.cols}
Compatible(x, y) == Len(x.cols) = Len(y.cols) /\ Key(x) = Key(y)
\* the frames of the next step of a reader: <<>> at the end, <<0>> if it cannot be made
Group(st, at, mode, lim) ==
    IF at = Len(st) THEN <<>>
    ELSE IF mode = "single" THEN <<at + 1>>
    ELSE IF lim >= 0 /\ st[at + 1].n > lim THEN <<0>>
    ELSE LET last == CHOOSE b \in (at + 1)..Len(st) :
                        /\ \A i \in (at + 1)..b : Compatible(st[i], st[at + 1])
                        /\ (b > at + 1 => lim < 0 \/ RowsOf(st, at + 1, b) <= lim)
                        /\ \/ b = Len(st) \/ ~Compatible(st[b + 1], st[at + 1])
                           \/ (lim >= 0 /\ RowsOf(st, at + 1, b + 1) > lim)
         IN [i \in 1..(last - at) |-> at + i]

\* How a call of next asks for frames: a limit asks for aggregation unless that is refused, and without either argument
\* there is no aggregation
Asked(agg, lim) == IF Get(agg, lim # <<>>) THEN [mode |-> "agg", lim |-> Get(lim, -1)] ELSE [mode |-> "single", lim |-> -1]
Readable == {f \in Frames : frame[f] # None /\ frame[f].r # "closed"}
NextFrame == Room /\ \E f \in Pick(Readable), agg \in Pick(Opt(BOOLEAN)), lim \in Pick(Opt({-1, 1, 2, 3, 4})) :
    LET r == frame[f].r
        first == reader[r].mode = "?"
        m == IF first THEN Asked(agg, lim) ELSE [mode |-> reader[r].mode, lim |-> reader[r].lim]   \* the first call decides
        g == Group(files[reader[r].file], reader[r].at, m.mode, m.lim)
        args == <<f, agg, lim>>
    IN IF g = <<0>> THEN /\ reader' = [reader EXCEPT ![r].mode = m.mode, ![r].lim = m.lim]
                         /\ Log("next", args, 2, <<>>) /\ UNCHANGED <<files, unit, frame, dec, enc, missing>>
       ELSE /\ reader' = [reader EXCEPT ![r].mode = m.mode, ![r].lim = m.lim, ![r].at = @ + Len(g)]
            /\ frame' = [frame EXCEPT ![f].g = g, ![f].file = IF g = <<>> THEN 0 ELSE reader[r].file]
            /\ Log("next", args, IF g = <<>> THEN 1 ELSE 0, IF g = <<>> THEN <<>> ELSE <<RowsOf(files[reader[r].file], g[1], g[Len(g)])>>) /\ UNCHANGED <<files, unit, dec, enc, missing>>

(* What a frame tells.  want: which of the optional outputs are asked for *)
Has(f) == frame[f].g # <<>>
Cur(f) == files[frame[f].file][frame[f].g[1]]
Rows(f) == RowsOf(files[frame[f].file], frame[f].g[1], frame[f].g[Len(frame[f].g)])
RECURSIVE Merge(_, _)
Merge(st, g) == IF g = <<>> THEN {} ELSE LET m == Merge(st, SubSeq(g, 1, Len(g) - 1)) fr == st[g[Len(g)]] IN
                m \cup {fr.props[i] : i \in {i \in DOMAIN fr.props : \A x \in m : x[1] # fr.props[i][1]}}
Props(f) == Merge(files[frame[f].file], frame[f].g)
Tell == Room /\ \E f \in Pick(Made(frame)), what \in Pick({"rows", "cols", "attr", "bit", "props", "prop_idx", "prop"}),
                   i \in Pick(0..4), j \in Pick(0..2), want \in Pick(0..31) :
          LET args == <<f, i, j, want>>
              ok(v) == Log(what, args, 0, v) /\ Quiet
              no == Fails(what, args)
          IN /\ (what \in {"rows", "cols", "props"} => (Sampled \/ i = 0)) /\ (what # "bit" => (Sampled \/ j = 0))
             /\ (what \notin {"attr", "bit", "prop"} => (Sampled \/ want = 0))
             /\ IF ~Has(f) THEN no
                ELSE CASE what = "rows" -> ok(<<Rows(f)>>)
                       [] what = "cols" -> ok(<<Len(Cur(f).cols)>>)
                       [] what = "attr" -> IF i >= 1 /\ i <= Len(Cur(f).cols) THEN ok(Cur(f).cols[i]) ELSE no
                       [] what = "bit" -> IF i >= 1 /\ i <= Len(Cur(f).cols) /\ j >= 1 /\ j <= Len(Cur(f).cols[i].bits)
                                          THEN ok(<<j, Cur(f).cols[i].bits>>) ELSE no
                       [] what = "props" -> ok(<<Cardinality(Props(f))>>)
                       [] what = "prop_idx" -> IF i >= 1 /\ i <= Cardinality(Props(f)) THEN ok(Props(f)) ELSE no
                       [] OTHER -> ok({x \in Props(f) : x[1] = (IF i = 0 THEN "p" ELSE IF i = 1 THEN "q" ELSE "z")})

-----------------------------------------------------------------------------
(* Decoders.  A column lies in the array of the decoder or in memory of its own: <<id, stride>> (0: packed) *)
Dec(d, new, fn, args) == /\ dec' = [dec EXCEPT ![d] = new] /\ Log(fn, args, 0, <<>>)
                         /\ UNCHANGED <<files, unit, reader, frame, enc, missing>>
DInit == Room /\ \E d \in Pick(Free(dec)), cm \in Pick(Opt(BOOLEAN)) : Dec(d, NewDec(Get(cm, TRUE)), "dinit", <<d, cm>>)
DFree == Room /\ \E d \in Pick(Made(dec)) : Dec(d, None, "dfree", <<d>>)
DDefaults == Room /\ \E d \in Pick(Made(dec)), f \in Pick(Made(frame)) :
          IF ~Has(f) THEN Fails("ddefaults", <<d, f>>)
          ELSE /\ Len(dec[d].cols) < 3
               /\ Dec(d, [dec[d] EXCEPT !.rows = Rows(f), !.cols = @ \o [i \in DOMAIN Cur(f).cols |->
                                    [name |-> Cur(f).cols[i].name, size |-> 0, own |-> <<>>]]], "ddefaults", <<d, f>>)
DAdd == Room /\ \E d \in Pick(Made(dec)), nm \in Pick({"a", "s", "b", "u", "z"}) :
          /\ Len(dec[d].cols) < 4
          /\ Dec(d, [dec[d] EXCEPT !.cols = Append(@, [name |-> nm, size |-> 0, own |-> <<>>])], "dadd", <<d, nm>>)
DRows == Room /\ \E d \in Pick(Made(dec)), n \in Pick({-1, 0, 1, 3, 4, 6}) :
          IF n < 0 THEN Fails("drows", <<d, n>>) ELSE Dec(d, [dec[d] EXCEPT !.rows = n], "drows", <<d, n>>)
\* an array of h rows of w words; it decides the number of rows too
DArray == Room /\ \E d \in Pick(Made(dec)), h \in Pick({1, 3, 4, 6}), w \in Pick({1, 3, 6}), cm \in Pick(Opt(BOOLEAN)) :
          Dec(d, [dec[d] EXCEPT !.arr = <<Len(log) + 1, h, w>>, !.rows = h, !.cm = Get(cm, TRUE)], "darray", <<d, h, w, cm>>)
IsCol(o, i) == i >= 1 /\ i <= Len(o.cols)
DSize == Room /\ \E d \in Pick(Made(dec)), i \in Pick({0, 1, 2, 5}), k \in Pick({0, 1, 2, 3}) :
          /\ IsCol(dec[d], i) => dec[d].cols[i].own = <<>>
          /\ IF IsCol(dec[d], i) THEN Dec(d, [dec[d] EXCEPT !.cols[i].size = k], "dsize", <<d, i, k>>)
             ELSE Fails("dsize", <<d, i, k>>)
DOwn == Room /\ \E d \in Pick(Made(dec)), i \in Pick({0, 1, 2, 3, 5}), size \in Pick(Opt({1, 2, 3})), stride \in Pick(Opt({1, 2, 3, 4})),
                   data \in Pick(Opt({0})) :
          /\ stride # <<>> => stride[1] >= Get(size, 1)
          /\ IF IsCol(dec[d], i)
             THEN Dec(d, [dec[d] EXCEPT !.cols[i].size = Get(size, 0),
                                        !.cols[i].own = IF data = <<>> THEN <<>> ELSE <<Len(log) + 1, Get(stride, 0)>>],
                      "down", <<d, i, size, stride, data>>)
             ELSE Fails("down", <<d, i, size, stride, data>>)
DAsk == Room /\ \E d \in Pick(Made(dec)), what \in Pick({"drowcount", "dcolcount"}) :
          Log(what, <<d>>, 0, <<IF what = "drowcount" THEN dec[d].rows ELSE Len(dec[d].cols)>>) /\ Quiet

At(f, nm) == IF \E j \in DOMAIN f.cols : f.cols[j].name = nm THEN CHOOSE j \in DOMAIN f.cols : f.cols[j].name = nm ELSE 0
Elem(c, f) == IF c.size # 0 THEN c.size ELSE IF c.own # <<>> THEN 1 ELSE f.cols[At(f, c.name)].w
Widths(o, f) == [i \in DOMAIN o.cols |-> IF o.cols[i].own = <<>> THEN Elem(o.cols[i], f) ELSE 0]
Width(o, f) == Sum(Widths(o, f), Len(o.cols))
CanDecode(d, f) ==
    /\ Has(f) /\ Rows(f) <= dec[d].rows
    /\ Distinct([i \in DOMAIN dec[d].cols |-> dec[d].cols[i].name])
    /\ \A i \in DOMAIN dec[d].cols : At(Cur(f), dec[d].cols[i].name) # 0
    /\ \A i \in DOMAIN dec[d].cols : Elem(dec[d].cols[i], Cur(f)) >= Cur(f).cols[At(Cur(f), dec[d].cols[i].name)].w
    /\ (dec[d].arr # <<>> /\ Width(dec[d], Cur(f)) # 0) => Width(dec[d], Cur(f)) <= dec[d].arr[3] /\ dec[d].rows <= dec[d].arr[2]
\* Word k of row r of a column is word base + r * rs + (k \div ck) * cks + k % ck of the memory id (0: the decoder's own)
DPlace(o, i, f) == LET c == o.cols[i] e == Elem(c, f) h == IF o.arr = <<>> THEN o.rows ELSE o.arr[2]
                       w == IF o.arr = <<>> THEN Width(o, f) ELSE o.arr[3] id == IF o.arr = <<>> THEN 0 ELSE o.arr[1] IN
    IF c.own # <<>> THEN [id |-> c.own[1], base |-> 0, rs |-> IF c.own[2] = 0 THEN e ELSE c.own[2], e |-> e, ck |-> e, cks |-> 0]
    ELSE IF o.cm THEN [id |-> id, base |-> Sum(Widths(o, f), i - 1) * h, rs |-> 1, e |-> e, ck |-> 1, cks |-> h]
    ELSE [id |-> id, base |-> Sum(Widths(o, f), i - 1), rs |-> w, e |-> e, ck |-> e, cks |-> 0]
Decode == Room /\ \E d \in Pick(Made(dec)), f \in Pick({f \in Made(frame) : frame[f].r # "closed"}), t \in Pick(Opt({0, 1, 3})) :
    LET o == dec[d] IN
    IF CanDecode(d, f) /\ Get(t, 1) >= 1
    THEN /\ Log("decode", <<d, f, t>>, 0,
                [n |-> Rows(f), cols |-> [i \in DOMAIN o.cols |-> o.cols[i].name], place |-> [i \in DOMAIN o.cols |-> DPlace(o, i, Cur(f))],
                 inarray |-> [i \in DOMAIN o.cols |-> o.cols[i].own = <<>>], cm |-> o.cm,
                 h |-> IF o.arr = <<>> THEN o.rows ELSE o.arr[2], w |-> IF o.arr = <<>> THEN Width(o, Cur(f)) ELSE o.arr[3],
                 src |-> [i \in DOMAIN frame[f].g |-> files[frame[f].file][frame[f].g[i]].src]])
         /\ Quiet
    ELSE Fails("decode", <<d, f, t>>)

-----------------------------------------------------------------------------
(* Encoders *)
Enc(e, new, fn, args) == /\ enc' = [enc EXCEPT ![e] = new] /\ Log(fn, args, 0, <<>>)
                         /\ UNCHANGED <<files, unit, reader, frame, dec, missing>>
EInit == Room /\ \E e \in Pick(Free(enc)) : Enc(e, NewEnc, "einit", <<e>>)
EFree == Room /\ \E e \in Pick(Made(enc)) : Enc(e, None, "efree", <<e>>)
EAdd == Room /\ \E e \in Pick(Made(enc)), nm \in Pick({"a", "s", "b"}), ty \in Pick({"dbl", "str", "bits"}) :
          /\ Len(enc[e].cols) < 4
          /\ Enc(e, [enc[e] EXCEPT !.cols = Append(@, [name |-> nm, type |-> ty, bits |-> <<>>, size |-> 0, own |-> <<>>])], "eadd", <<e, nm, ty>>)
ERows == Room /\ \E e \in Pick(Made(enc)), n \in Pick({-1, 0, 1, 2, 3}) :
          IF n < 0 THEN Fails("erows", <<e, n>>) ELSE Enc(e, [enc[e] EXCEPT !.rows = n, !.auto = FALSE], "erows", <<e, n>>)
ERpf == Room /\ \E e \in Pick(Made(enc)), n \in Pick({-1, 0, 1, 2}) :
          IF n < 0 THEN Fails("erpf", <<e, n>>) ELSE Enc(e, [enc[e] EXCEPT !.rpf = n], "erpf", <<e, n>>)
\* an array given again replaces the memory of the columns
EArray == Room /\ \E e \in Pick(Made(enc)), h \in Pick({1, 2, 3}), w \in Pick({1, 3, 4}), cm \in Pick(Opt(BOOLEAN)) :
          Enc(e, [enc[e] EXCEPT !.arr = <<Len(log) + 1, h, w, Get(cm, TRUE)>>, !.rows = IF @ = 0 \/ enc[e].auto THEN h ELSE @,
                                !.auto = enc[e].rows = 0 \/ @,
                                !.cols = IF enc[e].arr = <<>> THEN @ ELSE [i \in DOMAIN @ |-> [@[i] EXCEPT !.own = <<>>]]], "earray", <<e, h, w, cm>>)
\* A size in doubles takes precedence over one in bytes; half a double (-1) is none
GivenSize(bytes, doubles) == IF doubles # <<>> THEN doubles[1] ELSE Get(bytes, 0)
\* only strings are wider than one double
Fits(c, k) == k <= 1 \/ c.type = "str"
ESize == Room /\ \E e \in Pick(Made(enc)), i \in Pick({0, 1, 2, 5}), bytes \in Pick(Opt({-1, 0, 1, 2})), doubles \in Pick(Opt({0, 1, 2})) :
          LET k == GivenSize(bytes, doubles) args == <<e, i, bytes, doubles>> IN
          /\ IsCol(enc[e], i) => Fits(enc[e].cols[i], k)
          /\ IF IsCol(enc[e], i) /\ k >= 0 THEN Enc(e, [enc[e] EXCEPT !.cols[i].size = k], "esize", args) ELSE Fails("esize", args)
EOwn == Room /\ \E e \in Pick(Made(enc)), i \in Pick({0, 1, 2, 5}), bytes \in Pick(Opt({-1, 1, 2})), doubles \in Pick(Opt({1, 2})),
                   stride \in Pick(Opt({-1, 0, 1, 2, 3})), data \in Pick(Opt({0})) :
          LET k == GivenSize(bytes, doubles) args == <<e, i, bytes, doubles, stride, data>> IN
          /\ IsCol(enc[e], i) => Fits(enc[e].cols[i], k)
          /\ (stride # <<>> /\ data = <<>>) => stride[1] <= 0        \* a stride of no memory
          /\ IF IsCol(enc[e], i) /\ k >= 0 /\ Get(stride, 0) >= 0
             THEN Enc(e, [enc[e] EXCEPT !.cols[i].size = k, !.cols[i].own = IF data = <<>> THEN <<>> ELSE <<Len(log) + 1, Get(stride, 0)>>], "eown", args)
             ELSE Fails("eown", args)
EProp == Room /\ \E e \in Pick(Made(enc)), k \in Pick({"p", "q"}) :
          Enc(e, [enc[e] EXCEPT !.props = <<<<k, Len(log) + 1>>>> \o SelectSeq(@, LAMBDA x : x[1] # k)], "eprop", <<e, k>>)
EBits == Room /\ \E e \in Pick(Made(enc)), i \in Pick({0, 1, 2, 5}), n \in Pick({-1, 1, 3, 33}) :
          IF IsCol(enc[e], i) /\ n >= 0 /\ Sum(enc[e].cols[i].bits, Len(enc[e].cols[i].bits)) + n <= 32
          THEN Enc(e, [enc[e] EXCEPT !.cols[i].bits = Append(@, n)], "ebits", <<e, i, n>>)
          ELSE Fails("ebits", <<e, i, n>>)
ESizes(o) == [i \in DOMAIN o.cols |-> Max(o.cols[i].size, 1)]
CanEncode(e) == LET o == enc[e] IN
    /\ o.cols # <<>> /\ o.rows > 0 /\ o.rpf > 0
    /\ Distinct([i \in DOMAIN o.cols |-> o.cols[i].name])
    /\ IF o.arr = <<>> THEN \A i \in DOMAIN o.cols : o.cols[i].own # <<>>
       ELSE /\ \A i \in DOMAIN o.cols : o.cols[i].own = <<>>
            /\ o.rows <= o.arr[2] /\ Sum(ESizes(o), Len(o.cols)) <= o.arr[3]
EPlace(o, i) == LET c == o.cols[i] e == Max(c.size, 1) b == Sum(ESizes(o), i - 1) IN
    IF o.arr = <<>> THEN [id |-> c.own[1], base |-> 0, rs |-> IF c.own[2] = 0 THEN e ELSE c.own[2], e |-> e, ck |-> e, cks |-> 0]
    ELSE IF o.arr[4] THEN [id |-> o.arr[1], base |-> b * o.arr[2], rs |-> 1, e |-> e, ck |-> 1, cks |-> o.arr[2]]
    ELSE [id |-> o.arr[1], base |-> b, rs |-> o.arr[3], e |-> e, ck |-> e, cks |-> 0]
\* An encoder can be used again
Encode == Room /\ unit # None /\ \E e \in Pick(Made(enc)) :
    LET o == enc[e]
        k == (o.rows + o.rpf - 1) \div o.rpf
        new == [i \in 1..k |-> [cols |-> [j \in DOMAIN o.cols |-> [name |-> o.cols[j].name, type |-> o.cols[j].type, w |-> ESizes(o)[j],
                                                                  bits |-> IF o.cols[j].type = "bits" THEN o.cols[j].bits ELSE <<>>]],
                                n |-> IF i < k THEN o.rpf ELSE o.rows - (k - 1) * o.rpf,
                                props |-> o.props \o <<<<"encoder", 0>>>>, src |-> <<Len(log) + 1, i>>]]
    IN IF CanEncode(e) /\ unit.writable
       THEN /\ files' = [files EXCEPT ![unit.file] = @ \o new]
            /\ Log("encode", <<e>>, 0, [frames |-> new, rpf |-> o.rpf, place |-> [i \in DOMAIN o.cols |-> EPlace(o, i)]])
            /\ UNCHANGED <<unit, reader, frame, dec, enc, missing>>
       ELSE Fails("encode", <<e>>)
\* a new file, one to be continued, or one that must not be written
OpenUnit == Room /\ unit = None /\ \E how \in Pick({"new", "append", "readonly"}) :
    LET closed == {k \in (Len(Base) + 1)..Len(files) : \A r \in Readers : reader[r] = None \/ reader[r].file # k} IN
    CASE how = "new" -> /\ Len(files) < MaxFiles /\ files' = Append(files, <<>>)
                        /\ unit' = [state |-> "open", file |-> Len(files) + 1, writable |-> TRUE]
                        /\ Log("unit", <<how>>, 0, <<>>) /\ UNCHANGED <<reader, frame, dec, enc, missing>>
      [] how = "append" -> \E k \in Pick(closed) :
                        /\ unit' = [state |-> "open", file |-> k, writable |-> TRUE]
                        /\ Log("unit", <<how, k>>, 0, <<>>) /\ UNCHANGED <<files, reader, frame, dec, enc, missing>>
      [] OTHER ->       /\ unit' = [state |-> "open", file |-> 1, writable |-> FALSE]
                        /\ Log("unit", <<how, 1>>, 0, <<>>) /\ UNCHANGED <<files, reader, frame, dec, enc, missing>>
CloseUnit == Room /\ unit # None /\ unit' = None /\ Log("unitclose", <<>>, 0, <<>>) /\ UNCHANGED <<files, reader, frame, dec, enc, missing>>

-----------------------------------------------------------------------------
(* Settings of the module, and calls on nothing *)
SetMissing == Room /\ \E k \in Pick({"int", "dbl"}), v \in Pick(1..4) :
          /\ missing' = [missing EXCEPT ![k] = v] /\ Log("setmiss", <<k, v>>, 0, <<>>)
          /\ UNCHANGED <<files, unit, reader, frame, dec, enc>>
GetMissing == Room /\ \E k \in Pick({"int", "dbl"}) : Log("getmiss", <<k>>, 0, <<missing[k]>>) /\ Quiet
TypeName == Room /\ \E t \in Pick(-1..6) : IF t >= 0 /\ t <= 5 THEN Log("typename", <<t>>, 0, <<>>) /\ Quiet ELSE Fails("typename", <<t>>)
Wrong == Room /\ \E fn \in Pick({"next", "rows", "props", "ddefaults", "decode", "dadd", "eadd", "erows", "encode", "copy", "darray", "earray",
                                 "section", "finit", "behaviour", "dcolcount"}) : Fails("null", <<fn>>)

Next == \/ "frames" \in Ops /\ (Open \/ Close \/ NewFrame \/ FreeFrame \/ Copy)
        \/ "next" \in Ops /\ NextFrame
        \/ "tell" \in Ops /\ Tell
        \/ "decoders" \in Ops /\ (DInit \/ DFree \/ DDefaults \/ DAdd \/ DRows \/ DArray \/ DSize \/ DOwn \/ DAsk)
        \/ "arrays" \in Ops /\ (DDefaults \/ DArray \/ DOwn)
        \/ "decode" \in Ops /\ Decode
        \/ "encoders" \in Ops /\ (EInit \/ EFree \/ EAdd \/ ERows \/ ERpf \/ EProp \/ EBits \/ EArray \/ ESize \/ EOwn)
        \/ "sizes" \in Ops /\ (EArray \/ ESize \/ EOwn)
        \/ "encode" \in Ops /\ Encode
        \/ "units" \in Ops /\ (OpenUnit \/ CloseUnit)
        \/ "wrong" \in Ops /\ (SetMissing \/ GetMissing \/ TypeName \/ Wrong)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Last == log[Len(log)]
\* A frame shows frames of its file, one after another
Shows == \A f \in Frames : frame[f] # None => \A i \in DOMAIN frame[f].g :
            frame[f].g[i] \in DOMAIN files[frame[f].file] /\ (i > 1 => frame[f].g[i] = frame[f].g[i - 1] + 1)
\* Without an argument that asks for it nothing is aggregated, and nothing lies by rows
Absent == [][(log' # log) => LET l == log'[Len(log')] IN
    /\ (l.fn = "next" /\ l.rc = 0 /\ l.args[2] = <<>> /\ l.args[3] = <<>> /\ reader[frame[l.args[1]].r].mode = "?") => Len(frame'[l.args[1]].g) = 1
    /\ (l.fn = "dinit" /\ l.args[2] = <<>>) => dec'[l.args[1]].cm
    /\ (l.fn = "darray" /\ l.args[4] = <<>>) => dec'[l.args[1]].cm
    /\ (l.fn = "earray" /\ l.args[4] = <<>>) => enc'[l.args[1]].arr[4]
    /\ (l.fn = "down" /\ l.rc = 0 /\ l.args[5] = <<>>) => dec'[l.args[1]].cols[l.args[2]].own = <<>>
    /\ (l.fn = "esize" /\ l.rc = 0 /\ l.args[3] = <<>> /\ l.args[4] = <<>>) => enc'[l.args[1]].cols[l.args[2]].size = 0]_vars
\* A failed call has no effect - but for the way a file is read from now on
Failed == [][(log' # log /\ log'[Len(log')].rc = 2) =>
               /\ UNCHANGED <<files, unit, frame, dec, enc, missing>>
               /\ \A r \in Readers : reader'[r] = None \/ reader'[r].at = reader[r].at]_vars
\* A call touches one object only
One == [][(log' # log /\ log'[Len(log')].args # <<>> /\ log'[Len(log')].fn # "typename") => LET x == log'[Len(log')].args[1] IN
               /\ (\A d \in Decoders : (d = x \/ dec'[d] = dec[d])) /\ (\A e \in Encoders : (e = x \/ enc'[e] = enc[e]))]_vars
\* Files grow at their end, by whole frames
Grow == [][\A k \in DOMAIN files : k \in DOMAIN files' /\ Len(files'[k]) >= Len(files[k]) /\ SubSeq(files'[k], 1, Len(files[k])) = files[k]]_vars
\* The words of the cells of a decoder lie in its array, and no two share a word
Words(v, i) == {[i |-> i, r |-> r, k |-> k] : r \in 0..(v.n - 1), k \in 0..(v.place[i].e - 1)}
Addr(v, x) == LET p == v.place[x.i] IN p.base + x.r * p.rs + (x.k \div p.ck) * p.cks + (x.k % p.ck)
Places == (log # <<>> /\ Last.fn = "decode" /\ Last.rc = 0) => LET v == Last.val
              all == UNION {Words(v, i) : i \in DOMAIN v.place} IN
           /\ \A x \in all : v.inarray[x.i] => Addr(v, x) \in 0..(v.h * v.w - 1)
           /\ \A x, y \in all : (x # y /\ v.place[x.i].id = v.place[y.i].id) => Addr(v, x) # Addr(v, y)

Emit == (EmitOn /\ Len(log) = MaxSteps) => PrintT("@@" \o ToJson([log |-> log, base |-> Base]))
=============================================================================
