-------------------------------- MODULE CApi --------------------------------
(* The objects of the C interface - readers, frames, decoders, encoders - and the calls on them, in any order and with
   any arguments.  A call succeeds with its effect (rc 0), or finds the end of the stream (rc 1), or fails (rc 2) and
   changes nothing at all: neither the objects of the call nor any other.
   A stream is a sequence of frames: [cols, n, props, src]; cols of [name, type, bits], src tells where its values come
   from.  A frame that is damaged (bad) can never be read.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Readers, Frames, Decoders, Encoders, Base, MaxStreams, Limits, Names, RowCounts, Ops, Prelude, MaxSteps, Sampled, EmitOn

VARIABLES streams, reader, frame, dec, enc, log
vars == <<streams, reader, frame, dec, enc, log>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
None == [state |-> "none"]
Types == {"int", "bits"}
Num(nm) == [name |-> nm, type |-> "int", bits |-> <<>>]
Bf(nm, b) == [name |-> nm, type |-> "bits", bits |-> b]
Fr(cols, n, p, k) == [cols |-> cols, n |-> n, props |-> p, src |-> <<0, k>>, bad |-> FALSE]
Bad(k) == [cols |-> <<>>, n |-> 0, props |-> <<>>, src |-> <<0, k>>, bad |-> TRUE]

\* Streams there are at the beginning
BaseStreams ==
    CASE Base = "small" -> << <<Fr(<<Num("a"), Num("b")>>, 2, <<"p">>, 1), Fr(<<Num("b"), Num("a")>>, 1, <<"q">>, 2)>> >>
      [] OTHER -> << <<Fr(<<Num("a"), Num("b")>>, 2, <<"p">>, 1), Fr(<<Num("b"), Num("a")>>, 1, <<"p", "q">>, 2),
                       Fr(<<Num("a"), Bf("c", <<3, 1>>)>>, 3, <<>>, 3), Fr(<<Bf("c", <<3, 1>>), Num("a")>>, 1, <<"q">>, 4),
                       Fr(<<Num("a")>>, 2, <<>>, 5)>>,
                     <<Fr(<<Num("a")>>, 1, <<"q">>, 6), Fr(<<Num("a")>>, 2, <<>>, 7), Bad(8)>>,
                     <<>>,
                     <<Bad(9)>>,
                     <<Fr(<<Num("c"), Num("a"), Num("b")>>, 3, <<"p", "q">>, 10), Fr(<<Num("a"), Num("b"), Num("c")>>, 3, <<>>, 11)>>,
                     <<Fr(<<Num("a")>>, 1, <<"p">>, 12), Fr(<<Num("a")>>, 1, <<"q">>, 13), Fr(<<Num("a")>>, 1, <<"p", "q">>, 14),
                       Fr(<<Num("a")>>, 3, <<>>, 15), Fr(<<Num("a")>>, 2, <<"p">>, 16)>> >>

Init0 == /\ streams = BaseStreams
         /\ reader = [r \in Readers |-> None] /\ frame = [f \in Frames |-> None]
         /\ dec = [d \in Decoders |-> None] /\ enc = [e \in Encoders |-> None] /\ log = <<>>
L(fn, args) == [fn |-> fn, args |-> args, rc |-> 0, val |-> <<>>]
NewReader(s) == [state |-> "open", s |-> s, mode |-> "?", lim |-> -1, at |-> 0]
NewFr(r) == [state |-> "made", r |-> r, s |-> 0, g |-> <<>>]
NewDec == [state |-> "made", cols |-> <<>>, rows |-> 0]
NewEnc == [state |-> "made", cols |-> <<>>, rows |-> 0, auto |-> FALSE, rpf |-> 10000, arr |-> <<>>, props |-> <<>>]
\* Some of the exploration begins with the objects that are needed for anything
Init == CASE Prelude = "none" -> Init0
          [] Prelude = "frames" ->
               \E s \in DOMAIN BaseStreams :
               /\ streams = BaseStreams /\ reader = [r \in Readers |-> IF r = "r" THEN NewReader(s) ELSE None]
               /\ frame = [f \in Frames |-> IF f = "f" THEN NewFr("r") ELSE None]
               /\ dec = [d \in Decoders |-> None] /\ enc = [e \in Encoders |-> None]
               /\ log = <<L("open", <<"r", s>>), L("new_frame", <<"f", "r">>)>>
          [] Prelude = "decoder" ->
               /\ streams = BaseStreams /\ reader = [r \in Readers |-> IF r = "r" THEN [NewReader(1) EXCEPT !.mode = "single", !.at = 1] ELSE None]
               /\ frame = [f \in Frames |-> IF f = "f" THEN [NewFr("r") EXCEPT !.s = 1, !.g = <<1>>] ELSE None]
               /\ dec = [d \in Decoders |-> NewDec] /\ enc = [e \in Encoders |-> None]
               /\ log = <<L("open", <<"r", 1>>), L("new_frame", <<"f", "r">>), L("next", <<"f">>), L("new_decoder", <<"d">>)>>
          [] OTHER ->
               /\ streams = BaseStreams /\ reader = [r \in Readers |-> None] /\ frame = [f \in Frames |-> None]
               /\ dec = [d \in Decoders |-> None]
               /\ enc = [e \in Encoders |-> [NewEnc EXCEPT !.cols = <<Num("a")>>, !.arr = <<3, 2, 2>>, !.rows = 2, !.auto = TRUE]]
               /\ log = <<L("new_encoder", <<"e">>), L("eadd_column", <<"e", "a", "int">>), L("earray", <<"e", 2, 2>>)>>

Room == Len(log) < MaxSteps
Log(fn, args, rc, val) == log' = Append(log, [fn |-> fn, args |-> args, rc |-> rc, val |-> val])
Fails(fn, args) == Log(fn, args, 2, <<>>) /\ UNCHANGED <<streams, reader, frame, dec, enc>>
Quiet == UNCHANGED <<streams, reader, frame, dec, enc>>

-----------------------------------------------------------------------------
(* Readers and frames *)
Open == Room /\ \E r \in Pick({r \in Readers : reader[r] = None}), s \in Pick(0..Len(streams)) :
          IF s = 0 THEN Fails("open", <<r, 0>>)          \* there is no such file
          ELSE /\ reader' = [reader EXCEPT ![r] = NewReader(s)]
               /\ Log("open", <<r, s>>, 0, <<>>) /\ UNCHANGED <<streams, frame, dec, enc>>
\* frames read from it stay
Close == Room /\ \E r \in Pick({r \in Readers : reader[r] # None}) :
          /\ reader' = [reader EXCEPT ![r] = None]
          /\ frame' = [f \in Frames |-> IF frame[f] # None /\ frame[f].r = r THEN [frame[f] EXCEPT !.r = "closed"] ELSE frame[f]]
          /\ Log("close", <<r>>, 0, <<>>) /\ UNCHANGED <<streams, dec, enc>>
NewFrame == Room /\ \E f \in Pick({f \in Frames : frame[f] = None}), r \in Pick({r \in Readers : reader[r] # None}) :
          /\ frame' = [frame EXCEPT ![f] = NewFr(r)]
          /\ Log("new_frame", <<f, r>>, 0, <<>>) /\ UNCHANGED <<streams, reader, dec, enc>>
FreeFrame == Room /\ \E f \in Pick({f \in Frames : frame[f] # None}) :
          /\ frame' = [frame EXCEPT ![f] = None]
          /\ Log("free_frame", <<f>>, 0, <<>>) /\ UNCHANGED <<streams, reader, dec, enc>>
Copy == Room /\ \E f \in Pick({f \in Frames : frame[f] # None}), g \in Pick({g \in Frames : frame[g] = None}) :
          /\ frame' = [frame EXCEPT ![g] = frame[f]]
          /\ Log("copy", <<f, g>>, 0, <<>>) /\ UNCHANGED <<streams, reader, dec, enc>>

Sum(st, a, b) == LET S[i \in (a - 1)..b] == IF i < a THEN 0 ELSE S[i - 1] + st[i].n IN S[b]
Key(f) == {<<f.cols[i].name, f.cols[i].type>> : i \in DOMAIN f.cols}
Compatible(x, y) == Len(x.cols) = Len(y.cols) /\ Key(x) = Key(y)
\* the frames of the next step of a reader: <<>> at the end, <<0>> if it cannot be made
Group(st, at, mode, lim) ==
    IF at = Len(st) THEN <<>>
    ELSE IF st[at + 1].bad THEN <<0>>
    ELSE IF mode = "single" THEN <<at + 1>>
    ELSE LET last == CHOOSE b \in (at + 1)..Len(st) :
                        /\ \A i \in (at + 1)..b : ~st[i].bad /\ Compatible(st[i], st[at + 1])
                        /\ (b > at + 1 => lim < 0 \/ Sum(st, at + 1, b) <= lim)
                        /\ \/ b = Len(st) \/ st[b + 1].bad \/ ~Compatible(st[b + 1], st[at + 1])
                           \/ (lim >= 0 /\ Sum(st, at + 1, b + 1) > lim)
         IN IF (lim >= 0 /\ st[at + 1].n > lim) \/ (last < Len(st) /\ st[last + 1].bad) THEN <<0>>
            ELSE [i \in 1..(last - at) |-> at + i]

NextFrame(f, m, l, fn, args) ==
    LET r == frame[f].r
        first == reader[r].mode = "?"
        mode == IF first THEN m ELSE reader[r].mode    \* the first call decides how the stream is read
        lim == IF first THEN l ELSE reader[r].lim
        st == streams[reader[r].s]
        g == Group(st, reader[r].at, mode, lim)
        begun == st = <<>> \/ ~st[1].bad               \* otherwise reading could not even begin
    IN IF g = <<0>> THEN /\ reader' = [reader EXCEPT ![r].mode = IF begun THEN mode ELSE @, ![r].lim = IF begun THEN lim ELSE @]
                         /\ Log(fn, args, 2, <<>>) /\ UNCHANGED <<streams, frame, dec, enc>>
       ELSE /\ reader' = [reader EXCEPT ![r].mode = mode, ![r].lim = lim, ![r].at = @ + Len(g)]
            /\ frame' = [frame EXCEPT ![f].g = g, ![f].s = IF g = <<>> THEN 0 ELSE reader[r].s]
            /\ Log(fn, args, IF g = <<>> THEN 1 ELSE 0, <<>>) /\ UNCHANGED <<streams, dec, enc>>
Readable == {f \in Frames : frame[f] # None /\ frame[f].r # "closed"}
Next1 == Room /\ \E f \in Pick(Readable) : NextFrame(f, "single", -1, "next", <<f>>)
NextAgg == Room /\ \E f \in Pick(Readable), l \in Pick(Limits \cup {-1}) : NextFrame(f, "agg", l, "next_agg", <<f, l>>)

-----------------------------------------------------------------------------
(* What a frame tells *)
Cur(f) == streams[frame[f].s][frame[f].g[1]]
Rows(f) == Sum(streams[frame[f].s], frame[f].g[1], frame[f].g[Len(frame[f].g)])
\* aggregated, a property has the value of the first frame that has it
RECURSIVE Merge(_, _)
Merge(st, g) == IF g = <<>> THEN {} ELSE LET m == Merge(st, SubSeq(g, 1, Len(g) - 1)) fr == st[g[Len(g)]] IN
                m \cup {<<fr.props[i], fr.src>> : i \in {i \in DOMAIN fr.props : \A x \in m : x[1] # fr.props[i]}}
Props(f) == Merge(streams[frame[f].s], frame[f].g)
Has(f) == frame[f].g # <<>>

Tell == Room /\ \E f \in Pick({f \in Frames : frame[f] # None}),
                   what \in Pick({"row_count", "col_count", "col_attr", "bit_attr", "props_count", "prop_idx", "prop"}),
                   i \in Pick(-1..3), j \in Pick(-1..2) :
          LET ok(v) == Log(what, <<f, i, j>>, 0, v) /\ Quiet
              no == Fails(what, <<f, i, j>>)
          IN /\ what \in {"row_count", "col_count", "props_count", "col_attr", "prop_idx"} => (Sampled \/ j = 0)
             /\ what \in {"row_count", "col_count", "props_count"} => (Sampled \/ i = 0)
             /\ IF ~Has(f) THEN no
                ELSE CASE what = "row_count" -> ok(<<Rows(f)>>)
                       [] what = "col_count" -> ok(<<Len(Cur(f).cols)>>)
                       [] what = "col_attr" -> IF i >= 0 /\ i < Len(Cur(f).cols) THEN ok(Cur(f).cols[i + 1]) ELSE no
                       [] what = "bit_attr" -> IF i >= 0 /\ i < Len(Cur(f).cols) /\ j >= 0 /\ j < Len(Cur(f).cols[i + 1].bits)
                                               THEN ok(<<j, Cur(f).cols[i + 1].bits>>) ELSE no
                       [] what = "props_count" -> ok(<<Cardinality(Props(f))>>)
                       [] what = "prop_idx" -> IF i >= 0 /\ i < Cardinality(Props(f)) THEN ok(Props(f)) ELSE no
                       [] OTHER -> ok({x \in Props(f) : x[1] = (IF i = 0 THEN "p" ELSE IF i = 1 THEN "q" ELSE "z")})

-----------------------------------------------------------------------------
(* Decoders *)
NewDecoder == Room /\ \E d \in Pick({d \in Decoders : dec[d] = None}) :
          /\ dec' = [dec EXCEPT ![d] = NewDec]
          /\ Log("new_decoder", <<d>>, 0, <<>>) /\ UNCHANGED <<streams, reader, frame, enc>>
Made(o) == {x \in DOMAIN o : o[x] # None}
FreeDecoder == Room /\ \E d \in Pick(Made(dec)) :
          /\ dec' = [dec EXCEPT ![d] = None] /\ Log("free_decoder", <<d>>, 0, <<>>) /\ UNCHANGED <<streams, reader, frame, enc>>
Defaults == Room /\ \E d \in Pick(Made(dec)), f \in Pick(Made(frame)) :
          IF ~Has(f) THEN Fails("defaults", <<d, f>>)
          ELSE /\ dec' = [dec EXCEPT ![d].rows = Rows(f), ![d].cols = @ \o [i \in DOMAIN Cur(f).cols |-> Cur(f).cols[i].name]]
               /\ Log("defaults", <<d, f>>, 0, <<>>) /\ UNCHANGED <<streams, reader, frame, enc>>
AddColumn == Room /\ \E d \in Pick(Made(dec)), nm \in Pick(Names) :
          /\ Len(dec[d].cols) < 4
          /\ dec' = [dec EXCEPT ![d].cols = Append(@, nm)] /\ Log("add_column", <<d, nm>>, 0, <<>>)
          /\ UNCHANGED <<streams, reader, frame, enc>>
SetRows == Room /\ \E d \in Pick(Made(dec)), n \in Pick(RowCounts \cup {-1, 1000, 1000000}) :
          IF n < 0 THEN Fails("set_rows", <<d, n>>)
          ELSE /\ dec' = [dec EXCEPT ![d].rows = n] /\ Log("set_rows", <<d, n>>, 0, <<>>)
               /\ UNCHANGED <<streams, reader, frame, enc>>
AskDecoder == Room /\ \E d \in Pick(Made(dec)), what \in Pick({"rows", "dcol_count"}) :
          Log(what, <<d>>, 0, <<IF what = "rows" THEN dec[d].rows ELSE Len(dec[d].cols)>>) /\ Quiet
BadColumn == Room /\ \E d \in Pick(Made(dec)), i \in Pick({-1, 0, 7}) :   \* sizes of columns that there are not
          IF i >= 0 /\ i < Len(dec[d].cols) THEN Log("dcol_size", <<d, i>>, 0, <<>>) /\ Quiet ELSE Fails("dcol_size", <<d, i>>)
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
\* 1000000 stands for more than there can be memory for
CanDecode(d, f) == /\ Has(f) /\ (dec[d].rows < 1000000 \/ dec[d].cols = <<>>)
                   /\ dec[d].rows >= Rows(f) /\ Distinct(dec[d].cols)
                   /\ \A i \in DOMAIN dec[d].cols : \E j \in DOMAIN Cur(f).cols : Cur(f).cols[j].name = dec[d].cols[i]
Decode == Room /\ \E d \in Pick(Made(dec)), f \in Pick({f \in Made(frame) : frame[f].r # "closed"}), t \in Pick({0, 1, 3}) :
          IF t >= 1 /\ CanDecode(d, f)
             THEN /\ Log("decode", <<d, f, t>>, 0, [n |-> Rows(f), cols |-> dec[d].cols,
                                                   src |-> [i \in DOMAIN frame[f].g |-> streams[frame[f].s][frame[f].g[i]].src]])
                  /\ Quiet
             ELSE Fails("decode", <<d, f, t>>)

-----------------------------------------------------------------------------
(* Encoders.  Values come from an array of h rows of w cells of eight bytes, by rows *)
NewEncoder == Room /\ \E e \in Pick({e \in Encoders : enc[e] = None}) :
          /\ enc' = [enc EXCEPT ![e] = NewEnc]
          /\ Log("new_encoder", <<e>>, 0, <<>>) /\ UNCHANGED <<streams, reader, frame, dec>>
FreeEncoder == Room /\ \E e \in Pick(Made(enc)) :
          /\ enc' = [enc EXCEPT ![e] = None] /\ Log("free_encoder", <<e>>, 0, <<>>) /\ UNCHANGED <<streams, reader, frame, dec>>
Enc(e, new, fn, args) == /\ enc' = [enc EXCEPT ![e] = new] /\ Log(fn, args, 0, <<>>) /\ UNCHANGED <<streams, reader, frame, dec>>
EAddColumn == Room /\ \E e \in Pick(Made(enc)), nm \in Pick(Names), ty \in Pick(Types \cup (IF Sampled /\ RandomElement(1..6) = 1 THEN {"bad"} ELSE {})) :
          /\ Len(enc[e].cols) < 4
          /\ Enc(e, [enc[e] EXCEPT !.cols = Append(@, [name |-> nm, type |-> ty, bits |-> <<>>])], "eadd_column", <<e, nm, ty>>)
RECURSIVE Total(_)
Total(b) == IF b = <<>> THEN 0 ELSE b[1] + Total(SubSeq(b, 2, Len(b)))
AddBits == Room /\ \E e \in Pick(Made(enc)), c \in Pick({-1, 0, 1, 7}), n \in Pick({-1, 1, 2, 31, 33}) :
          IF c >= 0 /\ c < Len(enc[e].cols) /\ n >= 0 /\ Total(enc[e].cols[c + 1].bits) + n <= 32
          THEN Enc(e, [enc[e] EXCEPT !.cols[c + 1].bits = Append(@, n)], "add_bitfield", <<e, c, n>>)
          ELSE Fails("add_bitfield", <<e, c, n>>)
ESetRows == Room /\ \E e \in Pick(Made(enc)), n \in Pick(RowCounts \cup {-1}) :
          IF n < 0 THEN Fails("eset_rows", <<e, n>>)
          ELSE Enc(e, [enc[e] EXCEPT !.rows = n, !.auto = FALSE], "eset_rows", <<e, n>>)
RowsPerFrame == Room /\ \E e \in Pick(Made(enc)), n \in Pick({-1, 0, 1, 2}) :
          IF n < 0 THEN Fails("rows_per_frame", <<e, n>>)
          ELSE Enc(e, [enc[e] EXCEPT !.rpf = n], "rows_per_frame", <<e, n>>)
Array == Room /\ \E e \in Pick(Made(enc)), h \in Pick({1, 2, 3}), w \in Pick({1, 2, 4}) :
          Enc(e, [enc[e] EXCEPT !.arr = <<Len(log) + 1, h, w>>, !.rows = IF enc[e].rows = 0 \/ enc[e].auto THEN h ELSE @,
                                !.auto = enc[e].rows = 0 \/ enc[e].auto], "earray", <<e, h, w>>)
AddProperty == Room /\ \E e \in Pick(Made(enc)), k \in Pick({"p", "q"}) :
          Enc(e, [enc[e] EXCEPT !.props = <<[k |-> k, v |-> Len(log) + 1]>> \o SelectSeq(@, LAMBDA x : x.k # k)], "add_property", <<e, k>>)
CanEncode(e) == LET c == enc[e] IN
    /\ c.cols # <<>> /\ c.rows > 0 /\ c.rpf > 0 /\ c.arr # <<>> /\ c.rows <= c.arr[2] /\ Len(c.cols) <= c.arr[3]
    /\ \A i \in DOMAIN c.cols : c.cols[i].type # "bad"
    /\ Distinct([i \in DOMAIN c.cols |-> c.cols[i].name])
Encode == Room /\ \E e \in Pick(Made(enc)), how \in Pick({"buffer", "stream", "fd", "small"}) :
          LET c == enc[e]
              k == (c.rows + c.rpf - 1) \div c.rpf
              \* the source of a frame: the array, its first row, and where its properties come from
              cols == [i \in DOMAIN c.cols |-> IF c.cols[i].type = "bits" THEN c.cols[i] ELSE [c.cols[i] EXCEPT !.bits = <<>>]]
              new == [i \in 1..k |-> [cols |-> cols, bad |-> FALSE, n |-> IF i < k THEN c.rpf ELSE c.rows - (k - 1) * c.rpf,
                                      props |-> [j \in DOMAIN c.props |-> c.props[j].k] \o <<"encoder">>,
                                      src |-> <<c.arr[1], (i - 1) * c.rpf, c.props, [j \in DOMAIN c.cols |-> c.cols[j].name], Len(log) + 1>>]]
          IN IF CanEncode(e) /\ how # "small"            \* too small a buffer
             THEN /\ Len(streams) < MaxStreams
                  /\ streams' = Append(streams, new) /\ Log("encode", <<e, how>>, 0, new)
                  /\ UNCHANGED <<reader, frame, dec, enc>>
             ELSE Fails("encode", <<e, how>>)

\* There is no object; or a constant that is none
Wrong == Room /\ \E fn \in Pick({"close", "free_frame", "next", "next_agg", "row_count", "props_count", "prop_idx", "copy",
                                 "defaults", "add_column", "set_rows", "decode", "eset_rows", "eadd_column", "encode", "type_name",
                                 "integer_behaviour", "new_frame", "add_bitfield", "rows", "col_attr"}) :
          Fails("null", <<fn>>)

Next == \/ "frames" \in Ops /\ (Open \/ Close \/ NewFrame \/ FreeFrame \/ Copy \/ Next1 \/ NextAgg)
        \/ "tell" \in Ops /\ Tell
        \/ "decoders" \in Ops /\ (NewDecoder \/ FreeDecoder \/ Defaults \/ AddColumn \/ SetRows \/ AskDecoder \/ BadColumn \/ Decode)
        \/ "encoders" \in Ops /\ (NewEncoder \/ FreeEncoder \/ EAddColumn \/ AddBits \/ ESetRows \/ RowsPerFrame \/ Array
                                \/ AddProperty \/ Encode)
        \/ "wrong" \in Ops /\ Wrong
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* A frame only ever shows frames of a stream, one after another, never a damaged one
Shows == \A f \in Frames : frame[f] # None =>
            \A i \in DOMAIN frame[f].g : /\ ~streams[frame[f].s][frame[f].g[i]].bad
                                         /\ (i > 1 => frame[f].g[i] = frame[f].g[i - 1] + 1)
\* A failed call has no effect - but for the way the stream is read from now on
Failed == [][(log' # log /\ log'[Len(log')].rc = 2) =>
               /\ UNCHANGED <<streams, frame, dec, enc>>
               /\ \A r \in Readers : reader'[r] = None \/ reader'[r].at = reader[r].at]_vars
\* What one object does is of no concern to the frames of others
Independent == [][\A f \in Frames : (frame[f] # None /\ frame'[f] # None /\ log'[Len(log')].args # <<>>
                                     /\ log'[Len(log')].fn \in {"next", "next_agg"} /\ log'[Len(log')].args[1] # f)
                                    => frame'[f] = frame[f]]_vars
\* Nothing is read twice by a reader, and nothing left out
Position == \A r \in Readers : reader[r] # None => reader[r].at <= Len(streams[reader[r].s])
Written == [][\A s \in DOMAIN streams : streams'[s] = streams[s]]_vars

Emit == (EmitOn /\ Len(log) = MaxSteps) => PrintT("@@" \o ToJson([log |-> log, base |-> BaseStreams]))
=============================================================================
