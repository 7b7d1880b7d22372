------------------------------- MODULE Legacy -------------------------------
(* The old C interface (odccapi.h): iterators over the rows of a file, over the rows a query selects from it, and iterators
   that write rows.  Each belongs to a program that fills or empties a buffer of its own, row by row.  Several are in
   use at the same time; a file is not read and written at once.

   A frame is [lay, rows]: lay a sequence of columns, rows a sequence of [id, a]: id tells its cells apart from those of
   other rows, a is the class of the value of column "a", the one that conditions look at ("m": missing).
   A reader shows the rows of its file one after another, and says when a frame begins (not for the first one).  It
   refuses to give a row to a program that expects another number of columns; that row is then still the next one.
   A query resolves its names in the first frame (from which it has the members of bitfields too: eckit's SQL engine keeps
   them) and adopts the layout of every frame at its first row.  The row must fit the buffer as it was described before the call.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Readers, Queries, Writers, Ops, MaxFiles, MaxSteps, Prelude, Sampled, EmitOn

VARIABLES files, rd, qu, wr, log
vars == <<files, rd, qu, wr, log>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
Ids == Readers \cup Queries \cup Writers
None == [state |-> "none"]

-----------------------------------------------------------------------------
Int_(nm) == [name |-> nm, type |-> "int", w |-> 1, bits |-> <<>>]
Str(k) == [name |-> "s", type |-> "str", w |-> k, bits |-> <<>>]
Bits(b) == [name |-> "b", type |-> "bits", w |-> 1, bits |-> b]
Dbl == [name |-> "d", type |-> "dbl", w |-> 1, bits |-> <<>>]
A == Int_("a")
Lay(k) == CASE k = 1 -> <<A, Str(1), Bits(<<3, 1>>)>>
            [] k = 2 -> <<Bits(<<3, 1>>), A, Str(1)>>        \* another order
            [] k = 3 -> <<A, Str(2), Bits(<<3, 1>>)>>        \* wider
            [] k = 4 -> <<A, Bits(<<2, 2, 5>>)>>             \* fewer
            [] k = 5 -> <<Dbl, A, Str(1), Bits(<<3, 1>>)>>   \* more
            [] k = 6 -> <<A, Dbl>>
Fr(l, k, as) == [lay |-> Lay(l), rows |-> [i \in DOMAIN as |-> [id |-> <<0, k, i>>, a |-> as[i]]]]
Base == << <<Fr(1, 1, <<"lo", "hi">>), Fr(1, 2, <<"m">>), Fr(2, 3, <<"hi", "hi">>), Fr(1, 4, <<"lo">>)>>,
           <<Fr(3, 5, <<"hi", "lo">>), Fr(1, 6, <<>>), Fr(1, 7, <<"hi", "m">>), Fr(2, 8, <<"lo">>), Fr(3, 9, <<"lo", "hi">>)>>,
           <<Fr(4, 10, <<"hi">>), Fr(5, 11, <<"lo", "hi">>), Fr(4, 12, <<"m">>), Fr(6, 13, <<"hi", "hi">>), Fr(6, 14, <<"lo">>)>> >>

Wordsof(lay) == LET W[i \in 0..Len(lay)] == IF i = 0 THEN 0 ELSE W[i - 1] + lay[i].w IN W[Len(lay)]
Names(lay) == [i \in DOMAIN lay |-> lay[i].name]
Has(lay, nm) == \E i \in DOMAIN lay : lay[i].name = nm
Col(lay, nm) == lay[CHOOSE i \in DOMAIN lay : lay[i].name = nm]
\* the rows of a file: <<frame, row>>
Elements(f) == LET E[i \in 0..Len(f)] == IF i = 0 THEN <<>> ELSE E[i - 1] \o [j \in DOMAIN f[i].rows |-> <<i, j>>] IN E[Len(f)]
RowAt(f, p) == [id |-> f[p[1]].rows[p[2]].id, a |-> f[p[1]].rows[p[2]].a, lay |-> f[p[1]].lay]

NewReader(k) == [state |-> "open", file |-> k, pos |-> 0, refused |-> FALSE, seen |-> <<>>]
Init0 == files = Base /\ rd = [r \in Readers |-> None] /\ qu = [q \in Queries |-> None] /\ wr = [w \in Writers |-> None] /\ log = <<>>
Init == IF Prelude = 0 THEN Init0
        ELSE /\ files = Base /\ qu = [q \in Queries |-> None] /\ wr = [w \in Writers |-> None]
             /\ rd = [r \in Readers |-> NewReader(Prelude)]
             /\ log = LET R == CHOOSE r \in Readers : TRUE IN <<[fn |-> "ropen", it |-> R, args |-> <<Prelude>>, val |-> <<>>]>>

Room == Len(log) < MaxSteps
Log(fn, it, args, val) == log' = Append(log, [fn |-> fn, it |-> it, args |-> args, val |-> val])
Reading(k) == (\E r \in Readers : rd[r].state = "open" /\ rd[r].file = k) \/ (\E q \in Queries : qu[q].state # "none" /\ qu[q].file = k)
Writing(k) == \E w \in Writers : wr[w].state # "none" /\ wr[w].file = k
Whole == {k \in DOMAIN files : ~Writing(k) /\ files[k] # <<>>}

-----------------------------------------------------------------------------
(* Rows of a file *)
ROpen == Room /\ \E r \in Pick({x \in Readers : rd[x] = None}), k \in Pick(Whole \cup {0}) :
          IF k = 0 THEN Log("ropen", r, <<0>>, <<>>) /\ UNCHANGED <<files, rd, qu, wr>>
          ELSE rd' = [rd EXCEPT ![r] = NewReader(k)] /\ Log("ropen", r, <<k>>, <<>>) /\ UNCHANGED <<files, qu, wr>>
\* the layout a program sees: of the current row or, before the first, of the first frame with rows
Shown(r) == LET f == files[rd[r].file] e == Elements(f) p == IF rd[r].pos = 0 THEN 1 ELSE rd[r].pos IN f[e[p][1]].lay
\* some programs know the layout of the row that comes, others only the one before
RNext == Room /\ \E r \in Pick({x \in Readers : rd[x] # None}), how \in Pick({"right", "before", "wrong"}) :
    LET f == files[rd[r].file]
        e == Elements(f)
        p == IF rd[r].refused THEN rd[r].pos ELSE rd[r].pos + 1
    IN IF p > Len(e) THEN /\ rd' = [rd EXCEPT ![r].pos = Len(e) + 1, ![r].refused = FALSE]
                          /\ Log("rnext", r, <<1>>, [rc |-> 1]) /\ UNCHANGED <<files, qu, wr>>
       ELSE LET want == Len(f[e[p][1]].lay)
                n == CASE how = "right" -> want [] how = "before" -> Len(Shown(r)) [] OTHER -> want + 1
                newds == e[p][2] = 1 /\ p > 1
            IN /\ rd' = [rd EXCEPT ![r].pos = p, ![r].refused = n # want, ![r].seen = IF n = want THEN Append(@, e[p]) ELSE @]
               /\ Log("rnext", r, <<n>>, IF n = want THEN [rc |-> 0, newds |-> newds, row |-> RowAt(f, e[p])] ELSE [rc |-> 2])
               /\ UNCHANGED <<files, qu, wr>>
RCols == Room /\ \E r \in Pick({x \in Readers : rd[x] # None}) :
          /\ rd[r].pos <= Len(Elements(files[rd[r].file])) /\ Elements(files[rd[r].file]) # <<>>
          /\ Log("rcols", r, <<>>, Shown(r)) /\ UNCHANGED <<files, rd, qu, wr>>
RMissing == Room /\ \E r \in Pick({x \in Readers : rd[x] # None}) :
          /\ rd[r].pos <= Len(Elements(files[rd[r].file])) /\ Elements(files[rd[r].file]) # <<>>
          /\ \E i \in Pick({-1, Len(Shown(r)), Len(Shown(r)) + 1}) : Log("rmissing", r, <<i>>, <<>>) /\ UNCHANGED <<files, rd, qu, wr>>
RClose == Room /\ \E r \in Pick({x \in Readers : rd[x] # None}) :
          rd' = [rd EXCEPT ![r] = None] /\ Log("rclose", r, <<>>, <<>>) /\ UNCHANGED <<files, qu, wr>>

-----------------------------------------------------------------------------
(* Rows a query selects *)
Sels == {<<"a">>, <<"b", "a">>, <<"s", "a">>, <<"a", "d">>, <<"s", "b", "a">>, <<"a", "a">>}
Conds == {"all", "hi", "known"}
Holds(c, a) == CASE c = "all" -> TRUE [] c = "hi" -> a = "hi" [] c = "known" -> a # "m"
FirstLay(k) == files[k][1].lay
Range(s) == {s[i] : i \in DOMAIN s}
Out(names, lay) == [i \in DOMAIN names |-> Col(lay, names[i])]
SOpen == Room /\ \E q \in Pick({x \in Queries : qu[x] = None}), k \in Pick(Whole \cup {0}), star \in Pick(BOOLEAN), s \in Pick(Sels),
                   c \in Pick(Conds), from \in Pick(BOOLEAN) :
    LET cc == IF from THEN "all" ELSE c
        names == IF star THEN IF k = 0 THEN <<>> ELSE Names(FirstLay(k)) ELSE s
        args == <<k, IF star THEN <<"*">> ELSE s, cc, from>>
        ok == k # 0 /\ (k # 0 => \A nm \in Range(names) : Has(FirstLay(k), nm))
    IN IF ~ok THEN Log("sopen", q, args, [ok |-> FALSE]) /\ UNCHANGED <<files, rd, qu, wr>>
       ELSE /\ qu' = [qu EXCEPT ![q] = [state |-> "open", file |-> k, names |-> names, cond |-> cc, pos |-> 0, lay |-> FirstLay(k),
                                       fresh |-> TRUE, seen |-> <<>>]]
            /\ Log("sopen", q, args, [ok |-> TRUE]) /\ UNCHANGED <<files, rd, wr>>
Needed(q) == Range(qu[q].names) \cup (IF qu[q].cond = "all" THEN {} ELSE {"a"})
\* from row p on, with the layout and whether it is fresh: the next row selected, the end (0), or a layout without a column (-1)
Scan(q, p0, lay0, fresh0) ==
    LET f == files[qu[q].file]
        e == Elements(f)
        S[p \in 1..(Len(e) + 1), l \in {lay0} \cup {f[i].lay : i \in DOMAIN f}, fr \in BOOLEAN] ==
            IF p > Len(e) THEN [p |-> 0, lay |-> l, fresh |-> fr]
            ELSE LET adopt == p > 1 /\ e[p][2] = 1
                     ll == IF adopt THEN f[e[p][1]].lay ELSE l
                     ff == fr \/ adopt
                 IN IF adopt /\ \E nm \in Needed(q) : ~Has(ll, nm) THEN [p |-> -1, lay |-> ll, fresh |-> ff]
                    ELSE IF Holds(qu[q].cond, f[e[p][1]].rows[e[p][2]].a) THEN [p |-> p, lay |-> ll, fresh |-> ff]
                    ELSE S[p + 1, ll, ff]
    IN S[p0, lay0, fresh0]
SNext == Room /\ \E q \in Pick({x \in Queries : qu[x].state = "open"}) :
    LET o == qu[q]
        f == files[o.file]
        e == Elements(f)
        w0 == Wordsof(Out(o.names, o.lay))
        x == IF o.pos > Len(e) THEN [p |-> 0, lay |-> o.lay, fresh |-> o.fresh] ELSE Scan(q, o.pos + 1, o.lay, o.fresh)
    IN CASE x.p = 0 -> /\ qu' = [qu EXCEPT ![q].pos = Len(e) + 1, ![q].lay = x.lay, ![q].fresh = x.fresh]
                       /\ Log("snext", q, <<w0>>, [rc |-> 1]) /\ UNCHANGED <<files, rd, wr>>
         [] x.p = -1 -> /\ qu' = [qu EXCEPT ![q].state = "failed"] /\ Log("snext", q, <<w0>>, [rc |-> 2]) /\ UNCHANGED <<files, rd, wr>>
         [] OTHER ->
              LET out == Out(o.names, x.lay) IN
              IF Wordsof(out) > w0
              THEN qu' = [qu EXCEPT ![q].state = "failed"] /\ Log("snext", q, <<w0>>, [rc |-> 2]) /\ UNCHANGED <<files, rd, wr>>
              ELSE /\ qu' = [qu EXCEPT ![q].pos = x.p, ![q].lay = x.lay, ![q].fresh = FALSE, ![q].seen = Append(@, e[x.p])]
                   /\ Log("snext", q, <<w0>>, [rc |-> 0, newds |-> x.fresh, row |-> [RowAt(f, e[x.p]) EXCEPT !.lay = out]])
                   /\ UNCHANGED <<files, rd, wr>>
SCols == Room /\ \E q \in Pick({x \in Queries : qu[x].state = "open"}) :
          Log("scols", q, <<>>, LET o == Out(qu[q].names, qu[q].lay) f == Out(qu[q].names, FirstLay(qu[q].file)) IN
                                 [i \in DOMAIN o |-> [o[i] EXCEPT !.bits = f[i].bits]]) /\ UNCHANGED <<files, rd, qu, wr>>
SMissing == Room /\ \E q \in Pick({x \in Queries : qu[x].state = "open"}), i \in Pick({-1, 0, 1}) :
          Log("smissing", q, <<IF i < 0 THEN -1 ELSE Len(qu[q].names) + i>>, <<>>) /\ UNCHANGED <<files, rd, qu, wr>>
SClose == Room /\ \E q \in Pick({x \in Queries : qu[x] # None}) :
          qu' = [qu EXCEPT ![q] = None] /\ Log("sclose", q, <<>>, <<>>) /\ UNCHANGED <<files, rd, wr>>

-----------------------------------------------------------------------------
(* Rows to be written: n columns are declared, each is described (in any order), then the header, then rows *)
WOpen == Room /\ \E w \in Pick({x \in Writers : wr[x] = None}), how \in Pick({"new", "append", "again"}) :
    LET mine == {k \in (Len(Base) + 1)..Len(files) : ~Reading(k) /\ ~Writing(k)} IN
    IF how = "new" THEN /\ Len(files) < MaxFiles /\ files' = Append(files, <<>>)
                        /\ \E ap \in Pick(BOOLEAN) :
                            /\ wr' = [wr EXCEPT ![w] = [state |-> "open", file |-> Len(files) + 1, lay |-> <<>>, todo |-> {}, rows |-> <<>>]]
                            /\ Log("wopen", w, <<Len(files) + 1, ap>>, <<>>)
                        /\ UNCHANGED <<rd, qu>>
    ELSE \E k \in Pick(mine) :
            /\ files' = IF how = "append" THEN files ELSE [files EXCEPT ![k] = <<>>]
            /\ wr' = [wr EXCEPT ![w] = [state |-> "open", file |-> k, lay |-> <<>>, todo |-> {}, rows |-> <<>>]]
            /\ Log("wopen", w, <<k, how = "append">>, <<>>)
            /\ UNCHANGED <<rd, qu>>
\* the layout decided on; columns are then described one by one
WLayout == Room /\ \E w \in Pick({x \in Writers : wr[x].state = "open"}), l \in Pick(1..6) :
          /\ wr' = [wr EXCEPT ![w].state = "describe", ![w].lay = Lay(l), ![w].todo = DOMAIN Lay(l)]
          /\ Log("wcolumns", w, <<Len(Lay(l))>>, <<>>) /\ UNCHANGED <<files, rd, qu>>
WColumn == Room /\ \E w \in Pick({x \in Writers : wr[x].state = "describe" /\ wr[x].todo # {}}) : \E i \in Pick(wr[w].todo), miss \in Pick(BOOLEAN) :
          /\ wr' = [wr EXCEPT ![w].todo = @ \ {i}]
          /\ Log("wcolumn", w, <<i, miss /\ wr[w].lay[i].type = "int">>, wr[w].lay[i]) /\ UNCHANGED <<files, rd, qu>>
WHeader == Room /\ \E w \in Pick({x \in Writers : (wr[x].state = "describe" /\ wr[x].todo = {}) \/ wr[x].state = "write"}) :
          /\ files' = IF wr[w].rows = <<>> THEN files ELSE [files EXCEPT ![wr[w].file] = Append(@, [lay |-> wr[w].lay, rows |-> wr[w].rows])]
          /\ wr' = [wr EXCEPT ![w].state = "write", ![w].rows = <<>>]
          /\ Log("wheader", w, <<>>, wr[w].lay) /\ UNCHANGED <<rd, qu>>
WRow == Room /\ \E w \in Pick({x \in Writers : wr[x].state = "write"}), a \in Pick({"lo", "hi", "m"}) :
          /\ wr' = [wr EXCEPT ![w].rows = Append(@, [id |-> <<1, Len(log) + 1, 1>>, a |-> a])]
          /\ Log("wrow", w, <<a>>, wr[w].lay) /\ UNCHANGED <<files, rd, qu>>
WClose == Room /\ \E w \in Pick({x \in Writers : wr[x].state \in {"open", "write"}}) :
          /\ files' = IF wr[w].rows = <<>> THEN files ELSE [files EXCEPT ![wr[w].file] = Append(@, [lay |-> wr[w].lay, rows |-> wr[w].rows])]
          /\ wr' = [wr EXCEPT ![w] = None]
          /\ Log("wclose", w, <<>>, <<>>) /\ UNCHANGED <<rd, qu>>

-----------------------------------------------------------------------------
(* What a file has *)
Ask == Room /\ \E k \in Pick({k \in DOMAIN files : ~Writing(k)}), what \in Pick({"count", "blocks"}) :
          /\ Log(what, "", <<k>>, [i \in DOMAIN files[k] |-> Len(files[k][i].rows)]) /\ UNCHANGED <<files, rd, qu, wr>>

Next == \/ "read" \in Ops /\ (ROpen \/ RNext \/ RCols \/ RClose \/ RMissing)
        \/ "next" \in Ops /\ (RNext \/ RCols)
        \/ "scan" \in Ops /\ IF log = <<>> THEN SOpen ELSE SNext
        \/ "select" \in Ops /\ (SOpen \/ SNext \/ SCols \/ SClose \/ SMissing)
        \/ "write" \in Ops /\ (WOpen \/ WLayout \/ WColumn \/ WHeader \/ WRow \/ WClose)
        \/ "ask" \in Ops /\ Ask
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Touched == IF log = <<>> THEN "" ELSE log[Len(log)].it
\* A reader has given the rows of its file from the first on, each once, also after it refused one
InOrder == \A r \in Readers : rd[r] # None => LET e == Elements(files[rd[r].file]) n == Len(rd[r].seen) IN
              /\ n <= Len(e) /\ rd[r].seen = SubSeq(e, 1, n)
              /\ ~rd[r].refused => n = IF rd[r].pos > Len(e) THEN Len(e) ELSE rd[r].pos
\* A query has given the rows for which its condition holds up to where it is
Answer == \A q \in Queries : qu[q].state = "open" => LET f == files[qu[q].file] e == Elements(f)
                                                        p == IF qu[q].pos > Len(e) THEN Len(e) ELSE qu[q].pos IN
              qu[q].seen = SelectSeq(SubSeq(e, 1, p), LAMBDA x : Holds(qu[q].cond, f[x[1]].rows[x[2]].a))
\* What is done with one iterator leaves the others alone
Independent == [][(log' # log) => LET x == log'[Len(log')].it IN
              /\ \A r \in Readers : r = x \/ rd'[r] = rd[r]
              /\ \A q \in Queries : q = x \/ qu'[q] = qu[q]
              /\ \A w \in Writers : w = x \/ wr'[w] = wr[w]]_vars
\* Files are changed by writers only, at their end or from the beginning
Grow == [][\A k \in DOMAIN files : files'[k] = files[k] \/ files'[k] = <<>>
                                   \/ (Len(files'[k]) = Len(files[k]) + 1 /\ SubSeq(files'[k], 1, Len(files[k])) = files[k])]_vars

Emit == (EmitOn /\ Len(log) = MaxSteps) => PrintT("@@" \o ToJson([log |-> log, files |-> files, base |-> Base]))
=============================================================================
