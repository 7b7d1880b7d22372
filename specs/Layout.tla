------------------------------ MODULE Layout ------------------------------
(* Where the cells of a decoder and of an encoder of the C API lie in memory.  Addresses and widths are in words of 8
   bytes; a cell of column i in row r has the words k = 0 .. E-1, word k at  base + r * rs + (k \div ck) * cks + (k % ck)
   of its region: "array" (one rectangle of w x h words for all columns without memory of their own) or "own" (the
   memory given for column i).
   A decoder or encoder is a configuration changed by calls in any order and used any number of times; the addresses
   depend on the configuration only.                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, MaxCols, MaxRowsSet, MaxSize, MaxSteps, MinUses, Sampled, EmitOn

VARIABLES pc, rows, cm, arr, fromArr, cols, log, uses
vars == <<pc, rows, cm, arr, fromArr, cols, log, uses>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
\* The frames a decoder is used on: rows and widths of the columns
Frames == <<[n |-> 2, w |-> <<1, 2, 1>>], [n |-> 3, w |-> <<2, 1, 1, 3>>], [n |-> 1, w |-> <<1, 1, 1>>],
            [n |-> 0, w |-> <<1, 1, 2>>], [n |-> 3, w |-> <<1, 3, 2>>]>>

NoArr == [on |-> FALSE, w |-> 0, h |-> 0, c |-> 0]
NoOwn == [on |-> FALSE, off |-> 0, stride |-> 0]
Init == pc = "run" /\ rows = 0 /\ cm = FALSE /\ arr = NoArr /\ fromArr = FALSE /\ cols = <<>> /\ log = <<>> /\ uses = 0

Max(a, b) == IF a > b THEN a ELSE b
Sum(s, n) == LET F[i \in 0..n] == IF i = 0 THEN 0 ELSE F[i - 1] + s[i] IN F[n]

-----------------------------------------------------------------------------
\* Decoding
Elem(i, f) == LET c == cols[i] IN
    IF c.size # 0 THEN c.size ELSE IF c.own.on THEN 1 ELSE f.w[c.c]
InArray(i) == ~cols[i].own.on
ArrayWidths(f) == [i \in DOMAIN cols |-> IF InArray(i) THEN Elem(i, f) ELSE 0]
Width(f) == Sum(ArrayWidths(f), Len(cols))
Known(f) == \A i \in DOMAIN cols : cols[i].c <= Len(f.w)
DecodeOk(f) ==
    /\ f.n <= rows
    /\ Known(f)
    /\ \A i, j \in DOMAIN cols : i # j => cols[i].c # cols[j].c
    /\ \A i \in DOMAIN cols : Elem(i, f) >= f.w[cols[i].c]
    /\ (arr.on /\ rows # 0 /\ Width(f) # 0) => (Width(f) <= arr.w /\ rows <= arr.h)
W(f) == IF arr.on THEN arr.w ELSE Width(f)
H == IF arr.on THEN arr.h ELSE rows
DecodePlace(i, f) ==
    LET e == Elem(i, f) IN LET o == cols[i].own IN
    IF o.on THEN [reg |-> "own", base |-> o.off, rs |-> IF o.stride = 0 THEN e ELSE o.stride, e |-> e, ck |-> e, cks |-> 0]
    ELSE IF cm THEN [reg |-> "array", base |-> Sum(ArrayWidths(f), i - 1) * H, rs |-> 1, e |-> e, ck |-> 1, cks |-> H]
    ELSE [reg |-> "array", base |-> Sum(ArrayWidths(f), i - 1), rs |-> W(f), e |-> e, ck |-> e, cks |-> 0]

\* Encoding
ESize(i) == IF cols[i].size = 0 THEN 1 ELSE cols[i].size
EWidths == [i \in DOMAIN cols |-> ESize(i)]
EncodeOk ==
    /\ rows > 0 /\ cols # <<>>
    /\ arr.on => /\ \A i \in DOMAIN cols : ~cols[i].own.on
                 /\ rows <= arr.h /\ Sum(EWidths, Len(cols)) <= arr.w
                 /\ arr.c # 0 => \A i \in DOMAIN cols : ESize(i) % arr.c = 0
    /\ ~arr.on => \A i \in DOMAIN cols : cols[i].own.on
EncodePlace(i) ==
    LET e == ESize(i) IN LET o == cols[i].own IN
    IF o.on THEN [reg |-> "own", base |-> o.off, rs |-> IF o.stride = 0 THEN e ELSE o.stride, e |-> e, ck |-> e, cks |-> 0]
    ELSE IF arr.c # 0 THEN [reg |-> "array", base |-> Sum(EWidths, i - 1) * arr.h, rs |-> arr.c, e |-> e, ck |-> arr.c,
                            cks |-> arr.h * arr.c]
    ELSE [reg |-> "array", base |-> Sum(EWidths, i - 1), rs |-> arr.w, e |-> e, ck |-> e, cks |-> 0]

Addr(p, r, k) == p.base + r * p.rs + (k \div p.ck) * p.cks + (k % p.ck)

-----------------------------------------------------------------------------
Rec(act) == [act |-> act, i |-> 0, a |-> 0, b |-> 0, c |-> 0, ok |-> TRUE, n |-> 0, place |-> <<>>, h |-> 0, w |-> 0]
Do(r) == log' = Append(log, r)
Can == pc = "run" /\ Len(log) < MaxSteps

AddCol == /\ Can /\ Len(cols) < MaxCols
          /\ \E c \in Pick(1..4) :
               /\ Mode = "encode" => c = 1
               /\ cols' = Append(cols, [c |-> c, size |-> 0, own |-> NoOwn])
               /\ Do([Rec("add") EXCEPT !.i = c])
          /\ UNCHANGED <<pc, rows, cm, arr, fromArr, uses>>
SetRows == /\ Can /\ \E n \in Pick(0..MaxRowsSet) : rows' = n /\ Do([Rec("rows") EXCEPT !.a = n])
           /\ fromArr' = FALSE /\ UNCHANGED <<pc, cm, arr, cols, uses>>
SetMajor == /\ Can /\ Mode = "decode" /\ cm' = ~cm /\ Do([Rec("major") EXCEPT !.a = IF cm THEN 0 ELSE 1])
            /\ UNCHANGED <<pc, rows, arr, fromArr, cols, uses>>
\* A width for a column without memory of its own
SetSize == /\ Can /\ \E i \in Pick({j \in DOMAIN cols : Mode = "encode" \/ ~cols[j].own.on}), s \in Pick(0..MaxSize) :
                       cols' = [cols EXCEPT ![i].size = s] /\ Do([Rec("size") EXCEPT !.i = i, !.a = s])
           /\ UNCHANGED <<pc, rows, cm, arr, fromArr, uses>>
\* Memory for one column; stride 0 means packed.  Cells that overlap are possible for an encoder only.
SetOwn == /\ Can /\ \E i \in Pick(DOMAIN cols), s \in Pick(0..MaxSize), t \in Pick(0..MaxSize + 1), o \in Pick(0..1) :
                      /\ Mode = "decode" => (t = 0 \/ t >= Max(s, 1))
                      /\ cols' = [cols EXCEPT ![i].size = s, ![i].own = [on |-> TRUE, off |-> o, stride |-> t]]
                      /\ Do([Rec("own") EXCEPT !.i = i, !.a = s, !.b = t, !.c = o])
          /\ UNCHANGED <<pc, rows, cm, arr, fromArr, uses>>
SetArr == /\ Can
          /\ \E w \in Pick(1..MaxSize * 3), h \in Pick(1..MaxRowsSet),
                c \in (IF Mode = "decode" THEN Pick({0, 1}) ELSE Pick({0, 1, 2})) :
               /\ arr' = [on |-> TRUE, w |-> w, h |-> h, c |-> c]
               /\ Do([Rec("array") EXCEPT !.a = w, !.b = h, !.c = c])
               /\ IF Mode = "decode" THEN rows' = h /\ cm' = (c = 1) /\ UNCHANGED <<fromArr, cols>>
                  ELSE /\ rows' = IF rows = 0 \/ fromArr THEN h ELSE rows
                       /\ fromArr' = (rows = 0 \/ fromArr)
                       \* an array given again replaces the memory of the columns
                       /\ cols' = IF arr.on THEN [i \in DOMAIN cols |-> [cols[i] EXCEPT !.own = NoOwn]] ELSE cols
                       /\ UNCHANGED cm
          /\ UNCHANGED <<pc, uses>>
Decode == /\ Can /\ Mode = "decode"
          /\ \E k \in Pick(DOMAIN Frames) : LET f == Frames[k] IN
               Do([Rec("decode") EXCEPT !.i = k, !.ok = DecodeOk(f), !.n = f.n, !.h = H, !.w = IF DecodeOk(f) THEN W(f) ELSE 0,
                   !.place = IF DecodeOk(f) THEN [i \in DOMAIN cols |-> DecodePlace(i, f)] ELSE <<>>])
          /\ uses' = uses + 1 /\ UNCHANGED <<pc, rows, cm, arr, fromArr, cols>>
Encode == /\ Can /\ Mode = "encode"
          /\ Do([Rec("encode") EXCEPT !.ok = EncodeOk, !.n = rows, !.h = arr.h, !.w = arr.w,
                 !.place = IF EncodeOk THEN [i \in DOMAIN cols |-> EncodePlace(i)] ELSE <<>>])
          /\ uses' = uses + 1 /\ UNCHANGED <<pc, rows, cm, arr, fromArr, cols>>

Next == AddCol \/ SetRows \/ SetMajor \/ SetSize \/ SetOwn \/ SetArr \/ Decode \/ Encode
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Last == log[Len(log)]
Used == log # <<>> /\ Last.act \in {"decode", "encode"} /\ Last.ok
Cells == {<<i, r, k>> : i \in DOMAIN Last.place, r \in 0..(Last.n - 1), k \in 0..(MaxSize - 1)}
At(x) == LET p == Last.place[x[1]] IN Addr(p, x[2], x[3])
Real(x) == x[3] < Last.place[x[1]].e
\* Every word of a cell in the array lies in the array
InBounds == Used => \A x \in Cells : (Real(x) /\ Last.place[x[1]].reg = "array") => At(x) \in 0..(Last.w * Last.h - 1)
\* No two cells share a word, nor two words of a cell
Disjoint == (Used /\ Last.act = "decode") => \A x, y \in Cells :
    (Real(x) /\ Real(y) /\ x # y /\ Last.place[x[1]].reg = Last.place[y[1]].reg /\
     (Last.place[x[1]].reg = "array" \/ x[1] = y[1])) => At(x) # At(y)
\* Packed rows of a row-major array are contiguous
Packed == (Used /\ Last.act = "decode" /\ ~arr.on /\ ~cm) => \A i \in DOMAIN Last.place :
    Last.place[i].reg = "array" => Last.place[i].rs = Sum([j \in DOMAIN cols |-> IF InArray(j) THEN Last.place[j].e ELSE 0], Len(cols))
Emit == (EmitOn /\ Len(log) = MaxSteps /\ uses >= MinUses) =>
    PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
