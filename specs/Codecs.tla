------------------------------- MODULE Codecs -------------------------------
(* One column of one frame: values are gathered (statistics), a codec is chosen from the statistics, every cell is
   encoded to a code word, and the code words are decoded again.  The choice must always be able to represent every
   gathered cell, and no value may collide with the code word reserved for the missing value.

   Symbols.  Integers are offsets (naturals) from an arbitrary base; -1 stands for the missing value.  The base of Kind
   "int" is such that all of the values have 32 bits, that of "wide" that they have more, at least the largest or the
   smallest of them, and that of "huge" that they have more than a double holds exactly.
   Reals are classes numbered in the order of the reals; N is not-a-number, S1/S2 the two values whose 32 bit patterns
   the short codecs reserve, T a value that needs 64 bits.
   Strings are identified by number; nd distinct strings fill a table, `wide` when some need more than 8 bytes.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind,      \* "int" | "wide" | "huge" | "real" | "double" | "string"
          Offsets,   \* integer offsets in use
          Reals,     \* classes in use (Kind = "real"/"double")
          Counts,    \* table sizes (Kind = "string")
          MaxRows, MinRows, Sampled, EmitOn

VARIABLES cells, phase, mn, mx, hasMiss, has1, has2, nd, wide, codec, codes, out
vars == <<cells, phase, mn, mx, hasMiss, has1, has2, nd, wide, codec, codes, out>>

\* the real classes, in the order of the reals (N is not ordered)
NI == 0  S2 == 1  L == 2  Z == 4  S1 == 5  P == 6  T == 7  H == 8  I == 9  N == 99
MissingSym == -1
Unset == -9
NoCode == -99

\* (NI, I: the infinities; H: the largest 32 bit value; L, Z, P: negative, zero, positive)
IsInt == Kind \in {"int", "wide", "huge"}
Values == CASE IsInt -> Offsets \cup {-1}
            [] Kind = "string" -> {}
            [] OTHER -> Reals \cup {-1}

Init == /\ cells = <<>> /\ phase = "gather" /\ mn = Unset /\ mx = Unset /\ hasMiss = FALSE /\ has1 = FALSE
        /\ has2 = FALSE /\ codec = "none" /\ codes = <<>> /\ out = <<>>
        /\ IF Kind = "string" THEN nd \in Counts /\ wide \in BOOLEAN ELSE nd = 0 /\ wide = FALSE

IsNaN(v) == ~IsInt /\ v = N
Less(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ a < b

\* One value of the column enters the statistics
GatherOne(v) ==
    /\ cells' = Append(cells, v)
    /\ IF v = MissingSym
       THEN hasMiss' = TRUE /\ UNCHANGED <<mn, mx>>
       ELSE /\ hasMiss' = hasMiss
            /\ mn' = IF mn = Unset \/ Less(v, mn) \/ IsNaN(v) THEN v ELSE mn
            /\ mx' = IF mx = Unset \/ Less(mx, v) \/ IsNaN(v) THEN v ELSE mx
    /\ has1' = (has1 \/ (Kind = "real" /\ v = S1))
    /\ has2' = (has2 \/ (Kind = "real" /\ v = S2))

Gather ==
    /\ phase = "gather" /\ Kind # "string" /\ Len(cells) < MaxRows
    /\ IF Sampled THEN GatherOne(RandomElement(Values)) ELSE \E v \in Values : GatherOne(v)
    /\ UNCHANGED <<phase, nd, wide, codec, codes, out>>

Const == mn = mx /\ ~IsNaN(mn)
Choose ==
    /\ phase = "gather" /\ (Kind = "string" \/ (Len(cells) > 0 /\ Len(cells) >= MinRows))
    /\ codec' =
         CASE IsInt ->
                LET n == IF mn = Unset THEN 0 ELSE mx - mn
                    full == IF Kind = "int" THEN "int32" ELSE "reject" IN
                IF Kind = "huge" /\ mn # Unset THEN "reject"
                ELSE IF hasMiss
                THEN IF n = 0 THEN "constant_or_missing" ELSE IF n < 255 THEN "int8_missing"
                     ELSE IF n < 65535 THEN "int16_missing" ELSE full
                ELSE IF n = 0 THEN "constant" ELSE IF n <= 255 THEN "int8"
                     ELSE IF n <= 65535 THEN "int16" ELSE full
           [] Kind = "real" ->
                IF Const THEN (IF hasMiss THEN "real_constant_or_missing" ELSE "constant")
                ELSE IF has1 /\ has2 THEN "long_real"
                ELSE IF has2 THEN "short_real" ELSE "short_real2"
           [] Kind = "double" ->
                IF Const THEN (IF hasMiss THEN "real_constant_or_missing" ELSE "constant") ELSE "long_real"
           [] OTHER ->
                IF nd = 1 /\ ~wide THEN "constant_string"
                ELSE IF nd < 256 THEN "int8_string" ELSE IF nd < 65536 THEN "int16_string" ELSE "reject"
    /\ phase' = IF codec' = "reject" THEN "done" ELSE "encode"
    /\ UNCHANGED <<cells, mn, mx, hasMiss, has1, has2, nd, wide, codes, out>>

\* Integer code words; reals keep their class as code word, except for the reserved one
Marker == CASE codec \in {"constant_or_missing", "int8_missing", "real_constant_or_missing"} -> 255
            [] codec = "int16_missing" -> 65535
            [] OTHER -> NoCode
Limit == CASE codec \in {"constant_or_missing", "int8_missing", "int8", "real_constant_or_missing", "int8_string"} -> 255
           [] codec \in {"int16_missing", "int16", "int16_string"} -> 65535
           [] OTHER -> 2147483647

Code(v) ==
    CASE codec \in {"constant", "constant_string"} -> 0
      [] codec \in {"constant_or_missing", "real_constant_or_missing"} -> IF v = MissingSym THEN 255 ELSE 0
      [] codec \in {"int8_missing", "int16_missing"} -> IF v = MissingSym THEN Marker ELSE v - mn
      [] codec \in {"int8", "int16"} -> v - mn
      [] codec \in {"int8_string", "int16_string"} -> v
      [] codec = "int32" -> v
      [] codec = "short_real" -> IF v = MissingSym THEN S1 ELSE v
      [] codec = "short_real2" -> IF v = MissingSym THEN S2 ELSE v
      [] OTHER -> v

Decode(c) ==
    CASE codec \in {"constant", "constant_string"} -> IF Kind = "string" THEN 0 ELSE mn
      [] codec \in {"constant_or_missing", "real_constant_or_missing"} ->
            IF c = 255 THEN MissingSym ELSE IF mn = Unset THEN MissingSym ELSE mn
      [] codec \in {"int8_missing", "int16_missing"} -> IF c = Marker THEN MissingSym ELSE c + mn
      [] codec \in {"int8", "int16"} -> c + mn
      [] codec = "short_real" -> IF c = S1 THEN MissingSym ELSE c
      [] codec = "short_real2" -> IF c = S2 THEN MissingSym ELSE c
      [] OTHER -> c

Input == IF Kind = "string" THEN (IF nd = 1 THEN <<0>> ELSE <<0, nd - 1>>) ELSE cells

Encode == /\ phase = "encode" /\ codes' = [i \in 1..Len(Input) |-> Code(Input[i])] /\ phase' = "decode"
          /\ UNCHANGED <<cells, mn, mx, hasMiss, has1, has2, nd, wide, codec, out>>
DecodeAll == /\ phase = "decode" /\ out' = [i \in 1..Len(codes) |-> Decode(codes[i])] /\ phase' = "done"
             /\ UNCHANGED <<cells, mn, mx, hasMiss, has1, has2, nd, wide, codec, codes>>

Next == Gather \/ Choose \/ Encode \/ DecodeAll
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
IntCodes == codec \in {"constant_or_missing", "int8_missing", "int16_missing", "int8", "int16",
                       "real_constant_or_missing", "int8_string", "int16_string"}
Fits == (phase = "decode" /\ IntCodes) => \A i \in 1..Len(codes) : codes[i] >= 0 /\ codes[i] <= Limit
MarkerUnambiguous == (phase = "decode" /\ IntCodes /\ Marker # NoCode) =>
                        \A i \in 1..Len(codes) : (codes[i] = Marker) <=> (Input[i] = MissingSym)
\* A 64 bit value is only kept exactly by codecs of 64 bits; REAL columns promise 32 bits only
RoundTrip == (phase = "done" /\ codec # "reject") => out = Input
RejectOnlyWhenFull == codec = "reject" => CASE Kind = "string" -> nd > 65535
                                            [] Kind = "wide" -> mx - mn >= 65535
                                            [] OTHER -> Kind = "huge"

Emit == (EmitOn /\ phase = "done") =>
           PrintT("@@" \o ToJson([kind |-> Kind, cells |-> cells, codec |-> codec, nd |-> nd, wide |-> wide]))
=============================================================================
