------------------------------- MODULE Merge -------------------------------
(* odc merge: row i of the output has the columns of row i of the first input, then those of the second, and so on, for
   as long as every input has rows.  An input is a file, or a query on a file that keeps the rows whose A is "a".
   The tool defines the output's columns again when a frame of any input begins, writes what is buffered first if they
   are others, and refuses inputs with a column of the same name.
   Signatures: 1 = the column A of the input; 2 = its columns A and B; 3 = its A with another width or type;
   4 = A and the column A of the first input (refused in any other than the first).                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxInputs, MaxFrames, MaxRows, Sigs, Vals, Sampled, EmitOn

VARIABLES pc, ins, sql, iter, cur, fresh, pending, out
vars == <<pc, ins, sql, iter, cur, fresh, pending, out>>

Pick(S) == IF Sampled THEN {RandomElement(S)} ELSE S
Wide(s) == s \in {2, 4}

Init == /\ pc = "build" /\ ins = <<<<>>>> /\ sql = FALSE /\ iter = <<>> /\ cur = <<>> /\ fresh = FALSE
        /\ pending = <<>> /\ out = <<>>

RowSet == [a : Vals, b : Vals]
AddFrame ==
    /\ pc = "build" /\ Len(ins[Len(ins)]) < MaxFrames
    /\ \E s \in Pick(Sigs), n \in Pick(0..MaxRows) :
        \E r \in (IF Sampled THEN {[i \in 1..n |-> RandomElement(RowSet)]} ELSE [1..n -> RowSet]) :
            ins' = [ins EXCEPT ![Len(ins)] = Append(@, [sig |-> s, rows |-> r])]
    /\ UNCHANGED <<pc, sql, iter, cur, fresh, pending, out>>

\* A file has at least one frame
NextInput == /\ pc = "build" /\ Len(ins) < MaxInputs /\ ins[Len(ins)] # <<>> /\ ins' = Append(ins, <<>>)
             /\ UNCHANGED <<pc, sql, iter, cur, fresh, pending, out>>

\* the rows an input delivers, each with its signature and whether a frame begins with it
Rows(f, q) ==
    LET F[i \in 0..Len(f)] == IF i = 0 THEN <<>> ELSE
            F[i - 1] \o [j \in DOMAIN f[i].rows |-> [sig |-> f[i].sig, r |-> f[i].rows[j], f |-> i]]
    IN SelectSeq(F[Len(f)], LAMBDA x : ~q \/ x.r.a = "a")
Marked(s) == [i \in DOMAIN s |-> [sig |-> s[i].sig, r |-> s[i].r, new |-> i = 1 \/ s[i].f # s[i - 1].f]]

Start == /\ pc = "build" /\ Len(ins) >= 2 /\ ins[Len(ins)] # <<>> /\ (Sampled => Len(ins) = MaxInputs \/ RandomElement(1..6) = 1)
         /\ \E q \in Pick(BOOLEAN) :
              /\ q => \A k \in DOMAIN ins : \A i \in DOMAIN ins[k] : ins[k][i].sig = ins[k][1].sig
              /\ sql' = q
              /\ iter' = [k \in DOMAIN ins |-> Marked(Rows(ins[k], q))]
         /\ pc' = "run"
         /\ UNCHANGED <<ins, cur, fresh, pending, out>>

Clash(sigs) == \E k \in 2..Len(sigs) : sigs[k] = 4
Sigs1 == [k \in DOMAIN iter |-> iter[k][1].sig]
AllHave == \A k \in DOMAIN iter : iter[k] # <<>>
NewFrame == \E k \in DOMAIN iter : iter[k][1].new

Redefine ==
    /\ pc = "run" /\ AllHave /\ ~fresh /\ (NewFrame \/ cur = <<>>)
    /\ IF Clash(Sigs1) THEN pc' = "error" /\ UNCHANGED <<cur, pending, out, fresh>>
       ELSE /\ IF cur = Sigs1 THEN UNCHANGED <<cur, pending, out>>
               ELSE /\ out' = IF pending = <<>> THEN out ELSE Append(out, [sigs |-> cur, rows |-> pending])
                    /\ pending' = <<>> /\ cur' = Sigs1
            /\ fresh' = TRUE /\ UNCHANGED pc
    /\ UNCHANGED <<ins, sql, iter>>

Pair ==
    /\ pc = "run" /\ AllHave /\ (fresh \/ (~NewFrame /\ cur # <<>>))
    /\ pending' = Append(pending, [k \in DOMAIN iter |-> iter[k][1].r])
    /\ iter' = [k \in DOMAIN iter |-> SubSeq(iter[k], 2, Len(iter[k]))]
    /\ fresh' = FALSE
    /\ UNCHANGED <<pc, ins, sql, cur, out>>

Finish ==
    /\ pc = "run" /\ ~AllHave
    /\ out' = IF pending = <<>> THEN out ELSE Append(out, [sigs |-> cur, rows |-> pending])
    /\ pending' = <<>> /\ pc' = "done"
    /\ UNCHANGED <<ins, sql, iter, cur, fresh>>

Next == AddFrame \/ NextInput \/ Start \/ Redefine \/ Pair \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
MinLen(s) == LET L == {Len(s[k]) : k \in DOMAIN s} IN CHOOSE x \in L : \A y \in L : x <= y
All == [k \in DOMAIN ins |-> Rows(ins[k], sql)]
Flat == LET F[i \in 0..Len(out)] == IF i = 0 THEN <<>> ELSE
                F[i - 1] \o [j \in DOMAIN out[i].rows |-> [sigs |-> out[i].sigs, r |-> out[i].rows[j]]]
        IN F[Len(out)] \o [j \in DOMAIN pending |-> [sigs |-> cur, r |-> pending[j]]]
Row(i) == [sigs |-> [k \in DOMAIN ins |-> All[k][i].sig], r |-> [k \in DOMAIN ins |-> All[k][i].r]]
\* What is written is the pairing, and all of it
Paired == pc # "build" => \A i \in DOMAIN Flat : i <= MinLen(All) /\ Flat[i] = Row(i)
Complete == pc = "done" => Len(Flat) = MinLen(All)
Refused == pc = "error" => \E i \in 1..MinLen(All) : Clash(Row(i).sigs)
Accepted == pc = "done" => \A i \in 1..MinLen(All) : ~Clash(Row(i).sigs)

Emit == (EmitOn /\ pc \in {"done", "error"}) =>
    PrintT("@@" \o ToJson([ins |-> ins, sql |-> sql, err |-> pc = "error", out |-> out]))
=============================================================================
