------------------------------- MODULE Split -------------------------------
(* The dispatching writer.  Every row goes to the file named by its key; several keys may name the same file.  At most
   max files are open at a time: another one is opened in the place of the one used least recently, which is closed,
   and is appended to when it is opened again.  Rows wait in the open files, and are written when the definition of the
   columns changes and when the file is closed.
   Files are written in sessions, one after the other.  The first time a session opens a file it replaces what was
   there, or appends to it if the session is an appending one.  Files no row belongs to are left alone.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Defs, MaxOpens, MaxRows, MaxActs, MaxSessions, Sampled, EmitOn

VARIABLES pc, share, append, max, def, slots, disk, created, rows, acts, sessions, was
vars == <<pc, share, append, max, def, slots, disk, created, rows, acts, sessions, was>>

Pick(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
Name(k) == IF share /\ k = 2 THEN 1 ELSE k
Names == {Name(k) : k \in Keys}
Act(a, x) == acts' = Append(acts, [act |-> a, arg |-> x])
Last == Len(acts) = MaxActs - 1

\* slots: [name, waiting, used] for the open files; disk: the rows of every file, absent files are not in its domain
Init == /\ pc = "closed" /\ append = FALSE /\ max = 1 /\ def = 1 /\ slots = <<>> /\ created = {} /\ rows = <<>>
        /\ share \in BOOLEAN /\ disk = [x \in {} |-> <<>>] /\ was = disk
        /\ acts = <<>> /\ sessions = 0

Open == /\ pc = "closed" /\ sessions < MaxSessions /\ ~Last
        /\ \E a \in Pick(BOOLEAN), m \in Pick(MaxOpens), kind \in Pick({"rows", "pass"}), d \in Pick(Defs) :
             /\ append' = a /\ max' = m /\ def' = d
             /\ Act("open", [append |-> a, max |-> m, kind |-> kind, def |-> d])
        /\ sessions' = sessions + 1 /\ pc' = "open" /\ created' = {} /\ was' = disk
        /\ UNCHANGED <<share, slots, disk, rows>>

Write(d, s) == [d EXCEPT ![s.name] = @ \o s.waiting]
RECURSIVE WriteAll(_, _)
WriteAll(d, ss) == IF ss = <<>> THEN d ELSE WriteAll(Write(d, ss[1]), SubSeq(ss, 2, Len(ss)))
Least == CHOOSE i \in DOMAIN slots : \A j \in DOMAIN slots : slots[i].used <= slots[j].used

Row == /\ pc = "open" /\ ~Last /\ Len(rows) < MaxRows
       /\ \E k \in Pick(Keys) :
            LET r == Len(rows) + 1
                n == Name(k)
                new == [name |-> n, waiting |-> <<r>>, used |-> r]
                open == {i \in DOMAIN slots : slots[i].name = n}
                opened(d) == IF n \in DOMAIN d /\ (append \/ n \in created) THEN d
                             ELSE [x \in DOMAIN d \cup {n} |-> IF x = n THEN <<>> ELSE d[x]]
            IN /\ Act("row", k)
               /\ rows' = Append(rows, [key |-> k, def |-> def, session |-> sessions])
               /\ created' = created \cup {n}
               /\ IF open # {}
                  THEN LET i == CHOOSE i \in open : TRUE IN
                       /\ slots' = [slots EXCEPT ![i].waiting = Append(@, r), ![i].used = r]
                       /\ disk' = disk
                  ELSE IF Len(slots) < max
                  THEN /\ slots' = Append(slots, new)
                       /\ disk' = opened(disk)
                  ELSE /\ slots' = [slots EXCEPT ![Least] = new]
                       /\ disk' = opened(Write(disk, slots[Least]))
       /\ UNCHANGED <<pc, share, append, max, def, sessions, was>>

Define == /\ pc = "open" /\ ~Last
          /\ \E d \in Pick(Defs \ {def}) : def' = d /\ Act("define", d)
          /\ disk' = WriteAll(disk, slots)
          /\ slots' = [i \in DOMAIN slots |-> [slots[i] EXCEPT !.waiting = <<>>]]
          /\ UNCHANGED <<pc, share, append, max, created, rows, sessions, was>>

Close == /\ pc = "open"
         /\ Act("close", 0)
         /\ disk' = WriteAll(disk, slots)
         /\ slots' = <<>> /\ pc' = "closed"
         /\ UNCHANGED <<share, append, max, def, created, rows, sessions, was>>

Next == Open \/ Row \/ Define \/ Close
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
OpenNames == {slots[i].name : i \in DOMAIN slots}
Bounded == Len(slots) <= max /\ Cardinality(OpenNames) = Len(slots)
Waiting(n) == IF n \in OpenNames THEN slots[CHOOSE i \in DOMAIN slots : slots[i].name = n].waiting ELSE <<>>
RECURSIVE OfSession(_, _)
OfSession(n, i) == IF i = 0 THEN <<>>
                   ELSE OfSession(n, i - 1) \o (IF rows[i].session = sessions /\ Name(rows[i].key) = n THEN <<i>> ELSE <<>>)
\* Every file has the rows of the session it names, in order, after those it had if these are kept
Routed == sessions > 0 =>
    /\ DOMAIN disk = DOMAIN was \cup created
    /\ created = {Name(rows[i].key) : i \in {j \in DOMAIN rows : rows[j].session = sessions}}
    /\ \A n \in DOMAIN disk :
         disk[n] \o Waiting(n) = (IF n \in DOMAIN was /\ (append \/ n \notin created) THEN was[n] ELSE <<>>) \o OfSession(n, Len(rows))
Complete == pc = "closed" => slots = <<>>

Pairs(f) == {[name |-> n, rows |-> f[n]] : n \in DOMAIN f}
Emit == (EmitOn /\ pc = "closed" /\ sessions > 0 /\ (sessions = MaxSessions \/ Len(acts) = MaxActs)) =>
    PrintT("@@" \o ToJson([share |-> share, acts |-> acts, disk |-> Pairs(disk), created |-> created]))
=============================================================================
