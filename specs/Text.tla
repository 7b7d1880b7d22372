-------------------------------- MODULE Text --------------------------------
(* What the tools that show a file as text print: `odc ls`, `odc sql`, `odc xyv` and `odc header -ddl`.  A file is a
   sequence of frames, each with a layout and a number of rows; a tool walks over the frames of the section it was asked
   for and prints lines: the names of columns, or a row as the cells of some columns.  Layouts differ in the order of their
   columns (2), by a column (3), by the width of strings only (4), by what is not shown in a heading at all (5: missing
   values, members of bitfields, encodings).                                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Layouts, MaxFrames, MaxRows, Tools, Sampled, EmitOn

VARIABLES file, pc, tool, opt, fr, row, heading, cols, out
vars == <<file, pc, tool, opt, fr, row, heading, cols, out>>

Pick(S) == IF Sampled THEN {RandomElement(S)} ELSE S

Names(l) == CASE l = 2 -> <<"q", "y", "p", "s", "x">>
              [] l = 3 -> <<"p", "q", "s", "x", "y", "t">>
              [] OTHER -> <<"p", "q", "s", "x", "y">>
Wide(l) == l = 4
Range(s) == {s[i] : i \in DOMAIN s}
\* Must be announced anew / may be announced anew
Differs(k, l) == k = 0 \/ (k # 0 /\ Names(IF k = 0 THEN l ELSE k) # Names(l))
MayDiffer(k, l) == Differs(k, l) \/ Wide(k) # Wide(l)

NoOpt == [title |-> TRUE, sel |-> "all", from |-> 1, to |-> 1]

Init == /\ file = <<>> /\ pc = "write" /\ tool = "-" /\ opt = NoOpt /\ fr = 1 /\ row = 1
        /\ heading = 0 /\ cols = <<>> /\ out = <<>>

AddFrame ==
    /\ pc = "write" /\ Len(file) < MaxFrames
    /\ \E l \in Pick(Layouts) : \E n \in Pick(0..MaxRows) : file' = Append(file, [lay |-> l, n |-> n])
    /\ UNCHANGED <<pc, tool, opt, fr, row, heading, cols, out>>

Start ==
    /\ pc = "write" /\ file # <<>>
    /\ \E t \in Pick(Tools) : \E ti \in Pick(BOOLEAN) : \E s \in Pick({"all", "some"}) :
       \E lo \in Pick(1..Len(file)) : \E hi \in Pick(lo..Len(file)) :
          LET o == IF t = "sql" THEN [title |-> ti, sel |-> s, from |-> lo, to |-> hi]
                   ELSE [NoOpt EXCEPT !.to = Len(file)]
              rows == \E i \in o.from..o.to : file[i].n > 0
          IN /\ (t = "sql" \/ (ti /\ s = "all" /\ lo = 1 /\ hi = 1) \/ Sampled)
             /\ (t \in {"sql", "xyv"} => rows)
             /\ tool' = t /\ opt' = o /\ fr' = o.from /\ pc' = "frame"
    /\ UNCHANGED <<file, row, heading, cols, out>>

Cur == file[fr]

\* The columns a query shows of its section, given the first frame that has rows
Chosen(l) == IF tool = "xyv" THEN <<"x", "y", "q">> ELSE IF opt.sel = "some" THEN <<"s", "q">> ELSE Names(l)

LsFrame ==
    /\ tool = "ls" /\ cols' = Names(Cur.lay)
    /\ IF Cur.n = 0 THEN UNCHANGED <<heading, out>>
       ELSE LET say == [k |-> "names", cols |-> cols', may |-> ~Differs(heading, Cur.lay)] IN
            IF MayDiffer(heading, Cur.lay) THEN /\ out' = Append(out, say) /\ heading' = Cur.lay
            ELSE UNCHANGED <<heading, out>>
    /\ pc' = "rows" /\ UNCHANGED fr

DdlFrame ==
    /\ tool = "ddl" /\ cols' = Names(Cur.lay)
    /\ IF MayDiffer(heading, Cur.lay)
       THEN /\ out' = Append(out, [k |-> "table", cols |-> cols', frame |-> fr, may |-> ~Differs(heading, Cur.lay)])
            /\ heading' = Cur.lay
       ELSE UNCHANGED <<heading, out>>
    /\ pc' = "frame" /\ fr' = fr + 1

QueryFrame ==
    /\ tool \in {"sql", "xyv"}
    /\ IF Cur.n = 0 THEN pc' = "rows" /\ UNCHANGED <<heading, cols, out>>
       ELSE IF cols = <<>>
       THEN /\ cols' = Chosen(Cur.lay) /\ heading' = Cur.lay /\ pc' = "rows"
            /\ out' = IF tool = "sql" /\ opt.title
                      THEN Append(out, [k |-> "names", cols |-> cols', frame |-> fr, may |-> FALSE]) ELSE out
       ELSE \* a column that is shown is not there any more
            /\ pc' = IF Range(cols) \subseteq Range(Names(Cur.lay)) THEN "rows" ELSE "failed"
            /\ UNCHANGED <<heading, cols, out>>
    /\ UNCHANGED fr

EnterFrame == /\ pc = "frame" /\ fr <= opt.to /\ row' = 1
              /\ (LsFrame \/ DdlFrame \/ QueryFrame)
              /\ UNCHANGED <<file, tool, opt>>
PrintRow == /\ pc = "rows" /\ row <= Cur.n
            /\ out' = Append(out, [k |-> "row", f |-> fr, r |-> row, cols |-> cols])
            /\ row' = row + 1 /\ UNCHANGED <<file, pc, tool, opt, fr, heading, cols>>
LeaveFrame == /\ pc = "rows" /\ row > Cur.n /\ pc' = "frame" /\ fr' = fr + 1
              /\ UNCHANGED <<file, tool, opt, row, heading, cols, out>>
Finish == /\ pc = "frame" /\ fr > opt.to /\ pc' = "done"
          /\ UNCHANGED <<file, tool, opt, fr, row, heading, cols, out>>

Next == AddFrame \/ Start \/ EnterFrame \/ PrintRow \/ LeaveFrame \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RowLines == SelectSeq(out, LAMBDA e : e.k = "row")
\* All rows of the frames i..j, in order
RowsOf(i, j) == LET S[f \in (i - 1)..j] == IF f < i THEN <<>>
                        ELSE S[f - 1] \o [r \in 1..file[f].n |-> <<f, r>>] IN S[j]
\* Each row of the section is printed, once and in order; if the tool fails, those of the frames before are
RowsOnce == (pc = "done" /\ tool # "ddl") =>
    [i \in DOMAIN RowLines |-> <<RowLines[i].f, RowLines[i].r>>] = RowsOf(opt.from, opt.to)
RowsBefore == pc = "failed" => [i \in DOMAIN RowLines |-> <<RowLines[i].f, RowLines[i].r>>] = RowsOf(opt.from, fr - 1)
\* The last names printed before a row are those of its cells
Titled == \A i \in DOMAIN out : (out[i].k = "row" /\ tool \in {"ls", "sql"} /\ opt.title) =>
    \E j \in 1..(i - 1) : /\ out[j].k = "names" /\ out[j].cols = out[i].cols
                          /\ \A m \in (j + 1)..(i - 1) : out[m].k = "row"
OneTitle == tool = "sql" => Cardinality({i \in DOMAIN out : out[i].k = "names"}) = (IF opt.title /\ cols # <<>> THEN 1 ELSE 0)
\* Cells are of columns the row has
CellsExist == \A i \in DOMAIN out : out[i].k = "row" => Range(out[i].cols) \subseteq Range(Names(file[out[i].f].lay))
\* Each frame's columns are in a table
Tables == (pc = "done" /\ tool = "ddl") =>
    \A i \in DOMAIN file : \E j \in DOMAIN out : out[j].k = "table" /\ out[j].cols = Names(file[i].lay)

Emit == (EmitOn /\ pc \in {"done", "failed"}) =>
    PrintT("@@" \o ToJson([file |-> file, tool |-> tool, opt |-> opt, out |-> out, failed |-> pc = "failed"]))
=============================================================================
