------------------------------ MODULE Listing ------------------------------
(* What the tools that list a file report: `count` adds up the rows of the frames of any number of files, `header` lists
   the position, length and rows of each frame, `index` makes one entry for each run of rows of one report number
   within a frame.  Modelled is a walk over the headers of the files (count, header) and over the rows of each frame
   (index).  A frame is the sequence of the report numbers of its rows; it takes HeadLen + Len bytes.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxFiles, MaxFrames, MaxRows, Seqnos, Sampled, EmitOn

HeadLen == 10
VARIABLES files, pc, fi, pos, fr, row, total, list, index, run

vars == <<files, pc, fi, pos, fr, row, total, list, index, run>>

Pick(S) == IF Sampled THEN {RandomElement(S)} ELSE S
Frames(n) == UNION {[1..k -> Seqnos] : k \in 0..n}
Size(f) == HeadLen + Len(f)
FileLen(s) == LET L[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE L[i - 1] + Size(s[i]) IN L[Len(s)]
NoRun == [s |-> 0, n |-> 0]

Init == /\ files = <<>> /\ pc = "write" /\ fi = 1 /\ pos = 0 /\ fr = 1 /\ row = 1 /\ total = 0
        /\ list = <<>> /\ index = <<>> /\ run = NoRun

NewFile == /\ pc = "write" /\ Len(files) < MaxFiles /\ files' = Append(files, <<>>)
           /\ UNCHANGED <<pc, fi, pos, fr, row, total, list, index, run>>
AddFrame ==
    /\ pc = "write" /\ files # <<>> /\ Len(files[Len(files)]) < MaxFrames
    /\ \E k \in Pick(0..MaxRows) : \E f \in (IF Sampled THEN {[i \in 1..k |-> RandomElement(Seqnos)]} ELSE [1..k -> Seqnos]) :
          files' = [files EXCEPT ![Len(files)] = Append(@, f)]
    /\ UNCHANGED <<pc, fi, pos, fr, row, total, list, index, run>>
Start == /\ pc = "write" /\ files # <<>> /\ pc' = "header"
         /\ list' = [i \in 1..Len(files) |-> <<>>] /\ index' = [i \in 1..Len(files) |-> <<>>]
         /\ UNCHANGED <<files, fi, pos, fr, row, total, run>>

Cur == files[fi][fr]

ReadHeader ==
    /\ pc = "header" /\ fi <= Len(files) /\ fr <= Len(files[fi])
    /\ total' = total + Len(Cur)
    /\ list' = [list EXCEPT ![fi] = Append(@, [at |-> pos, len |-> Size(Cur), n |-> Len(Cur)])]
    /\ row' = 1 /\ run' = NoRun /\ pc' = "rows"
    /\ UNCHANGED <<files, fi, pos, fr, index>>

Entry == [at |-> pos, len |-> Size(Cur), f |-> fr, s |-> run.s, n |-> run.n]

ReadRow ==
    /\ pc = "rows" /\ row <= Len(Cur)
    /\ IF run.n > 0 /\ run.s = Cur[row]
       THEN run' = [run EXCEPT !.n = @ + 1] /\ UNCHANGED index
       ELSE /\ run' = [s |-> Cur[row], n |-> 1]
            /\ index' = IF run.n > 0 THEN [index EXCEPT ![fi] = Append(@, Entry)] ELSE index
    /\ row' = row + 1
    /\ UNCHANGED <<files, pc, fi, pos, fr, total, list>>

EndFrame ==
    /\ pc = "rows" /\ row > Len(Cur)
    /\ index' = IF run.n > 0 THEN [index EXCEPT ![fi] = Append(@, Entry)] ELSE index
    /\ pos' = pos + Size(Cur) /\ fr' = fr + 1 /\ pc' = "header" /\ run' = NoRun
    /\ UNCHANGED <<files, fi, row, total, list>>

EndFile ==
    /\ pc = "header" /\ fi <= Len(files) /\ fr > Len(files[fi])
    /\ fi' = fi + 1 /\ fr' = 1 /\ pos' = 0
    /\ pc' = IF fi = Len(files) THEN "done" ELSE "header"
    /\ UNCHANGED <<files, row, total, list, index, run>>

Next == NewFile \/ AddFrame \/ Start \/ ReadHeader \/ ReadRow \/ EndFrame \/ EndFile
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RowsOf(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE S[i - 1] + Len(s[i]) IN S[Len(s)]
RowsOfList(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE S[i - 1] + s[i].n IN S[Len(s)]
Total(fs) == LET S[i \in 0..Len(fs)] == IF i = 0 THEN 0 ELSE S[i - 1] + RowsOf(fs[i]) IN S[Len(fs)]

Counted == pc = "done" => total = Total(files)
\* The frames listed are contiguous and cover the file
Covers == pc = "done" => \A f \in DOMAIN files :
    /\ Len(list[f]) = Len(files[f])
    /\ \A i \in DOMAIN list[f] : list[f][i].at = (IF i = 1 THEN 0 ELSE list[f][i - 1].at + list[f][i - 1].len)
    /\ list[f] # <<>> => list[f][Len(list[f])].at + list[f][Len(list[f])].len = FileLen(files[f])
\* The index accounts for each row of each frame once, in order
Expand(es) == LET S[i \in 0..Len(es)] == IF i = 0 THEN <<>> ELSE S[i - 1] \o [j \in 1..es[i].n |-> es[i].s] IN S[Len(es)]
Of(f, i) == SelectSeq(index[f], LAMBDA e : e.f = i)
IndexExact == pc = "done" => \A f \in DOMAIN files : \A i \in DOMAIN files[f] :
    /\ Expand(Of(f, i)) = files[f][i]
    /\ \A j \in DOMAIN Of(f, i) : Of(f, i)[j].at = list[f][i].at /\ Of(f, i)[j].len = list[f][i].len /\ Of(f, i)[j].n > 0
\* ... with as few entries as possible
IndexMinimal == pc = "done" => \A f \in DOMAIN files : \A i \in DOMAIN files[f] :
    \A j \in 1..(Len(Of(f, i)) - 1) : Of(f, i)[j].s # Of(f, i)[j + 1].s

Emit == (EmitOn /\ pc = "done") =>
    PrintT("@@" \o ToJson([files |-> files, total |-> total, index |-> index]))
=============================================================================
