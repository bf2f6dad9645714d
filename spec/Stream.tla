------------------------------- MODULE Stream -------------------------------
(* A document as a source of bytes: reads with buffers of any size, destinations of any patience, other    *)
(* outputs and changes in between.  State: v, the version of the document, and where reading stands: snap   *)
(* = 0: nothing read since the last restart, else reading version snap of which pos bytes are delivered.    *)
(* A step is [k, n]: kind and size; len gives the length of each version.                                   *)
EXTENDS Integers, Sequences

RD == 0 CLOSE == 1 TO == 2 FAIL == 3 SHORT == 4 ONCE == 5 WRITE == 6 BYTES == 7 FILE == 8 CHANGE == 9
Min(a, b) == IF a < b THEN a ELSE b
Start == [v |-> 1, snap |-> 0, pos |-> 0]

\* reading version
Source(st) == IF st.snap = 0 THEN st.v ELSE st.snap
\* a read with a buffer of n bytes may give k bytes and say end of file (e = 1) or not
ReadOK(st, n, k, e, len) ==
    LET rem == len[Source(st)] - st.pos IN
    /\ k >= 0 /\ k <= Min(n, rem)
    /\ (n > 0 /\ rem > 0 => k > 0)
    /\ e \in {0, 1} /\ (e = 1 => k = rem) /\ (n > 0 /\ rem = 0 => e = 1)
AfterRead(st, k) == [st EXCEPT !.snap = Source(st), !.pos = @ + k]

\* a write to a destination taking n bytes: bytes accepted, counted (-1: not counted), error (0 none, 1 the destination's, 2 another)
Takes(k, n, l) == IF k \in {FAIL, SHORT, ONCE, WRITE} THEN Min(n, l) ELSE l
WriteOK(st, k, n, acc, ret, e, len) ==
    LET l == len[st.v] full == k \notin {FAIL, SHORT, ONCE, WRITE} \/ n >= l IN
    /\ acc = Takes(k, n, l)
    /\ ret = (IF k = WRITE THEN -1 ELSE acc)
    /\ (IF full THEN e = 0 ELSE IF k = SHORT THEN e # 0 ELSE e = 1)
\* every output and Close let reading start over
Restart(st) == [st EXCEPT !.snap = 0, !.pos = 0]
Changed(st) == [st EXCEPT !.v = @ + 1]

\* the recorded step s on st agrees: the bytes seen are those of version m[1] from m[2] on for some m in s.m
At(ms, v, p) == \E i \in 1..Len(ms) : ms[i] = <<v, p>>
StepOK(st, s, len) ==
    CASE s.k = RD -> ReadOK(st, s.n, s.ret, s.ek, len) /\ At(s.m, Source(st), st.pos)
      [] s.k = CLOSE -> s.ek = 0
      [] s.k = CHANGE -> TRUE
      [] OTHER -> WriteOK(st, s.k, s.n, s.acc, s.ret, s.ek, len) /\ At(s.m, st.v, 0)
After(st, s) == CASE s.k = RD -> AfterRead(st, s.ret) [] s.k = CHANGE -> Changed(st) [] OTHER -> Restart(st)
=============================================================================
