------------------------------ MODULE MCStream ------------------------------
(* Every sequence of steps on a small document (file ALPHA: alpha, depth, greedy).  What a reader relies    *)
(* on: since the last restart it has been given a prefix of one version, and end of file comes at its end.  *)
EXTENDS Stream, TLC, Json, IOUtils
A == JsonDeserialize(IOEnv.ALPHA)
VARIABLES st, got, eof, hist, cnt
L(v) == 5 + v
Lens == [v \in 1..20 |-> L(v)]
File(v) == [i \in 1..L(v) |-> <<v, i>>]
\* sizes in the alphabet: [k, m]: m sixths of a byte count, 7: more than all
Size(m) == IF m = 7 THEN 100 ELSE m
Init == st = Start /\ got = <<>> /\ eof = FALSE /\ hist = <<>> /\ cnt = -1
Reading(n) ==
    \E k \in 0..100, e \in 0..1 :
        /\ k <= Min(n, Lens[Source(st)] - st.pos) /\ ReadOK(st, n, k, e, Lens)
        /\ (A.greedy = 1 => (k = Min(n, Lens[Source(st)] - st.pos) /\ (e = 1 <=> (k = 0 /\ n > 0))))
        /\ got' = got \o SubSeq(File(Source(st)), st.pos + 1, st.pos + k)
        /\ eof' = (eof \/ (e = 1)) /\ st' = AfterRead(st, k) /\ cnt' = -1
Next == /\ Len(hist) < A.depth
        /\ \E i \in 1..Len(A.alpha) :
             LET k == A.alpha[i][1] n == Size(A.alpha[i][2]) IN
             /\ hist' = Append(hist, i)
             /\ CASE k = RD -> Reading(n)
                  [] k = CHANGE -> st' = Changed(st) /\ UNCHANGED <<got, eof>> /\ cnt' = -1
                  [] OTHER -> st' = Restart(st) /\ got' = <<>> /\ eof' = FALSE /\ cnt' = (IF k = CLOSE THEN -1 ELSE Takes(k, n, L(st.v)))
             /\ (A.greedy = 0 \/ Len(hist') < A.depth \/ PrintT("SEQ " \o ToJson(hist')))
Spec == Init /\ [][Next]_<<st, got, eof, hist, cnt>>
Prefix == st.snap > 0 => got = SubSeq(File(st.snap), 1, st.pos)
End == eof => (st.snap > 0 /\ st.pos = L(st.snap) /\ got = File(st.snap))
Nothing == st.snap = 0 => (got = <<>> /\ st.pos = 0)
Count == cnt <= L(st.v)
Inv == Prefix /\ End /\ Nothing /\ Count
=============================================================================
