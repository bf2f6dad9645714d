------------------------------ MODULE DocTrace ------------------------------
(* Checks recorded executions of gopdf (TRACE) against the document model: every call with the result it  *)
(* gave and the state it left, every output with all it shows.  Each disagreement is printed; the checks   *)
(* select those that concern their property.                                                              *)
EXTENDS OutCheck

Trace == ndJsonDeserialize(IOEnv.TRACE)

Ar == INSTANCE Arabic
St == INSTANCE Stream

VARIABLES l, st
\* own: owner entries of the protected documents without an owner password, with the document they belong to
\* docs: number of the document -> model, cs: font containers, dg: digest of the last output, cl: no call since
S0 == [prog |-> "", docs |-> [x \in {} |-> NoDoc], cs |-> <<>>, dg |-> [x \in {} |-> ""], cl |-> [x \in {} |-> FALSE], mis |-> <<>>, own |-> {},
       n |-> [progs |-> 0, ops |-> 0, errs |-> 0, outs |-> 0, marks |-> 0, skipped |-> 0, mis |-> 0]]

DocOf(s, k) == IF k \in DOMAIN s.docs THEN s.docs[k] ELSE NoDoc
SetDoc(s, k, d) == [s EXCEPT !.docs = (k :> d) @@ @]
Quiet == {"Output", "Faults", "Reads", "Margins", "Convert", "GlyphQ", "GetInfo", "Opened", "Same", "ToArabic", "ContainerFont"}

\* half the resolution of observed positions, in ticks
Res(d) == d.num \div (20 * d.den) + 1
RetBad(d, r, o) ==
    LET got == o.obs.ret
        n == Len(r.ret)
        Val(i) == CASE o.op \in {"Margins", "Measure", "MeasureH"} -> FromObs(d, got[i])
                    [] o.op \in {"Convert", "PageSizes"} -> Rnd(got[i], 10)
                    [] o.op \in {"IsFit", "IsFitNL"} /\ i = 2 -> FromObs(d, got[i])
                    [] OTHER -> got[i]
        Tl(i) == IF o.op = "GlyphQ" \/ (o.op \in {"IsFit", "IsFitNL"} /\ i = 1) THEN 0 ELSE r.tol + 2 * Res(d) IN
    IF Len(got) # n THEN TRUE
    ELSE \E i \in 1..n : ~(o.op = "IsFit" /\ i = 2 /\ r.ret[i] < 0) /\ ~Near(Val(i), r.ret[i], Tl(i))

TextOps == {"Text", "Cell", "CellOpt", "MultiCell", "MultiCellOpt"}
LastLen(d) == IF d.cur = 0 THEN 0 ELSE LET it == d.pages[d.cur].items n == Len(it) IN IF n > 0 /\ it[n].k = "text" THEN Len(it[n].t) ELSE 0
PosTol(d, o) == 12 + 3 * Res(d) + (IF o.op \in TextOps /\ d.cf > 0 /\ SpAmb(Font(d), d.cs, d.fs10) THEN (8 + d.fs10) * (Len(o.t) + LastLen(d)) ELSE 0)
                + (IF d.num > d.den THEN 4 ELSE 0)
                + (IF o.op \in {"MultiCell", "MultiCellOpt"} THEN Len(o.t) * (2 + Len(o.t) \div 2) ELSE IF o.op = "Table" THEN 100 ELSE 0)

\* position of the model after the call, brought in line with the observed one when the difference is rounding
Sync(d, v, ov, tol) == IF Near(v, ov, Res(d) + 2) THEN v ELSE IF Near(v, ov, tol) THEN ov ELSE ov

\* an operation on document d: [d, mis: set of <<aspect, description>>, sk]
\* a damaged source: refused without a trace, or taken, and then what it shows is not known
Taken(d, cs, o) == IF "mal" \notin DOMAIN o THEN Step(d, cs, o)
                   ELSE IF o.obs.err = 0 THEN Ok([d EXCEPT !.skip = TRUE, !.mal = TRUE])
                   ELSE [Err(d) EXCEPT !.err = o.obs.err]
\* positions beyond these are not recorded
Far(d) == IF d.num >= d.den THEN 60000000 ELSE Min2(60000000, (190000000 \div d.den) * d.num)
OnDoc(d, cs, o) ==
    LET r == Taken(d, cs, o)
        e == r.d
        ob == o.obs
        ox == FromObs(e, ob.x) oy == FromObs(e, ob.y)
        tol == PosTol(e, o)
        pan == ob.panic # ""
        posbad == ~Near(e.x, ox, tol) \/ ~Near(e.y, oy, tol) IN
    IF ~d.on \/ d.skip THEN [d |-> IF pan THEN NoDoc ELSE d, sk |-> 1, mis |-> F(pan, "panic", ob.panic) \cup F(ob.chg # 0, "chg", o.op)]
    ELSE IF pan THEN [d |-> NoDoc, sk |-> 0, mis |-> F(TRUE, "panic", ob.panic)]
    ELSE IF e.skip \/ Abs(e.x) > Far(e) \/ Abs(e.y) > Far(e) THEN [d |-> [e EXCEPT !.skip = TRUE], sk |-> 1, mis |-> F(ob.chg # 0, "chg", o.op)]
    ELSE [d |-> [e EXCEPT !.x = Sync(e, @, ox, tol), !.y = Sync(e, @, oy, tol), !.yex = @ /\ Near(e.y, oy, Res(e) + 2)], sk |-> 0,
          mis |-> F(r.err # ob.err, "err", <<r.err, ob.err, ob.msg>>)
                  \cup F(posbad, "pos", <<e.x, e.y, ox, oy>>)
                  \cup F(Len(e.pages) # ob.np, "np", <<Len(e.pages), ob.np>>)
                  \cup F(\E i \in 1..4 : ~Near(<<e.l, e.t, e.r, e.b>>[i], FromObs(e, ob.mg[i]), 3 + 2 * Res(e)), "mg", <<e.l, e.t, e.r, e.b, ob.mg>>)
                  \cup F(r.cmpret /\ ob.err = 0 /\ RetBad(e, r, o), "ret", <<r.ret, ob.ret>>)
                  \cup F(r.cmplines /\ ob.err = 0 /\ ob.lines # r.lines, "lines", <<r.lines, ob.lines>>)
                  \cup F(r.loose /\ ob.err = 0 /\ LET b == CASE o.kind = "plain" -> BrkOf([has |-> 0]) [] o.kind = "word" -> [mode |-> 1, ind |-> 32, sep |-> <<>>] [] OTHER -> BrkOf(o.brk) IN
                                                  ~Recombines(o.t, ob.lines, b) \/ ~LinesFit(Font(d), ob.lines, U(d, o.w), b, d.fs10, d.cs, 40), "lines", ob.lines)
                  \cup F(r.cmpnf /\ ob.nf # r.nf, "nf", <<r.nf, ob.nf>>)
                  \cup F(ob.chg # 0, "chg", o.op)]

OnOutput(s, d, o) ==
    LET ob == o.obs k == o.d IN
    IF ob.panic # "" THEN [d |-> NoDoc, dg |-> "", marks |-> 0, sk |-> 0, mis |-> F(TRUE, "panic", ob.panic)]
    ELSE IF ob.err # 0 THEN [d |-> d, dg |-> "", marks |-> 0, sk |-> 0, mis |-> F(TRUE, "outerr", ob.msg)]
    ELSE LET again == F(k \in DOMAIN s.dg /\ s.cl[k] /\ s.dg[k] # o.out.dig, "dig", <<s.dg[k], o.out.dig>>)
             still == IF ~d.on \/ d.skip THEN {}
                      ELSE F(~Near(d.x, FromObs(d, ob.x), 20 + 3 * Res(d)) \/ ~Near(d.y, FromObs(d, ob.y), 20 + 3 * Res(d)), "pos", <<d.x, d.y, ob.x, ob.y>>)
                           \cup F(Len(d.pages) # ob.np, "np", <<Len(d.pages), ob.np>>) IN
         IF o.out.light # 0 THEN [d |-> d, dg |-> o.out.dig, marks |-> 0, sk |-> 0, mis |-> again \cup still]
         ELSE IF ~d.on \/ d.skip THEN [d |-> d, dg |-> o.out.dig, marks |-> 0, sk |-> 1, mis |-> FileBad(o.out) \cup F(~d.mal /\ o.out.ibad # <<>>, "file", o.out.ibad) \cup again]
         ELSE LET j == Judge(d, o.out) IN [d |-> d, dg |-> o.out.dig, marks |-> j.marks, sk |-> 0, mis |-> j.bad \cup again \cup still]

\* passwords count with their first 32 bytes, padded
Pad32(p) == IF Len(p) >= 32 THEN SubSeq(p, 1, 32) ELSE p

\* C05: destinations that fail, streamed reads
FaultsBad(o) ==
    LET b == {i \in 1..Len(o.faults) :
               LET f == o.faults[i] lim == Min2(f[1], o.flen) IN
               ~(/\ f[6] = 1 /\ f[5] = lim
                 /\ (f[3] = -1 \/ f[3] = lim)
                 /\ IF f[1] >= o.flen THEN f[4] = 0 ELSE IF f[2] = 1 THEN f[4] # 0 ELSE f[4] = 1)} IN
    F(o.flen < 0, "fault", "no output")
    \cup F(o.flen >= 0 /\ b # {}, "fault", {o.faults[i] : i \in b})
    \cup F(o.flen >= 0 /\ (o.again # 1 \/ o.nofile # 1), "fault", <<o.again, o.nofile>>)
ReadsBad(o) ==
    LET rs == o.reads
        b == {i \in 1..Len(rs) : rs[i][2] < 0 \/ rs[i][2] > rs[i][1] \/ rs[i][3] = 2}
        tot == FoldLeft(LAMBDA s, r : s + r[2], 0, rs) IN
    F(o.flen < 0 \/ o.same # 1 \/ o.got # o.flen \/ tot # o.flen \/ b # {}, "reads", <<o.flen, o.got, b>>)
    \* end of file is reported when and only when everything has been delivered
    \cup LET SumTo(i) == FoldLeft(LAMBDA s, r : s + r[2], 0, SubSeq(rs, 1, i))
             eofs == {i \in 1..Len(rs) : rs[i][3] = 1}
             first == IF eofs = {} THEN 0 ELSE CHOOSE i \in eofs : \A j \in eofs : i <= j IN
         F(o.flen >= 0 /\ (eofs = {} \/ SumTo(first) # o.flen), "reads", <<"end", first>>)
         \cup F(o.flen >= 0 /\ \E i \in 1..Len(rs) : rs[i][1] > 0 /\ rs[i][2] = 0 /\ rs[i][3] = 0, "reads", "nothing read")

\* C05: steps of output and reading; TRUE at the first step that does not agree
StreamBad(o) ==
    LET r == FoldLeftDomain(LAMBDA a, i : IF a.bad # 0 THEN a
                                          ELSE IF St!StepOK(a.st, o.steps[i], o.lens) THEN [a EXCEPT !.st = St!After(@, o.steps[i])]
                                          ELSE [a EXCEPT !.bad = i], [st |-> St!Start, bad |-> 0], o.steps) IN
    F(r.bad # 0, "stream", IF r.bad = 0 THEN <<>> ELSE <<r.bad, r.st, o.steps[r.bad], o.lens>>)

Mis(s, o, ms) == [s EXCEPT !.mis = SetToSeq(ms), !.n.mis = @ + Cardinality(ms)]
Apply(s0, o) ==
    LET s == [s0 EXCEPT !.mis = <<>>, !.n.ops = @ + 1] IN
    CASE o.op = "Program" -> [s EXCEPT !.prog = o.id, !.docs = S0.docs, !.dg = S0.dg, !.cl = S0.cl, !.cs = <<>>, !.n.progs = @ + 1]
      [] o.op = "Parallel" -> Mis([s EXCEPT !.prog = o.id, !.n.outs = @ + Len(o.together)], o,
                                  F(o.alone # o.together \/ o.alone = <<>>, "same", <<o.alone, o.together>>))
      [] o.op = "Start" -> IF o.obs.panic # "" THEN Mis(SetDoc(s, o.d, NoDoc), o, {<<"panic", o.obs.panic>>})
                           ELSE LET nd == NewDoc(o) IN
                                Mis([SetDoc(s, o.d, nd) EXCEPT !.cl = (o.d :> FALSE) @@ @], o,
                                    F(o.obs.np # 0 \/ o.obs.x # 0 \/ o.obs.y # 0, "start", o.obs)
                                    \cup F(\E i \in 1..4 : ~Near(<<nd.l, nd.t, nd.r, nd.b>>[i], FromObs(nd, o.obs.mg[i]), 3 + 2 * Res(nd)), "mg", o.obs.mg)
                                    \cup F(o.obs.chg # 0, "chg", o.op))
      [] o.op = "ContainerFont" -> LET c == ContAdd(s.cs, o) IN
                           Mis([s EXCEPT !.cs = c], o, F(o.obs.panic # "", "panic", o.obs.panic) \cup F((c = s.cs) # (o.obs.err # 0), "err", o.obs.msg))
      [] o.op = "Output" -> LET d == DocOf(s, o.d)
                                r == OnOutput(s, d, o)
                                mine == IF ~d.on \/ d.prot = 0 \/ d.owner # <<>> \/ o.obs.panic # "" \/ o.obs.err # 0 \/ o.out.light # 0 THEN {}
                                        ELSE {<<o.out.encr.o, s.prog, o.d, d.sid>>}
                                \* an owner password made up for one document does not open another
                                shared == {e \in s.own : \E x \in mine : e[1] = x[1] /\ e # x} IN
                           Mis([SetDoc(s, o.d, r.d) EXCEPT !.own = @ \cup mine, !.dg = (o.d :> r.dg) @@ @, !.cl = (o.d :> (r.dg # "")) @@ @,
                                                           !.n.outs = @ + 1, !.n.marks = @ + r.marks, !.n.skipped = @ + r.sk], o, r.mis \cup F(shared # {}, "auth", shared))
      [] o.op = "Same" -> Mis(s, o, F(o.a \notin DOMAIN s.dg \/ o.b \notin DOMAIN s.dg, "same", "no output")
                                    \cup (IF o.a \in DOMAIN s.dg /\ o.b \in DOMAIN s.dg THEN F(s.dg[o.a] # s.dg[o.b], "same", <<o.a, o.b>>) ELSE {}))
      [] o.op = "Faults" -> Mis(s, o, IF o.obs.panic # "" THEN {<<"panic", o.obs.panic>>} ELSE FaultsBad(o))
      [] o.op = "Reads" -> Mis(s, o, IF o.obs.panic # "" THEN {<<"panic", o.obs.panic>>} ELSE ReadsBad(o))
      [] o.op = "Stream" -> Mis([s EXCEPT !.docs = (o.d :> NoDoc) @@ (o.twin :> NoDoc) @@ @], o, IF o.obs.panic # "" THEN {<<"panic", o.obs.panic>>} ELSE StreamBad(o))
      [] o.op = "Opened" -> Mis(s, o, LET d == DocOf(s, o.d) IN
                                IF ~d.on \/ d.prot = 0 THEN {}
                                ELSE F(o.obs.panic # "", "panic", o.obs.panic)
                                     \cup F(o.obs.panic = "" /\ o.obs.ret # <<IF Pad32(o.pass) = Pad32(d.user) THEN 1 ELSE 0,
                                               IF d.owner # <<>> /\ Pad32(o.pass) = Pad32(d.owner) THEN 1 ELSE 0>>, "opened", <<o.pass, o.obs.ret>>))
      [] o.op = "ToArabic" -> Mis(s, o, IF o.obs.panic # "" THEN {<<"panic", o.obs.panic>>}
                                        ELSE LET b == Ar!ShapeBad(o.t, o.obs.lines[1]) IN F(b # <<>>, "shape", b))
      [] OTHER -> LET r == OnDoc(DocOf(s, o.d), s.cs, o) IN
                  Mis([SetDoc(s, o.d, r.d) EXCEPT !.cl = IF o.op \in Quiet THEN @ ELSE (o.d :> FALSE) @@ @,
                                                  !.n.errs = @ + o.obs.err, !.n.skipped = @ + r.sk], o, r.mis)

Report(s, o) == \A i \in 1..Len(s.mis) :
    PrintT("MISMATCH " \o ToJson([prog |-> s.prog, i |-> IF "i" \in DOMAIN o THEN o.i ELSE -1, op |-> o.op, asp |-> s.mis[i][1], det |-> s.mis[i][2]]))

Init == l = 1 /\ st = S0
Next == /\ l <= Len(Trace)
        /\ LET s == Apply(st, Trace[l]) IN Report(s, Trace[l]) /\ st' = s
        /\ l' = l + 1
        /\ (l < Len(Trace) \/ PrintT("STATS " \o ToJson(st'.n)))
Spec == Init /\ [][Next]_<<l, st>>
Done == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
