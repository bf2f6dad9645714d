------------------------------ MODULE Imaging ------------------------------
(* What a page shows.  Two machines share one graphics state (attributes, transformation, clip):      *)
(*  - Image: runs the operators found in a page of the file, using the resources of the file;          *)
(*  - Render (in module GoPdfDoc): runs the abstract items the document model put on the page.         *)
(* Both give the list of marks painted, in device space (ticks, origin at the lower left).             *)
EXTENDS Arith, SequencesExt, FiniteSets, TLC

Col(k, n, v) == [k |-> k, n |-> n, v |-> v]
GrayCol(v) == Col("rgb", "", <<v, v, v>>)
Black == GrayCol(0)

\* the graphics state
GS0 == [ctm |-> Id, fc |-> Black, sc |-> Black, lw |-> 10000, dash |-> [a |-> <<>>, p |-> 0],
        ca |-> 100000, CA |-> 100000, bm |-> "Normal", sm |-> <<>>, clip |-> <<>>,
        fn |-> "", fs |-> 0, tc |-> 0, csf |-> "", css |-> "", rt |-> 0]
M0 == [g |-> GS0, stack |-> <<>>, under |-> 0, marks |-> <<>>, bad |-> <<>>,
       path |-> <<>>, pend |-> "", bt |-> FALSE, tm |-> <<0, 0>>, tl |-> <<0, 0>>]

Bad(s, why) == [s EXCEPT !.bad = Append(@, why)]
Push(s) == [s EXCEPT !.stack = Append(@, s.g)]
Pop(s) == IF s.stack = <<>> THEN [s EXCEPT !.under = @ + 1]
          ELSE [s EXCEPT !.g = s.stack[Len(s.stack)], !.stack = SubSeq(@, 1, Len(@) - 1)]

---------------------------------------------------------------------------
\* paths: sequences of subpaths [s: start, g: segments (2 numbers: line, 6: curve), cl: closed]
MapPts(m, p) == IF Len(p) = 2 THEN ApplyM(m, p[1], p[2])
                ELSE ApplyM(m, p[1], p[2]) \o ApplyM(m, p[3], p[4]) \o ApplyM(m, p[5], p[6])
MapSub(m, sp) == [s |-> ApplyM(m, sp.s[1], sp.s[2]), g |-> [i \in 1..Len(sp.g) |-> MapPts(m, sp.g[i])], cl |-> sp.cl]
MapPath(m, ps) == [i \in 1..Len(ps) |-> MapSub(m, ps[i])]
Poly(pts, closed) == [s |-> pts[1], g |-> Tail(pts), cl |-> closed]
RectSub(x, y, w, h) == Poly(<< <<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x, y + h>> >>, 1)

AllLines(sp) == \A i \in 1..Len(sp.g) : Len(sp.g[i]) = 2
Pts(sp) == <<sp.s>> \o sp.g
NearPt(p, q, tol) == Near(p[1], q[1], tol) /\ Near(p[2], q[2], tol)
\* a closed polygon without a repeated last point
ClosedPts(sp) == LET p == Pts(sp) n == Len(p) IN
                 IF n > 1 /\ NearPt(p[1], p[n], 60) THEN SubSeq(p, 1, n - 1) ELSE p
SamePts(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearPt(a[i], b[i], tol)
SameCycle(a, b, tol) ==
    /\ Len(a) = Len(b)
    /\ LET n == Len(a) IN
       \/ \E r \in 0..n-1 : NearPt(a[1], b[r + 1], tol) /\ \A i \in 1..n : NearPt(a[i], b[((i - 1 + r) % n) + 1], tol)
       \/ \E r \in 0..n-1 : NearPt(a[1], b[r + 1], tol) /\ \A i \in 1..n : NearPt(a[i], b[((r - (i - 1) + n) % n) + 1], tol)
\* without the points that repeat the one before them
Apart(p, near) == LET q == FoldLeft(LAMBDA s, x : IF s # <<>> /\ NearPt(s[Len(s)], x, near) THEN s ELSE Append(s, x), <<>>, p) n == Len(q) IN
            IF n > 1 /\ NearPt(q[1], q[n], near) THEN SubSeq(q, 1, n - 1) ELSE q
Readings(sp) == {Pts(sp), ClosedPts(sp), Apart(Pts(sp), 60), Apart(Pts(sp), 200)}
IsClosed(sp, fill) == (sp.cl = 1 \/ fill) /\ Len(sp.g) > 1
SameSub(a, b, fill, tol) ==
    IF AllLines(a) /\ AllLines(b) THEN
        IF IsClosed(a, fill) # IsClosed(b, fill) THEN FALSE
        ELSE IF IsClosed(a, fill) THEN \/ SameCycle(ClosedPts(a), ClosedPts(b), tol)
                                        \/ \E p \in Readings(a), q \in Readings(b) : SameCycle(p, q, tol)
        ELSE SamePts(Pts(a), Pts(b), tol) \/ SamePts(Pts(a), Reverse(Pts(b)), tol)
    ELSE /\ Len(a.g) = Len(b.g)
         /\ NearPt(a.s, b.s, tol)
         /\ \A i \in 1..Len(a.g) : Len(a.g[i]) = Len(b.g[i]) /\ \A k \in 1..Len(a.g[i]) : Near(a.g[i][k], b.g[i][k], tol)
SamePath(a, b, fill, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameSub(a[i], b[i], fill, tol)

PathMark(g, ps, paint, tol) ==
    [k |-> "path", sub |-> ps, paint |-> paint, lw |-> g.lw, dash |-> g.dash, sc |-> g.sc, fc |-> g.fc,
     ca |-> g.ca, CA |-> g.CA, bm |-> g.bm, sm |-> g.sm, clip |-> g.clip, tol |-> tol]

---------------------------------------------------------------------------
\* resources of the file, prepared for lookups
Pick(S, c) == CHOOSE e \in S : e[1] = c
FnOf(seq, F(_)) == LET S == {seq[i] : i \in 1..Len(seq)} IN [c \in {e[1] : e \in S} |-> F(Pick(S, c))]
PrepFont(f) == LET W(e) == e[2] U(e) == Tail(e) G(e) == e[2] A(e) == e[3] IN
    [n |-> f.n, id |-> f.id, base |-> f.base, upem |-> f.upem, fd |-> f.fd, progs |-> f.progs,
     w |-> FnOf(f.w, W), tu |-> FnOf(f.tu, U), gl |-> FnOf(f.gl, G), adv |-> FnOf(f.gl, A)]
ByName(seq) == [n \in {seq[i].n : i \in 1..Len(seq)} |-> seq[CHOOSE i \in 1..Len(seq) : seq[i].n = n]]
PrepRes(r) == [fonts |-> ByName([i \in 1..Len(r.fonts) |-> PrepFont(r.fonts[i])]), xo |-> ByName(r.xo),
               gs |-> ByName(r.gs), cs |-> ByName(r.cs),
               grps |-> [id \in {r.grps[i].id : i \in 1..Len(r.grps)} |-> r.grps[CHOOSE i \in 1..Len(r.grps) : r.grps[i].id = id]]]
Has(f, x) == x \in DOMAIN f
Get(f, x, dflt) == IF x \in DOMAIN f THEN f[x] ELSE dflt

T5(a) == Rnd(a, 10)      \* number of the file (times 100000) in ticks

Glyphs(s, o, R) ==
    IF ~Has(R.fonts, s.g.fn) THEN Bad(s, "text without font")
    ELSE LET f == R.fonts[s.g.fn]
             fs10 == s.g.fs \div 1000
             Next(st, i) ==      \* st: [x, ms]
                 LET x1 == st.x - (o.k[i] * fs10) \div 100
                     c == o.t[i] IN
                 IF c = -1 THEN [st EXCEPT !.x = x1]
                 ELSE LET p == ApplyM(s.g.ctm, x1, s.tm[2])
                          w == Get(f.w, c, -1) IN
                      [x |-> x1 + (IF w < 0 THEN 0 ELSE w * fs10) + s.g.tc,
                       ms |-> Append(st.ms,
                         [k |-> "glyph", x |-> p[1], y |-> p[2], m |-> SubSeq(s.g.ctm, 1, 4), u |-> Get(f.tu, c, <<-9>>),
                          h |-> Get(f.gl, c, "none"), w |-> w, a |-> Get(f.adv, c, -1), fs |-> s.g.fs, fd |-> f.fd, pr |-> f.progs, col |-> s.g.fc, ca |-> s.g.ca,
                          bm |-> s.g.bm, sm |-> s.g.sm, clip |-> s.g.clip, tol |-> 0])]
             r == FoldLeftDomain(LAMBDA st, i : Next(st, i), [x |-> s.tm[1], ms |-> <<>>], o.t) IN
         [s EXCEPT !.marks = @ \o r.ms, !.tm = <<r.x, @[2]>>]

AddSeg(s, pts) == IF s.path = <<>> THEN Bad(s, "segment without start")
                  ELSE [s EXCEPT !.path[Len(s.path)].g = Append(@, MapPts(s.g.ctm, pts))]
ClosePath(s) == IF s.path = <<>> THEN Bad(s, "close without path") ELSE [s EXCEPT !.path[Len(s.path)].cl = 1]
EndPath(s) ==
    [s EXCEPT !.g.clip = IF s.pend = "" THEN @ ELSE Append(@, s.path), !.pend = "", !.path = <<>>]
Paint(s, paint) ==
    LET ps == SelectSeq(s.path, LAMBDA sp : sp.g # <<>>) IN
    EndPath(IF ps = <<>> THEN s ELSE [s EXCEPT !.marks = Append(@, PathMark(s.g, ps, paint, 0))])

SetCol(s, fill, c) == IF fill THEN [s EXCEPT !.g.fc = c] ELSE [s EXCEPT !.g.sc = c]
SpotCol(R, n) == IF Has(R.cs, n) /\ R.cs[n].kind = "Separation" THEN LET c == R.cs[n] IN Col("spot:" \o c.alt, c.name, c.c1)
                 ELSE Col("spot?", n, <<>>)

\* operators the drawing of a page may use; the rest is reported
RECURSIVE Image(_, _, _)
ApplyGs(s, n, R) ==
    IF ~Has(R.gs, n) THEN Bad(s, "graphics state " \o n)
    ELSE LET e == R.gs[n]
             s1 == [s EXCEPT !.g.ca = IF e.ca >= 0 THEN e.ca ELSE @, !.g.CA = IF e.CA >= 0 THEN e.CA ELSE @,
                             !.g.bm = IF e.bm # "" THEN e.bm ELSE @] IN
         IF e.sm = "" THEN s1
         ELSE IF e.sm = "None" THEN [s1 EXCEPT !.g.sm = <<>>]
         ELSE IF ~Has(R.grps, e.grp) THEN Bad(s1, "soft mask group")
         ELSE LET grp == R.grps[e.grp]
                  r == Image(grp.ops, R, [M0 EXCEPT !.g.ctm = s.g.ctm]) IN
              [s1 EXCEPT !.g.sm = << [ty |-> e.sm, cs |-> grp.cs, ok |-> grp.ok, marks |-> r.marks, box |-> grp.bbox, straight |-> s.g.ctm = Id, e |-> s.g.ctm[5], f |-> s.g.ctm[6]] >>,
                         !.bad = @ \o r.bad \o (IF r.stack # <<>> \/ r.under # 0 THEN <<"mask group does not balance">> ELSE <<>>)]

Op1(s, o, R) ==
    LET a == o.a n == Len(o.a) IN
    CASE o.o = "q" -> Push(s)
      [] o.o = "Q" -> Pop(s)
      [] o.o = "cm" /\ n = 6 -> [s EXCEPT !.g.ctm = Mul(<<a[1], a[2], a[3], a[4], T5(a[5]), T5(a[6])>>, @)]
      [] o.o = "w" /\ n = 1 -> [s EXCEPT !.g.lw = T5(a[1])]
      [] o.o = "d" /\ n = 1 -> [s EXCEPT !.g.dash = [a |-> [i \in 1..Len(o.t) |-> T5(o.t[i])], p |-> T5(a[1])]]
      [] o.o \in {"J", "j", "M", "i"} /\ n = 1 -> s
      [] o.o = "g" /\ n = 1 -> SetCol(s, TRUE, GrayCol(a[1]))
      [] o.o = "G" /\ n = 1 -> SetCol(s, FALSE, GrayCol(a[1]))
      [] o.o = "rg" /\ n = 3 -> SetCol(s, TRUE, Col("rgb", "", a))
      [] o.o = "RG" /\ n = 3 -> SetCol(s, FALSE, Col("rgb", "", a))
      [] o.o = "k" /\ n = 4 -> SetCol(s, TRUE, Col("cmyk", "", a))
      [] o.o = "K" /\ n = 4 -> SetCol(s, FALSE, Col("cmyk", "", a))
      [] o.o = "cs" -> [s EXCEPT !.g.csf = o.n]
      [] o.o = "CS" -> [s EXCEPT !.g.css = o.n]
      [] o.o \in {"scn", "sc"} -> IF a = <<100000>> THEN SetCol(s, TRUE, SpotCol(R, s.g.csf)) ELSE Bad(s, "tint")
      [] o.o \in {"SCN", "SC"} -> IF a = <<100000>> THEN SetCol(s, FALSE, SpotCol(R, s.g.css)) ELSE Bad(s, "tint")
      [] o.o = "gs" -> ApplyGs(s, o.n, R)
      [] o.o = "m" /\ n = 2 -> [s EXCEPT !.path = Append(@, [s |-> ApplyM(s.g.ctm, T5(a[1]), T5(a[2])), g |-> <<>>, cl |-> 0])]
      [] o.o = "l" /\ n = 2 -> AddSeg(s, <<T5(a[1]), T5(a[2])>>)
      [] o.o = "c" /\ n = 6 -> AddSeg(s, [i \in 1..6 |-> T5(a[i])])
      [] o.o = "h" -> ClosePath(s)
      [] o.o = "re" /\ n = 4 -> [s EXCEPT !.path = Append(@, MapSub(s.g.ctm, RectSub(T5(a[1]), T5(a[2]), T5(a[3]), T5(a[4]))))]
      [] o.o \in {"W", "W*"} -> [s EXCEPT !.pend = o.o]
      [] o.o = "n" -> EndPath(s)
      [] o.o = "S" -> Paint(s, "S")
      [] o.o = "s" -> Paint(ClosePath(s), "S")
      [] o.o \in {"f", "F"} -> Paint(s, "F")
      [] o.o = "B" -> Paint(s, "B")
      [] o.o = "b" -> Paint(ClosePath(s), "B")
      [] o.o = "BT" -> IF s.bt THEN Bad(s, "BT in BT") ELSE [s EXCEPT !.bt = TRUE, !.tm = <<0, 0>>, !.tl = <<0, 0>>]
      [] o.o = "ET" -> IF ~s.bt THEN Bad(s, "ET without BT") ELSE [s EXCEPT !.bt = FALSE]
      [] o.o \in {"TD", "Td"} /\ n = 2 -> LET p == <<s.tl[1] + T5(a[1]), s.tl[2] + T5(a[2])>> IN [s EXCEPT !.tl = p, !.tm = p]
      [] o.o = "Tm" /\ n = 6 /\ a[1] = 100000 /\ a[2] = 0 /\ a[3] = 0 /\ a[4] = 100000 ->
            LET p == <<T5(a[5]), T5(a[6])>> IN [s EXCEPT !.tl = p, !.tm = p]
      [] o.o = "Tf" /\ n = 1 -> IF Has(R.fonts, o.n) THEN [s EXCEPT !.g.fn = o.n, !.g.fs = T5(a[1])] ELSE Bad(s, "font " \o o.n)
      [] o.o = "Tc" /\ n = 1 -> [s EXCEPT !.g.tc = T5(a[1])]
      [] o.o \in {"TJ", "Tj"} -> IF s.bt THEN Glyphs(s, o, R) ELSE Bad(s, "text outside BT")
      [] o.o = "Do" ->
            IF ~Has(R.xo, o.n) THEN Bad(s, "object " \o o.n)
            ELSE LET x == R.xo[o.n] g == s.g IN
                 IF x.k = "Image" THEN
                   [s EXCEPT !.marks = Append(@, [k |-> "img", m |-> g.ctm, pix |-> x.pix, alpha |-> x.alpha, id |-> x.id,
                        ca |-> g.ca, CA |-> g.CA, bm |-> g.bm, sm |-> g.sm, clip |-> g.clip, tol |-> 0])]
                 ELSE IF x.k = "Form" THEN
                   [s EXCEPT !.marks = Append(@, [k |-> "form", m |-> g.ctm, dig |-> x.dig, bbox |-> x.bbox, fm |-> x.matrix,
                        ca |-> g.ca, CA |-> g.CA, bm |-> g.bm, sm |-> g.sm, clip |-> g.clip, tol |-> 0])]
                 ELSE Bad(s, "object " \o o.n)
      [] OTHER -> Bad(s, "operator " \o o.o)

Image(ops, R, s0) == LET r == FoldLeft(LAMBDA s, o : Op1(s, o, R), s0, ops) IN
                     IF r.bt THEN Bad(r, "BT without ET") ELSE IF r.path # <<>> THEN Bad(r, "path not painted") ELSE r

---------------------------------------------------------------------------
(* How text is cut into runs is not visible: within a stretch of glyphs and underlines the glyphs are     *)
(* listed first and underlines that touch are joined.                                                      *)
Thin(m) == /\ m.k = "path" /\ m.paint = "F" /\ Len(m.sub) = 1 /\ AllLines(m.sub[1]) /\ Len(m.sub[1].g) = 3
           /\ LET p == Pts(m.sub[1]) IN
              /\ Near(p[1][2], p[2][2], 60) /\ Near(p[3][2], p[4][2], 60) /\ Near(p[1][1], p[4][1], 60) /\ Near(p[2][1], p[3][1], 60)
              /\ Abs(p[1][2] - p[3][2]) < 20000
\* a filled spot that cannot be seen
Spot(m) == /\ m.k = "path" /\ m.paint = "F" /\ Len(m.sub) = 1 /\ AllLines(m.sub[1])
           /\ \A i \in 1..Len(m.sub[1].g) : NearPt(m.sub[1].g[i], m.sub[1].s, 280)
ThinBox(m) == LET p == Pts(m.sub[1]) IN << Min2(p[1][1], p[3][1]), Min2(p[1][2], p[3][2]), Max2(p[1][1], p[3][1]), Max2(p[1][2], p[3][2]) >>
JoinThin(rs, m, dy) ==
    IF rs = <<>> \/ dy = 0 THEN Append(rs, m)
    ELSE LET a == rs[Len(rs)] ba == ThinBox(a) bb == ThinBox(m) IN
         IF Near(ba[2], bb[2], dy) /\ Near(ba[4], bb[4], dy) /\ Near(ba[3], bb[1], 2500) /\ a.fc = m.fc /\ a.clip = m.clip /\ a.ca = m.ca
         THEN [rs EXCEPT ![Len(rs)].sub = << RectSub(ba[1], ba[2], bb[3] - ba[1], ba[4] - ba[2]) >>]
         ELSE Append(rs, m)
Flush(st) == [out |-> st.out \o st.g \o st.r, g |-> <<>>, r |-> <<>>]
Normal(marks, dy) ==
    LET Next(st, m) == IF Spot(m) \/ (Thin(m) /\ ThinBox(m)[3] - ThinBox(m)[1] < 100) THEN st
                       ELSE IF m.k = "glyph" THEN [st EXCEPT !.g = Append(@, m)]
                       ELSE IF Thin(m) THEN [st EXCEPT !.r = JoinThin(@, m, dy)]
                       ELSE LET f == Flush(st) IN [f EXCEPT !.out = Append(@, m)] IN
    Flush(FoldLeft(Next, [out |-> <<>>, g |-> <<>>, r |-> <<>>], marks)).out

---------------------------------------------------------------------------
\* comparison of expected and observed marks: the aspects in which they differ
SameCol(a, b) == /\ a.k = b.k /\ a.n = b.n /\ Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : Near(a.v[i], b.v[i], 510)
SameDash(a, b) == /\ Len(a.a) = Len(b.a) /\ \A i \in 1..Len(a.a) : Near(a.a[i], b.a[i], 60)
                  /\ (a.a = <<>> \/ Near(a.p, b.p, 60))
SameClip(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SamePath(a[i], b[i], TRUE, tol)
SameM4(a, b) == \A i \in 1..4 : Near(a[i], b[i], 4)

\* the description of a font (e: ascents, descents, height of capitals, box, angle of the source; o: as written)
SameFd(e, o) == /\ Len(o) = 8
                /\ (\E i \in 1..3 : Near(e[i], o[1], 1)) /\ (\E i \in 4..6 : Near(e[i], o[2], 1))
                /\ e[7] = 0 \/ Near(e[7], o[3], 1)
                /\ \A i \in 1..4 : Near(e[7 + i], o[3 + i], 1)
                /\ Near(e[12], o[8], 1)
If(cond, asp) == IF cond THEN {asp} ELSE {}
RECURSIVE Diff(_, _)
DiffSm(a, b) == IF Len(a) # Len(b) THEN {"mask"}
                ELSE IF a = <<>> THEN {}
                ELSE LET x == a[1] y == b[1] IN
                     If(x.ty # y.ty \/ x.cs # y.cs \/ y.ok # 1 \/ Len(y.box) # 4, "mask")
                     \cup (IF Len(x.giv) = 4 /\ Len(y.box) = 4 THEN If(\E i \in 1..4 : ~Near(x.giv[i] * 10, y.box[i], 1), "maskbox")
                           ELSE IF ~y.straight \/ Len(y.box) # 4 THEN {}
                           ELSE If(y.box[1] * 10 + y.e > 60 \/ y.box[2] * 10 + y.f > 60 \/ y.box[3] * 10 + y.e < x.box[1] - 60
                                   \/ y.box[4] * 10 + y.f < x.box[2] - 60, "maskbox"))
                     \cup (IF Len(x.marks) # Len(y.marks) THEN {"mask"}
                           ELSE IF \E i \in 1..Len(x.marks) : Diff(x.marks[i], y.marks[i]) # {} THEN {"mask"} ELSE {})
Common(e, o) ==
    If(~SameClip(e.clip, o.clip, e.tol), "clip") \cup DiffSm(e.sm, o.sm)
\* e: expected, o: observed, of the same kind
Diff(e, o) ==
    IF e.k # o.k THEN {"order"}
    ELSE CASE e.k = "glyph" ->
                If(~Near(e.x, o.x, e.tol) \/ ~Near(e.y, o.y, e.tol), "gpos")
                \cup If(~SameM4(e.m, o.m), "gdir")
                \cup If(e.g # 0 /\ e.u # o.u /\ ~(Len(o.u) = 1 /\ o.u[1] \in e.us), "gchar") \cup If(e.h # o.h, "gglyph") \cup If(e.w # o.w \/ e.a # o.a, "gwidth")
                \cup If(~Near(e.fs, o.fs, 20), "gsize") \cup If(e.pr # o.pr \/ ~SameFd(e.fd, o.fd), "gfont") \cup If(~SameCol(e.col, o.col), "gcol")
                \cup If(~Near(e.ca, o.ca, 60) \/ e.bm # o.bm, "alpha") \cup Common(e, o)
           [] e.k = "path" ->
                If(e.paint # o.paint, "paint")
                \cup If(~SamePath(e.sub, o.sub, e.paint = "F", e.tol), "geom")
                \cup (IF e.paint = "F" THEN {} ELSE If(~Near(e.lw, o.lw, 60), "lw") \cup If(~SameDash(e.dash, o.dash), "dash")
                                                   \cup If(~SameCol(e.sc, o.sc), "sc") \cup If(~Near(e.CA, o.CA, 60), "alpha"))
                \cup (IF e.paint = "S" THEN {} ELSE If(~SameCol(e.fc, o.fc), "fc") \cup If(~Near(e.ca, o.ca, 60), "alpha"))
                \cup If(e.bm # o.bm, "alpha") \cup Common(e, o)
           [] e.k = "img" ->
                If(\E i \in 1..4 : ~Near(e.m[i], o.m[i], 10 * e.tol), "imgpos")
                \cup If(~Near(e.m[5], o.m[5], e.tol) \/ ~Near(e.m[6], o.m[6], e.tol), "imgpos")
                \cup If(e.pix # "any" /\ e.pix # o.pix, "imgpix") \cup If(e.alpha # "any" /\ e.alpha # o.alpha, "imgalpha")
                \cup If(~Near(e.ca, o.ca, 60) \/ e.bm # o.bm, "alpha") \cup Common(e, o)
           [] e.k = "form" ->
                LET b == o.bbox
                    fm == IF o.fm = <<>> THEN Id ELSE <<o.fm[1], o.fm[2], o.fm[3], o.fm[4], T5(o.fm[5]), T5(o.fm[6])>>
                    m == Mul(fm, o.m) IN
                If(e.dig # o.dig, "formdig")
                \* the box shown is that of the page ("formbox0": that of the first page of its file)
                \cup (IF Len(b) # 4 \/ \A i \in 1..4 : Near(b[i], e.box[i], 10) THEN {}
                      ELSE IF \A i \in 1..4 : Near(b[i], e.first[i], 10) THEN {"formbox0"} ELSE {"formbox"})
                \cup (IF Len(b) # 4 THEN {"formpos"}
                      ELSE LET p == ApplyM(m, b[1] * 10, b[2] * 10) q == ApplyM(m, b[3] * 10, b[4] * 10) IN
                           If(~NearPt(p, e.p, e.tol + 200) \/ ~NearPt(q, e.q, e.tol + 400), "formpos"))
                \cup If(~Near(e.ca, o.ca, 60) \/ e.bm # o.bm, "alpha") \cup Common(e, o)
           [] OTHER -> {"order"}

\* differences of two lists of marks: [asps: the aspects, det: a description, n: the marks compared,
\* ids: pairs of expected and observed identity of images]
KindAt(ms, i) == IF i <= Len(ms) THEN ms[i].k ELSE "none"
Count(ms, k) == Len(SelectSeq(ms, LAMBDA m : m.k = k))
RECURSIVE IdPairs(_, _)
IdPairs(e, o) == IF e.k # "img" \/ o.k # "img" THEN {}
                 ELSE {<<e.id, o.id>>} \cup (IF e.sm = <<>> \/ o.sm = <<>> \/ Len(e.sm[1].marks) # Len(o.sm[1].marks) THEN {}
                      ELSE UNION {IdPairs(e.sm[1].marks[i], o.sm[1].marks[i]) : i \in 1..Len(e.sm[1].marks)})
CompareAs(es, os, dy) ==
    LET e == Normal(es, dy) o == Normal(os, dy)
        n == Min2(Len(e), Len(o))
        kd == {i \in 1..n : e[i].k # o[i].k}
        upto == IF kd = {} THEN n ELSE (CHOOSE i \in kd : \A j \in kd : i <= j) - 1
        D == [i \in 1..upto |-> Diff(e[i], o[i])]
        bad == {i \in 1..upto : D[i] # {}}
        counts == {k \in {"glyph", "path", "img", "form"} : Count(e, k) # Count(o, k)}
        first == IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j IN
    [asps |-> {"count:" \o k : k \in counts} \cup (IF counts = {} /\ kd # {} THEN {"order"} ELSE {}) \cup UNION {D[i] : i \in bad},
     n |-> n,
     ids |-> UNION {IdPairs(e[i], o[i]) : i \in 1..upto},
     det |-> IF bad # {} THEN ToString(<<first, e[first], o[first]>>)
             ELSE IF counts # {} THEN ToString({<<k, Count(e, k), Count(o, k)>> : k \in counts})
             ELSE IF kd # {} THEN ToString(<<upto + 1, KindAt(e, upto + 1), KindAt(o, upto + 1)>>) ELSE ""]
\* rounding may decide whether two underlines are level: any reading without a difference will do
Compare(es, os) ==
    LET a == CompareAs(es, os, 120) IN
    IF a.asps \cap {"geom", "count:path", "order"} = {} THEN a
    ELSE LET b == CompareAs(es, os, 0) IN IF b.asps \cap {"geom", "count:path", "order"} = {} THEN b
    ELSE LET c == CompareAs(es, os, 250) IN IF c.asps \cap {"geom", "count:path", "order"} = {} THEN c ELSE a
=============================================================================
