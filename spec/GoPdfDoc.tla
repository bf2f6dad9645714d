------------------------------ MODULE GoPdfDoc ------------------------------
(* The document a program builds with the public calls of gopdf: its pages with what was drawn on them,    *)
(* the writing position, the selected font and colours, links, outline, placeholders...                     *)
(* Step(d, cs, o) gives what call o does to document d (cs: the font containers); Render(items) gives what  *)
(* a page shows.  All lengths are ticks (1/10000 point), page coordinates have their origin at the lower left. *)
EXTENDS Text, Imaging

UnitNum == [u \in 0..5 |-> IF u = 2 THEN 360 ELSE IF u = 3 THEN 3600 ELSE IF u = 4 THEN 72 ELSE IF u = 5 THEN 3 ELSE 1]
UnitDen == [u \in 0..5 |-> IF u \in {2, 3} THEN 127 ELSE IF u = 5 THEN 4 ELSE 1]
Named(n) ==
    LET P(w, h) == <<w * 10000, h * 10000>> IN
    CASE n \in {"A4", "A4Small"} -> P(595, 842) [] n = "A5" -> P(420, 595) [] n = "A3" -> P(842, 1190) [] n = "A2" -> P(1190, 1684) [] n = "A1" -> P(1685, 2384)
      [] n = "A0" -> P(2384, 3371) [] n = "A3Landscape" -> P(1190, 842) [] n = "A4Landscape" -> P(842, 595) [] n \in {"Letter", "LetterSmall"} -> P(612, 792)
      [] n = "Tabloid" -> P(792, 1224) [] n = "Ledger" -> P(1224, 792) [] n = "Legal" -> P(612, 1008) [] n = "Statement" -> P(396, 612)
      [] n = "Executive" -> P(540, 720) [] n = "B4" -> P(729, 1032) [] n = "B5" -> P(516, 729) [] n = "Folio" -> P(612, 936)
      [] n = "Quarto" -> P(610, 780) [] n = "10x14" -> P(720, 1008) [] OTHER -> <<>>

\* 1/100 of the document unit in ticks, observed values (1/100000 unit) in ticks
U(d, v) == MulDiv(v * 100, d.num, d.den)
\* the rectangle of a call: none, in units, or a page size (in points whatever the unit)
Given(d, o) == CASE o.hasrect = 0 -> <<>> [] o.hasrect = 1 -> <<U(d, o.w), U(d, o.h)>> [] OTHER -> Named("A5")
FromObs(d, v) == IF Abs(v) > 1900000000 \div (d.num \div d.den + 1) THEN 1000000000 ELSE Rnd(MulDiv(v, d.num, d.den), 10)

NoText == [fam |-> "", fi |-> 0]
NewDoc(o) ==
    LET num == IF o.conv # 0 THEN o.conv ELSE UnitNum[o.unit]
        den == IF o.conv # 0 THEN 100 ELSE UnitDen[o.unit]
        u(v) == MulDiv(v * 100, num, den)
        size == IF o.named # "" THEN Named(o.named) ELSE <<u(o.w), u(o.h)>>
        mg == 100000 IN
    [on |-> TRUE, num |-> num, den |-> den, unum |-> UnitNum[o.unit], uden |-> UnitDen[o.unit], pt |-> (num = den), def |-> size, trim |-> [i \in 1..Len(o.trim) |-> u(o.trim[i])],
     l |-> mg, t |-> mg, r |-> mg, b |-> mg, x |-> 0, y |-> 0, yex |-> TRUE,
     cur |-> 0, size |-> size, pages |-> <<>>, fonts |-> <<>>, cf |-> 0, style |-> 0, fs10 |-> 0, cs |-> 0,
     tcol |-> <<>>, gray |-> 0, tr |-> <<>>, lw |-> 10000, sx |-> 0, xt |-> 0, spaces |-> <<>>, outl |-> <<>>, tree |-> FALSE, anchors |-> <<>>,
     info |-> <<>>, ph |-> <<>>, comp |-> -1, prot |-> o.prot, perm |-> IF o.prot # 0 THEN o.perm ELSE 0,
     sid |-> IF "i" \in DOMAIN o THEN o.i ELSE 0, user |-> IF o.prot # 0 THEN o.user ELSE <<>>, owner |-> IF o.prot # 0 THEN o.owner ELSE <<>>,
     hdr |-> <<>>, ftr |-> <<>>, tpls |-> <<>>, imgs |-> {}, dig |-> "", skip |-> FALSE, mal |-> FALSE]
NoDoc == [on |-> FALSE, skip |-> FALSE, mal |-> FALSE]

R0(d) == [d |-> d, err |-> 0, ret |-> <<>>, lines |-> <<>>, nf |-> <<>>, cmpret |-> FALSE, cmplines |-> FALSE, cmpnf |-> FALSE, loose |-> FALSE, tol |-> 5]
Ok(d) == R0(d)
Err(d) == [R0(d) EXCEPT !.err = 1]
Skip(d) == R0([d EXCEPT !.skip = TRUE])

H(d) == d.size[2]
Put(d, it) == [d EXCEPT !.pages[d.cur].items = Append(@, it)]
PutIf(d, it) == IF d.cur = 0 THEN d ELSE Put(d, it)   \* attributes set before the first page are those of no page
Font(d) == d.fonts[d.cf]
CanDraw(d) == d.cur > 0
CanWrite(d) == d.cur > 0 /\ d.cf > 0

---------------------------------------------------------------------------
\* transparency: <<>> (none) or <<alpha, blend mode>>
BMs == [b \in {"/Hue", "/Color", "/Normal", "", "/Darken", "/Screen", "/Overlay", "/Lighten", "/Multiply", "/Exclusion", "/ColorBurn",
               "/HardLight", "/SoftLight", "/Difference", "/Saturation", "/Luminosity", "/ColorDodge"} |->
        CASE b = "/Hue" -> "Hue" [] b = "/Color" -> "Color" [] b = "/Darken" -> "Darken" [] b = "/Screen" -> "Screen" [] b = "/Overlay" -> "Overlay"
          [] b = "/Lighten" -> "Lighten" [] b = "/Multiply" -> "Multiply" [] b = "/Exclusion" -> "Exclusion" [] b = "/ColorBurn" -> "ColorBurn"
          [] b = "/HardLight" -> "HardLight" [] b = "/SoftLight" -> "SoftLight" [] b = "/Difference" -> "Difference"
          [] b = "/Saturation" -> "Saturation" [] b = "/Luminosity" -> "Luminosity" [] b = "/ColorDodge" -> "ColorDodge" [] OTHER -> "Normal"]
TrOk(a, bm) == a >= 0 /\ a <= 1000 /\ bm \in DOMAIN BMs
TrVal(a, bm) == IF a = 1000 /\ BMs[bm] = "Normal" THEN <<>> ELSE <<a * 100, BMs[bm]>>
\* of a call with an optional transparency of its own
CallTrOk(t) == t.has = 0 \/ TrOk(t.a, t.bm)
CallTr(d, t) == IF t.has = 0 THEN d.tr ELSE TrVal(t.a, t.bm)

\* colours
RGB(o) == Col("rgb", "", << (o.r * 100000) \div 255, (o.g * 100000) \div 255, (o.b * 100000) \div 255 >>)
CMYK(o) == Col("cmyk", "", << o.c * 1000, o.m * 1000, o.y * 1000, o.k * 1000 >>)
GrayVal(v) == LET g == v * 1000 IN IF g < 0 THEN 0 ELSE IF g > 100000 THEN 100000 ELSE g

---------------------------------------------------------------------------
\* shapes
PathItem(sub, paint, tr, tol) == [k |-> "path", sub |-> sub, paint |-> paint, tr |-> tr, tol |-> tol]
RectStyle(s) == IF s = "F" THEN "F" ELSE IF s \in {"FD", "DF"} THEN "B" ELSE "S"
OptStyle(s) == IF s = "f" THEN "F" ELSE IF s = "B" THEN "B" ELSE "S"
Pairs(d, p) == [i \in 1..Len(p) \div 2 |-> <<U(d, p[2*i-1]), H(d) - U(d, p[2*i])>>]

DoLine(d, x1, y1, x2, y2) == Put(d, PathItem(<< Poly(<< <<x1, H(d) - y1>>, <<x2, H(d) - y2>> >>, 0) >>, "S", d.tr, 70))
DoRect(d, x, y, w, h, paint, tr) == Put(d, PathItem(<< RectSub(x, H(d) - y, w, h) >>, paint, tr, 120))
PolyItem(d, pts, style, more) == Put(d, PathItem(<< Poly(pts, 1) >>, RectStyle(style), d.tr, 90 + more))
DoPolygon(d, pts, style) == PolyItem(d, pts, style, 0)

Mil(a, m) == MulQ(a, m)
Oval(d, x1, y1, x2, y2) ==
    LET cx == x1 + (x2 - x1) \div 2 cy == H(d) - (y1 + (y2 - y1) \div 2)
        kx == Mil(x2 - x1, 27614) ky == Mil(y2 - y1, 27614)
        top == H(d) - y1 bot == H(d) - y2 IN
    [s |-> <<cx, bot>>, cl |-> 0,
     g |-> << <<cx + kx, bot, x2, cy - ky, x2, cy>>, <<x2, cy + ky, cx + kx, top, cx, top>>,
              <<cx - kx, top, x1, cy + ky, x1, cy>>, <<x1, cy - ky, cx - kx, bot, cx, bot>> >>]
\* corners of Rectangle with n points per round corner
Rounded(d, x0, y0, x1, y1, r, n) ==
    LET degs == [i \in 1..n |-> i]
        Ang(i) == (90 * i) \div (n + 1)
        \* sine of fractions of a degree by interpolation
        SinF(i) == LET q == 90 * i w == q \div (n + 1) f == q % (n + 1) IN
                   Sin(w) + ((Sin(w + 1) - Sin(w)) * f) \div (n + 1)
                   + (((Sin(w) * 1523) \div 1000000) * f * (n + 1 - f) + 5 * (n + 1) * (n + 1)) \div (10 * (n + 1) * (n + 1))
        CosF(i) == SinF(n + 1 - i)
        ox(i) == Mil(r, CosF(i)) oy(i) == Mil(r, SinF(i))
        Y(v) == H(d) - v IN
    << <<x0, Y(y0 + r)>> >> \o [i \in 1..n |-> <<x0 + r - ox(i), Y(y0 + r - oy(i))>>] \o << <<x0 + r, Y(y0)>> >>
    \o << <<x1 - r, Y(y0)>> >> \o [i \in 1..n |-> <<x1 - r + ox(n + 1 - i), Y(y0 + r - oy(n + 1 - i))>>] \o << <<x1, Y(y0 + r)>> >>
    \o << <<x1, Y(y1 - r)>> >> \o [i \in 1..n |-> <<x1 - r + ox(i), Y(y1 - r + oy(i))>>] \o << <<x1 - r, Y(y1)>> >>
    \o << <<x0 + r, Y(y1)>> >> \o [i \in 1..n |-> <<x0 + r - ox(n + 1 - i), Y(y1 - r + oy(n + 1 - i))>>] \o << <<x0, Y(y1 - r)>> >>

---------------------------------------------------------------------------
\* text
CellLook(align, border, float, cup, clh, cut) == [align |-> align, border |-> border, float |-> float, cup |-> cup, clh |-> clh, cut |-> cut]
PlainLook == CellLook(0, 0, 0, 0, 0, 0)
DefaultLook == CellLook(12, 0, 2, 0, 0, 0)
RECURSIVE HasBit(_, _)
HasBit(v, bit) == (v \div bit) % 2 = 1

TextItem(d, ty, t, rect, look, tr) ==
    LET f == Font(d) IN
    [k |-> "text", ty |-> ty, f |-> f, fno |-> d.cf, t |-> t, fs10 |-> d.fs10, style |-> d.style, cs |-> d.cs, x |-> d.x, y |-> d.y, h |-> H(d),
     rect |-> rect, look |-> look, tr |-> tr, tcol |-> d.tcol, gray |-> d.gray, lw |-> d.lw, sx |-> d.sx, xt |-> d.xt, ph |-> FALSE]
RunWidth(it) == Width(it.f, it.t, it.fs10, it.cs)
CellW(it) == IF it.rect = <<>> THEN RunWidth(it) ELSE it.rect[1]
CellH(it) == IF it.rect = <<>> THEN LineH(it.f, it.fs10) ELSE it.rect[2]
SameRun(a, b) ==
    /\ a.k = "text" /\ a.rect = <<>> /\ b.rect = <<>> /\ a.ty = b.ty /\ a.tcol = b.tcol /\ a.gray = b.gray /\ a.fno = b.fno
    /\ a.fs10 = b.fs10 /\ a.style = b.style /\ a.cs = b.cs /\ a.sx = b.sx /\ a.tr = b.tr /\ a.look = b.look /\ a.look.border = 0
    /\ a.ph = b.ph /\ Near(a.y, b.y, 3) /\ Near(a.x + RunWidth(a), b.x, 3 + (IF SpAmb(a.f, a.cs, a.fs10) THEN Len(a.t) * a.fs10 + 12 ELSE 0))
\* writes the given text (not yet substituted) at the position: [d, nf]
PutText(d, ty, raw, rect, look, tr) ==
    LET w == Written(Font(d), raw)
        d1 == [d EXCEPT !.fonts[d.cf] = w.f]
        it0 == TextItem(d, ty, ShownText(Font(d), raw), rect, look, tr)
        items == d.pages[d.cur].items
        n == Len(items)
        join == n > 0 /\ items[n].k = "text" /\ SameRun(items[n], it0)
        it == IF join THEN [items[n] EXCEPT !.t = @ \o it0.t] ELSE it0
        d2 == IF join THEN [d1 EXCEPT !.pages[d.cur].items[n] = it] ELSE Put(d1, it)
        fl == look.float
        right == fl = 0 \/ HasBit(fl, 2) \/ ty = "T"
        bottom == HasBit(fl, 1) IN
    [d |-> [d2 EXCEPT !.x = IF right THEN it.x + CellW(it) ELSE @, !.y = IF bottom THEN it.y + CellH(it) ELSE @, !.yex = @ /\ ~bottom],
     nf |-> w.nf]
PutCell(d, raw, rect, look, tr) == PutText(d, "C", raw, rect, look, tr)
SetX(d, x) == [d EXCEPT !.x = x, !.sx = @ + 1]
Br(d, h) == [d EXCEPT !.y = @ + h, !.x = d.l]
AddFont2(d, raw) == [d EXCEPT !.fonts[d.cf] = Written(Font(d), raw).f]

LineEps == 3
HeightEps == 40
WEps(d) == IF ExactW(d.num, d.den, d.fs10, d.cs) THEN -1 ELSE LineEps
HEps(d, e) == IF ExactH(Font(d), d.num, d.den, d.fs10) THEN -1 ELSE e
MultiCell(d, o) ==
    LET f == Font(d)
        wid == U(d, o.w) hgt == U(d, o.h) lh == LineH(f, d.fs10)
        w == Written(f, o.t)
        x == d.x
        r == FitLines(f, ShownText(f, o.t), wid, hgt, lh, d.fs10, d.cs, WEps(d), HEps(d, LineEps))
        d1 == [d EXCEPT !.fonts[d.cf] = w.f, !.yex = FALSE]
        Draw(e, ln) == SetX(Br(PutCell([e EXCEPT !.xt = @ + 2], ln, <<wid, lh>>, DefaultLook, <<>>).d, lh), x) IN
    IF r.amb THEN Skip(d) ELSE Ok([FoldLeft(Draw, d1, r.lines) EXCEPT !.xt = 0])

BrkOf(b) == IF b.has = 0 THEN [mode |-> 0, ind |-> 0, sep |-> <<>>] ELSE [mode |-> b.mode, ind |-> b.ind, sep |-> b.sep]
LookOf(o) == CellLook(o.align, o.border, o.float, o.cup, o.clh, o.cut)
\* MultiCellWithOption in a cell wid wide and hgt high; d1.err is 1 for the empty text
MultiOpt(d, t, wid, hgt, look, brk, tr) ==
    LET f == Font(d)
        lh == LineH(f, d.fs10)
        s == SplitText(f, t, wid, brk, d.fs10, d.cs, WEps(d))
        n == Len(s.lines)
        start == IF n > 1 THEN hgt - (lh + U(d, 150)) * CeilHalf(n) ELSE hgt
        x == d.x
        LastLook == IF HasBit(look.align, 64) THEN [look EXCEPT !.align = IF HasBit(@, 8) THEN @ - 64 ELSE @ - 64 + 8] ELSE look
        Draw(e, i) == SetX(Br(PutCell([e EXCEPT !.xt = @ + 2 + n \div 2], s.lines[i], <<wid, start>>, IF i = n THEN LastLook ELSE look, tr).d, lh), x)
        d1 == [d EXCEPT !.fonts[d.cf] = Written(f, t).f, !.yex = FALSE] IN
    IF t = <<>> THEN Err(d)
    ELSE IF s.amb \/ ~s.done THEN Skip(d)
    ELSE Ok([FoldLeft(Draw, d1, Times(n)) EXCEPT !.xt = 0])

---------------------------------------------------------------------------
\* pages
RECURSIVE Step(_, _, _)
RunOps(d, cs, ops) == FoldLeft(LAMBDA e, o : Step(e, cs, o).d, d, ops)
Home(d) == [d EXCEPT !.x = d.l, !.y = d.t, !.yex = TRUE]
AddPage(d, cs, size, trim) ==
    LET sz == IF size = <<>> THEN d.def ELSE size
        tb == IF trim = <<>> \/ trim = <<0, 0, 0, 0>> THEN d.trim ELSE trim
        d1 == Home([d EXCEPT !.pages = Append(@, [size |-> sz, own |-> size # <<>>, trim |-> IF tb = <<0, 0, 0, 0>> THEN <<>> ELSE tb,
                                                 items |-> <<>>, links |-> <<>>]),
                             !.cur = Len(d.pages) + 1, !.size = sz])
        d2 == IF d.hdr = <<>> THEN d1 ELSE Home(RunOps(d1, cs, d.hdr[1])) IN
    IF d.ftr = <<>> THEN d2 ELSE Home(RunOps(d2, cs, d.ftr[1]))

\* placing the next element: at: the height that counts, h: height of the element
Exact(d, v) == d.pt /\ d.yex /\ v % 2500 = 0
NewPos(d, cs, at, y, h) ==
    LET limit == H(d) - d.b
        close == Near(at + h, limit, 3) /\ ~(Exact(d, at) /\ Exact(d, h) /\ Exact(d, H(d)) /\ Exact(d, d.b)) IN
    IF close THEN [Ok(d) EXCEPT !.d = [d EXCEPT !.skip = TRUE]]
    ELSE IF at + h > limit THEN LET e == AddPage(d, cs, <<>>, <<>>) IN Ok([e EXCEPT !.y = e.t, !.yex = TRUE])
    ELSE Ok([d EXCEPT !.y = y, !.yex = TRUE])

---------------------------------------------------------------------------
\* fonts
StyleBits(sty) == IF sty = "" THEN 0 ELSE IF sty = "B" \/ sty = "b" THEN 2 ELSE IF sty = "I" \/ sty = "i" THEN 1 ELSE IF sty = "U" \/ sty = "u" THEN 4
                  ELSE IF sty \in {"BI", "IB", "bi"} THEN 3 ELSE IF sty \in {"BU", "UB", "bu"} THEN 6
                  ELSE IF sty \in {"IU", "UI", "iu"} THEN 5 ELSE IF sty \in {"BIU", "biu", "UIB"} THEN 7 ELSE 0
NoUnder(s) == IF HasBit(s, 4) THEN s - 4 ELSE s
FindFont(d, fam, sty) == LET S == {i \in 1..Len(d.fonts) : d.fonts[i].fam = fam /\ d.fonts[i].sty = sty} IN
                         IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
FindFam(d, fam) == LET S == {i \in 1..Len(d.fonts) : d.fonts[i].fam = fam} IN
                   IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
FontOf(o) == IF o.plain # 0 THEN [fam |-> o.fam, fi |-> FontNo(o.file), sty |-> 0, kern |-> 0, cb |-> 0, subst |-> -2, ov |-> <<>>, zero |-> {}]
             ELSE [fam |-> o.fam, fi |-> FontNo(o.file), sty |-> NoUnder(o.style), kern |-> o.kern, cb |-> o.cb, subst |-> o.subst, ov |-> <<>>, zero |-> {}]
\* containers: sequence of [cont, fam, font]
ContFont(cs, cont, fam) == LET S == {i \in 1..Len(cs) : cs[i].cont = cont /\ cs[i].font.fam = fam} IN
                           IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
ContAdd(cs, o) == IF FontNo(o.file) = 0 THEN cs ELSE Append(cs, [cont |-> o.cont, font |-> FontOf(o)])

---------------------------------------------------------------------------
\* images
ImgKey(via, file) == CASE via \in {"path", "hpath"} -> "p:" \o file [] via \in {"bytes", "reader", "kept"} -> "b:" \o file
                       [] via = "from" -> "f:" \o file [] OTHER -> "j:" \o file
NoCrop == [has |-> 0]
ImgRec(d, o, via, use, tr) ==
    LET im == ImgTab[ImgNo(o.file)] IN
    [key |-> ImgKey(via, o.file), pix |-> IF via = "fromjpeg" THEN "any" ELSE IF use = "mask" THEN im.alphapix ELSE im.pix,
     alpha |-> IF via = "fromjpeg" THEN "any" ELSE IF use = "plain" THEN im.alpha ELSE "none", use |-> use,
     x |-> U(d, o.x), y |-> U(d, o.y), w |-> IF o.hasrect # 0 THEN Given(d, o)[1] ELSE ((im.w * 72) \div 128) * 10000, h |-> IF o.hasrect # 0 THEN Given(d, o)[2] ELSE ((im.h * 72) \div 128) * 10000,
     deg |-> 0, hf |-> 0, vf |-> 0, crop |-> <<>>, tr |-> tr, H |-> H(d), W |-> d.size[1], mask |-> <<>>, mdeg |-> 0, mbox |-> <<>>]
ImgOptRec(d, o, use, tr) ==
    LET r == ImgRec(d, o, o.via, use, tr) IN
    [r EXCEPT !.deg = o.deg, !.hf = o.hf, !.vf = o.vf,
              !.crop = IF o.crop.has = 0 THEN <<>> ELSE <<U(d, o.crop.x), U(d, o.crop.y), U(d, o.crop.w), U(d, o.crop.h)>>]

---------------------------------------------------------------------------
\* tables
DefBorder == [bs |-> <<1, 1, 1, 1, 50, 0, 0, 0>>]
TabStyle(s, fill, text) == IF s.has = 0 THEN [bs |-> <<1, 1, 1, 1, 50, 0, 0, 0>>, fill |-> fill, text |-> text, font |-> "", size |-> 0] ELSE s
C3(v) == [r |-> v[1], g |-> v[2], b |-> v[3]]
DrawBorder(d, x1, y1, x2, y2, bs) ==
    IF bs[5] <= 0 THEN d
    ELSE LET w == U(d, bs[5]) hw == U(d, bs[5]) \div 2
             d1 == Put(Put([d EXCEPT !.lw = w], [k |-> "lw", v |-> w]), [k |-> "sc", c |-> RGB([r |-> bs[6], g |-> bs[7], b |-> bs[8]])])
             d2 == IF bs[1] # 0 THEN DoLine(d1, x1 - hw, y1, x2 + hw, y1) ELSE d1
             d3 == IF bs[4] # 0 THEN DoLine(d2, x1 - hw, y2, x2 + hw, y2) ELSE d2
             d4 == IF bs[2] # 0 THEN DoLine(d3, x1, y1 - hw, x1, y2 + hw) ELSE d3 IN
         IF bs[3] # 0 THEN DoLine(d4, x2, y1 - hw, x2, y2 + hw) ELSE d4
DrawCell(d, x, y, w, h, t, align, hd, st) ==
    LET d1 == IF st.fill = <<0, 0, 0>> THEN d
              ELSE DoRect(Put(d, [k |-> "fc", c |-> RGB(C3(st.fill))]), x, y + h, w, h, "F", d.tr)
        d2 == IF hd THEN d1 ELSE DrawBorder(d1, x, y, x + w, y + h, st.bs)
        pad == U(d, 200)
        d3 == [SetX(d2, x + pad) EXCEPT !.y = y + pad, !.tcol = <<RGB(C3(st.text))>>]
        fno == IF st.font = "" THEN 0 ELSE FindFont(d3, st.font, 0)
        d4 == IF fno = 0 THEN d3 ELSE [d3 EXCEPT !.cf = fno, !.style = 0, !.fs10 = st.size]
        al == IF align = "right" THEN 2 + 32 ELSE IF align = "center" THEN 16 + 32 ELSE 8 + 32 IN
    IF d.skip THEN d ELSE MultiOpt(d4, t, w - 2 * pad, h - 2 * pad, CellLook(al, 0, 0, 0, 0, 0), [mode |-> 1, ind |-> 32, sep |-> <<>>], d4.tr).d
Table(d, o) ==
    LET X(i) == U(d, o.x + FoldLeft(LAMBDA s, c : s + c.w, 0, SubSeq(o.cols, 1, i - 1)))
        Y(i) == U(d, o.y + i * o.rh)
        rh == U(d, o.rh)
        nc == Len(o.cols) nr == Len(o.rows)
        hs == TabStyle(o.hs, <<240, 240, 240>>, <<0, 0, 0>>)
        csty == TabStyle(o.cs, <<0, 0, 0>>, <<0, 0, 0>>)
        ts == TabStyle(o.ts, <<0, 0, 0>>, <<0, 0, 0>>)
        d1 == FoldLeft(LAMBDA e, i : DrawCell(e, X(i), Y(0), U(d, o.cols[i].w), rh, o.cols[i].t, "center", TRUE, hs), d, Times(nc))
        CellSt(row, i) == IF row[i].st.has # 0 THEN row[i].st ELSE csty
        Row(e, q) == FoldLeft(LAMBDA g, i : DrawCell(g, X(i), Y(q), U(d, o.cols[i].w), rh, o.rows[q][i].t, o.cols[i].align, FALSE, CellSt(o.rows[q], i)),
                              e, Times(Len(o.rows[q])))
        d2 == FoldLeft(Row, d1, Times(nr))
        Empty(e, q) == FoldLeft(LAMBDA g, i : DrawCell(g, X(i), Y(q), U(d, o.cols[i].w), rh, <<>>, o.cols[i].align, FALSE, csty), e, Times(nc))
        d3 == FoldLeft(Empty, d2, SubSeq([i \in 1..Max2(nr, o.max) |-> i], nr + 1, Max2(nr, o.max)))
        d4 == DrawBorder(d3, X(1), Y(0), X(nc + 1), Y(o.max + 1), ts.bs) IN
    Ok([DrawBorder(d4, X(1), Y(0), X(nc + 1), Y(1), hs.bs) EXCEPT !.yex = FALSE])

---------------------------------------------------------------------------
\* placeholders: ph is a sequence of [name, page, i, w (reserved), x]
Fill(d, o) ==
    LET S == SelectSeq(d.ph, LAMBDA p : p.name = o.name)
        One(e, p) ==
            LET it == e.pages[p.page].items[p.i]
                wr == Written(e.fonts[it.fno], o.t)
                nt == ShownText(it.f, o.t)
                i1 == [it EXCEPT !.t = nt]
                diff == p.w - RunWidth(i1)
                x == IF o.align = 2 THEN p.x + diff ELSE IF o.align = 16 THEN p.x + diff \div 2 ELSE p.x IN
            [e EXCEPT !.pages[p.page].items[p.i] = [i1 EXCEPT !.x = x], !.fonts[it.fno] = wr.f] IN
    IF S = <<>> THEN Err(d) ELSE Ok(FoldLeft(One, d, S))

\* the document information: <<>> or <<[title, author, subject, creator, producer, date]>>
AnchorOf(d, name) == LET S == {i \in 1..Len(d.anchors) : d.anchors[i].name = name} IN
                     IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
SpaceNo(d, name) == LET S == {i \in 1..Len(d.spaces) : d.spaces[i].name = name} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

PageOfPdf(file, n) == PdfTab[PdfNo(file)].pages[n]
MediaW(pg) == (pg.media[3] - pg.media[1]) * 10
MediaH(pg) == (pg.media[4] - pg.media[2]) * 10
UseTpl(d, p, x, y, w, h) == LET pg == PageOfPdf(p.file, p.n) IN
    Put(d, [k |-> "form", dig |-> pg.dig, box |-> pg.media, first |-> PageOfPdf(p.file, 1).media, x |-> x, y |-> H(d) - y - h, w |-> w, h |-> h, tol |-> 400])

\* a width or height of 0 follows from the other one and the shape of the page, both from its size
TplW(p, w, h) == LET pg == PageOfPdf(p.file, 1) IN IF w # 0 THEN w ELSE IF h = 0 THEN MediaW(pg) ELSE MulDiv(h, MediaW(pg) \div 1000, MediaH(pg) \div 1000)
TplH(p, w, h) == LET pg == PageOfPdf(p.file, 1) IN IF h # 0 THEN h ELSE IF w = 0 THEN MediaH(pg) ELSE MulDiv(w, MediaH(pg) \div 1000, MediaW(pg) \div 1000)
Num(d, cu, w) == U(d, cu)
Draw(d, e) == IF CanDraw(d) THEN Ok(e) ELSE Skip(d)

Step(d, cs, o) ==
  IF d.skip THEN Ok(d) ELSE
  CASE o.op = "AddPage" -> Ok(AddPage(d, cs, <<>>, <<>>))
    [] o.op = "AddPageOpt" ->
         Ok(AddPage(d, cs, IF o.named # "" THEN Named(o.named) ELSE IF o.w = 0 THEN <<>> ELSE <<U(d, o.w), U(d, o.h)>>,
                    [i \in 1..Len(o.trim) |-> U(d, o.trim[i])]))
    [] o.op = "SetPage" -> IF o.n < 1 \/ o.n > Len(d.pages) THEN Err(d) ELSE Ok([d EXCEPT !.cur = o.n, !.size = d.pages[o.n].size])
    [] o.op = "Header" -> Ok([d EXCEPT !.hdr = <<o.ops>>])
    [] o.op = "Footer" -> Ok([d EXCEPT !.ftr = <<o.ops>>])
    [] o.op = "SetX" -> Ok(SetX(d, U(d, o.x)))
    [] o.op = "SetY" -> Ok([d EXCEPT !.y = U(d, o.y), !.yex = TRUE])
    [] o.op = "SetXY" -> Ok([SetX(d, U(d, o.x)) EXCEPT !.y = U(d, o.y), !.yex = TRUE])
    [] o.op = "Br" -> Ok(Br(d, U(d, o.h)))
    [] o.op = "SetNewY" -> NewPos(d, cs, d.y, U(d, o.y), U(d, o.h))
    [] o.op = "SetNewYIfNoOffset" -> NewPos([d EXCEPT !.yex = TRUE], cs, U(d, o.y), U(d, o.y), U(d, o.h))
    [] o.op = "SetNewXY" -> LET r == NewPos(d, cs, d.y, U(d, o.y), U(d, o.h)) IN [r EXCEPT !.d = SetX(r.d, U(d, o.x))]
    [] o.op = "SetMargins" -> Ok([d EXCEPT !.l = U(d, o.l), !.t = U(d, o.t), !.r = U(d, o.r), !.b = U(d, o.b)])
    [] o.op = "SetMargin" -> LET v == U(d, o.v) IN
         Ok(CASE o.which \in {0, 2} -> [d EXCEPT !.l = v] [] o.which \in {1, 3} -> [d EXCEPT !.t = v] [] o.which = 4 -> [d EXCEPT !.r = v] [] OTHER -> [d EXCEPT !.b = v])
    [] o.op = "Margins" -> [Ok(d) EXCEPT !.ret = <<d.l, d.t, d.r, d.b>>, !.cmpret = TRUE]
    [] o.op = "Convert" ->
         \* in ticks: the value in points, the points in units, and the same again
         \* the functions that are told the unit know nothing of the document's factor
         LET p == U(d, o.v) q == MulDiv(o.v * 100, d.den, d.num)
             P(i) == MulDiv(o.v * 100 + i * 10000, d.unum, d.uden) Q(i) == MulDiv(o.v * 100 + i * 10000, d.uden, d.unum) IN
         [Ok(d) EXCEPT !.ret = <<p, q, p, q, P(0), Q(0), P(0), P(1), Q(0), Q(1), P(0), P(1), Q(0), Q(1), P(0), P(1), P(2), P(3), Named("B5")[1], Named("B5")[2]>>, !.cmpret = TRUE]
    [] o.op = "Line" -> Draw(d, DoLine(d, U(d, o.x1), U(d, o.y1), U(d, o.x2), U(d, o.y2)))
    [] o.op = "Rect" ->
         IF ~CanDraw(d) THEN Skip(d)
         ELSE LET x == U(d, o.x) w == U(d, o.w) h == U(d, o.h)
                  y == U(d, o.y) + (IF o.kind \in {"UL", "ULS", "ULO"} THEN h ELSE 0) IN
         CASE o.kind \in {"LL", "UL"} -> Ok(DoRect(d, x, y, w, h, "S", <<>>))
           [] o.kind \in {"LLS", "ULS"} -> Ok(DoRect(d, x, y, w, h, RectStyle(o.style), d.tr))
           [] OTHER -> IF ~CallTrOk(o.tr) THEN Err(d) ELSE Ok(DoRect(d, x, y, w, h, OptStyle(o.style), CallTr(d, o.tr)))
    [] o.op = "Oval" -> Draw(d, Put(d, PathItem(<<Oval(d, U(d, o.x1), U(d, o.y1), U(d, o.x2), U(d, o.y2))>>, "S", <<>>, 90)))
    [] o.op = "Curve" -> LET p == Pairs(d, o.pts) IN
         Draw(d, Put(d, PathItem(<<[s |-> p[1], cl |-> 0, g |-> << p[2] \o p[3] \o p[4] >>]>>, RectStyle(o.style), <<>>, 70)))
    [] o.op = "Polygon" -> Draw(d, DoPolygon(d, Pairs(d, o.pts), o.style))
    [] o.op = "ClipPolygon" -> Draw(d, Put(d, [k |-> "clip", sub |-> <<Poly(Pairs(d, o.pts), 1)>>]))
    [] o.op = "Rectangle" ->
         IF ~CanDraw(d) THEN Skip(d)
         ELSE IF o.x2 <= o.x1 \/ o.y2 <= o.y1 THEN Err(d)
         ELSE LET x0 == U(d, o.x1) y0 == U(d, o.y1) x1 == U(d, o.x2) y1 == U(d, o.y2) Y(v) == H(d) - v IN
              IF o.r <= 0 \/ o.n <= 0 THEN Ok(DoPolygon(d, << <<x0, Y(y0)>>, <<x1, Y(y0)>>, <<x1, Y(y1)>>, <<x0, Y(y1)>> >>, o.style))
              ELSE IF o.r > o.x2 - o.x1 \/ o.r > o.y2 - o.y1 THEN Err(d)
              ELSE Ok(PolyItem(d, Rounded(d, x0, y0, x1, y1, U(d, o.r), o.n), o.style, U(d, o.r) \div 50000))
    [] o.op = "SetLineWidth" -> Ok(PutIf([d EXCEPT !.lw = U(d, o.v)], [k |-> "lw", v |-> U(d, o.v)]))
    [] o.op = "SetLineType" -> Ok(PutIf(d, [k |-> "dash", v |-> CASE o.t = "dashed" -> [a |-> <<50000>>, p |-> 20000]
                                                    [] o.t = "dotted" -> [a |-> <<20000, 30000>>, p |-> 110000] [] OTHER -> [a |-> <<>>, p |-> 0]]))
    [] o.op = "SetCustomLineType" -> Ok(PutIf(d, [k |-> "dash", v |-> [a |-> [i \in 1..Len(o.arr) |-> U(d, o.arr[i])], p |-> U(d, o.phase)]]))
    [] o.op = "SetGrayFill" -> Ok(PutIf([d EXCEPT !.tcol = <<>>, !.gray = o.v], [k |-> "fc", c |-> GrayCol(GrayVal(o.v))]))
    [] o.op = "SetGrayStroke" -> Ok(PutIf(d, [k |-> "sc", c |-> GrayCol(GrayVal(o.v))]))
    [] o.op = "SetStrokeColor" -> Ok(PutIf(d, [k |-> "sc", c |-> RGB(o)]))
    [] o.op = "SetFillColor" -> Ok(PutIf(d, [k |-> "fc", c |-> RGB(o)]))
    [] o.op = "SetStrokeColorCMYK" -> Ok(PutIf(d, [k |-> "sc", c |-> CMYK(o)]))
    [] o.op = "SetFillColorCMYK" -> Ok(PutIf(d, [k |-> "fc", c |-> CMYK(o)]))
    [] o.op = "SetTextColor" -> Ok([d EXCEPT !.tcol = <<RGB(o)>>])
    [] o.op = "SetTextColorCMYK" -> Ok([d EXCEPT !.tcol = <<CMYK(o)>>])
    [] o.op = "Rotate" -> Draw(d, Put(d, [k |-> "rot", deg |-> o.deg, x |-> U(d, o.x), y |-> H(d) - U(d, o.y)]))
    [] o.op = "RotateReset" -> Draw(d, Put(d, [k |-> "unsave"]))
    [] o.op = "Save" -> Draw(d, Put(d, [k |-> "save"]))
    [] o.op = "Restore" -> Draw(d, Put(d, [k |-> "unsave"]))
    [] o.op \in {"SetTransparency", "NewTransparency"} -> IF TrOk(o.a, o.bm) THEN Ok([d EXCEPT !.tr = TrVal(o.a, o.bm)]) ELSE Err(d)
    [] o.op = "ClearTransparency" -> Ok([d EXCEPT !.tr = <<>>])
    [] o.op = "AddFont" ->
         IF o.via = "container" THEN LET i == ContFont(cs, o.cont, o.fam) IN IF i = 0 THEN Err(d) ELSE Ok([d EXCEPT !.fonts = Append(@, cs[i].font)])
         ELSE IF FontNo(o.file) = 0 THEN Err(d) ELSE Ok([d EXCEPT !.fonts = Append(@, FontOf(o))])
    [] o.op = "ContainerFont" -> IF FontNo(o.file) = 0 THEN Err(d) ELSE Ok(d)
    [] o.op = "KernOverride" -> LET i == FindFam(d, o.fam) IN IF i = 0 THEN Err(d) ELSE Ok([d EXCEPT !.fonts[i].ov = <<o.v>>])
    [] o.op = "SetFont" ->
         LET st == IF o.api = "style" THEN o.style ELSE StyleBits(o.sty) i == FindFont(d, o.fam, NoUnder(st)) IN
         IF i = 0 \/ o.ty = "bad" THEN Err(d)
         ELSE Ok([d EXCEPT !.cf = i, !.style = st, !.fs10 = IF o.ty \notin {"float", "float32"} THEN (o.size \div 10) * 10 ELSE o.size])
    [] o.op = "SetFontSize" -> Ok([d EXCEPT !.fs10 = o.size])
    [] o.op = "SetCharSpacing" -> Ok([d EXCEPT !.cs = U(d, o.v)])
    [] o.op = "Text" -> IF ~CanWrite(d) THEN Skip(d) ELSE LET r == PutText(d, "T", o.t, <<>>, PlainLook, <<>>) IN [Ok(r.d) EXCEPT !.nf = r.nf, !.cmpnf = TRUE]
    [] o.op = "Cell" -> IF ~CanWrite(d) THEN Skip(d)
         ELSE LET r == PutCell(d, o.t, Given(d, o), DefaultLook, <<>>) IN [Ok(r.d) EXCEPT !.nf = r.nf, !.cmpnf = TRUE]
    [] o.op = "CellOpt" -> IF ~CanWrite(d) THEN Skip(d)
         ELSE IF ~CallTrOk(o.tr) THEN Err(d)
         ELSE LET r == PutCell(d, o.t, Given(d, o), LookOf(o), CallTr(d, o.tr)) IN [Ok(r.d) EXCEPT !.nf = r.nf, !.cmpnf = TRUE]
    [] o.op = "MultiCell" -> IF ~CanWrite(d) THEN Skip(d) ELSE MultiCell(d, o)
    [] o.op = "MultiCellOpt" -> IF ~CanWrite(d) THEN Skip(d)
         ELSE IF ~CallTrOk(o.tr) THEN Err(d) ELSE MultiOpt(d, o.t, U(d, o.w), U(d, o.h), LookOf(o), BrkOf(o.brk), CallTr(d, o.tr))
    [] o.op = "IsFit" -> IF ~CanWrite(d) THEN Skip(d)
         ELSE LET f == Font(d) r == FitLines(f, ShownText(f, o.t), U(d, o.w), U(d, o.h), LineH(f, d.fs10), d.fs10, d.cs, WEps(d), HEps(d, LineEps))
                  d1 == AddFont2(d, o.t) IN
              IF r.amb THEN Ok(d1) ELSE [Ok(d1) EXCEPT !.ret = <<IF r.fit THEN 1 ELSE 0, IF r.fit THEN r.tot ELSE -1>>, !.cmpret = TRUE, !.tol = HeightEps]
    [] o.op = "IsFitNL" -> IF ~CanWrite(d) THEN Skip(d)
         ELSE LET f == Font(d)
                  lh == LineH(f, d.fs10)
                  Cut(st, c) == IF c = 10 THEN Append(st, <<>>) ELSE [st EXCEPT ![Len(st)] = Append(@, c)]
                  parts == FoldLeft(Cut, << <<>> >>, o.t)
                  One(st, p) == IF ~st.fit THEN st
                                ELSE LET r == FitLines(f, ShownText(f, p), U(d, o.w), U(d, o.h) - st.tot, lh, d.fs10, d.cs, IF WEps(d) < 0 THEN -1 ELSE HeightEps, HEps(d, HeightEps)) IN
                                     [fit |-> r.fit, tot |-> st.tot + r.tot, amb |-> st.amb \/ r.amb]
                  r == FoldLeft(One, [fit |-> TRUE, tot |-> 0, amb |-> FALSE], parts) d1 == AddFont2(d, SelectSeq(o.t, LAMBDA c : c # 10)) IN
              IF r.amb THEN Ok(d1) ELSE [Ok(d1) EXCEPT !.ret = <<IF r.fit THEN 1 ELSE 0, IF r.fit THEN r.tot ELSE 0>>, !.cmpret = TRUE, !.tol = HeightEps]
    [] o.op = "Split" -> IF ~CanWrite(d) THEN Skip(d)
         ELSE IF o.t = <<>> THEN Err(d)
         ELSE LET b == CASE o.kind = "plain" -> BrkOf([has |-> 0]) [] o.kind = "word" -> [mode |-> 1, ind |-> 32, sep |-> <<>>] [] OTHER -> BrkOf(o.brk)
                  s == SplitText(Font(d), o.t, U(d, o.w), b, d.fs10, d.cs, WEps(d))
                  d1 == AddFont2(d, o.t) IN
              IF s.amb \/ ~s.done THEN [Ok(d1) EXCEPT !.loose = TRUE] ELSE [Ok(d1) EXCEPT !.lines = s.lines, !.cmplines = TRUE]
    [] o.op = "Measure" -> IF d.cf = 0 THEN Skip(d)
         ELSE LET f == Font(d) w == Written(f, o.t) IN
              [Ok([d EXCEPT !.fonts[d.cf] = w.f]) EXCEPT !.ret = <<Width(f, ShownText(f, o.t), d.fs10, d.cs)>>, !.cmpret = TRUE, !.nf = w.nf, !.cmpnf = TRUE,
                    !.tol = IF SpAmb(f, d.cs, d.fs10) THEN 5 + Len(o.t) * d.fs10 ELSE 5]
    [] o.op = "MeasureH" -> IF d.cf = 0 THEN Skip(d)
         ELSE LET f == Font(d) IN [Ok(AddFont2(d, o.t)) EXCEPT !.ret = <<LineH(f, d.fs10)>>, !.cmpret = TRUE]
    [] o.op = "GlyphQ" -> [Ok(d) EXCEPT !.ret = <<IF d.cf > 0 /\ GidOf(Font(d).fi, o.c) # 0 THEN 1 ELSE 0>>, !.cmpret = TRUE]
    [] o.op = "Placeholder" -> IF ~CanWrite(d) THEN Skip(d)
         ELSE LET it == [TextItem(d, "T", <<>>, <<>>, PlainLook, <<>>) EXCEPT !.ph = TRUE] IN
              Ok([Put(d, it) EXCEPT !.ph = Append(@, [name |-> o.name, page |-> d.cur, i |-> Len(d.pages[d.cur].items) + 1, w |-> U(d, o.w), x |-> d.x]),
                                    !.x = @ + U(d, o.w)])
    [] o.op = "FillPlaceholder" -> Fill(d, o)
    [] o.op = "Image" -> IF ~CanDraw(d) THEN Skip(d)
         ELSE IF ImgNo(o.file) = 0 THEN Err(d)
         ELSE Ok(Put(d, [k |-> "img"] @@ ImgRec(d, o, o.via, "plain", <<>>)))
    [] o.op = "ImageOpt" -> IF ~CanDraw(d) THEN Skip(d)
         ELSE IF ImgNo(o.file) = 0 \/ ~CallTrOk(o.tr) THEN Err(d)
         ELSE IF o.mask.has = 0 THEN Ok(Put(d, [k |-> "img"] @@ ImgOptRec(d, o, "plain", CallTr(d, o.tr))))
         ELSE IF ImgNo(o.mask.file) = 0 \/ ~CallTrOk(o.mask.tr) THEN Err(d)
         ELSE Ok(Put(d, [k |-> "img"] @@ [ImgOptRec(d, o, "masked", CallTr(d, o.tr)) EXCEPT
                     !.mask = <<ImgOptRec(d, o.mask, "mask", CallTr(d, o.mask.tr))>>, !.mdeg = o.mask.deg, !.mbox = o.mask.box]))
    [] o.op = "AddCSRGB" -> IF SpaceNo(d, o.name) # 0 THEN Err(d) ELSE Ok([d EXCEPT !.spaces = Append(@, [name |-> o.name, alt |-> "DeviceRGB", c |-> RGB(o).v])])
    [] o.op = "AddCSCMYK" -> IF SpaceNo(d, o.name) # 0 THEN Err(d) ELSE Ok([d EXCEPT !.spaces = Append(@, [name |-> o.name, alt |-> "DeviceCMYK", c |-> CMYK(o).v])])
    [] o.op = "SetCS" -> LET i == SpaceNo(d, o.name) IN
         IF i = 0 THEN Err(d) ELSE Ok(PutIf(d, [k |-> "sc", c |-> Col("spot:" \o d.spaces[i].alt, o.name, d.spaces[i].c)]))
    [] o.op \in {"ExtLink", "IntLink"} -> IF ~CanDraw(d) THEN Skip(d)
         ELSE LET x == U(d, o.x) y == H(d) - U(d, o.y) IN
              Ok([d EXCEPT !.pages[d.cur].links = Append(@, [kind |-> o.op, rect |-> <<x, y, x + U(d, o.w), y - U(d, o.h)>>,
                                                            url |-> IF o.op = "ExtLink" THEN o.url ELSE <<>>, name |-> IF o.op = "IntLink" THEN o.name ELSE ""])])
    [] o.op = "SetAnchor" -> IF ~CanDraw(d) THEN Ok(d)   \* no page to lead to
         ELSE Ok([d EXCEPT !.anchors = Append(@, [name |-> o.name, page |-> d.cur, y |-> H(d) - d.y + d.fs10 * 1000])])
    [] o.op \in {"Outline", "OutlinePos"} -> IF ~CanDraw(d) THEN Ok([d EXCEPT !.outl = Append(@, [t |-> o.t, page |-> 0, y |-> 0, pos |-> o.op, par |-> 0])])
         ELSE Ok([d EXCEPT !.outl = Append(@, [t |-> o.t, page |-> d.cur, y |-> IF o.op = "Outline" THEN 0 ELSE H(d) - d.y + 200000, pos |-> o.op, par |-> 0])])
    \* the entries are arranged: the i-th one from now on is the order[i]-th one of before, under the parent[i]-th one from now on
    [] o.op = "OutlineTree" -> Ok([d EXCEPT !.outl = [i \in 1..Len(d.outl) |-> IF i <= Len(o.parent) THEN [d.outl[IF o.order = <<>> THEN i ELSE o.order[i]] EXCEPT !.par = o.parent[i]]
                                                                              ELSE d.outl[i]], !.tree = TRUE])
    [] o.op = "SetInfo" -> Ok([d EXCEPT !.info = <<[title |-> o.title, author |-> o.author, subject |-> o.subject, creator |-> o.creator,
                                                    producer |-> o.producer, date |-> o.date]>>])
    [] o.op = "GetInfo" -> LET f == IF d.info = <<>> THEN [title |-> <<>>, author |-> <<>>, subject |-> <<>>, creator |-> <<>>, producer |-> <<>>] ELSE d.info[1] IN [Ok(d) EXCEPT !.lines = <<f.title, f.author, f.subject, f.creator, f.producer>>, !.cmplines = TRUE]
    [] o.op = "SetCompress" -> Ok([d EXCEPT !.comp = IF o.level < -2 THEN -1 ELSE IF o.level > 9 THEN 9 ELSE o.level])
    [] o.op = "NoCompress" -> Ok([d EXCEPT !.comp = 0])
    [] o.op = "ImportPage" -> Ok([d EXCEPT !.tpls = Append(@, [file |-> o.file, n |-> o.n])])
    [] o.op = "UseTemplate" -> LET p == d.tpls[o.t] IN LET w == U(d, o.w) h == U(d, o.h) IN Draw(d, UseTpl(d, p, U(d, o.x), U(d, o.y), TplW(p, w, h), TplH(p, w, h)))
    [] o.op = "ImportAll" ->
         IF o.via \notin {"path", "bytes", "rs", "prs", "var"} THEN Err(d)
         ELSE Ok(FoldLeft(LAMBDA e, n : LET pg == PageOfPdf(o.file, n) IN UseTpl(AddPage(e, cs, <<>>, <<>>), [file |-> o.file, n |-> n], 0, 0, MediaW(pg), MediaH(pg)),
                          d, Times(Len(PdfTab[PdfNo(o.file)].pages))))
    [] o.op = "PageSizes" -> [Ok(d) EXCEPT !.cmpret = TRUE, !.ret = FoldLeft(LAMBDA s, p : s \o <<MediaW(p), MediaH(p)>>, <<>>, PdfTab[PdfNo(o.file)].pages)]
    [] o.op = "Table" -> IF ~CanWrite(d) THEN Skip(d) ELSE Table(d, o)
    [] OTHER -> Ok(d)

---------------------------------------------------------------------------
(* What the items of a page show. *)
WithTr(g, tr) == IF tr = <<>> THEN g ELSE [g EXCEPT !.ca = tr[1], !.CA = tr[1], !.bm = tr[2]]
\* the coefficients of a rotation are written with five decimals: what is far from its centre may be off by more
RotTol(x, y) == 150 + (Abs(x) + Abs(y)) \div 50000
Tol(g, t) == IF g.ctm = Id THEN t ELSE t + 300 + g.rt
TextMarks(it, g0) ==
    LET f == it.f
        g == WithTr(g0, it.tr)
        cs1 == it.cs
        sp == SpUnits(f, it.cs, it.fs10)
        off == Offsets(f, it.t, 0).off
        tw == RunWidth(it) cw == CellW(it) ch == CellH(it)
        n == Len(it.t)
        al == it.look.align
        asc == Asc(f, it.fs10) desc == Desc(f, it.fs10)
        first == LET S == {i \in 1..n : it.t[i] # 32} IN IF S = {} THEN n + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
        last == LET S == {i \in 1..n : it.t[i] # 32} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
        gap == [i \in 1..n |-> IF it.t[i] = 32 /\ i > first /\ i < last THEN 1 ELSE 0]
        gaps == FoldLeft(LAMBDA s, v : s + v, 0, gap)
        just == it.ty = "C" /\ HasBit(al, 64) /\ it.rect # <<>> /\ gaps > 0 /\ cw > tw /\ it.fs10 > 0
        adj == IF just THEN Rnd(cw - tw, gaps * it.fs10) * it.fs10 ELSE 0
        x0 == IF it.ty = "T" THEN it.x
              ELSE IF HasBit(al, 2) THEN it.x + cw - tw ELSE IF HasBit(al, 16) THEN it.x + (cw - tw) \div 2 ELSE it.x
        y0 == IF it.ty = "T" THEN it.h - it.y
              ELSE IF HasBit(al, 1) THEN it.h - it.y - ch - desc
              ELSE IF HasBit(al, 32) THEN it.h - it.y - (ch + desc + asc) \div 2 ELSE it.h - it.y - asc
        col == IF it.tcol = <<>> THEN g.fc ELSE it.tcol[1]
        ctol == IF it.cs = 0 THEN 0 ELSE 8 * n + (IF SpAmb(f, it.cs, it.fs10) THEN n * it.fs10 ELSE 0)
        tol == Tol(g, 75) + it.xt + ctol + (IF just THEN gaps * it.fs10 ELSE 0)
        Glyph(i, before) ==
            LET p == ApplyM(g.ctm, x0 + off[i] * it.fs10 + (i - 1) * it.cs + before * adj, y0)
                gl == GlyphOf(f.fi, it.t[i]) IN
            [k |-> "glyph", x |-> p[1], y |-> p[2], m |-> SubSeq(g.ctm, 1, 4), u |-> <<it.t[i]>>, us |-> gl.us, g |-> gl.g, h |-> gl.h, w |-> gl.w, a |-> gl.a, fs |-> it.fs10 * 1000, fd |-> FontTab[f.fi].fd, pr |-> FontTab[f.fi].progs,
             col |-> col, ca |-> g.ca, bm |-> g.bm, sm |-> g.sm, clip |-> g.clip, tol |-> tol]
        gs == FoldLeftDomain(LAMBDA st, i : [ms |-> Append(st.ms, Glyph(i, st.gaps)), gaps |-> st.gaps + gap[i]], [ms |-> <<>>, gaps |-> 0], it.t).ms
        \* underline
        fu == FontTab[f.fi]
        Coef(v) == IF v = 0 THEN 100 ELSE v
        P(v) == Scale(f, v, it.fs10)
        content == P(fu.hasc) - P(fu.hdesc)
        base == P(fu.hasc) + (content - Coef(it.look.clh) * it.fs10 * 10) \div 2
        uy == it.h - it.y + (P(fu.upos) * Coef(it.look.cup)) \div 100 - base
        uh == (P(fu.uth) * Coef(it.look.cut)) \div 100
        under == IF HasBit(it.style, 4)
                 THEN <<[PathMark(g, MapPath(g.ctm, <<RectSub(it.x, uy, cw, uh)>>), "F", Tol(g, 130) + it.xt + ctol) EXCEPT !.fc = col]>> ELSE <<>>
        bd == it.look.border
        top == it.h - it.y hw == it.lw \div 2
        Ln(a, b, c, e) == <<PathMark(g, MapPath(g.ctm, <<Poly(<< <<a, b>>, <<c, e>> >>, 0)>>), "S", Tol(g, 75) + it.xt + ctol)>>
        borders == (IF HasBit(bd, 4) THEN Ln(it.x - hw, top, it.x + cw + hw, top) ELSE <<>>)
                   \o (IF HasBit(bd, 8) THEN Ln(it.x, top, it.x, top - ch) ELSE <<>>)
                   \o (IF HasBit(bd, 2) THEN Ln(it.x + cw, top, it.x + cw, top - ch) ELSE <<>>)
                   \o (IF HasBit(bd, 1) THEN Ln(it.x - hw, top - ch, it.x + cw + hw, top - ch) ELSE <<>>) IN
    gs \o under \o borders

RECURSIVE ImgMarks(_, _)
ImgMarks(it, g0) ==
    LET cw == IF it.crop = <<>> THEN it.w ELSE it.crop[3]
        chh == IF it.crop = <<>> THEN it.h ELSE it.crop[4]
        top == it.H - it.y
        g1 == IF it.use = "masked" \/ it.deg = 0 THEN g0
              ELSE [g0 EXCEPT !.ctm = Mul(RotM(it.deg % 360, it.x + cw \div 2, top - chh \div 2), @), !.rt = @ + RotTol(it.x, top)]
        g2 == WithTr(g1, it.tr)
        g3 == IF it.mask = <<>> THEN g2
              ELSE [g2 EXCEPT !.sm = <<[ty |-> "Luminosity", cs |-> "DeviceGray", ok |-> 1, box |-> <<it.W, it.H>>, giv |-> it.mbox,
                                        marks |-> ImgMarks(it.mask[1], [GS0 EXCEPT !.ctm = g2.ctm])]>>]
        g4 == IF it.crop = <<>> THEN g3
              ELSE [g3 EXCEPT !.clip = Append(@, MapPath(g3.ctm, <<RectSub(it.x, top - chh, cw, chh)>>))]
        left == IF it.crop = <<>> THEN it.x ELSE it.x - it.crop[1]
        low == (IF it.crop = <<>> THEN top ELSE top + it.crop[2]) - it.h
        m == << IF it.hf # 0 THEN -it.w * 10 ELSE it.w * 10, 0, 0, IF it.vf # 0 THEN -it.h * 10 ELSE it.h * 10,
                IF it.hf # 0 THEN left + it.w ELSE left, IF it.vf # 0 THEN low + it.h ELSE low >>
        ang == IF it.use = "masked" THEN (it.deg + it.mdeg) % 360 ELSE 0
        ctm == IF ang = 0 THEN g4.ctm ELSE Mul(RotM(ang, it.x + it.w \div 2, top - it.h \div 2), g4.ctm) IN
    <<[k |-> "img", m |-> Mul(m, ctm), pix |-> it.pix, alpha |-> it.alpha, id |-> it.key \o "/" \o it.use, ca |-> g4.ca, CA |-> g4.CA,
       bm |-> g4.bm, sm |-> g4.sm, clip |-> g4.clip, tol |-> IF ctm = Id THEN 200 ELSE 600 + g4.rt + (IF ang = 0 THEN 0 ELSE RotTol(it.x, top))]>>

FormMarks(it, g) ==
    <<[k |-> "form", dig |-> it.dig, box |-> it.box, first |-> it.first, p |-> ApplyM(g.ctm, it.x, it.y), q |-> ApplyM(g.ctm, it.x + it.w, it.y + it.h),
       ca |-> g.ca, CA |-> g.CA, bm |-> g.bm, sm |-> g.sm, clip |-> g.clip, tol |-> it.tol + g.rt]>>

RItem(s, it) ==
    CASE it.k = "path" -> LET g == WithTr(s.g, it.tr) IN [s EXCEPT !.marks = Append(@, PathMark(g, MapPath(g.ctm, it.sub), it.paint, Tol(g, it.tol)))]
      [] it.k = "text" -> [s EXCEPT !.marks = @ \o TextMarks(it, s.g)]
      [] it.k = "img" -> [s EXCEPT !.marks = @ \o ImgMarks(it, s.g)]
      [] it.k = "form" -> [s EXCEPT !.marks = @ \o FormMarks(it, s.g)]
      [] it.k = "lw" -> [s EXCEPT !.g.lw = it.v]
      [] it.k = "dash" -> [s EXCEPT !.g.dash = it.v]
      [] it.k = "fc" -> [s EXCEPT !.g.fc = it.c]
      [] it.k = "sc" -> [s EXCEPT !.g.sc = it.c]
      [] it.k = "rot" -> [Push(s) EXCEPT !.g.ctm = Mul(RotM(it.deg % 360, it.x, it.y), @), !.g.rt = @ + RotTol(it.x, it.y)]
      [] it.k = "save" -> Push(s)
      [] it.k = "unsave" -> Pop(s)
      [] it.k = "clip" -> [s EXCEPT !.g.clip = Append(@, MapPath(s.g.ctm, it.sub))]
Render(items) == FoldLeft(RItem, M0, items)
=============================================================================
