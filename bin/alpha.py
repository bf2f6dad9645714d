"""Small alphabets of calls.  The specification (module MCDoc) enumerates every sequence of the given length over
an alphabet; the sequences are replayed on the real code.  Numbers are hundredths of the document unit."""
from gen import NOTR, NOCROP, NOBRK, NOST, FONTS


def op(_op, **kw):
    o = {"op": _op, "d": 0}
    o.update(kw)
    return o


S = lambda s: [ord(c) for c in s]


def start(unit=1, named="A4", conv=0, w=0, h=0, trim=(), **kw):
    o = op("Start", unit=unit, conv=conv, named=named, w=w, h=h, trim=list(trim), prot=0, perm=0, user=[], owner=[])
    o.update(kw)
    return o


def font(fam="lib", file="lib", style=0, kern=0, via="path", plain=0, cb=1, subst=63, cont=""):
    return op("AddFont", fam=fam, file=FONTS[file] if file in FONTS else file, style=style, kern=kern, via=via, plain=plain, cb=cb, subst=subst, cont=cont)


def sel(fam="lib", sty="", style=0, size=120, ty="int", api="font"):
    return op("SetFont", fam=fam, sty=sty, style=style, size=size, ty=ty, api=api)


PAGE = op("AddPage")
def pageopt(w, h, named="", trim=()): return op("AddPageOpt", named=named, w=w, h=h, trim=list(trim))
def text(t): return op("Text", t=S(t))
def cell(t, w=5000, h=2000, tr=None, **kw):
    o = op("CellOpt", hasrect=1, w=w, h=h, t=S(t), tr=tr or dict(NOTR), brk=dict(NOBRK), align=8, border=0, float=2, cup=0, clh=0, cut=0)
    o.update(kw)
    return o
def line(x1=1000, y1=2000, x2=9000, y2=3000): return op("Line", x1=x1, y1=y1, x2=x2, y2=y2)
def rect(kind="ULO", style="B", x=2000, y=3000, w=4000, h=2000, tr=None):
    return op("Rect", kind=kind, x=x, y=y, w=w, h=h, style=style, tr=tr or dict(NOTR))
def tr(a, bm="/Normal"): return {"has": 1, "a": a, "bm": bm}
def image(file="rgb.png", via="path", x=1000, y=1000, hasrect=1, w=4000, h=3000): return op("Image", file=file, via=via, x=x, y=y, hasrect=hasrect, w=w, h=h)
def iopt(file="rgb.png", via="path", x=1000, y=1000, hasrect=1, w=4000, h=3000, deg=0, vf=0, hf=0, t=None, crop=None, mask=None):
    o = op("ImageOpt", file=file, via=via, x=x, y=y, hasrect=hasrect, w=w, h=h, deg=deg, vf=vf, hf=hf, tr=t or dict(NOTR), crop=crop or dict(NOCROP), mask={"has": 0})
    if mask:
        box = mask.pop("box", [])
        m = {k: v for k, v in iopt(**mask).items() if k not in ("op", "d", "mask")}
        m["box"] = box
        m["has"] = 1
        o["mask"] = m
    return o
def crop(x, y, w, h): return {"has": 1, "x": x, "y": y, "w": w, "h": h}
def info(**kw):
    o = op("SetInfo", title=[], author=[], subject=[], creator=[], producer=[], date=[])
    o.update(kw)
    return o
def output(via="bytes", light=0): return op("Output", via=via, light=light, secrets=[])
def link(url="http://e.org/(x)", **kw): return op("ExtLink", url=S(url), **dict(dict(x=1000, y=2000, w=3000, h=1000), **kw))
def jump(name, **kw): return op("IntLink", name=name, **dict(dict(x=2000, y=5000, w=3000, h=1000), **kw))
def cs(name): return op("SetCS", name=name)
def newy(y, h): return op("SetNewY", y=y, h=h)


BASE = [start(), PAGE, font(), sel()]
CLIP = op("ClipPolygon", pts=[1000, 1000, 30000, 1000, 20000, 40000])
ROT = op("Rotate", deg=30, x=10000, y=20000)
ROTR, SAVE, REST = op("RotateReset"), op("Save"), op("Restore")
SIZES = {"light": (3, 3), "mid": (3, 3)}

# name -> (prefix, alphabet, suffix, quick (model depth, replayed length), thorough)
A = {}


def alpha(name, prefix, ops, suffix=(), quick=(3, 3), thorough=(4, 4), words=None):
    A[name] = dict(prefix=list(prefix), alpha=list(ops), suffix=list(suffix), quick=quick, thorough=thorough, words=[S(w) for w in words] if words else None)


alpha("objects", BASE, [PAGE, text("Ab"), image(), iopt(mask=dict(file="mask1.png")), rect(tr=tr(500)), link(), jump("a1"), op("SetAnchor", name="a1"),
                        op("OutlinePos", t=S("One")), info(title=S("T")), font("ubu", "ubu"), op("AddCSRGB", name="Sp", r=10, g=20, b=30)], [output()])
alpha("pages", [start(unit=2, w=20000, h=10000, named="", trim=(500, 500, 19000, 9000))],
      [PAGE, pageopt(0, 0, "A5"), pageopt(10000, 15000), pageopt(12000, 8000, trim=(100, 200, 11000, 7000)), op("SetPage", n=1), op("SetPage", n=2), op("SetPage", n=3),
       line(), newy(2000, 5000), output(light=1)], [output()])
alpha("draw", BASE, [PAGE, op("SetPage", n=1), op("SetPage", n=2), op("SetPage", n=9), line(), rect(), text("xy"), image(), cell("c"), newy(3000, 80000), ROT, ROTR], [output()])
alpha("again", BASE, [PAGE, op("SetPage", n=1), line(), text("xy"), image(), iopt(file="rgb2.png", mask=dict(file="mask1.png")), output(via="writeto"), output(via="read"),
                      output(via="file", light=1), op("OutlinePos", t=S("One")), op("Placeholder", name="p", w=3000), op("FillPlaceholder", name="p", t=S("fill"), align=8), link()],
      [output(), output(via="bytespdf", light=1)])
alpha("attrs", BASE, [op("SetLineWidth", v=300), op("SetLineType", t="dashed"), op("SetCustomLineType", arr=[300, 500], phase=100), op("SetStrokeColor", r=255, g=0, b=9),
                      op("SetFillColor", r=3, g=200, b=0), op("SetGrayFill", v=40), SAVE, REST, ROT, ROTR, CLIP, op("SetTextColor", r=1, g=2, b=250), text("t"), line(), PAGE],
      [line(), rect(), text("e"), output()])
alpha("shapes", [start(), PAGE], [line(), rect("LL", "D"), rect("UL", "F"), rect("LLS", "FD"), rect("ULS", ""), rect("LLO", "S"), rect("ULO", "f"), op("Oval", x1=1000, y1=1000, x2=9000, y2=5000),
                                  op("Curve", pts=[1000, 1000, 3000, 5000, 7000, 100, 9000, 2000], style="D"), op("Polygon", pts=[1000, 1000, 9000, 2000, 5000, 8000], style="DF"),
                                  op("Rectangle", x1=2000, y1=2000, x2=9000, y2=9000, style="DF", r=1000, n=5), ROT, ROTR, pageopt(30000, 20000)], [line(), output()])
for u, c in ((2, 0), (3, 0), (4, 0), (5, 0), (1, 250)):
    f = {2: 1, 3: .1, 4: .04, 5: 4 / 3}.get(u, .4) if not c else .4
    v = lambda x: int(x * f)
    alpha("unit%d%s" % (u, "c" if c else ""), [start(unit=u, conv=c, named="", w=v(60000), h=v(60000)), PAGE, font(), sel()],
          [line(v(1000), v(2000), v(9000), v(3000)), rect(x=v(2000), y=v(3000), w=v(4000), h=v(2000)), op("SetXY", x=v(5000), y=v(7000)), op("SetMargins", l=v(3000), t=v(4000), r=v(500), b=v(2000)),
           cell("cell", v(5000), v(2000)), op("Measure", t=S("width")), op("MeasureH", t=S("h")), newy(v(1000), v(30000)), pageopt(v(30000), v(20000)), op("SetLineWidth", v=v(200)),
           op("Margins"), iopt(w=v(3000), h=v(3000), x=v(500), y=v(500), crop=crop(v(100), v(200), v(1500), v(1000))), op("Br", h=v(1000)), text("abc")],
          [text("end"), output()], quick=(2, 2), thorough=(3, 3))
alpha("moves", BASE, [op("SetX", x=7000), op("SetY", y=9000), op("SetXY", x=1234, y=4321), op("Br", h=2500), text("ab"), text("AV"), cell("c1"), cell("c2", float=1), cell("c3", float=3),
                      op("Cell", hasrect=0, w=0, h=0, t=S("d")), op("SetMargins", l=2000, t=3000, r=100, b=100), PAGE, line(), op("Measure", t=S("mm"))], [output()])
alpha("breaks", [start(named="", w=20000, h=20000), PAGE],
      # heights and positions that end exactly at, just above and just below the bottom margin
      [newy(1000, 5000), newy(5000, 19000), newy(5000, 14000), newy(5000, 14025), op("SetY", y=5000), op("SetY", y=5025), op("SetMargins", l=500, t=5000, r=500, b=1000), op("SetMargins", l=0, t=0, r=0, b=0),
       op("SetNewYIfNoOffset", y=5000, h=14000), op("SetNewYIfNoOffset", y=4975, h=14025), op("SetNewXY", y=3000, x=2500, h=14000), pageopt(10000, 40000), PAGE, line()], [line(), output()])
alpha("glyphs", [start(), PAGE, font("lib", "lib", kern=1), font("ubu", "ubu"), sel()],
      [text("AV"), text("é½"), text("ﬁß"), cell("To"), op("Measure", t=S("Åq")), sel("ubu"), sel("lib", size=200), text("ab"), PAGE, op("IsFit", hasrect=1, w=5000, h=3000, t=S("Zeta")),
       op("Split", kind="plain", t=S("xyz w"), w=2000, brk=dict(NOBRK)), op("SetCharSpacing", v=200)], [text("A"), output()])
alpha("fonts", [start(), PAGE, font(), sel()],
      [font("ubu", "ubu"), font("lib", "ubu", style=2), font("lib", "ubu"), sel("ubu"), sel("lib", "B", 2), sel("lib", "U", 4), sel("lib"), sel("nosuch"), op("SetFontSize", size=200),
       op("SetTextColor", r=9, g=99, b=199), op("SetTextColorCMYK", c=10, m=20, y=30, k=40), op("SetGrayFill", v=50), op("SetFillColor", r=200, g=9, b=0), op("SetCharSpacing", v=150), PAGE, text("ab")],
      [text("cd"), output()])
PROT = [start(prot=1, perm=20, user=S("user"), owner=S("owner")), PAGE, font(), sel()]
alpha("secret", PROT, [text("hid"), line(), image(), iopt(file="rgba.png"), iopt(mask=dict(file="mask1.png")), link("http://secret-address.example/"), op("OutlinePos", t=S("SecretTitle")), info(title=S("SecretInfo")),
                       op("AddCSRGB", name="Sp", r=10, g=20, b=30), PAGE, font("ubu", "ubu", subst=63), op("NoCompress"), jump("a"), op("SetAnchor", name="a")],
      [op("Output", via="bytes", light=0, secrets=["secret-address", "SecretTitle"]), op("Opened", **{"pass": S("user")}), op("Opened", **{"pass": S("owner")}), op("Opened", **{"pass": S("other")})])
alpha("images", BASE, [image(), image(x=3000, w=2000), image("rgb2.png"), image("rgb.png", via="bytes"), iopt(mask=dict(file="mask1.png")), iopt(mask=dict(file="mask2.png", x=1500, box=[1000, 50000, 5000, 83000])), iopt("rgba.png", mask=dict(file="rgba.png")),
                       iopt("rgba.png"), iopt(vf=1), iopt(hf=1, crop=crop(500, 500, 2000, 1000)), iopt(deg=30), PAGE, image("rgba.png", hasrect=0), image("g.gif", via="hpath")], [output()])
alpha("fails", BASE, [sel("nosuch"), sel("lib", ty="bad"), font("bad", "nosuch.ttf"), font("bad", "cut.ttf"), image("text.png"), image("cut.png"), iopt(mask=dict(file="interlaced.png")), iopt("nosuch.png", t=tr(300)),
                      op("Rectangle", x1=5000, y1=5000, x2=4000, y2=9000, style="D", r=0, n=0), op("Rectangle", x1=1000, y1=1000, x2=2000, y2=2000, style="D", r=1500, n=4), op("SetPage", n=7), op("SetPage", n=0),
                      op("KernOverride", fam="nosuch", v=-400), cs("unknown"), op("AddCSRGB", name="Sp", r=1, g=2, b=3), op("FillPlaceholder", name="unknown", t=S("x"), align=8), op("SetTransparency", a=500, bm="/Foo"), rect(tr=tr(400, "/Foo")),
                      cell("", hasrect=1), op("Split", kind="plain", t=[], w=5000, brk=dict(NOBRK)), text("ok"), PAGE],
      [text("AVAab"), line(), rect(), cell("x"), image(), output()], quick=(2, 2), thorough=(3, 3))
alpha("transp", BASE, [op("SetTransparency", a=500, bm="/Multiply"), op("SetTransparency", a=0, bm=""), op("NewTransparency", a=250, bm="/Hue"), op("ClearTransparency"), line(), rect(tr=tr(500)), rect(tr=tr(500, "/Multiply")),
                       rect("UL", "F"), cell("c"), cell("d", tr=tr(250)), iopt(), iopt(t=tr(750)), rect("LLO", "F", tr=tr(0)), cell("z", tr=tr(0)), iopt(t=tr(0)), op("SetTransparency", a=500, bm="/Bad"), text("t"), PAGE, op("Polygon", pts=[1000, 1000, 9000, 2000, 5000, 8000], style="DF")], [line(), text("e"), output()])
alpha("caller", [dict(o, mut=1) for o in PROT[:1]] + [dict(o, mut=1) for o in BASE[1:]],
      [dict(o, mut=1) for o in (op("SetCustomLineType", arr=[300, 500], phase=100), op("Polygon", pts=[1000, 1000, 9000, 2000, 5000, 8000], style="DF"), line(), cell("c", tr=tr(300)), iopt(t=tr(400), crop=crop(100, 100, 900, 900)),
                                iopt(mask=dict(file="mask1.png")), pageopt(30000, 20000, trim=(100, 100, 20000, 10000)), font("ubu", "ubu", via="data"), rect(tr=tr(500)), op("SetTransparency", a=300, bm="/Hue"),
                                image("rgb.png", via="bytes"), op("MultiCell", hasrect=1, w=5000, h=5000, t=S("many words")), info(title=S("T"), date=[2020, 1, 2, 3, 4, 5, 0]))],
      [line(), text("e"), output()])
alpha("links", [start(), PAGE, font(), sel()],
      [link(), link("mailto:a@b.c", x=4000), jump("a1"), jump("a2"), op("SetAnchor", name="a1"), op("SetAnchor", name="a2"), PAGE, pageopt(20000, 30000), op("SetPage", n=1), op("SetPage", n=2), op("SetY", y=15000), op("SetFontSize", size=300)], [output()])
alpha("outlines", [start(), PAGE, font(), sel()],
      [op("OutlinePos", t=S("One")), op("OutlinePos", t=S("Two (x)")), op("Outline", t=S("Ж")), PAGE, pageopt(20000, 30000), op("SetPage", n=1), op("SetPage", n=2), op("SetY", y=15000), output(light=1)], [output()])
TREES = [[0], [0, 1], [0, 0], [0, 1, 1], [0, 1, 2], [0, 0, 2], [0, 1, 0], [0, 0, 0], [0, 1, 1, 3], [0, 1, 2, 1], [0, 1, 2, 3], [0, 0, 2, 2], [0, 1, 0, 3], [0, 1, 1, 1]]
TREES = [(t, []) for t in TREES] + [([0, 0], [2, 1]), ([0, 1], [2, 1]), ([0, 1, 1], [3, 2, 1]), ([0, 0, 2], [2, 3, 1]), ([0, 1, 2], [3, 1, 2]), ([0, 1, 0, 3], [4, 1, 3, 2])]
alpha("trees", [start(), PAGE], [op("OutlinePos", t=S("A")), PAGE, op("OutlinePos", t=S("Žb"))] + [op("OutlineTree", parent=t, order=q) for t, q in TREES] + [op("Outline", t=S("c"))], [output()], quick=(5, 5), thorough=(6, 6))
alpha("places", BASE, [op("Placeholder", name="p1", w=6000), op("Placeholder", name="p2", w=3000), op("FillPlaceholder", name="p1", t=S("fill"), align=8), op("FillPlaceholder", name="p1", t=S("AV"), align=2),
                       op("FillPlaceholder", name="p2", t=S("mid"), align=16), op("FillPlaceholder", name="p1", t=S("x"), align=16), op("SetFontSize", size=240), op("SetTextColor", r=9, g=99, b=199), PAGE, op("SetPage", n=1), text("tx"), op("SetXY", x=9000, y=9000)],
      [text("e"), output()])
HD = lambda x: [line(x, 500, x + 900, 900), op("SetXY", x=5000, y=700)]
alpha("headers", [start(named="", w=20000, h=20000), PAGE, font(), sel()],
      [op("Header", ops=HD(100)), op("Footer", ops=HD(5000)), op("Header", ops=[rect("UL", "F"), op("SetLineWidth", v=400)]), op("Footer", ops=[text("foot"), op("SetFontSize", size=300)]), PAGE, pageopt(10000, 10000), newy(2000, 19000), op("SetNewYIfNoOffset", y=2000, h=3000),
       op("SetPage", n=1), line(), op("SetMargins", l=2000, t=3000, r=100, b=100)], [text("e"), output()])
alpha("cut", BASE, [text("A"), text("V "), cell("o", 4000), cell("p", 4000), cell("o", 4000, 2500), cell("q", 4000, align=10), cell("r", 4000, border=15), cell("s", 4000, tr=tr(500)), cell("t", 4000, float=1),
                    op("Cell", hasrect=0, w=0, h=0, t=S("A")), op("SetTextColor", r=9, g=99, b=199), sel("lib", "U", 4), op("SetCharSpacing", v=150), op("SetX", x=3000), line(), op("Measure", t=S("W"))], [text("e"), output()],
      words=["AV", "o T"])
alpha("spots", BASE, [op("AddCSRGB", name="Sp", r=10, g=20, b=30), op("AddCSCMYK", name="Gold 1", c=10, m=20, y=30, k=40), op("AddCSRGB", name="Gold 1", r=1, g=1, b=1), op("AddCSRGB", name="A(b)#", r=0, g=255, b=128), op("AddCSRGB", name="SP", r=200, g=2, b=3), cs("SP"), cs("Sp"), cs("Gold 1"), cs("A(b)#"), cs("no"),
                      line(), rect(), text("t"), PAGE, op("SetStrokeColor", r=255, g=0, b=9), SAVE, REST], [line(), output()])
def table(n=2, rows=1, mx=2, x=2000, y=3000, rh=3000, align="left", ts=None, hs=None, cst=None, st=None, w=9000):
    return op("Table", x=x, y=y, rh=rh, max=mx, cols=[{"t": S("Head%d" % i), "w": w + 500 * i, "align": align} for i in range(n)], ts=ts or dict(NOST), hs=hs or dict(NOST), cs=cst or dict(NOST),
              rows=[[{"t": S("r%dc%d" % (i, j)), "st": (st if st else dict(NOST))} for j in range(n)] for i in range(rows)])
def gap(t, i):
    # empty cells without a style of their own, one of them between or after styled ones
    for r in t["rows"]: r[i].update(t=[], st=dict(NOST))
    return t
def style(bs, fill, tx, font="lib", size=100): return {"has": 1, "bs": bs, "fill": fill, "text": tx, "font": font, "size": size}
ST1 = style([1, 1, 1, 1, 100, 9, 9, 200], [200, 210, 220], [10, 0, 0])
ST2 = style([0, 1, 0, 1, 50, 200, 0, 0], [255, 255, 255], [0, 10, 0], "ubu", 120)
alpha("tables", [start(), PAGE, font(), font("ubu", "ubu"), sel()],
      [table(), table(3, 2, 5, y=20000), table(1, 0, 0), table(2, 3, 2, align="right", ts=ST1), table(2, 2, 2, align="center", hs=ST1, cst=ST2), table(2, 2, 3, ts=ST2, st=ST1), table(2, 2, 4, hs=ST2, st=ST2, align="center"), gap(table(3, 2, 2, st=ST1), 1), gap(table(3, 1, 2, st=ST2, cst=ST1), 2), PAGE,
       op("SetLineWidth", v=300), op("SetTextColor", r=9, g=99, b=199), text("b"), sel("ubu")], [sel(), text("e"), output()], quick=(2, 2), thorough=(3, 3))
IMP = lambda f, n, via="path": op("ImportPage", file=f, n=n, box="/MediaBox", via=via)
USE = lambda t, x=2000, y=3000: op("UseTemplate", t=t, x=x, y=y, w=20000, h=15000)
alpha("imports", BASE, [IMP("a.pdf", 1), IMP("a.pdf", 3), IMP("a.pdf", 2), USE(1), USE(2, 5000, 9000), line(), PAGE, image(), text("t"), output(light=1), ROT, ROTR, rect(tr=tr(500))], [output(), output(light=1)])
alpha("importall", [start()], [op("ImportAll", file="a.pdf", via="path", box="/MediaBox"), op("ImportAll", file="c.pdf", via="bytes", box="/MediaBox"), op("ImportAll", file="b.pdf", via="rs", box="/MediaBox"), op("ImportAll", file="a.pdf", via="other", box="/MediaBox"),
                               op("PageSizes", file="d.pdf", via="var"), PAGE, line(), op("SetPage", n=1), op("SetPage", n=2)], [output()], quick=(2, 2), thorough=(3, 3))
alpha("levels", BASE, [op("SetCompress", level=0), op("SetCompress", level=1), op("SetCompress", level=9), op("SetCompress", level=-1), op("SetCompress", level=-3), op("SetCompress", level=11), op("NoCompress"), line(), text("xy"), image("rgba.png"), PAGE, output(light=1)], [output()])
alpha("infos", [start()], [info(title=S("T")), info(title=S("Ü (x) \\ y"), author=S("A\U0001F600"), date=[2024, 2, 29, 23, 59, 58, 330]), info(creator=S("c"), producer=S("p"), subject=S("s"), date=[1999, 12, 31, 0, 0, 0, -300]), info(), info(date=[2001, 9, 9, 1, 46, 40, 0]),
                           PAGE, op("GetInfo"), output(light=1)], [output()])
alpha("absent", [start(), PAGE, font("lib", "lib"), font("ubu", "ubu", cb=0, subst=-2), font("ami", "ami", cb=1, subst=-1), sel()],
      [text("a中b"), text("\U0001F600"), cell("中"), op("Measure", t=S("文x")), sel("ubu"), sel("ami"), sel("lib"), op("GlyphQ", c=0x4E2D), op("GlyphQ", c=65), op("Split", kind="plain", t=S("ab中"), w=2000, brk=dict(NOBRK)), PAGE, text("ab")],
      [text("z中"), output()])
alpha("documents", BASE, [PAGE, text("Ab"), image(), rect(tr=tr(500)), op("SetTransparency", a=300, bm="/Hue"), op("SetTextColor", r=1, g=2, b=250), op("SetCharSpacing", v=200), op("SetMargins", l=2000, t=3000, r=100, b=100), op("Header", ops=HD(100)), op("SetCompress", level=0),
                          op("OutlinePos", t=S("One")), op("SetAnchor", name="a1"), info(title=S("T")), font("ubu", "ubu"), op("AddCSRGB", name="Sp", r=10, g=20, b=30), op("Placeholder", name="p1", w=6000), IMP("a.pdf", 1), op("SetLineWidth", v=300), op("SetLineType", t="dashed"), output(light=1)], [output()], quick=(2, 2), thorough=(3, 3))
alpha("second", BASE, [PAGE, text("cd"), image(), line(), jump("a1"), cs("Sp"), op("FillPlaceholder", name="p1", t=S("x"), align=8), sel("ubu"), cell("x"), op("OutlinePos", t=S("Two")), op("SetNewYIfNoOffset", y=5000, h=3000), op("Margins")], [output()], quick=(2, 2), thorough=(2, 2))
