"""Random programs over the public calls of gopdf.  A profile weighs the kinds of calls; every program only
uses calls the document model (spec/GoPdfDoc.tla) decides."""
import random

UNITS = {0: (1, 1), 1: (1, 1), 2: (360, 127), 3: (3600, 127), 4: (72, 1), 5: (3, 4)}
FONTS = {"lib": "LiberationSerif-Regular.ttf", "ubu": "Ubuntu-L.ttf", "ami": "Amiri-Regular.ttf"}
LATIN = [ord(c) for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .,-!?()/&"]
ACCENT = [ord(c) for c in "éèêäöüßçñÅØæ€£§"]
GREEKCYR = [ord(c) for c in "αβγδλπΣΨЖДЯшщю"]
WIDE = list(range(0xC0, 0x100)) + list(range(0x410, 0x430))      # enough that a font shows more than a hundred characters
LIGS = [ord(c) for c in "ﬁﬂ½¼™©®…–—“”"]
ARABIC = list(range(0x627, 0x63B)) + list(range(0x641, 0x64B))
ASTRAL = list(range(0x1EE00, 0x1EE08))
MISSING = [0x4E2D, 0x6587, 0x1F600, 0x1F601, 0xE123, 13, 9]
POOL = sorted(set(LATIN + ACCENT + GREEKCYR + WIDE + LIGS + ARABIC + ASTRAL + MISSING + [10]))
QUERY = list(range(128)) + [0xAD, 0xFFFF, 0x10FFFF]     # characters only asked about
IMAGES = ["rgb.png", "rgb2.png", "rgba.png", "rgba2.png", "gray.png", "graya.png", "pal.png", "paltr.png", "pal2.png", "bit1.png", "rgb.jpg", "gray.jpg", "g.gif"]
MASKS = ["mask1.png", "mask2.png", "rgba.png"]
SFONTS, SIMAGES, SMASKS, BROKEN = [], [], [], []     # made up for the run (see synth.py)
BADIMG = ["text.png", "cut.png", "interlaced.png", "deep.png", "nosuch.png"]
PDFS = {"a.pdf": 3, "b.pdf": 1, "c.pdf": 2, "d.pdf": 2}
BMS = ["/Hue", "/Color", "/Normal", "/Darken", "/Screen", "/Overlay", "/Lighten", "/Multiply", "/Exclusion", "/ColorBurn",
       "/HardLight", "/SoftLight", "/Difference", "/Saturation", "/Luminosity", "/ColorDodge"]
NOTR = {"has": 0, "a": 0, "bm": ""}
NOCROP = {"has": 0}
NOBRK = {"has": 0}
NOST = {"has": 0}


SIZES = {"A4": (595, 842), "A4Small": (595, 842), "A5": (420, 595), "A3": (842, 1190), "A2": (1190, 1684), "A1": (1685, 2384), "A0": (2384, 3371), "A3Landscape": (1190, 842), "A4Landscape": (842, 595),
         "Letter": (612, 792), "LetterSmall": (612, 792), "Tabloid": (792, 1224), "Ledger": (1224, 792), "Legal": (612, 1008), "Statement": (396, 612), "Executive": (540, 720), "B4": (729, 1032),
         "B5": (516, 729), "Folio": (612, 936), "Quarto": (610, 780), "10x14": (720, 1008)}
INTS = ["int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"]


class Gen:
    def __init__(self, rng, pools, opts=None):
        self.r = rng
        self.pools = pools          # font file -> characters it has, no two with the same glyph
        self.o = opts or {}
        self.ops = []
        self.d = 0
        self.reset()

    def reset(self):
        self.pages = 0
        self.fonts = []      # (fam, style, file, subst)
        self.cf = None
        self.size = 120
        self.unit, self.conv = 1, 0
        self.num, self.den = 1, 1
        self.pw, self.ph = 595, 842
        self.cspaces, self.anchors, self.tpls, self.placeholders, self.depth = [], [], [], [], 0
        self.outl, self.outmode = 0, None
        self.bm = None
        self.cs = 0
        self.conts = []
        self.nfont = 0

    # ---- helpers
    def put(self, op, **kw):
        o = {"op": op, "d": self.d}
        o.update(kw)
        if self.o.get("mut"):
            o["mut"] = 1
        self.ops.append(o)
        return o

    def L(self, pt):
        """points -> hundredths of the document unit"""
        return int(round(pt * 100.0 * self.den / self.num))

    def x(self): return self.L(self.r.uniform(-20, self.pw + 20) if self.r.random() < .1 else self.r.uniform(5, self.pw - 60))
    def y(self): return self.L(self.r.uniform(-20, self.ph + 20) if self.r.random() < .1 else self.r.uniform(5, self.ph - 60))
    def ln(self, a=5, b=150): return self.L(self.r.uniform(a, b))
    def byte(self): return self.r.choice([0, 255, self.r.randrange(256), self.r.randrange(256)])
    def tr(self, p=.4):
        if self.r.random() > p: return dict(NOTR)
        return {"has": 1, "a": self.alpha(), "bm": self.blend()}

    def alpha(self):
        return self.r.choice([0, 1, 4, 250, 254, 300, 500, 501, 504, 750, 996, 999, 1000] + [self.r.randrange(1001)] * 4)

    def blend(self):
        # one mode more often, so that documents have several values with it
        if self.bm is None: self.bm = self.r.choice(BMS)
        return self.bm if self.r.random() < .5 else self.r.choice(BMS)

    def text(self, n=None, missing=None, nl=False):
        r = self.r
        if n is None:
            n = r.choice([1, 2, 3, 5, 8, 12]) if r.random() < .98 else r.choice([60, 130, 260])
            if n > 12 and self.size > {60: 130, 130: 40, 260: 8}[n]: n = 12     # wider texts leave the numbers of the model
        f = self.cf
        pool = self.pools[f[2]]
        base = [c for c in LATIN if c in pool]
        rich = [c for c in pool if c != 32]
        t = []
        mode = r.random()
        if mode > .96: return [32] * r.choice([1, 1, 1, 2])
        for _ in range(n):
            q = r.random()
            if q < .12 and t and t[-1] != 32: t.append(32)
            elif q < .75 or mode < .5: t.append(r.choice(base))
            else: t.append(r.choice(rich))
        p = self.o.get("missing", 0.04) if missing is None else missing
        miss = [c for c in MISSING if c not in pool] or [0xE001]
        for i in range(len(t)):
            if r.random() < p: t[i] = r.choice(miss)
        if r.random() < .15:
            k = r.randrange(len(t) + 1)
            t[k:k] = [ord(c) for c in r.choice(["AVAT", "To", "We", "PA", "LY"])]
        if nl:
            for i in range(len(t)):
                if r.random() < nl: t[i] = 10
        return t

    # ---- start, pages, fonts
    def start(self, unit=None, **kw):
        r = self.r
        d, ops = self.d, self.ops
        self.reset()
        self.d, self.ops = d, ops
        u = unit if unit is not None else r.choice(self.o.get("units", [1, 1, 1, 0, 2, 3, 4, 5, 6]))
        conv = 0
        if u == 6: u, conv = 1 if r.random() < .5 else 0, r.choice([150, 250, 283, 1000, 50, 20])
        self.unit, self.conv = u, conv
        self.num, self.den = (conv, 100) if conv else UNITS[u]
        named = r.choice(["A4", "A4", "A5", "", ""]) if r.random() < .75 else r.choice(list(SIZES))
        w = h = 0
        self.pw, self.ph = SIZES.get(named, (0, 0))
        if named == "":
            self.pw, self.ph = r.choice([(300, 400), (612, 792), (500, 250)])
            w, h = self.L(self.pw), self.L(self.ph)
        trim = [] if r.random() < .8 else [self.L(v) for v in (10, 12, self.pw - 10, self.ph - 14)]
        o = dict(unit=u, conv=conv, named=named, w=w, h=h, trim=trim, prot=0, perm=0, user=[], owner=[])
        if r.random() < .15: o["imp"] = 1
        o.update(kw)
        self.def_ = (self.pw, self.ph)
        return self.put("Start", **o)

    def page(self, opt=None):
        r = self.r
        self.pages += 1
        self.depth = 0
        self.pw, self.ph = self.def_
        if r.random() < (self.o.get("pageopt", .25) if opt is None else opt):
            named = r.choice(["", "", "A4", "A5", "A3"]) if r.random() < .7 else r.choice(list(SIZES))
            w = h = 0
            if named: self.pw, self.ph = SIZES[named]
            elif r.random() < .8:
                self.pw, self.ph = r.choice([(300, 400), (400, 200), (842, 595)])
                w, h = self.L(self.pw), self.L(self.ph)
            trim = [] if r.random() < .6 else [self.L(v) for v in (5, 6, self.pw - 7, self.ph - 8)]
            return self.put("AddPageOpt", named=named, w=w, h=h, trim=trim)
        return self.put("AddPage")

    def addfont(self, fam=None, style=None, **kw):
        r = self.r
        self.nfont += 1
        if fam is None:
            file = r.choice(SFONTS if SFONTS and self.o.get("synth") and r.random() < .85 else ["lib", "lib", "ubu", "ami"])
            fam = file + ("" if r.random() < .6 else r.choice(["L", "l", " ", str(self.nfont)]))
        else:
            file = fam[:3]
        st = r.choice([0, 0, 0, 2, 1, 3]) if style is None else style
        plain = 1 if r.random() < .15 else 0
        o = dict(fam=fam, file=FONTS[file], style=st, kern=1 if r.random() < .5 else 0, via=r.choice(["path", "path", "data", "reader"]), plain=plain,
                 cb=1 if r.random() < .6 else 0, subst=r.choice([-2, -2, -1, 63, 63, 0x4E2D]), cont="")
        o.update(kw)
        if o["plain"]: o.update(style=0, kern=0, cb=0, subst=-2)
        self.put("AddFont", **o)
        self.fonts.append((fam, o["style"], o["file"], o["subst"]))
        return o

    def setfont(self, f=None, **kw):
        r = self.r
        # the first font added under a family and style is the one that is used
        f = f or r.choice(self.fonts)
        f = next(g for g in self.fonts if g[:2] == f[:2])
        under = r.random() < self.o.get("under", .2)
        st = f[1] + (4 if under else 0)
        sty = {0: "", 1: r.choice("Ii"), 2: r.choice("Bb"), 3: r.choice(["BI", "IB"]), 4: "U", 5: "IU", 6: "BU", 7: "BIU"}[st]
        size = r.choice([80, 100, 120, 140, 225, r.randrange(60, 300)])
        ty = r.choice(["float", "float", "float", "float32", "int", r.choice(INTS)])
        if r.random() < .06: size = r.choice([10, 1000, 1270]) if "8" in ty else r.choice([1, 10, 1280, 2560, r.randrange(1280, 4000)])
        if size < 60 and under and "8" not in ty: size = 60     # what is drawn below the smallest texts cannot be seen, or has no length
        elif size < 60 and under: size = 1000
        o = dict(fam=f[0], sty=sty, style=st, size=size, ty=ty, api=r.choice(["font", "style"]))
        o.update(kw)
        self.put("SetFont", **o)
        self.size = o["size"] // 10 * 10 if ty not in ("float", "float32") else o["size"]
        self.cf = f
        return o

    def fontsetup(self, n=None):
        n = n or self.r.choice([1, 1, 2, 3])
        for _ in range(n):
            self.addfont()
            if self.o.get("override") and self.r.random() < .3: self.put("KernOverride", fam=self.fonts[-1][0], v=self.r.choice([-400, 100, 0, 37]))
        self.setfont()

    # ---- calls
    def c_pos(self):
        r = self.r
        k = r.randrange(4)
        if k == 0: self.put("SetX", x=self.x())
        elif k == 1: self.put("SetY", y=self.y())
        elif k == 2: self.put("SetXY", x=self.x(), y=self.y())
        else: self.put("Br", h=r.choice([self.ln(0, 60), self.ln(0, 60), self.ln(0, 60), 0, -self.ln(0, 40)]))

    def c_page(self):
        if self.depth: return
        if self.pages > 1 and self.r.random() < .5:
            self.put("SetPage", n=self.r.randint(1, self.pages))
        else: self.page()

    def c_margin(self):
        r = self.r
        m = lambda: self.ln(0, 80) if r.random() < .9 else r.choice([0, -self.ln(0, 20)])
        if r.random() < .5: self.put("SetMargins", l=m(), t=m(), r=m(), b=m())
        else: self.put("SetMargin", which=r.randrange(6), v=m())
        if r.random() < .5: self.put("Margins")

    def c_convert(self): self.put("Convert", v=self.ln(0, 700))

    def c_break(self):
        r = self.r
        if self.depth: return
        k = r.randrange(3)
        y, h = self.L(r.uniform(-10, self.ph + 10)), self.L(r.choice([10, 50, 200, r.uniform(0, self.ph * .9), r.uniform(0, self.ph * .9), self.ph * 1.05, 0, -20]))
        if r.random() < .15: y = self.L(r.uniform(0, 20))
        if k == 0: self.put("SetNewY", y=y, h=h)
        elif k == 1: self.put("SetNewYIfNoOffset", y=y, h=h)
        else: self.put("SetNewXY", y=y, x=self.x(), h=h)

    def shape(self, k=None):
        r = self.r
        k = r.randrange(7) if k is None else k
        if k == 0:
            o = dict(x1=self.x(), y1=self.y(), x2=self.x(), y2=self.y())
            # lines without length, along the page
            if r.random() < .1: o["x2"] = o["x1"]
            if r.random() < .1: o["y2"] = o["y1"]
            if r.random() < .04: o["x2"], o["y2"] = o["x1"], o["y1"]
            self.put("Line", **o)
        elif k == 1:
            kind = r.choice(["LL", "UL", "LLS", "ULS", "LLO", "ULO"])
            st = r.choice(["", "S", "s", "B", "f"]) if kind[-1] == "O" else r.choice(["", "D", "F", "FD", "DF"])
            w, h = self.ln(), self.ln()
            if r.random() < .12: w, h = r.choice([(-w, h), (w, -h), (-w, -h), (0, h), (w, 0)])
            self.put("Rect", kind=kind, x=self.x(), y=self.y(), w=w, h=h, style=st, tr=self.tr() if kind[-1] == "O" else dict(NOTR))
        elif k == 2: self.put("Oval", x1=self.x(), y1=self.y(), x2=self.x(), y2=self.y())
        elif k == 3: self.put("Curve", pts=[self.x() if i % 2 == 0 else self.y() for i in range(8)], style=r.choice(["", "D", "F", "DF", "FD"]))
        elif k == 4: self.put("Polygon", pts=self.points(2, 6), style=r.choice(["", "D", "F", "DF"]))
        elif k == 5:
            x, y = self.L(r.uniform(5, self.pw - 150)), self.L(r.uniform(5, self.ph - 150))
            w, h = self.ln(30, 140), self.ln(30, 140)
            # round corners up to the whole side, and beyond
            rad = r.choice([0, self.L(r.uniform(2, 14)), self.L(r.uniform(2, 14)), int(min(w, h) * r.choice([.45, .6, .9, 1.1, 1.6])), min(w, h) - 1, min(w, h) + 1, -self.L(3)])
            self.put("Rectangle", x1=x, y1=y, x2=x + w, y2=y + h, style=r.choice(["", "D", "F", "DF"]), r=rad, n=r.choice([0, 1, 2, 5, 8, -1, r.randrange(1, 13)]))
        else: self.put("Line", x1=self.x(), y1=self.y(), x2=self.x(), y2=self.y())

    def points(self, lo, hi):
        r = self.r
        n = r.randint(max(3, lo), hi) if r.random() < .92 else lo
        p = [self.x() if i % 2 == 0 else self.y() for i in range(2 * n)]
        if n > 3 and r.random() < .2:
            # the first point again, at the end or on the way
            k = 2 * r.randrange(2, n)
            p[k:k + 2] = p[:2]
        return p

    def c_shape(self): self.shape()

    def c_attr(self):
        r = self.r
        k = r.randrange(10)
        if k <= 1: self.put("SetLineWidth", v=self.L(r.choice([.5, 1, 2, 3.5])))
        elif k == 2: self.put("SetLineType", t=r.choice(["dashed", "dashed", "dotted", "dotted", "solid", "", "dot", "Dashed", "dash"]))
        elif k == 3: self.put("SetCustomLineType", arr=[self.L(r.randint(1, 9)) for _ in range(r.randint(0, 4))], phase=self.L(r.randint(0, 5)))
        elif k == 4: self.put("SetGrayFill", v=r.choice([r.randint(0, 100), r.randint(0, 100), r.randint(-60, 160)]))
        elif k == 5: self.put("SetGrayStroke", v=r.choice([r.randint(0, 100), r.randint(0, 100), r.randint(-60, 160)]))
        elif k == 6: self.put("SetStrokeColor", r=self.byte(), g=self.byte(), b=self.byte())
        elif k == 7: self.put("SetFillColor", r=self.byte(), g=self.byte(), b=self.byte())
        else: self.put(r.choice(["SetStrokeColorCMYK", "SetFillColorCMYK"]), c=r.randint(0, 100), m=r.randint(0, 100), y=r.randint(0, 100), k=r.randint(0, 100))

    def c_state(self):
        r = self.r
        if self.depth > 0 and r.random() < .5:
            k = self.stack.pop()
            self.put(k)
            self.depth -= 1
            return
        if self.depth == 0: self.stack = []
        k = r.randrange(3)
        if k == 0:
            self.put("Rotate", deg=r.choice([30, 45, 90, 180, 270, r.randrange(360), r.randrange(-400, 800)]), x=self.x(), y=self.y())
            self.stack.append("RotateReset")
        elif k == 1:
            self.put("Save"); self.stack.append("Restore")
        else:
            self.put("Save"); self.stack.append("Restore")
            self.put("ClipPolygon", pts=self.points(3, 5))
        self.depth += 1

    def closestate(self):
        while self.depth > 0:
            self.put(self.stack.pop()); self.depth -= 1

    def c_text(self):
        self.put("Text", t=self.text())

    def c_cell(self):
        r = self.r
        if r.random() < .3:
            self.put("Cell", hasrect=r.choice([0, 1, 0, 1, 0, 1, 2]), w=self.ln(10, 200) if r.random() < .9 else 0, h=self.ln(8, 60) if r.random() < .9 else 0, t=self.text())
        else:
            self.cellopt()
            # cells that follow each other and differ in one thing
            if r.random() < .15:
                o = {k: v for k, v in self.ops[-1].items() if k not in ("op", "d")}
                if r.random() < .7: o["hasrect"] = 0
                for _ in range(r.choice([1, 2, 3])):
                    k = r.choice(["tr", "tr", "align", "border", "cup", "none", "t", "color"])
                    if k == "tr": o = dict(o, tr=self.tr(.9))
                    elif k == "t": o = dict(o, t=self.text(2))
                    elif k == "color": self.c_tcolor()
                    elif k != "none": o = dict(o, **{k: self.look()[k]})
                    self.put("CellOpt", **o)

    def look(self):
        r = self.r
        align = r.choice([0, 8, 2, 16]) | r.choice([0, 1, 4, 32])
        if r.random() < .15: align |= 64
        return dict(align=align, border=r.choice([0, 0, 15, r.randrange(16)]), float=r.choice([0, 2, 1, 3]),
                    cup=r.choice([0, 0, 50, 150]), clh=r.choice([0, 0, 120, 80]), cut=r.choice([0, 0, 200, 40]))

    def cellopt(self, **kw):
        r = self.r
        o = dict(hasrect=r.choice([1] * 6 + [0, 0, 2]), w=self.ln(10, 250) if r.random() < .93 else 0, h=self.ln(8, 60) if r.random() < .95 else 0, t=self.text(), tr=self.tr(.25), brk=dict(NOBRK))
        o.update(self.look())
        o.update(kw)
        self.put("CellOpt", **o)

    def brk(self):
        r = self.r
        if r.random() < .3: return dict(NOBRK)
        return {"has": 1, "mode": r.choice([0, 1, 1]), "ind": r.choice([32, 32, 45, 97]), "sep": r.choice([[], [], [45], [45, 45]])}

    def c_multi(self):
        r = self.r
        k = r.randrange(5)
        t = self.text(r.choice([3, 10, 25, 40]))
        w = self.ln(15, 200)
        h = self.ln(10, 160)
        if k == 0: self.put("MultiCell", hasrect=1, w=w, h=h, t=t)
        elif k == 1:
            o = dict(hasrect=1, w=w, h=h, t=self.text(r.choice([3, 10, 25]), nl=.05), tr=self.tr(.2), brk=self.brk())
            o.update(self.look())
            self.put("MultiCellOpt", **o)
        elif k == 2:
            self.put("IsFit", hasrect=1, w=w, h=h, t=t)
            if r.random() < .5: self.put("MultiCell", hasrect=1, w=w, h=h, t=t)
        elif k == 3: self.put("IsFitNL", hasrect=1, w=w, h=h, t=self.text(12, nl=.1))
        else: self.c_split()

    def c_split(self):
        r = self.r
        kind = r.choice(["plain", "word", "opt"])
        self.put("Split", kind=kind, t=self.text(r.choice([1, 6, 20, 40]), nl=r.choice([0, .08])), w=self.ln(5, 150) if r.random() < .95 else r.choice([0, -500]), brk=self.brk() if kind == "opt" else dict(NOBRK))

    def c_measure(self):
        k = self.r.randrange(3)
        if k == 0: self.put("Measure", t=self.text())
        elif k == 1: self.put("MeasureH", t=self.text())
        else: self.put("GlyphQ", c=self.r.choice(POOL) if self.r.random() < .7 else self.r.choice([0, 1, 9, 13, 127, 0xAD, 0xFFFF, 0x10FFFF, self.r.randrange(128)]))

    def c_font(self):
        r = self.r
        k = r.random()
        if k < .2 and len(self.fonts) < 5: self.addfont(); self.setfont()
        elif k < .7: self.setfont()
        elif k < .85:
            self.size = self.size + r.choice([1, 2, 5]) if r.random() < .4 and 60 <= self.size < 240 else r.choice([90, 110, 160, r.randrange(60, 240)])
            self.put("SetFontSize", size=self.size)
        else: self.put("SetCharSpacing", v=self.L(r.choice([0, 0, 1, 2.5, 2.56, .07, 5, -.5, -1, -2 if self.size > 150 else -.5])))

    def c_tcolor(self):
        r = self.r
        k = r.randrange(3)
        last = getattr(self, "lastcol", None)
        hist = self.__dict__.setdefault("cols", [])
        if hist and r.random() < .25: op, c = r.choice(hist[-4:])    # one that was set before
        elif last and r.random() < .4:
            # a colour that differs from the last one in one part
            op, c = last
            c = dict(c)
            n = r.choice(sorted(c))
            if len(c) > 1 and r.random() < .4:
                # the same numbers for other parts
                p = r.sample(sorted(c.values()), len(c))
                c = dict(zip(sorted(c), p))
            else: c[n] = (c[n] + r.choice([1, 50])) % (101 if op != "SetTextColor" else 256)
        elif k == 0: op, c = "SetTextColor", dict(r=self.byte(), g=self.byte(), b=self.byte())
        elif k == 1: op, c = "SetTextColorCMYK", dict(c=r.randint(0, 100), m=r.randint(0, 100), y=r.randint(0, 100), k=r.randint(0, 100))
        else: op, c = "SetGrayFill", dict(v=r.randint(0, 100))
        self.lastcol = (op, c)
        hist.append(self.lastcol)
        self.put(op, **c)

    def c_transp(self):
        r = self.r
        if r.random() < .4: self.put("ClearTransparency")
        else: self.put(r.choice(["SetTransparency", "SetTransparency", "NewTransparency"]), a=self.alpha(), bm=self.blend() if r.random() < .95 else "")

    def rect(self):
        return dict(x=self.x(), y=self.y(), hasrect=self.r.choice([0, 1, 1, 0, 1, 1, 2]), w=self.ln(10, 120), h=self.ln(10, 120))

    def c_image(self):
        r = self.r
        f = r.choice(SIMAGES if SIMAGES and self.o.get("synth") and r.random() < .85 else IMAGES)
        k = r.random()
        if k < .35:
            via = r.choice(["path", "path", "bytes", "kept", "hpath", "reader", "from", "fromjpeg"])
            if via == "from" and f.endswith(".jpg"): f = "gray.jpg"     # Go writes such images as 16-bit PNG, which gopdf refuses
            self.put("Image", file=f, via=via, **self.rect())
            return
        o = dict(file=f, via=r.choice(["path", "bytes", "kept"]), deg=0, vf=r.choice([0, 0, 1]), hf=r.choice([0, 0, 1]), tr=self.tr(.2), crop=dict(NOCROP), mask={"has": 0})
        o.update(self.rect())
        if k < .6 or self.o.get("nomask"):
            if r.random() < .3: o["deg"] = r.choice([30, 90, 200])
            if r.random() < .4: o["crop"] = {"has": 1, "x": r.choice([0, self.ln(0, 10), self.ln(0, 10)]), "y": r.choice([0, self.ln(0, 10), self.ln(0, 10)]), "w": self.ln(10, 50), "h": self.ln(10, 50)}
        else:
            m = dict(has=1, file=r.choice(SMASKS if SMASKS and self.o.get("synth") and r.random() < .7 else MASKS), via=r.choice(["path", "bytes", "kept"]), deg=0, vf=0, hf=0, tr=dict(NOTR), crop=dict(NOCROP), box=[])
            m.update(self.rect())
            if self.num == self.den and r.random() < .4:
                # the box of the mask, in points
                if r.random() < .5: m["box"] = [m["x"] - r.randint(0, 100), int(self.ph * 100) - m["y"] - 5000, m["x"] + r.randint(500, 9000), int(self.ph * 100) - m["y"]]
                else: m["box"] = [r.randint(-1000, 0), r.randint(-1000, 1000), r.randint(3000, 60000), r.randint(3000, 60000)]
            if r.random() < .3:
                o["deg"], m["deg"] = r.choice([30, 90]), r.choice([0, 0, 45]); o["vf"] = o["hf"] = 0
            else:
                m["vf"], m["hf"] = r.choice([0, 0, 1]), r.choice([0, 0, 1])
                crop = lambda: {"has": 1, "x": r.choice([0, self.ln(0, 10)]), "y": r.choice([0, self.ln(0, 10)]), "w": self.ln(10, 50), "h": self.ln(10, 50)}
                if r.random() < .35: m["crop"] = crop()
                if r.random() < .25: o["crop"] = crop()
            if r.random() < .3: m["tr"] = self.tr(1)
            o["mask"] = m
            if r.random() < .6: o["tr"] = dict(NOTR)
        self.put("ImageOpt", **o)

    def c_spot(self):
        r = self.r
        if not self.cspaces or r.random() < .4:
            n = r.choice(["Spot", "SPOT", "Spot ", "Spo", "Gold 1", "Büro", "A(b)", "x/y#"]) + (str(len(self.cspaces)) if r.random() < .4 else "")
            if r.random() < .06:
                # many of them
                for k in range(r.choice([10, 14, 105])):
                    m = "Many %d" % (len(self.cspaces) + k)
                    self.put("AddCSRGB", name=m, r=self.byte(), g=self.byte(), b=self.byte())
                    self.cspaces.append(m)
            if r.random() < .5: self.put("AddCSRGB", name=n, r=self.byte(), g=self.byte(), b=self.byte())
            else: self.put("AddCSCMYK", name=n, c=r.randint(0, 100), m=r.randint(0, 100), y=r.randint(0, 100), k=r.randint(0, 100))
            self.cspaces.append(n)
        else:
            self.put("SetCS", name=r.choice(self.cspaces) if r.random() < .85 else "unknown")
            self.shape(0)

    def c_link(self):
        r = self.r
        k = r.random()
        rc = dict(x=self.x(), y=self.y(), w=self.ln(), h=self.ln(5, 60))
        if k < .35:
            u = r.choice(["http://example.com/", "https://x.org/a?b=c&d=(e)f\\g", "mailto:a@b.c", "http://x/\u00e9", "((()))", "a(b(c)d)e))))f((\\\\(g)"]) if r.random() < .7 else "".join(r.choice("()\\ab/%<>[]\u4e2d\U0001F600 ") for _ in range(r.randint(1, 40) if r.random() < .9 else r.choice([127, 128, 255, 256, 300])))
            self.put("ExtLink", url=list(u.encode("utf-8")), **rc)
        elif k < .7: self.put("IntLink", name=r.choice(["a1", "a2", "A1", "a1 ", "a", "none", "", "long" * 20, "long" * 20 + "r"]), **rc)
        else: self.put("SetAnchor", name=r.choice(["a1", "a2", "A1", "a1 ", "a", "", "long" * 20, "long" * 20 + "r"]))

    def title(self):
        r = self.r
        return [ord(c) for c in r.choice(["Chapter", "Über (uns)", "a\\b", "中文", "x \U0001F600 y", "\U00100000\U0010FFFD", "\uE000\uFFFD", "(" * 5 + ")\\" * 3, "Ж", "", "ab(c" * r.choice([10, 32, 64, 90])])] + ([ord(str(r.randrange(10)))] if r.random() < .9 else [])

    def c_outline(self):
        r = self.r
        if self.outmode is None: self.outmode = r.choice(["Outline", "OutlinePos", "tree", "tree", "mix"])
        op = {"Outline": "Outline", "OutlinePos": "OutlinePos", "tree": "OutlinePos", "mix": r.choice(["Outline", "OutlinePos"])}[self.outmode]
        self.put(op, t=self.title())
        self.outl += 1
        if self.outmode == "tree" and r.random() < .15:
            self.arrange()
            if r.random() < .15: self.outmode = "mix"     # entries without an object of their own cannot be arranged any more

    def arrange(self):
        r, n = self.r, self.outl
        hubs = [0] + r.sample(range(1, n + 1), min(n, r.randint(1, 3))) if r.random() < .5 else None
        par = [r.choice([h for h in hubs if h <= i]) for i in range(n)] if hubs else [r.randint(0, i) if r.random() < .6 else 0 for i in range(n)]
        self.put("OutlineTree", parent=par, order=[] if r.random() < .6 else r.sample(range(1, n + 1), n))

    def endoutline(self):
        if self.outmode == "tree" and self.outl and self.r.random() < .8: self.arrange()

    def c_info(self):
        r = self.r
        t = lambda: self.title() if r.random() < .6 else r.choice([[], [], [32], [9, 32]])
        date = [] if r.random() < .3 else [r.choice([r.randint(1990, 2040), r.randint(1900, 2100), 1969, 1600, 9998]), r.randint(1, 12), r.randint(1, 28), r.randrange(24), r.randrange(60), r.randrange(60), r.choice([0, 60, -300, 330, 845])]
        self.put("SetInfo", title=t(), author=t(), subject=t(), creator=t(), producer=t(), date=date)
        if r.random() < .5: self.put("GetInfo")

    def c_compress(self):
        if self.r.random() < .3: self.put("NoCompress")
        else: self.put("SetCompress", level=self.r.choice([-3, -2, -1, 0, 0, 1, 5, 9, 10, 100]))

    def c_placeholder(self):
        r = self.r
        if self.placeholders and r.random() < .5:
            self.put("FillPlaceholder", name=r.choice(self.placeholders) if r.random() < .9 else "nosuch", t=self.text(r.choice([1, 3, 6])) if r.random() < .9 else [], align=r.choice([8, 2, 16, 0]))
        else:
            n = r.choice(["p1", "p2", "P1", "p", "p1 "])
            x = self.x()
            # several of one name, one below the other
            for k in range(r.choice([1, 1, 1, 3, 4])):
                if k: self.put("SetXY", x=x, y=self.y())
                elif r.random() < .5: self.put("SetX", x=x)
                self.put("Placeholder", name=n, w=self.ln(10, 120))
            self.placeholders.append(n)

    def c_template(self):
        r = self.r
        if not self.o.get("pdfs"): return
        if self.tpls and r.random() < .5:
            t = r.randint(1, len(self.tpls))
            # only pages of the source imported last are used: see the finding about imports
            w, h = self.ln(50, 300), self.ln(50, 300)
            if r.random() < .1: w, h = self.ln(20, 2000), self.ln(20, 2000)
            # a size of 0 follows from the other one and the page, or from the page alone
            k = r.random()
            if k < .15: h = 0
            elif k < .25: w = 0
            elif k < .3: w = h = 0
            self.put("UseTemplate", t=t, x=self.x(), y=self.y(), w=w, h=h)
        else:
            # one source after the other, never back to an earlier one: see the finding about imports
            srcs = self.o["pdfs"]
            k = min(getattr(self, "srcat", 0), len(srcs) - 1)
            if len(self.tpls) and k + 1 < len(srcs) and r.random() < .3: k += 1
            self.srcat = k
            f, via = srcs[k]
            self.put("ImportPage", file=f, n=r.randint(1, PDFS[f]), box="/MediaBox", via=via)
            self.tpls.append(f)

    def c_table(self):
        r = self.r
        n = r.randint(1, 4)
        al = lambda: r.choice(["left", "center", "right", ""])
        def style(p):
            if r.random() > p: return dict(NOST)
            fonts = [f for f in self.fonts if f[1] == 0]
            return {"has": 1, "bs": [r.randrange(2) for _ in range(4)] + [self.L(r.choice([0, .5, 1, 2])), self.byte(), self.byte(), self.byte()],
                    "fill": r.choice([[0, 0, 0], [255, 255, 255], [self.byte(), 10, 20]]), "text": [self.byte(), self.byte(), self.byte()],
                    "font": r.choice([""] + [f[0] for f in fonts]), "size": r.choice([60, 80, 100, 100, 120, 450])}
        same = lambda f: all(g[2] == self.cf[2] for g in [f])
        cols = [{"t": self.text(r.choice([1, 4, 8])), "w": self.ln(60, 160), "align": al()} for _ in range(n)]
        rows = []
        for _ in range(r.randint(0, 4)):
            styled = r.random() < .4
            k = r.choice([n, n, n, n, n, max(1, n - 1)])
            row = [{"t": self.text(r.choice([1, 4, 10])), "st": style(1 if styled else 0)} for _ in range(k)]
            if styled and k > 1:
                # empty cells among styled ones have no style of their own
                for c in row[r.randrange(k):][:1]:
                    if r.random() < .5: c.update(t=[], st=dict(NOST))
            rows.append(row)
        self.put("Table", x=self.L(r.uniform(5, 60)), y=self.L(r.uniform(5, 200)), rh=self.ln(22, 60), max=r.randint(0, 5), cols=cols,
                 ts=style(.5), hs=style(.5), cs=style(.5), rows=rows)
        # a table leaves its last font selected
        self.setfont()

    # calls that must fail and change nothing
    def c_fail(self):
        r = self.r
        k = r.randrange(15)
        if k == 14:
            self.put("KernOverride", fam="nosuch", v=r.choice([-400, 100]))
            if r.random() < .7: self.c_text()
        elif k == 0: self.put("SetFont", fam="nosuch", sty="", style=0, size=120, ty="float", api="font")
        elif k == 1: self.put("SetFont", fam=self.cf[0], sty="", style=self.cf[1], size=120, ty="bad", api="style")
        elif k == 2: self.put("AddFont", fam="broken", file=r.choice(["nosuch.ttf", "cut.ttf", "text.png"]), style=0, kern=0, via=r.choice(["path", "data", "reader"]) if False else "path", plain=r.randrange(2), cb=0, subst=-2, cont="")
        elif k == 3 and r.random() < .4:
            self.put("Image", file="nosuch.png", via=r.choice(["fromnil", "fromempty", "fromdeep", "fromformat"]), x=self.x(), y=self.y(), hasrect=r.randrange(2), w=1000, h=1000)
        elif k == 3: self.put("Image", file=r.choice(BADIMG), via="path", x=self.x(), y=self.y(), hasrect=1, w=1000, h=1000)
        elif k == 4:
            o = dict(file="rgb.png", via="path", deg=0, vf=0, hf=0, tr=dict(NOTR), crop=dict(NOCROP), x=self.x(), y=self.y(), hasrect=1, w=1000, h=1000)
            m = dict(o, has=1, box=[]); m["file"] = r.choice(BADIMG)
            o["mask"] = m
            self.put("ImageOpt", **o)
        elif k == 5: self.put("Rectangle", x1=5000, y1=5000, x2=r.choice([5000, 4000]), y2=9000, style="D", r=0, n=0)
        elif k == 6: self.put("Rectangle", x1=1000, y1=1000, x2=2000, y2=2000, style="D", r=1500, n=4)
        elif k == 7: self.put("SetPage", n=r.choice([0, -1, self.pages + 1, self.pages + 7]))
        elif k == 8: self.put("SetCS", name="unknown")
        elif k == 9: self.put("FillPlaceholder", name="unknown", t=self.text(2), align=8)
        elif k == 10:
            # a refused one leaves the one before in force
            if self.o.get("nomask") and r.random() < .6: self.put("SetTransparency", a=r.choice([250, 500]), bm="/Multiply")
            self.put("SetTransparency", a=r.choice([500, 2000, -100]), bm="/Foo" if r.random() < .5 else "/Bad")
            if r.random() < .5: self.c_shape()
        elif k == 11: self.put("Split", kind="plain", t=[], w=5000, brk=dict(NOBRK))
        elif k == 12:
            o = dict(hasrect=1, w=5000, h=5000, t=[], tr=dict(NOTR), brk=dict(NOBRK)); o.update(self.look())
            self.put("MultiCellOpt", **o)
        else: self.put("Rect", kind="ULO", x=self.x(), y=self.y(), w=1000, h=1000, style="f", tr={"has": 1, "a": r.choice([500, 3000]), "bm": "/Foo"})

    # damaged fonts and images: refused, or used like others
    def c_broken(self):
        r = self.r
        if not BROKEN: return
        f = r.choice(BROKEN)
        if f.endswith(".ttf"):
            self.put("AddFont", fam=f, file=f, style=0, kern=r.randrange(2), via=r.choice(["path", "data", "reader"]), plain=0, cb=0, subst=-2, cont="", mal=1)
            self.put("SetFont", fam=f, sty="", style=0, size=120, ty="float", api="font")
            if r.random() < .8: self.c_text()
        elif r.random() < .5:
            self.put("Image", file=f, via=r.choice(["path", "bytes", "kept", "hpath", "reader"]), x=self.x(), y=self.y(), hasrect=r.randrange(2), w=1000, h=1000, mal=1)
        else:
            o = dict(file=f, via="path", deg=0, vf=0, hf=0, tr=dict(NOTR), crop=dict(NOCROP), x=self.x(), y=self.y(), hasrect=1, w=1000, h=1000)
            if r.random() < .5: m = {"has": 0}
            else:
                m = dict(o, has=1, box=[])
                o["file"] = "rgb.png"
            self.put("ImageOpt", mask=m, mal=1, **o)

    def c_output(self, light=0, via=None):
        self.put("Output", via=via or self.r.choice(["bytes", "bytespdf", "writeto", "write", "file", "read"]), light=light, secrets=[])

    def program(self, weights, n, mid=0.0):
        """start, page, fonts, then n calls drawn by weight, then an output"""
        names = list(weights)
        ws = [weights[k] for k in names]
        for _ in range(n):
            k = self.r.choices(names, ws)[0]
            getattr(self, "c_" + k)()
            if self.r.random() < mid: self.c_output()
        self.finish()

    def finish(self):
        self.closestate()
        self.endoutline()
