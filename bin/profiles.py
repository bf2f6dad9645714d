"""The programs the checks run: random ones (functions of a random source) and small alphabets of calls whose
sequences the specification enumerates (module MCDoc)."""
import copy, random
from gen import *


def base(rng, pools, opts=None, npages=1, fonts=1, d=0, ops=None, **start):
    g = Gen(rng, pools, opts)
    g.d = d
    if ops is not None: g.ops = ops
    g.start(**start)
    for _ in range(npages): g.page()
    if g.o.get("nofont"): g.put("GlyphQ", c=g.r.choice(POOL))
    if fonts: g.fontsetup(fonts if fonts > 1 else None)
    return g


def mixed(weights, lo=10, hi=30, mid=0.0, opts=None, npages=1, fonts=1, outs=1, **start):
    def f(rng, pools):
        g = base(rng, pools, opts, npages, fonts, **start)
        g.program(weights, rng.randint(lo, hi), mid)
        for _ in range(outs): g.c_output()
        return g.ops
    return f


EVERY = dict(pos=3, page=1, margin=1, convert=.3, **{"break": 1}, shape=3, attr=3, state=2, text=4, cell=3, multi=2, measure=1, font=2, tcolor=2,
             image=1.5, spot=1, link=1, outline=1, info=.5, compress=.3, placeholder=1.5, table=.5, fail=1)
LIGHT = dict(EVERY, table=.2, multi=1, image=1, fail=.3)
R = {
    "every": mixed(EVERY, 15, 45, mid=.02),
    "shape": mixed(dict(shape=6, attr=5, state=2, page=.5, text=.5), 10, 35),
    "text": mixed(dict(text=6, cell=4, font=4, tcolor=3, pos=3, page=.5, measure=1, shape=.3, attr=.3), 10, 35),
    "multi": mixed(dict(multi=6, font=2, pos=2, text=.5), 6, 20),
    "image": mixed(dict(image=6, page=1, state=.7, shape=.3), 5, 18),
    "transp": mixed(dict(transp=4, shape=3, cell=3, image=2, text=1, page=.5, state=.5), 8, 25, opts={"nomask": 1}),
    "spot": mixed(dict(spot=5, shape=2, attr=1.5, text=1, page=.5), 6, 20),
    "link": mixed(dict(link=6, page=2, pos=2, text=1, outline=4), 8, 25),
    "place": mixed(dict(placeholder=5, text=2, pos=2, font=2, tcolor=2, page=1, shape=.5), 8, 25),
    "table": mixed(dict(table=4, text=1, font=1, shape=.5, attr=1), 2, 7),
    "info": mixed(dict(info=4, page=1, text=1, compress=2), 2, 8, mid=.2),
    "broken": mixed(dict(EVERY, broken=12, output=3), 12, 30),
    "fail": mixed(dict(EVERY, fail=15), 15, 40),
    "break": mixed({"break": 6, "margin": 2, "pos": 3, "page": .5, "text": 1, "convert": 1}, 8, 25),
    "pages": mixed(dict(page=5, shape=3, text=2, attr=1, margin=1, pos=1, link=1.5, **{"break": 2}), 8, 30, mid=.04),
    "missing": mixed(dict(text=6, cell=3, multi=2, measure=3, font=4, placeholder=1, pos=1), 8, 25, opts={"missing": .25}),
    "measure": mixed(dict(measure=6, text=3, cell=3, font=3, pos=1), 8, 25, opts={"override": 1, "nofont": 1}),
    "align": mixed(dict(cell=8, font=2, pos=2, attr=.5), 8, 25, opts={"override": 1}),
    "move": mixed(dict(pos=6, text=3, cell=4, font=1, margin=2, shape=1, page=1, state=.5, multi=1, measure=1, placeholder=1), 10, 35),
    "compress": mixed(dict(LIGHT, compress=4), 8, 25, mid=.08),
    "units": mixed(LIGHT, 15, 40, opts={"units": [2, 3, 4, 5, 6, 6]}),
    "convert": mixed(dict(margin=4, convert=4, pos=4, measure=2, multi=1), 8, 25, opts={"units": [1, 2, 3, 4, 5, 6, 6]}),
    "tmpl": None,
}


ONEBOX = ["a.pdf", "b.pdf", "c.pdf"]     # all pages of one size: see the finding about page boxes


def sources(rng, n=1):
    s = [(f, "path") for f in ONEBOX]
    rng.shuffle(s)
    s = s[:rng.randint(1, n)]
    # streams: a new variable and stream for each call, a variable that is used again for each stream, one stream for all calls
    if rng.random() < .5: s = [(f, rng.choice(["path", "stream", "var", "same"])) for f, _ in s]
    return s


def with_template(weights, lo=8, hi=22, mid=0.05):
    """pages of one other PDF file, imported at any point"""
    def f(rng, pools):
        # names of images and forms of the same document are shared between sources (see known_findings.json)
        g = base(rng, pools, {"pdfs": sources(rng, 3)})
        if rng.random() < .4:
            # looking at a file counts as its first import for the finding about several sources
            g.put("PageSizes", file=g.o["pdfs"][0][0] if len(g.o["pdfs"]) > 1 else rng.choice(list(PDFS)), via=rng.choice(["path", "stream", "var"]))
        g.program(dict(weights, template=5), rng.randint(lo, hi), mid)
        if rng.random() < .3 and not g.tpls:
            via = rng.choice(["path", "bytes", "rs", "prs", "var", "other"])
            f = g.o["pdfs"][0][0]
            g.put("ImportAll", file=f, via=via, box="/MediaBox")
            if via != "other": g.pages += PDFS[f]
        for _ in range(rng.choice([1, 1, 2])): g.c_output()
        return g.ops
    return f


R["tmpl"] = with_template(dict(page=1, shape=1, text=1, image=1, state=.5, attr=.5, transp=.0001))


def headers(rng, pools):
    g = base(rng, pools, npages=rng.choice([0, 1, 2]))

    def some(n):
        # what a header or footer function does: calls recorded apart
        ops, g.ops = g.ops, []
        for _ in range(n):
            k = rng.choices(["shape", "attr", "text", "cell", "pos", "tcolor", "link", "image"], [4, 2, 4, 2, 2, 1, 1, 1])[0]
            if k in ("text", "cell", "tcolor") and not g.fonts: k = "shape"
            getattr(g, "c_" + k)()
        ops, g.ops = g.ops, ops
        return ops
    if rng.random() < .9: g.put("Header", ops=some(rng.randint(1, 4)))
    if rng.random() < .9: g.put("Footer", ops=some(rng.randint(1, 4)))
    g.page()
    for _ in range(rng.randint(4, 16)):
        k = rng.choices(["page", "break", "shape", "text", "pos", "attr", "hdr", "all"], [4, 3, 2, 2, 1, 1, .5, .3])[0]
        if k == "all":
            if g.tpls: continue
            f = rng.choice(ONEBOX)
            g.put("ImportAll", file=f, via=rng.choice(["path", "bytes", "rs"]), box="/MediaBox")
            g.tpls.append(f)
            g.pages += PDFS[f]
        elif k == "hdr": g.put(rng.choice(["Header", "Footer"]), ops=some(rng.randint(1, 3)))
        else: getattr(g, "c_" + k)()
    g.c_output()
    return g.ops


R["header"] = headers


def renumber(ops, k):
    ops = copy.deepcopy(ops)

    def go(o):
        o["d"] = k
        for q in o.get("ops", []): go(q)
    for o in ops: go(o)
    return ops


def twin_outputs(rng, pools):
    """the same calls with and without outputs in between; all ways of getting the output"""
    opts = {}
    if rng.random() < .4: opts["pdfs"] = sources(rng)
    t = "pdfs" in opts
    opts["nomask"] = rng.random() < .4
    g = base(rng, pools, opts)
    g.program(dict(LIGHT, transp=1 if opts["nomask"] else 0, template=1 if t else .0001), rng.randint(6, 25))
    ops = g.ops
    one, two = [], renumber(ops, 1)
    depth = 0
    for o in ops:
        one.append(o)
        if o["op"] != "Start" and rng.random() < .12:
            one.append({"op": "Output", "d": 0, "via": rng.choice(["bytes", "bytespdf", "writeto", "write", "file", "read"]), "light": 0 if rng.random() < .3 else 1, "secrets": []})
    out = lambda d, light: {"op": "Output", "d": d, "via": rng.choice(["bytes", "bytespdf", "writeto", "write", "file", "read"]), "light": light, "secrets": []}
    if any(o["op"] in ("ImportPage", "ImportAll") for o in ops):
        # the imported objects get other numbers: the documents are compared, not the bytes
        return one + [out(0, 0), out(0, 1), out(0, 0)]
    return one + two + [out(0, 1), out(0, 0), out(1, 1), {"op": "Same", "d": 0, "a": 0, "b": 1}, out(0, 1), out(1, 0), {"op": "Same", "d": 0, "a": 0, "b": 1}]


def twin_mut(rng, pools):
    """the same calls with the caller's values overwritten after each call, and left alone"""
    prot = rng.random() < .3
    kw = dict(prot=1, perm=4 * rng.randrange(16), user=[rng.randrange(256) for _ in range(rng.choice([0, 5, 32, 40]))],
              owner=[rng.randrange(256) for _ in range(rng.choice([3, 12, 32]))]) if prot else {}
    g = base(rng, pools, {"nomask": rng.random() < .5}, **kw)
    w = dict(LIGHT, image=3, attr=4, shape=4, cell=3)
    if g.o["nomask"]: w["transp"] = 1
    g.program(w, rng.randint(8, 25))
    one, two = g.ops, renumber(g.ops, 1)

    def scramble(o):
        o["mut"] = 1
        for q in o.get("ops", []): scramble(q)
    for o in one: scramble(o)
    out = lambda d: {"op": "Output", "d": d, "via": "bytes", "light": 0, "secrets": []}
    return one + two + [out(0), out(1), {"op": "Same", "d": 0, "a": 0, "b": 1}]


def twin_restart(rng, pools):
    """a document started again after any use, and a new one"""
    opts = {}
    if rng.random() < .3: opts["pdfs"] = sources(rng)
    prot = rng.random() < .2
    kw = dict(prot=1, perm=4 * rng.randrange(16), user=[1, 2, 3], owner=[4, 5]) if prot else {}
    if prot: opts = {}
    g = base(rng, pools, opts, **kw)
    w = dict(LIGHT, transp=1, template=2 if opts else .0001)
    if "transp" in w: g.o["nomask"] = 1
    g.program(w, rng.randint(5, 25), mid=.05)
    # much of one thing, and some of it later, too
    burst = rng.choice(["link", "outline", "image", "spot", "transp", "placeholder", "page", "attr", "tcolor", "info", "margin"]) if rng.random() < .4 else None
    if burst:
        for _ in range(rng.randint(4, 14)): getattr(g, "c_" + burst)()
        g.finish()
    if rng.random() < .4:
        g.put("Header", ops=[{"op": "Line", "d": 0, "x1": 100, "y1": 100, "x2": 900, "y2": 300}])
        g.put("Footer", ops=[{"op": "Line", "d": 0, "x1": 100, "y1": 900, "x2": 900, "y2": 300}])
    if rng.random() < .5: g.c_output()
    first = g.ops
    # the second use avoids what it has not set itself
    h = Gen(rng, pools, {"nomask": 1})
    h.d = 0
    h.start()
    for _ in range(rng.choice([1, 1, 2])): h.page()
    h.fontsetup()
    if burst:
        for _ in range(rng.randint(2, 5)): getattr(h, "c_" + burst)()
    h.program(dict(LIGHT, transp=.5), rng.randint(3, 18))
    second, alone = h.ops, renumber(h.ops, 1)
    out = lambda d: {"op": "Output", "d": d, "via": "bytes", "light": 0, "secrets": []}
    return first + second + alone + [out(0), out(1), {"op": "Same", "d": 0, "a": 0, "b": 1}]


def some_doc(rng, pools, d, conts=None, n=None):
    g = Gen(rng, pools, {"nomask": 1})
    g.d = d
    g.start()
    g.page()
    if conts:
        for fam, file in conts:
            g.put("AddFont", fam=fam, file=file, style=0, kern=0, via="container", plain=0, cb=0, subst=-2, cont="k1")
            g.fonts.append((fam, 0, file, -2))
        if rng.random() < .3: g.addfont()
        g.setfont()
    else: g.fontsetup()
    g.program(dict(LIGHT, transp=.5, font=1, text=8), n or rng.randint(5, 20))
    return g.ops


def interleaved(rng, pools):
    """two or three documents built in turns, and each alone; fonts may come from shared containers"""
    n = rng.choice([2, 2, 3])
    conts = None
    head = []
    if rng.random() < .7:
        conts = [("c1", FONTS["lib"])] + ([("c2", FONTS["ubu"])] if rng.random() < .5 else [])
        for c in range(1, n + 2):
            for fam, file in conts:
                head.append({"op": "ContainerFont", "d": 0, "cont": "k%d" % c, "fam": fam, "file": file, "style": 0, "kern": rng.randrange(2), "via": rng.choice(["data", "path", "reader"]), "plain": rng.choice([0, 0, 1]), "cb": 0, "subst": -2})
        for c in range(1, n + 1):    # the same options in every container
            for i in range(len(conts)): head[c * len(conts) + i].update({k: v for k, v in head[i].items() if k != "cont"})
    docs = [some_doc(rng, pools, d, conts) for d in range(n)]
    alone = []
    for d in range(n):
        a = renumber(docs[d], d + n)
        for o in a:
            if o["op"] == "AddFont" and o["via"] == "container": o["cont"] = "k%d" % (d + 2)
        alone += a
    turns, idx = [], [0] * n
    out = lambda d, l=0: {"op": "Output", "d": d, "via": "bytes", "light": l, "secrets": []}
    while any(idx[d] < len(docs[d]) for d in range(n)):
        d = rng.choice([d for d in range(n) if idx[d] < len(docs[d])])
        for _ in range(rng.randint(1, 4)):
            if idx[d] < len(docs[d]):
                turns.append(docs[d][idx[d]]); idx[d] += 1
        if rng.random() < .05 and idx[d] > 1: turns.append(out(d, 1))
    ops = head + turns + alone
    for d in range(n): ops += [out(d), out(d + n), {"op": "Same", "d": 0, "a": d, "b": d + n}]
    return ops


def parallel_set(rng, pools, n):
    """programs run at the same time; the one called setup makes the shared containers"""
    conts = [("c1", FONTS["lib"]), ("c2", FONTS["ubu"])]
    setup = {"id": "setup", "ops": [{"op": "ContainerFont", "d": 0, "cont": "k1", "fam": f, "file": fl, "style": 0, "kern": 1, "via": "data", "plain": 0, "cb": 0, "subst": -2} for f, fl in conts]}
    ps = [setup]
    for i in range(n):
        ops = some_doc(rng, pools, 0, conts if rng.random() < .7 else None)
        ops.append({"op": "Output", "d": 0, "via": rng.choice(["bytes", "writeto", "read"]), "light": 1, "secrets": []})
        ops.append({"op": "Output", "d": 0, "via": "bytes", "light": 1, "secrets": []})
        ps.append({"id": "par%d" % i, "ops": ops})
    return ps


PASSES = [[], [97], [112, 119, 33], list(range(1, 32)), list(range(1, 33)), list(range(1, 42)), [0], [40, 191, 78], [255] * 32, [0xe4, 0, 92, 41]]


def protected(rng, pools):
    one = rng.choice(PASSES)
    user = rng.choice([one, rng.choice(PASSES), [rng.randrange(256) for _ in range(rng.randint(1, 40))]])
    owner = rng.choice([one, rng.choice(PASSES), [rng.randrange(256) for _ in range(rng.randint(1, 40))]])
    g = base(rng, pools, {"missing": 0}, prot=1, perm=4 * rng.randrange(16), user=user, owner=owner)
    g.program(dict(LIGHT, outline=2, info=1, spot=1, link=2), rng.randint(6, 22), mid=.04)
    g.put("ExtLink", url=[ord(c) for c in "http://secret-address.example/"], x=100, y=100, w=500, h=500)
    g.put("Outline" if g.outmode in (None, "Outline", "mix") else "OutlinePos", t=[ord(c) for c in "SecretTitle"])
    g.put("NoCompress")
    g.put("Output", via=rng.choice(["bytes", "writeto", "read"]), light=0, secrets=["secret-address", "SecretTitle", "] TJ\n", "endbfchar", "begincmap"])
    ps = [user, owner, [], [1], user + [7], (user[:-1] if user else [9]), owner[:-1], one]
    for p in rng.sample(ps, 4): g.put("Opened", **{"pass": p})
    return g.ops


R["prot"] = protected


def faulty(rng, pools):
    g = base(rng, pools, **(dict(prot=1, perm=4 * rng.randrange(16), user=rng.choice(PASSES), owner=[111, 119]) if rng.random() < .35 else {}))
    g.program(dict(LIGHT), rng.randint(0, 18))
    if rng.random() < .5: g.c_output(light=1)
    g.put("Faults", via=rng.choice(["writeto", "writeto", "write"]), **{"from": rng.randrange(40), "step": rng.choice([997, 1499, 2500]), "calls": rng.choice([40, 80])})
    if rng.random() < .5: g.c_output(light=1)
    return g.ops


def small_faulty(rng, pools):
    """every failure point of a small file"""
    g = Gen(rng, pools, {})
    g.start()
    for _ in range(rng.randint(0, 2)): g.page()
    if g.pages:
        for _ in range(rng.randint(0, 6)): g.shape()
        if rng.random() < .3: g.c_link()
    if rng.random() < .3: g.c_info()
    g.put("Faults", via=rng.choice(["writeto", "write"]), **{"from": 0, "step": 1, "calls": 0})
    g.put("Reads", sizes=[rng.choice([1, 2, 7, 64, 1000]) for _ in range(rng.randint(1, 4))])
    g.c_output(light=1)
    return g.ops


def reading(rng, pools):
    g = base(rng, pools)
    g.program(dict(LIGHT), rng.randint(0, 18))
    for _ in range(rng.randint(1, 3)):
        g.put("Reads", sizes=[rng.choice([0, 100, 512, 4096, 32768, 1 << 20, rng.randint(50, 9000)]) for _ in range(rng.randint(1, 5))] + [4096])
        if rng.random() < .4: g.shape()
    g.c_output(light=1)
    return g.ops


R["faulty"], R["smallfaulty"], R["reading"] = faulty, small_faulty, reading
R["outputs"], R["mut"], R["restart"], R["turns"] = twin_outputs, twin_mut, twin_restart, interleaved


def pieces(rng, pools):
    """a text cut in pieces, with changes of look or position between them"""
    g = base(rng, pools, {"under": .15})
    for _ in range(rng.randint(2, 5)):
        t = g.text(rng.choice([4, 8, 14]))
        cell = rng.random() < .5
        y = None
        if rng.random() < .4:
            y = g.y()
            g.put("SetXY", x=g.x(), y=y)
        look = g.look() if cell else None
        w = rng.random() < .3
        i = 0
        while i < len(t):
            n = rng.randint(1, 4)
            if cell:
                if rng.random() < .15:
                    # another look, or one that differs in one part
                    l2 = g.look()
                    look = l2 if rng.random() < .5 else dict(look, **(lambda n: {n: l2[n]})(rng.choice(sorted(l2))))
                o = dict(hasrect=1 if w else 0, w=g.ln(10, 60), h=g.ln(8, 30), t=t[i:i + n], tr=g.tr(.1), brk=dict(NOBRK))
                o.update(look)
                g.put("CellOpt", **o)
            else: g.put("Text", t=t[i:i + n])
            i += n
            q = rng.random()
            if y is not None and rng.random() < .2:
                # hardly higher or lower
                y += rng.choice([-1, 1]) * g.L(rng.choice([.1, .3, .6, 1]))
                g.put("SetY", y=y)
            if q < .15: g.c_tcolor()
            elif q < .26: g.c_font()
            elif q < .28: g.c_pos()
            elif q < .3: g.shape()
            elif q < .33: g.c_attr()
            elif q < .36 and g.pages: g.c_page()
            elif q < .39: g.c_measure()
        g.c_pos()
    g.c_output()
    return g.ops


R["pieces"] = pieces


def early(rng, pools):
    """calls made before the first page"""
    g = Gen(rng, pools, {})
    g.start()
    some = ["attr", "link", "outline", "info", "compress", "margin", "spot", "font", "tcolor", "measure", "convert", "transp"]
    for _ in range(rng.randint(2, 9)):
        k = rng.choice(some)
        if k == "link": g.put("SetAnchor", name=rng.choice(["a1", "a2", "none"]))
        elif k == "font" and not g.fonts: g.fontsetup(None)
        elif k in ("font", "measure") and not g.fonts: pass
        elif k == "tcolor" and not g.fonts: g.c_attr()
        elif k == "spot":
            c = [rng.randrange(256) for _ in range(3)]
            g.put("AddCSRGB", name="early", r=c[0], g=c[1], b=c[2])
            if rng.random() < .5: g.put("SetCS", name="early")
        else: getattr(g, "c_" + k)()
        if rng.random() < .1: g.c_output()
    for _ in range(rng.randint(1, 2)): g.page()
    if not g.fonts: g.fontsetup(None)
    g.program(dict(EVERY, link=4, outline=2), rng.randint(4, 14))
    g.c_output()
    return g.ops


R["early"] = early


def splits(rng, pools):
    """texts split in lines, fit checks and cells drawn right after them"""
    g = base(rng, pools, {"under": 0})
    for _ in range(rng.randint(6, 16)):
        q = rng.random()
        if q < .6: g.c_split()
        elif q < .9: g.c_multi()
        else: g.c_font()
    g.c_output()
    return g.ops


R["splits"] = splits


def arabic(rng, pools):
    g = Gen(rng, pools, {})
    g.start()
    letters = list(range(0x621, 0x63B)) + list(range(0x641, 0x64B)) + [0x67E, 0x686, 0x698, 0x6A9, 0x6AF, 0x6CC]
    marks = list(range(0x64B, 0x659)) + [0x670]
    other = [32, 32, 32, 40, 41, 45, 46, 65, 98, 49, 50, 0x660, 0x661, 0x60C, 0x61F, 0x640, 0x200D, 0x200C, 0xAB, 0xBB, 10]
    for _ in range(rng.randint(10, 30)):
        mode = rng.random()
        t = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 14])):
            q = rng.random()
            if mode < .15: t.append(rng.choice(other))
            elif q < .6: t.append(rng.choice(letters))
            elif q < .7: t.append(rng.choice([0x644, 0x644, 0x627, 0x622, 0x623, 0x625]))
            elif q < .85: t.append(rng.choice(other))
            else: t.append(rng.choice(marks))
        if rng.random() < .06: t = [c for _ in range(rng.randint(2, 5)) for c in [0x627, 0x644, 0x644, 0x647] + [rng.choice(other)] * rng.randrange(2)] + t
        if rng.random() < .06: t += [0x644] + [rng.choice(marks) for _ in range(rng.randint(0, 3))] + [rng.choice([0x622, 0x623, 0x625, 0x627]), rng.choice(letters)]
        g.put("ToArabic", t=t)
    return g.ops


R["arabic"] = arabic


def many(rng, pools, prot=False):
    """documents of several hundred objects"""
    kw = dict(prot=1, perm=4 * rng.randrange(16), user=rng.choice(PASSES), owner=rng.choice(PASSES)) if prot else {}
    g = base(rng, pools, {"missing": 0, "nomask": 1}, **kw)
    n = rng.choice([140, 160, 200, 270])
    for i in range(n):
        g.page()
        q = rng.random()
        if q < .6: g.shape()
        elif q < .75: g.c_text()
        if rng.random() < .1: g.c_link()
        if rng.random() < .15: g.put("OutlinePos", t=g.title())
        if rng.random() < .05: g.c_image()
        if rng.random() < .1: g.shape(1)
        if i % 60 == 50 and rng.random() < .3: g.put("SetPage", n=rng.randint(1, g.pages))
    if rng.random() < .5: g.put("NoCompress")
    g.put("Output", via=rng.choice(["bytes", "writeto", "read", "file"]), light=0, secrets=[])
    return g.ops


def long(rng, pools):
    """few pages whose contents are long (more than the buffers on the way), pages short and long in turn"""
    kw = dict(prot=1, perm=4 * rng.randrange(16), user=rng.choice(PASSES), owner=rng.choice(PASSES)) if rng.random() < .5 else {}
    g = base(rng, pools, {"missing": 0, "nomask": 1}, 0, 0, **kw)
    g.page()
    g.fontsetup()
    if rng.random() < .6: g.put("SetCompress", level=rng.choice([0, 0, 1, 9]))
    for i in range(rng.randint(2, 4)):
        if i: g.page()
        for _ in range(rng.choice([0, 1, 3, 6])):
            if rng.random() < .75:
                n = rng.choice([120, 400, 900])
                g.put("Polygon", pts=[g.x() if j % 2 == 0 else g.y() for j in range(2 * n)], style=rng.choice(["", "D", "F", "DF"]))
            else: g.put("Text", t=[rng.choice([97, 98, 99, 32, 65, 46]) for _ in range(rng.choice([100, 300]))])
        if rng.random() < .3: g.c_image()
    g.put("Output", via=rng.choice(["bytes", "writeto", "read", "file"]), light=0, secrets=[])
    return g.ops


def big(rng, pools, prot=False):
    """files of more than a million bytes"""
    kw = dict(prot=1, perm=4 * rng.randrange(16), user=rng.choice(PASSES), owner=rng.choice(PASSES)) if prot else {}
    g = base(rng, pools, {"missing": 0, "nomask": 1}, **kw)
    for i in range(rng.randint(1, 6)):
        if i: g.page()
        if rng.random() < .5: g.shape()
        if rng.random() < .3: g.c_link()
        if i == 0 or rng.random() < .2: g.put("Image", file="big.png", via=rng.choice(["path", "bytes", "kept", "hpath", "reader"]), x=g.x(), y=g.y(), hasrect=1, w=g.ln(), h=g.ln())
        if rng.random() < .4: g.c_outline()
    g.finish()
    for _ in range(rng.randint(1, 2)): g.c_output()
    return g.ops


R["big"], R["bigprot"] = big, lambda rng, pools: big(rng, pools, True)
R["long"] = long
R["ssplit"] = mixed(dict(split=6, multi=5, measure=2, font=2, pos=1), 6, 16, opts={"synth": 1, "under": 0})
R["smiss"] = mixed(dict(text=5, cell=3, measure=5, font=4, split=1, pos=1), 8, 20, opts={"synth": 1, "missing": .3})
R["sprot"] = lambda rng, pools: mixed(dict(text=4, cell=2, image=4, font=3, link=1, info=.5, page=.6, placeholder=.5), 6, 18, opts={"synth": 1, "missing": .05}, prot=1,
                                      perm=4 * rng.randrange(16), user=rng.choice(PASSES), owner=rng.choice(PASSES))(rng, pools)
R["severy"] = mixed(EVERY, 12, 40, .1, opts={"synth": 1})
R["stext"] = mixed(dict(text=6, cell=4, multi=2, measure=3, font=5, tcolor=.5, pos=2, page=.5, placeholder=1), 10, 30, opts={"synth": 1, "missing": .06, "override": 1, "nofont": 1})
R["simage"] = mixed(dict(image=6, page=1, state=.5, shape=.3), 5, 18, opts={"synth": 1})
def wide(rng, pools):
    """most of the characters of one or two fonts"""
    g = base(rng, pools, {"synth": 1}, 1, rng.choice([1, 1, 2]), **{})
    for _ in range(rng.randint(1, 2)):
        cs = list(pools[g.cf[2]])
        rng.shuffle(cs)
        if rng.random() < .25: cs = cs[:rng.randint(1, 3)]      # and hardly any
        if rng.random() < .3: cs.sort(reverse=rng.random() < .5)
        k = rng.choice([7, 20, 40, 101])
        for i in range(0, len(cs), k):
            g.put("Text", t=cs[i:i + k])
        g.setfont()
    g.finish()
    g.c_output()
    return g.ops
R["wide"] = wide
R["many"] = many
R["manyprot"] = lambda rng, pools: many(rng, pools, True)
PROFILES = R
