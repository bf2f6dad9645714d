"""Makes source files nobody has seen: TrueType fonts and PNG images that use, at random, what the formats allow.
What they contain is known here by construction; the harness's own readers must agree (see Check.setup)."""
import struct, zlib


def pad4(b): return b + b"\0" * (-len(b) % 4)


def csum(b):
    b = pad4(b)
    return sum(struct.unpack(">%dI" % (len(b) // 4), b)) & 0xFFFFFFFF


def simple_glyph(r, upem, many=1):
    """one or two contours of a few points (or of many); random flags (short vectors, repeats)"""
    nc = r.choice([1, 1, 2])
    ends, pts = [], []
    for _ in range(nc):
        n = r.randint(3, 6) * many
        for _ in range(n): pts.append((r.randint(-100, upem), r.randint(-200, upem)))
        ends.append(len(pts) - 1)
    if r.random() < .3: pts = [(pts[0][0], pts[0][1])] * 2 + pts[2:]
    fl, xs, ys = [], b"", b""
    px = py = 0
    for x, y in pts:
        f = r.choice([0, 1])
        dx, dy = x - px, y - py
        px, py = x, y
        if dx == 0: f |= 16
        elif -256 < dx < 256: f |= 2 | (16 if dx > 0 else 0); xs += bytes([abs(dx)])
        else: xs += struct.pack(">h", dx)
        if dy == 0: f |= 32
        elif -256 < dy < 256: f |= 4 | (32 if dy > 0 else 0); ys += bytes([abs(dy)])
        else: ys += struct.pack(">h", dy)
        fl.append(f)
    fb, i = b"", 0
    while i < len(fl):
        k = 1
        while i + k < len(fl) and fl[i + k] == fl[i] and k < 200: k += 1
        if k > 1: fb += bytes([fl[i] | 8, k - 1])
        else: fb += bytes([fl[i]])
        i += k
    x0, x1 = min(p[0] for p in pts), max(p[0] for p in pts)
    y0, y1 = min(p[1] for p in pts), max(p[1] for p in pts)
    ins = bytes(r.randrange(256) for _ in range(r.choice([0, 0, 3, 7])))
    return struct.pack(">hhhhh", nc, x0, y0, x1, y1) + b"".join(struct.pack(">H", e) for e in ends) + struct.pack(">H", len(ins)) + ins + fb + xs + ys


def composite_glyph(r, parts, upem):
    b = struct.pack(">hhhhh", -1, 0, 0, upem, upem)
    ins = r.random() < .3
    for i, g in enumerate(parts):
        f = r.choice([0, 2, 4, 0x200])
        if i + 1 < len(parts): f |= 0x20
        elif ins: f |= 0x100
        words = r.random() < .5
        if words: f |= 1
        k = r.choice([0, 0, 8, 0x40, 0x80])
        f |= k
        b += struct.pack(">HH", f, g)
        b += struct.pack(">hh", r.randint(-300, 300), r.randint(-300, 300)) if words else struct.pack(">bb", r.randint(-90, 90), r.randint(-90, 90))
        b += b"".join(struct.pack(">h", r.randint(-0x5000, 0x5000)) for _ in range({0: 0, 8: 1, 0x40: 2, 0x80: 4}[k]))
    if ins:
        q = bytes(r.randrange(256) for _ in range(r.randint(1, 5)))
        b += struct.pack(">H", len(q)) + q
    return b


def cmap4(r, m):
    """format 4: maximal runs of characters cut at random, each with a delta or an array"""
    cs = sorted(c for c in m if c < 0xFFFF)
    segs, i = [], 0
    while i < len(cs):
        j = i
        gaps = r.random() < .3
        while j + 1 < len(cs) and (cs[j + 1] == cs[j] + 1 or gaps and cs[j + 1] - cs[j] < 6) and r.random() < .9: j += 1
        a, e = cs[i], cs[j]
        gl = [m.get(c, 0) for c in range(a, e + 1)]
        d = {(g - c) & 0xFFFF for c, g in zip(range(a, e + 1), gl)}
        if len(d) == 1 and 0 not in gl and r.random() < .7: segs.append((a, e, d.pop(), None))
        elif r.random() < .3: # an array with a delta
            dl = r.randint(1, 60000)
            segs.append((a, e, dl, [(g - dl) & 0xFFFF if g else 0 for g in gl]))
            if any(g and (g - dl) & 0xFFFF == 0 for g in gl): segs[-1] = (a, e, 0, gl)
        else: segs.append((a, e, 0, gl))
        i = j + 1
    segs.append((0xFFFF, 0xFFFF, 1, None))
    n = len(segs)
    arr, ro = [], []
    for k, (a, e, d, gl) in enumerate(segs):
        if gl is None: ro.append(0)
        else:
            ro.append(2 * (n - k) + 2 * len(arr))
            arr += gl
    es = n.bit_length() - 1
    h = struct.pack(">HHHH", 2 * n, 2 << es, es, 2 * n - (2 << es))
    b = h + b"".join(struct.pack(">H", s[1]) for s in segs) + b"\0\0" + b"".join(struct.pack(">H", s[0]) for s in segs)
    b += b"".join(struct.pack(">H", s[2]) for s in segs) + b"".join(struct.pack(">H", x) for x in ro) + b"".join(struct.pack(">H", g) for g in arr)
    return struct.pack(">HHH", 4, 6 + len(b), 0) + b


def cmap12(r, m):
    gs, cs, i = [], sorted(m), 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1 and m[cs[j + 1]] == m[cs[j]] + 1: j += 1
        gs.append((cs[i], cs[j], m[cs[i]]))
        i = j + 1
    return struct.pack(">HHIII", 12, 0, 16 + 12 * len(gs), 0, len(gs)) + b"".join(struct.pack(">III", *g) for g in gs)


def font(r, chars, need, i):
    """bytes of a font with some of chars (all of need), and what it maps: {char: (glyph, advance)}"""
    upem = r.choice([1000, 1000, 2048, 1024, 256, 512, 1200, 4096])
    ng = r.randint(30, 90)
    cs = sorted(set(need) | set(r.sample(chars, min(len(chars), r.randint(25, 70)))))
    if i % 3 == 1: cs = sorted(set(cs) | {c for c in chars if c > 0x10000})
    order = r.random() if i % 3 != 1 else 1
    m = {}
    free = list(range(1, ng))
    if order < .5: r.shuffle(free)
    for c in cs:
        if order < .5 and r.random() < .05 and m: m[c] = r.choice(list(m.values())); continue
        if not free: break
        m[c] = free.pop(0)
    for c in need:
        if c not in m: m[c] = r.randrange(1, ng)
    blank = {m.get(32)} | {g for g in range(1, ng) if r.random() < .04}
    # a composite refers to glyphs on either side, but not in circles
    level = {}
    glyphs = []
    # short offsets reach 128 kilobytes: some big glyphs among those of the characters
    big = set(r.sample(sorted(set(m.values()) - {0}), min(10, len(set(m.values()) - {0})))) if i % 6 == 2 else set()
    blank -= big
    for g in range(ng):
        level[g] = 0 if g in big or r.random() < .65 or g == 0 else r.choice([1, 1, 2, 3])
    for g in range(ng):
        if g in blank: d = b""; level[g] = 0
        elif level[g] == 0: d = simple_glyph(r, upem, 300 if i % 6 == 5 else 350 if g in big else 1)
        else:
            low = [h for h in range(ng) if level[h] < level[g]]
            d = composite_glyph(r, [r.choice(low) for _ in range(r.choice([1, 2, 3, 3, 6]))], upem)
        glyphs.append(d)
    short = i % 2 == 0
    glyf, loca = b"", [0]
    for d in glyphs:
        if short and len(d) % 2: d += b"\0"
        elif r.random() < .3: d = pad4(d)
        glyf += d
        loca.append(len(glyf))
    nh = ng if r.random() < .4 else r.randint(1, ng)
    adv = [r.choice([0, upem // 2, r.randint(1, upem + upem // 2)]) if r.random() < .1 else r.randint(upem // 5, upem) for _ in range(nh)]
    A = lambda g: adv[g] if g < nh else adv[-1]
    asc, desc = r.randint(upem * 6 // 10, upem), -r.randint(1, upem * 4 // 10)
    tasc, tdesc = (0, 0) if r.random() < .0 else (r.randint(upem // 2, upem), -r.randint(1, upem // 3))
    T = {}
    T["head"] = struct.pack(">IIIIHHQQhhhhHHhhh", 0x10000, 0x10000, 0, 0x5F0F3CF5, 3, upem, 0, 0, -r.randint(0, upem // 4), -r.randint(0, upem // 3), r.randint(upem // 2, upem), r.randint(upem // 2, upem), 0, 8, 2, 0 if short else 1, 0)
    T["hhea"] = struct.pack(">IhhhHhhhhhhhhhhhH", 0x10000, asc, desc, 0, max(adv), 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, nh)
    T["maxp"] = struct.pack(">IHHHHHHHHHHHHHH", 0x10000, ng, 50, 5, 50, 5, 1, 0, 0, 0, 0, 0, 0, 3, 3)
    T["hmtx"] = b"".join(struct.pack(">Hh", a, r.randint(-20, 20)) for a in adv) + b"".join(struct.pack(">h", r.randint(-20, 20)) for _ in range(ng - nh))
    T["loca"] = b"".join(struct.pack(">H", o // 2) if short else struct.pack(">I", o) for o in loca)
    T["glyf"] = glyf
    bmp = {c: g for c, g in m.items() if c <= 0xFFFF}
    subs = [(3, 1, cmap4(r, bmp))]
    if r.random() < .5: subs.append((0, 3, subs[0][2]))
    if r.random() < .4: subs.append((1, 0, struct.pack(">HHH", 0, 262, 0) + bytes(m.get(c, 0) if m.get(c, 0) < 256 else 0 for c in range(256))))
    has12 = any(c > 0xFFFF for c in m)
    if has12: subs.append((3, 10, cmap12(r, m if r.random() < .7 else {c: g for c, g in m.items() if c > 0xFFFF})))
    subs.sort(key=lambda s: s[:2])
    body, dirs, base = b"", b"", 4 + 8 * len(subs)
    placed = {}
    for p, e, s in subs:
        if s not in placed:
            placed[s] = base + len(body)
            body += pad4(s)
        dirs += struct.pack(">HHI", p, e, placed[s])
    T["cmap"] = struct.pack(">HH", 0, len(subs)) + dirs + body
    nm = "Synth%04d" % r.randrange(10000)
    recs = [(1, 0, 0, 6, nm.encode("latin1")), (3, 1, 0x409, 6, nm.encode("utf-16-be"))]
    if r.random() < .5: recs.insert(0, (1, 0, 0, 1, b"Synth"))
    if r.random() < .3: recs = [x for x in recs if x[0] == 3]
    st, rb = b"", b""
    for p, e, l, i, s in recs:
        rb += struct.pack(">HHHHHH", p, e, l, i, len(s), len(st))
        st += s
    T["name"] = struct.pack(">HHH", 0, len(recs), 6 + len(rb)) + rb + st
    v = r.choice([0, 1, 2, 3, 4])
    os2 = struct.pack(">HhHHH", v, 500, 400, 5, 0) + b"\0" * 22 + b"\0" * 10 + b"\0" * 16 + b"none" + struct.pack(">HHHhhhHH", 64, min(bmp), min(max(bmp), 0xFFFF), tasc, tdesc, 90, r.randint(upem // 2, upem), r.randint(1, upem // 3))
    if v >= 1: os2 += b"\0" * 8
    if v >= 2: os2 += struct.pack(">hhHHH", upem // 2, upem * 7 // 10, 0, 32, 1)
    T["OS/2"] = os2
    T["post"] = struct.pack(">Ii", 0x30000, r.choice([0, -12, 9]) << 16) + struct.pack(">hhIIIII", -r.randint(0, upem // 5), r.randint(1, upem // 10), 0, 0, 0, 0, 0)
    for t in ("cvt ", "fpgm", "prep"):
        if r.random() < .6: T[t] = bytes(r.randrange(256) for _ in range(2 * r.randint(1, 20)))
    if r.random() < .3: T["gasp"] = b"\0\0\0\1\xff\xff\0\3"
    kern = {}
    if i % 4 != 3:
        gs = sorted(set(m.values()))
        for _ in range(r.randint(1, 120)): kern[(r.choice(gs), r.choice(gs))] = r.choice([r.randint(-upem // 6, upem // 8), 0])
        ps = sorted(kern)
        tabs = [ps]
        if i % 4 == 1 and len(ps) > 2:
            k = r.randrange(1, len(ps))
            tabs = [ps[:k], ps[k:]]
        b = struct.pack(">HH", 0, len(tabs))
        for q in tabs:
            es = len(q).bit_length() - 1
            b += struct.pack(">HHHHHHH", 0, 14 + 6 * len(q), 1, len(q), 6 << es, es, 6 * len(q) - (6 << es)) + b"".join(struct.pack(">HHh", x, y, kern[(x, y)]) for x, y in q)
        T["kern"] = b
    tags = sorted(T)
    phys = list(tags)
    r.shuffle(phys)
    n = len(tags)
    es = n.bit_length() - 1
    off, data, where = 12 + 16 * n, b"", {}
    for i, t in enumerate(phys):
        where[t] = off + len(data)
        data += pad4(T[t]) if i + 1 < len(phys) or r.random() < .5 else T[t]
    out = struct.pack(">IHHHH", 0x10000, n, 16 << es, es, 16 * n - (16 << es))
    for t in tags: out += t.encode() + struct.pack(">III", csum(T[t]), where[t], len(T[t]))
    return out + data, {c: (g, A(g)) for c, g in m.items()}


# ---- images
def name(i): return "s%d.%s" % (i, "jpg" if i % 5 == 4 else "gif" if i % 20 == 7 else "png")
def chunk(t, d): return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d) & 0xFFFFFFFF)


def filtered(r, rows, bpp):
    """every row with a filter of its own"""
    out, prev = b"", bytes(len(rows[0]))
    for row in rows:
        f = r.randrange(5)
        x = bytearray(row)
        for i in range(len(row)):
            a = row[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            if f == 1: p = a
            elif f == 2: p = b
            elif f == 3: p = (a + b) // 2
            elif f == 4:
                q = a + b - c
                pa, pb, pc = abs(q - a), abs(q - b), abs(q - c)
                p = a if pa <= pb and pa <= pc else b if pb <= pc else c
            else: p = 0
            x[i] = (row[i] - p) & 255
        out += bytes([f]) + bytes(x)
        prev = row
    return out


# colour type, bits, transparency: the made-up images take them in turn
KINDS = [(0, 8, 1), (3, 8, 1), (2, 8, 1), (0, 4, 1), (3, 4, 1), (4, 8, 0), (6, 8, 0), (3, 2, 0), (0, 1, 0), (2, 8, 0), (3, 1, 1), (0, 2, 1), (0, 8, 0), (3, 8, 0), (0, 1, 1), (3, 2, 1), (2, 8, 2),
         (0, 2, 0), (3, 1, 0), (0, 4, 0), (3, 4, 0)]


def gif(r, i):
    """one frame or two, with a palette of its own or that of the file, sometimes interlaced or with a transparent entry"""
    m = [8, 2, 4][i // 20 % 3]
    n = 1 << m
    w, h = r.randint(1, 30), r.randint(1, 30)
    pal = lambda: bytes(r.randrange(256) for _ in range(3 * n))
    local = r.random() < .4
    out = b"GIF89a" + struct.pack("<HHBBB", w, h, (0 if local else 0x80) | (m - 1), 0, 0) + (b"" if local else pal())
    for k in range(r.choice([1, 1, 2])):
        if r.random() < .5: out += b"\x21\xf9\x04" + struct.pack("<BHBB", 1, 10, r.randrange(n), 0)
        out += b"\x2c" + struct.pack("<HHHHB", 0, 0, w, h, (0x80 | (m - 1) if local else 0) | r.choice([0, 0x40])) + (pal() if local else b"") + bytes([m])
        acc, nb, data = 0, 0, bytearray()
        codes = []
        for j in range(w * h):
            if j % (n - 2) == 0: codes.append(n)
            codes.append(r.choice([n - 1, r.randrange(n)]))
        for c in codes + [n + 1]:
            acc |= c << nb
            nb += m + 1
            while nb >= 8:
                data.append(acc & 255)
                acc >>= 8
                nb -= 8
        if nb: data.append(acc & 255)
        for j in range(0, len(data), 255): out += bytes([len(data[j:j + 255])]) + data[j:j + 255]
        out += b"\0"
    return out + b"\x3b"


def image(r, i):
    if i % 20 == 7: return gif(r, i)
    if i % 5 == 4: return jpeg(r, i // 5)
    if i % 5 == 3: return png(r, (4 + i // 5 % 2 * 2, 8, 0))
    return png(r, KINDS[(i // 5 * 3 + i % 5) % len(KINDS)])


def png(r, kind):
    ct, bpc, trns = kind
    w, h = r.randint(1, 20), r.randint(1, 16)
    if r.random() < .2: w = r.randint(60, 140)
    if r.random() < .2: w = 1
    if r.random() < .1: h = 1
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ct]
    npal = r.choice([1 << bpc, r.randint(2, 1 << bpc)]) if ct == 3 else 0
    rows = []
    flat = r.random() < .3
    for _ in range(h):
        if bpc == 8: row = bytes(r.choice([npal - 1, r.randrange(npal)]) if ct == 3 else (7 if flat else r.randrange(256)) for _ in range(w * ch))
        else:
            bits = "".join(format(r.randrange(npal if ct == 3 else 1 << bpc), "0%db" % bpc) for _ in range(w))
            bits += "0" * (-len(bits) % 8)
            row = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
        rows.append(row)
    z = zlib.compress(filtered(r, rows, max(1, ch * bpc // 8)), r.choice([0, 1, 6, 9]))
    out = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, bpc, ct, 0, 0, 0))
    anc = lambda: b"".join(r.choice([chunk(b"tEXt", b"Comment\0IDAT PLTE"), chunk(b"gAMA", struct.pack(">I", 45455)), chunk(b"pHYs", struct.pack(">IIB", 2835, 2835, 1))]) for _ in range(r.choice([0, 0, 1])))
    out += anc()
    if ct == 3:
        out += chunk(b"PLTE", bytes(r.randrange(256) for _ in range(3 * npal)))
        if trns and npal > 1:
            k = r.randrange(npal)
            out += chunk(b"tRNS", b"\xff" * k + b"\0")
    elif ct == 0 and trns: out += chunk(b"tRNS", struct.pack(">H", rows[0][0] >> (8 - bpc) if r.random() < .8 else r.randrange(1 << bpc)))
    elif ct == 2 and trns == 1: out += chunk(b"tRNS", struct.pack(">HHH", rows[0][0], rows[0][1], rows[0][2]))
    elif trns == 2: out += chunk(b"PLTE", bytes(r.randrange(256) for _ in range(12)))
    out += anc()
    cut = sorted(r.randrange(len(z) + 1) for _ in range(r.choice([0, 0, 1, 3])))
    for a, b in zip([0] + cut, cut + [len(z)]): out += chunk(b"IDAT", z[a:b])
    return out + anc() + chunk(b"IEND", b"")


def big(r):
    """an image of more than a million bytes"""
    w, h = 700 + r.randrange(50), 620
    z = zlib.compress(b"".join(b"\0" + r.randbytes(3 * w) for _ in range(h)), 0)
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 2, 0, 0, 0)) + chunk(b"IDAT", z) + chunk(b"IEND", b"")


# ---- JPEG: random coefficients, coded with the tables below
def hufftable(counts, vals):
    code, k, t = 0, 0, {}
    for ln, n in enumerate(counts, 1):
        for _ in range(n):
            t[vals[k]] = (code, ln)
            code += 1
            k += 1
        code <<= 1
    return t


DCC, DCV = [0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0], list(range(12))
ACC, ACV = [0, 2, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [0x00, 0x01, 0x02, 0x11, 0xF0, 0x03]
DCT, ACT = hufftable(DCC, DCV), hufftable(ACC, ACV)


def seg(m, d): return b"\xff" + bytes([m]) + struct.pack(">H", len(d) + 2) + d


def jpeg(r, i):
    """grey, YCbCr or CMYK; baseline or progressive (not RGB, which gopdf refuses)"""
    kind = ["ycc", "gray", "cmyk", "ycc", "ycck"][i % 5]
    w, h = r.randint(1, 40), r.randint(1, 40)
    n = {"gray": 1, "ycc": 3, "cmyk": 4, "ycck": 4}[kind]
    hv = [(1, 1)] * n
    if kind == "ycc": hv[0] = r.choice([(1, 1), (2, 1), (1, 2), (2, 2)])
    prog = i % 4 == 3
    ids = list(range(1, n + 1))
    out = b"\xff\xd8"
    if kind in ("gray", "ycc") and r.random() < .7: out += seg(0xE0, b"JFIF\0\1\1" + struct.pack(">BHHBB", r.choice([0, 1, 2]), 72, r.choice([72, 300]), 0, 0))
    if r.random() < .4: out += seg(0xE1, b"Exif\0\0" + bytes(r.randrange(256) for _ in range(r.randint(0, 300))))
    if kind in ("cmyk", "ycck"): out += seg(0xEE, b"Adobe\0\x64\0\0\0\0" + bytes([2 if kind == "ycck" else 0]))
    if r.random() < .3: out += seg(0xFE, b"a comment \xff\xc0 that is not a frame")
    out += seg(0xDB, b"\0" + bytes(r.randint(1, 40) for _ in range(64)))
    out += seg(0xC2 if prog else 0xC0, struct.pack(">BHHB", 8, h, w, n) + b"".join(bytes([i, a << 4 | b, 0]) for i, (a, b) in zip(ids, hv)))
    out += seg(0xC4, b"\0" + bytes(DCC) + bytes(DCV) + b"\x10" + bytes(ACC) + bytes(ACV))
    mx, my = 8 * max(a for a, b in hv), 8 * max(b for a, b in hv)
    nm = -(-w // mx) * -(-h // my)
    if n == 1: nm = -(-w // 8) * -(-h // 8)
    ri = r.randint(1, 4) if r.random() < .3 and nm > 1 else 0
    if ri: out += seg(0xDD, struct.pack(">H", ri))
    out += seg(0xDA, bytes([n]) + b"".join(bytes([i, 0]) for i in ids) + bytes([0, 0 if prog else 63, 0]))
    bits, pred = [], [0] * n
    put = lambda v, k: bits.extend((v >> (k - 1 - i)) & 1 for i in range(k))

    def flush():
        while len(bits) % 8: bits.append(1)
        b = bytes(int("".join(map(str, bits[i:i + 8])), 2) for i in range(0, len(bits), 8))
        bits.clear()
        return b.replace(b"\xff", b"\xff\0")

    data = b""
    for m in range(nm):
        if ri and m and m % ri == 0:
            data += flush() + bytes([0xFF, 0xD0 + (m // ri - 1) % 8])
            pred = [0] * n
        for c in range(n):
            for _ in range(hv[c][0] * hv[c][1] if n > 1 else 1):
                v = r.randint(-60, 60)
                d, pred[c] = v - pred[c], v
                k = abs(d).bit_length()
                put(*DCT[k])
                if k: put(d if d > 0 else d + (1 << k) - 1, k)
                if prog: continue
                z = 1
                while z < 64 and r.random() < .6:
                    s = r.choice([0x01, 0x02, 0x03, 0x11])
                    if z + (s >> 4) > 63: break
                    z += (s >> 4) + 1
                    put(*ACT[s])
                    k = s & 15
                    a = r.randrange(1 << (k - 1), 1 << k)
                    put(a if r.random() < .5 else a ^ ((1 << k) - 1), k)
                if z < 64: put(*ACT[0])
    return out + data + flush() + b"\xff\xd9"


# ---- files damaged at a few places: they must be refused without a trace, or leave a valid document
def bname(i): return "k%d.%s" % (i, ["ttf", "ttf", "png", "ttf", "jpg", "png"][i % 6])


def large(b):
    """sizes that only the decoder of the Go library would suffer from"""
    if b[:4] == b"\x89PNG" and len(b) > 24:
        w, h = struct.unpack(">II", b[16:24])
        return w > 2000 or h > 2000
    for p in range(len(b) - 9):
        if b[p] == 0xFF and 0xC0 <= b[p + 1] <= 0xCF and max(struct.unpack(">HH", b[p + 5:p + 9])) > 2000: return True
    return False


def broken(r, i, src):
    """src damaged: cut, single bytes, fields of the tables and headers"""
    font = bname(i).endswith(".ttf")
    while True:
        b = bytearray(src)
        for _ in range(r.randint(1, 3)):
            k = r.randrange(6)
            v = r.choice([0, 255, 1, 128, r.randrange(256)])
            if k == 0 and len(b) > 40: del b[r.randrange(len(b)):]
            elif k == 1 or len(b) < 64: b[r.randrange(len(b) or 1):][:1] and b.__setitem__(r.randrange(len(b)), v)
            elif font:
                t = 12 + 16 * r.randrange(struct.unpack(">H", b[4:6])[0] or 1)
                if t + 16 > len(b): continue
                off, n = struct.unpack(">II", b[t + 8:t + 16])
                if r.random() < .3: b[t + 8 + r.randrange(8)] = v
                elif n:
                    p = off + r.randrange(min(n, r.choice([8, 40, 400])))
                    if p < len(b): b[p] = v
            else: b[r.randrange(64)] = v
        if bytes(b) == src: continue
        if b[:4] == b"\x89PNG":
            # with the checksums put right
            p = 8
            while p + 12 <= len(b):
                n = struct.unpack(">I", b[p:p + 4])[0]
                if p + 12 + n > len(b): break
                b[p + 8 + n:p + 12 + n] = struct.pack(">I", zlib.crc32(bytes(b[p + 4:p + 8 + n])) & 0xFFFFFFFF)
                p += 12 + n
        if font or not large(b): return bytes(b)
