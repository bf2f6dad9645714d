#!/usr/bin/env python3
"""Writes the small images and PDF files of /verif/res (committed; run only to change them)."""
import os, struct, zlib, random, sys
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "res")

def chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d) & 0xffffffff)

def png(name, w, h, ct, bpc, rows, pal=None, trns=None, inter=0, cut=None, split=1):
    b = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, bpc, ct, 0, 0, inter))
    if pal: b += chunk(b"PLTE", bytes(pal))
    if trns is not None: b += chunk(b"tRNS", bytes(trns))
    z = zlib.compress(b"".join(bytes([i % 5 if ct not in (9,) and bpc == 8 and False else 0]) + bytes(r) for i, r in enumerate(rows)))
    k = max(1, len(z) // split + 1)
    for i in range(0, len(z), k): b += chunk(b"IDAT", z[i:i + k])
    b += chunk(b"IEND", b"")
    if cut: b = b[:cut]
    open(os.path.join(OUT, name), "wb").write(b)

def filt(rows, bpp):
    """PNG filters 1 and 2 in turn, so that predictors matter"""
    out, prev = [], [0] * len(rows[0])
    for i, r in enumerate(rows):
        f = i % 3
        if f == 0: d = list(r)
        elif f == 1: d = [(r[j] - (r[j - bpp] if j >= bpp else 0)) % 256 for j in range(len(r))]
        else: d = [(r[j] - prev[j]) % 256 for j in range(len(r))]
        out.append(bytes([f]) + bytes(d)); prev = r
    return out

def pngf(name, w, h, ct, rows, bpp, **kw):
    b = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, ct, 0, 0, 0))
    for t in ("pal", "trns"):
        if kw.get(t): b += chunk({"pal": b"PLTE", "trns": b"tRNS"}[t], bytes(kw[t]))
    z = zlib.compress(b"".join(filt(rows, bpp)))
    h2 = len(z) // 2
    b += chunk(b"IDAT", z[:h2]) + chunk(b"IDAT", z[h2:]) + chunk(b"IEND", b"")
    open(os.path.join(OUT, name), "wb").write(b)

def bits(vals, bpc):
    n, acc, out = 0, 0, []
    for v in vals:
        acc = acc << bpc | v; n += bpc
        if n == 8: out.append(acc); acc = n = 0
    if n: out.append(acc << (8 - n))
    return out

def images():
    R = random.Random(7)
    px = lambda: R.randrange(256)
    pngf("rgb.png", 24, 16, 2, [[px() for _ in range(72)] for _ in range(16)], 3)
    pngf("rgb2.png", 24, 16, 2, [[px() for _ in range(72)] for _ in range(16)], 3)
    pngf("rgba.png", 20, 20, 6, [[px() for _ in range(80)] for _ in range(20)], 4)
    pngf("rgba2.png", 18, 22, 6, [[px() for _ in range(72)] for _ in range(22)], 4)
    pngf("gray.png", 16, 24, 0, [[px() for _ in range(16)] for _ in range(24)], 1)
    pngf("graya.png", 14, 10, 4, [[px() for _ in range(28)] for _ in range(10)], 2)
    pngf("pal.png", 12, 12, 3, [[R.randrange(9) for _ in range(12)] for _ in range(12)], 1, pal=[px() for _ in range(27)])
    pngf("paltr.png", 12, 14, 3, [[R.randrange(6) for _ in range(12)] for _ in range(14)], 1, pal=[px() for _ in range(18)], trns=[255, 255, 0])
    png("pal2.png", 13, 7, 3, 2, [bits([R.randrange(4) for _ in range(13)], 2) for _ in range(7)], pal=[px() for _ in range(12)])
    png("bit1.png", 13, 9, 0, 1, [bits([R.randrange(2) for _ in range(13)], 1) for _ in range(9)])
    m = lambda w, h, f: [[c for x in range(w) for c in (40, 80, 120, f(x, y))] for y in range(h)]
    pngf("mask1.png", 16, 16, 6, m(16, 16, lambda x, y: (x * 16) % 256), 4)
    pngf("mask2.png", 12, 18, 6, m(12, 18, lambda x, y: (y * 14) % 256), 4)
    png("interlaced.png", 8, 8, 2, 8, [[px() for _ in range(24)] for _ in range(8)], inter=1)
    png("cut.png", 24, 24, 2, 8, [[px() for _ in range(72)] for _ in range(24)], cut=300)
    png("deep.png", 4, 4, 2, 16, [[px() for _ in range(24)] for _ in range(4)])
    open(os.path.join(OUT, "text.png"), "wb").write(b"this is no image")
    f = open(os.path.join(OUT, "LiberationSerif-Regular.ttf"), "rb").read()
    open(os.path.join(OUT, "cut.ttf"), "wb").write(f[:2000])

class Pdf:
    def __init__(s): s.o = {}
    def obj(s, n, body, stream=None, extra=""):
        if stream is not None:
            body = "<< /Length %d %s >>\nstream\n" % (len(stream), extra) if body is None else body
            s.o[n] = body.encode("latin1") + stream + b"\nendstream"
        else: s.o[n] = body.encode("latin1")
    def write(s, name, root):
        b = b"%PDF-1.4\n%\xe2\xe3\xcf\xd3\n"; off = {}
        for n in sorted(s.o):
            off[n] = len(b); b += b"%d 0 obj\n" % n + s.o[n] + b"\nendobj\n"
        x = len(b); m = max(s.o) + 1
        b += b"xref\n0 %d\n0000000000 65535 f \n" % m
        for n in range(1, m): b += b"%010d 00000 n \n" % off[n]
        b += b"trailer\n<< /Size %d /Root %d 0 R >>\nstartxref\n%d\n%%%%EOF\n" % (m, root, x)
        open(os.path.join(OUT, name), "wb").write(b)

def pdfs():
    R = random.Random(11)
    fl = lambda b: zlib.compress(b)
    # a: three pages, nested resources, shared objects
    p = Pdf()
    p.obj(1, "<< /Type /Catalog /Pages 2 0 R >>")
    p.obj(2, "<< /Type /Pages /Kids [3 0 R 4 0 R 5 0 R] /Count 3 >>")
    for i, (n, w, h) in enumerate(((3, 300, 400), (4, 300, 400), (5, 300, 400))):
        p.obj(n, "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 %d %d] /Contents %d 0 R /Resources << /Font << /F1 9 0 R >> /ExtGState << /G0 10 0 R >> /XObject << /X0 11 0 R >> /ProcSet [/PDF /Text] >> >>" % (w, h, n + 3))
        c = b"q /G0 gs 0.2 0.%d 0.5 rg 10 %d 50 40 re f Q BT /F1 12 Tf 20 30 Td (page %d of a) Tj ET q 30 0 0 30 %d 60 cm /X0 Do Q" % (i + 1, 20 + i, i + 1, 40 + i)
        if i == 1: p.obj(n + 3, None, fl(c), "/Filter /FlateDecode")
        else: p.obj(n + 3, None, c)
    p.obj(9, "<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /Encoding 12 0 R >>")
    p.obj(10, "<< /Type /ExtGState /ca 0.5 /CA 0.25 >>")
    p.obj(11, None, fl(bytes(R.randrange(256) for _ in range(4 * 3 * 3))), "/Type /XObject /Subtype /Image /Width 4 /Height 3 /ColorSpace /DeviceRGB /BitsPerComponent 8 /Filter /FlateDecode /SMask 13 0 R")
    p.obj(12, "<< /Type /Encoding /BaseEncoding /WinAnsiEncoding /Differences [65 /Adieresis] >>")
    p.obj(13, None, bytes(R.randrange(256) for _ in range(12)), "/Type /XObject /Subtype /Image /Width 4 /Height 3 /ColorSpace /DeviceGray /BitsPerComponent 8")
    p.write("a.pdf", 1)
    # b: one page, other resources under the same names
    p = Pdf()
    p.obj(1, "<< /Type /Catalog /Pages 2 0 R >>")
    p.obj(2, "<< /Type /Pages /Kids [3 0 R] /Count 1 >>")
    p.obj(3, "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 420 300] /Contents 4 0 R /Resources 5 0 R >>")
    p.obj(4, None, b"0 0 1 RG 3 w 10 10 m 400 290 l S BT /F1 9 Tf 40 44 Td (document b) Tj ET")
    p.obj(5, "<< /Font << /F1 6 0 R >> /ProcSet [/PDF /Text] >>")
    p.obj(6, "<< /Type /Font /Subtype /Type1 /BaseFont /Courier >>")
    p.write("b.pdf", 1)
    # c: two pages, several content streams, string and array values
    # e: the same, the content streams ending without white space
    for name, end in (("c.pdf", b"\n"), ("e.pdf", b"")):
      p = Pdf()
      p.obj(1, "<< /Type /Catalog /Pages 2 0 R >>")
      p.obj(2, "<< /Type /Pages /Kids [3 0 R 4 0 R] /Count 2 >>")
      p.obj(3, "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 612 792] /Contents [5 0 R 6 0 R] /Resources << /Font << /Fa 7 0 R >> /ColorSpace << /CSx 8 0 R >> /ProcSet [/PDF] >> >>")
      p.obj(4, "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 612 792] /Contents 6 0 R /Resources << /Font << /Fa 7 0 R >> /ProcSet [/PDF] >> >>")
      p.obj(5, None, b"q 1 0 0 1 5 5 cm /CSx cs 1 scn 0 0 90 90 re f Q" + end)
      p.obj(6, None, fl(b"BT /Fa 20 Tf 10 100 Td (c text) Tj ET"), "/Filter /FlateDecode")
      p.obj(7, "<< /Type /Font /Subtype /Type1 /BaseFont /Times-Roman >>")
      p.obj(8, "[/Separation /Gold /DeviceCMYK << /FunctionType 2 /Domain [0 1] /C0 [0 0 0 0] /C1 [0 0.2 0.8 0.1] /N 1 >>]")
      p.write(name, 1)
    # d: pages of different sizes; f: the same, the resources inherited from the page tree
    for name in ("d.pdf", "f.pdf"):
      p = Pdf()
      res = "/Resources << /Font << /F1 6 0 R >> >>"
      own, inh = (res, "") if name == "d.pdf" else ("", res)
      p.obj(1, "<< /Type /Catalog /Pages 2 0 R >>")
      p.obj(2, "<< /Type /Pages /Kids [3 0 R 4 0 R] /Count 2 %s >>" % inh)
      p.obj(3, "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 250.5 420.25] /Contents 5 0 R %s >>" % own)
      p.obj(4, "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 500 250] /Contents 7 0 R %s >>" % own)
      p.obj(5, None, b"1 0 0 rg 10 10 100 100 re f BT /F1 9 Tf 40 44 Td (first of d) Tj ET")
      p.obj(7, None, b"0 1 0 rg 20 10 100 100 re f BT /F1 9 Tf 40 44 Td (second of d) Tj ET")
      p.obj(6, "<< /Type /Font /Subtype /Type1 /BaseFont /Courier >>")
      p.write(name, 1)

if __name__ == "__main__":
    images(); pdfs()
