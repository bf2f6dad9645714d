#!/usr/bin/env python3
"""Writes /verif/known_findings.json: defects that are recorded and not repaired, each with the one program (probe) that
shows it and the aspects of the judge's findings it causes, and the defects that were repaired in /repo."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
sys.dont_write_bytecode = True
from alpha import *
K = []
def known(id, prop, what, probe, expect): K.append(dict(id=id, property=prop, what=what, probe=probe, expect=expect))
known("imported-not-encrypted", "C16", "streams and strings of pages imported from another file (page 1 of a.pdf drawn in a protected document) are written without encryption, readers decrypt them to something else",
      PROT + [IMP("a.pdf", 1), USE(1), output()], ["Output/marks:formdig", "Output/ops", "Output/file", "Output/refs"])
known("import-back-and-forth", "C28", "importing from a.pdf, then b.pdf, then a.pdf again: the library gofpdi gives two templates the same name, the template of b.pdf shows a page of a.pdf",
      BASE + [IMP("a.pdf", 1), IMP("b.pdf", 1), IMP("a.pdf", 2), USE(1, 1000, 1000), USE(2, 2000, 20000), USE(3, 3000, 40000), output()], ["Output/marks:formdig", "Output/marks:formbox", "Output/marks:formpos"])
known("import-box-of-first-page", "C28", "page 2 of d.pdf (its size differs from page 1): the library gofpdi uses the page box of page 1 of the file",
      BASE + [IMP("d.pdf", 2), USE(1), output()], ["Output/marks:formbox0"])
known("import-streams-joined", "C28", "page 1 of e.pdf (two content streams not ending with white space): the library gofpdi joins them without white space",
      BASE + [IMP("e.pdf", 1), USE(1), output()], ["Output/marks:formdig"])
known("import-inherited-resources", "C28", "page 1 of f.pdf (resources inherited from the page tree): the library gofpdi takes the page tree node for the resources",
      BASE + [IMP("f.pdf", 1), USE(1), output()], ["Output/marks:formdig", "Output/refs"])
F = """C04 4753762 outputs accumulated content, a second output differed from the first
C05 47a7d72 errors of the destination were dropped, counts were wrong
C11 82818b6 SplitTextWithOption lost or doubled characters and did not end for narrow widths
C12 4fe6e4f MultiCell and the fit check disagreed, drew past the cell
C10 5d6d893 page break helpers mixed points and document units
C08 afd156c rectangles and boxes ignored a custom conversion factor
C20 5ced047 mask options and crop of the caller were changed, crop converted twice
C20 ecdcceb SetCustomLineType changed and kept the caller's slice
C02 aa6da49 trim boxes: wrong page or unit
C21 13fbde3 link rectangles, anchors and outline heights used the default page height
C03 39368ab SetPage accepted pages that do not exist, drew on another page
C32 cd0b03c characters outside the basic plane were written wrongly in UTF-16
C13 895735f ToUnicode map wrong for characters outside the basic plane and long maps
C22 e0fcb3e outline items: parent, previous and last references
C16 2f9b42e outline titles and mask groups were not encrypted
C16 dee886d password padding changed the caller's slice and long passwords
C25 d0d649d texts with other attributes were merged into the previous text
C06 4393d19 drawing text changed the fill colour of later shapes
C19 2dfabfb transparencies were mixed up
C23 88a0637 placeholders filled with the font selected last, wrong alignment
C13 5851ac4 components of composite glyphs within components were missing
C17 3a7831d images with and without mask were confused in the image cache
C29 9a0ecc2 SetCompressLevel ignored or accepted levels out of range
C30 b789446 a document started again kept content of its earlier use
C28 6c4bd06 template order was random, outputs differed
C21 3ec85c4 a link to an anchor that is never set made an invalid file
C18 e795917 a refused colour space was added all the same
C01 3d107b8 names with special characters broke the file
C16 d08f475 strings of CIDSystemInfo were not encrypted
C01 ba3abce imported objects were ended twice
C28 2ff3620 imported pages were scaled by the document unit
C32 0e5612e creation dates dropped the minutes of the time zone
C20 fc51724 font data given as a slice was kept
C16 b3f608a an extra line end after the data of protected images
C22 6f91095 outline entries arranged again kept children of the earlier arrangement
C32 ca0712c GetInfo panicked when no information was set
C34 b44fb28 letters before a hamza were shaped as if it joined them
C34 b4b3184 letters after jeh or a lam-alef ligature were shaped as if joined to it
C34 549ad0e teh marbuta joined to the letter before lost its final form when followed by a letter
C34 de1ebac marks at the start of an Arabic text were lost
C04 10ee01f reading after GetBytesPdf gave the earlier document when it had changed since
C33 ffe4d42 characters that a segment of the cmap maps to glyph 0 were not reported as missing
C15 0f3a762 only the pairs of the last kerning subtable of a font were used
C17 2d334bf a PNG was read only up to its first chunk without data, what followed was lost""".split("\n")
fixed = []
for l in F:
    p, c, w = l.split(" ", 2)
    fixed.append("fixed: property=%s %s %s" % (p, c, w))
json.dump({"known": K, "fixed": fixed}, open(os.path.join(R, "known_findings.json"), "w"), indent=1)
