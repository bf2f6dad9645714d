#!/usr/bin/env python3
"""Writes spec/ArabicTable.tla from the Unicode character database (not from the library)."""
import os, unicodedata as u
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LETTERS = "0621 0622 0623 0624 0625 0626 0627 0628 0629 062A 062B 062C 062D 062E 062F 0630 0631 0632 0633 0634 0635 0636 0637 0638 0639 063A 0640 0641 0642 0643 0644 0645 0646 0647 0648 0649 064A 067E 0686 0698 06A9 06AF 06CC".split()
forms = {}
for c in list(range(0xFB50, 0xFC00)) + list(range(0xFE80, 0xFEFD)):
    d = u.decomposition(chr(c)).split()
    if len(d) >= 2 and d[0] in ("<isolated>", "<final>", "<initial>", "<medial>"):
        forms.setdefault(tuple(int(x, 16) for x in d[1:]), {}).setdefault(d[0][1:-1], c)
rows = []
for l in LETTERS:
    c = int(l, 16)
    f = forms.get((c,), {})
    # dual joining: has initial and medial forms; right joining: a final form only; tatweel joins on both sides
    # U+0649 joins on the right only in Arabic (its other forms are Uighur letters)
    j = "C" if c == 0x640 else "R" if c == 0x649 else "D" if "initial" in f else "R" if "final" in f else "U"
    iso, fin = f.get("isolated", c), f.get("final", c)
    ini, med = (f.get("initial", c), f.get("medial", c)) if j == "D" else (iso, fin)
    rows.append("  [c |-> %d, j |-> \"%s\", iso |-> %d, fin |-> %d, ini |-> %d, med |-> %d]" % (c, j, iso, fin, ini, med))
lig = []
for a in (0x627, 0x623):
    f = forms[(0x644, a)]
    lig.append("  [c |-> %d, iso |-> %d, fin |-> %d]" % (a, f["isolated"], f["final"]))
with open(os.path.join(R, "spec", "ArabicTable.tla"), "w") as o:
    o.write("---------------------------- MODULE ArabicTable ----------------------------\n"
            "(* Arabic letters: joining type (D: both sides, R: to the letter before only, C: on both sides without     *)\n"
            "(* changing shape, U: not at all) and presentation forms.  Written by tools/mkarabic.py from the Unicode   *)\n"
            "(* character database.                                                                                    *)\n"
            "EXTENDS Naturals, Sequences\n\nLetters == <<\n" + ",\n".join(rows) + ">>\n\n"
            "(* the ligatures of lam with an alef *)\nLamAlefs == <<\n" + ",\n".join(lig) + ">>\n"
            "=============================================================================\n")
