-------------------------------- MODULE Text --------------------------------
(* Characters, glyphs, widths and the laying out of text in lines.  A font of a document is a record      *)
(* [fam, fi, sty, kern, cb, subst, ov, zero]: family, number in FontTab, style, kerning used, callback     *)
(* given, substitute (-2 the default given, -1 none given, else a character), kern override (<<>> or <<value>>), and the  *)
(* characters known to be shown with glyph 0.                                                               *)
EXTENDS Facts

InFont(f, c) == GidOf(f.fi, c) # 0
SubstOf(f, c) == IF f.subst < 0 THEN 32 ELSE f.subst
\* the character shown for c
Shown(f, c) == IF InFont(f, c) THEN c ELSE SubstOf(f, c)
ShownText(f, t) == [i \in 1..Len(t) |-> Shown(f, t[i])]

\* writing text t with f: [nf: the characters reported as missing, f: the font afterwards]
Written(f, t) ==
    IF \A i \in 1..Len(t) : InFont(f, t[i]) THEN [nf |-> <<>>, f |-> f]
    ELSE FoldLeft(LAMBDA st, c :
           IF InFont(f, c) \/ c \in st.f.zero THEN st
           ELSE LET s == SubstOf(f, c) IN
                [nf |-> IF f.cb # 0 THEN Append(st.nf, c) ELSE st.nf,
                 f |-> IF InFont(f, s) THEN st.f ELSE [st.f EXCEPT !.zero = @ \cup {s}]],
         [nf |-> <<>>, f |-> f], t)

Gid(f, c) == GidOf(f.fi, c)
Adv(f, c) == GlyphOf(f.fi, c).w
\* kerning between two shown characters in units (1/1000 em)
KernUnits(f, l, r) == IF f.kern = 0 THEN 0
                      ELSE Trunc((IF f.ov # <<>> THEN f.ov[1] ELSE KernOf(f.fi, Gid(f, l), Gid(f, r))) * 1000, FontTab[f.fi].upem)
\* what a character spacing of cs ticks adds to the measured width of each character
SpUnits(f, cs, fs10) == IF cs = 0 \/ fs10 <= 0 THEN 0
                        ELSE Trunc(Trunc(FontTab[f.fi].upem * cs, fs10 * 1000) * 1000, FontTab[f.fi].upem)
\* TRUE if the rounding of the spacing is too close to call, or there is none (size 0)
SpAmb(f, cs, fs10) == cs # 0 /\ (fs10 <= 0 \/ LET m == fs10 * 1000 r == Abs(FontTab[f.fi].upem * cs) % m IN
                                r <= FontTab[f.fi].upem \/ m - r <= FontTab[f.fi].upem)

\* offsets of the glyphs of a shown text, in units
Offsets(f, t, sp) ==
    FoldLeftDomain(LAMBDA st, i :
        LET k == IF i = 1 THEN 0 ELSE KernUnits(f, t[i-1], t[i]) IN
        [off |-> Append(st.off, st.w + k), w |-> st.w + k + Adv(f, t[i]) + sp], [off |-> <<>>, w |-> 0], t)
Units(f, t, sp) == FoldLeftDomain(LAMBDA w, i : w + sp + Adv(f, t[i]) + (IF i = 1 THEN 0 ELSE KernUnits(f, t[i-1], t[i])), 0, t)
\* width of a shown text in ticks
Width(f, t, fs10, cs) == Units(f, t, SpUnits(f, cs, fs10)) * fs10
\* font units in ticks
Scale(f, v, fs10) == MulDiv(v * fs10, 1000, FontTab[f.fi].upem)
Asc(f, fs10) == Scale(f, FontTab[f.fi].asc, fs10)
Desc(f, fs10) == Scale(f, FontTab[f.fi].desc, fs10)
LineH(f, fs10) == Asc(f, fs10) - Desc(f, fs10)

---------------------------------------------------------------------------
(* Splitting text t (not yet substituted) in lines no wider than wid ticks.                                *)
(* opt: [mode (0 strict, 1 at the indicator when there is one), ind, sep].  A comparison of widths within   *)
(* eps is not decided by the model: the result has amb set (eps = -1: all are decided).    *)
LastInd(line, ind) == LET S == {i \in 2..Len(line) : line[i] = ind} IN
                      IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Times(n) == [i \in 1..n |-> i]

SplitText(f, t, wid, opt, fs10, cs, eps) ==
    LET n == Len(t)
        sp == SpUnits(f, cs, fs10)
        m == ShownText(f, t)
        sepw == IF opt.sep = <<>> THEN 0 ELSE Width(f, ShownText(f, opt.sep), fs10, cs)
        \* units added to a line of w units that ends at position i-1 (empty if w = 0 and start) by character i
        Grow(i, empty) == sp + Adv(f, m[i]) + (IF empty THEN 0 ELSE KernUnits(f, m[i-1], m[i]))
        Step(st, k) ==
            IF st.i > n THEN st
            ELSE
            LET i == st.i c == t[i] line == st.line e == line = <<>>
                lw == st.w * fs10 cw == (sp + Adv(f, m[i])) * fs10
                amb == st.amb \/ (c # 10 /\ ~e /\ Abs(lw + cw - wid) <= eps)
                       \/ (opt.sep # <<>> /\ c # 10 /\ Abs(lw + cw + sepw - wid) <= eps) IN
            IF lw + cw > wid /\ c # 10 /\ ~e THEN
                LET b == IF opt.mode = 1 THEN LastInd(line, opt.ind) ELSE 0 IN
                IF b > 0 THEN   \* break at the indicator, which is dropped
                    [st EXCEPT !.i = i - (Len(line) - b), !.line = <<>>, !.w = 0, !.out = Append(@, SubSeq(line, 1, b - 1)),
                               !.sep = -1, !.amb = amb]
                ELSE IF opt.sep # <<>> /\ st.sep > i - Len(line) THEN  \* break in the middle of a word, with separator
                    [st EXCEPT !.i = st.sep, !.line = <<>>, !.w = 0,
                               !.out = Append(@, SubSeq(line, 1, Len(line) - (i - st.sep)) \o opt.sep), !.sep = -1, !.amb = amb]
                ELSE [st EXCEPT !.line = <<>>, !.w = 0, !.out = Append(@, line), !.sep = -1, !.amb = amb]
            ELSE IF c = 10 THEN
                [st EXCEPT !.i = i + 1, !.line = <<>>, !.w = 0, !.out = Append(@, line), !.sep = -1, !.amb = amb]
            ELSE LET l2 == Append(line, c) IN
                [st EXCEPT !.i = i + 1, !.line = l2, !.w = st.w + Grow(i, e), !.out = IF i = n THEN Append(@, l2) ELSE @,
                           !.sep = IF opt.sep # <<>> /\ lw + cw + sepw <= wid THEN i ELSE @, !.amb = amb]
        r == FoldLeft(Step, [i |-> 1, line |-> <<>>, w |-> 0, out |-> <<>>, sep |-> -1, amb |-> FALSE], Times(4 * n + 8)) IN
    [lines |-> r.out, amb |-> r.amb \/ SpAmb(f, cs, fs10), done |-> r.i > n]

(* With a font size that is a multiple of 250 points widths are multiples of a quarter of a point and, in fonts *)
(* of 1000 units, heights too: binary numbers represent them exactly.                                       *)
ExactW(num, den, fs10, cs) == num = 1 /\ den = 1 /\ fs10 % 2500 = 0 /\ cs = 0
ExactH(f, num, den, fs10) == ExactW(num, den, fs10, 0) /\ FontTab[f.fi].upem = 1000

(* Multi-line cells: the lines drawn of a shown text in a cell wid wide and hgt high, whether all fits, the  *)
(* height taken.                                                                                            *)
FitLines(f, t, wid, hgt, lh, fs10, cs, we, he) ==
    LET n == Len(t)
        sp == SpUnits(f, cs, fs10)
        Step(st, i) ==
            IF st.stop THEN st
            ELSE
            LET e == st.line = <<>>
                lw == st.w * fs10 cw == (sp + Adv(f, t[i])) * fs10
                amb == st.amb \/ (~e /\ Abs(lw + cw - wid) <= we) \/ Abs(st.tot + lh - hgt) <= he IN
            IF st.tot + lh > hgt THEN [st EXCEPT !.stop = TRUE, !.fit = FALSE, !.amb = amb]
            ELSE LET full == lw + cw > wid /\ ~e
                     s1 == IF full THEN [st EXCEPT !.lines = Append(@, st.line), !.line = <<>>, !.w = 0, !.tot = @ + lh] ELSE st
                     amb1 == amb \/ (full /\ Abs(s1.tot + lh - hgt) <= he)
                     e1 == s1.line = <<>>
                     room == s1.tot + lh <= hgt
                     s2 == [s1 EXCEPT !.line = Append(@, t[i]), !.amb = amb1,
                                      !.w = @ + sp + Adv(f, t[i]) + (IF e1 THEN 0 ELSE KernUnits(f, t[i-1], t[i]))] IN
                 IF ~room THEN   \* what is left is not drawn
                    [s2 EXCEPT !.stop = TRUE, !.fit = FALSE, !.amb = amb1, !.last = (i = n)]
                 ELSE IF i = n THEN [s2 EXCEPT !.lines = Append(@, s2.line), !.line = <<>>, !.tot = @ + lh] ELSE s2 IN
    FoldLeftDomain(Step, [lines |-> <<>>, line |-> <<>>, w |-> 0, tot |-> 0, stop |-> FALSE, fit |-> TRUE, last |-> FALSE,
                          amb |-> SpAmb(f, cs, fs10)], t)
---------------------------------------------------------------------------
(* What splitting must give whatever the widths are: put together again, the lines give the text.          *)
\* the positions in t reached when ln is taken from position p on, with a separator at its end when broken in a word
TakeLine(t, p, ln, brk) ==
    LET n == Len(t) k == Len(ln) q == Len(brk.sep)
        whole == IF p + k - 1 <= n /\ SubSeq(t, p, p + k - 1) = ln THEN {p + k} ELSE {}
        cut == IF q > 0 /\ k > q /\ SubSeq(ln, k - q + 1, k) = brk.sep /\ p + k - q - 1 < n /\ SubSeq(t, p, p + k - q - 1) = SubSeq(ln, 1, k - q)
               THEN {p + k - q} ELSE {} IN
    whole \cup cut \cup {e + 1 : e \in {e \in whole : e <= n /\ (t[e] = 10 \/ (brk.mode = 1 /\ t[e] = brk.ind))}}
Recombines(t, lines, brk) == Len(t) + 1 \in FoldLeft(LAMBDA S, ln : UNION {TakeLine(t, p, ln, brk) : p \in S}, {1}, lines)
\* no line is wider than asked, except for a single character (and its separator)
LinesFit(f, lines, wid, brk, fs10, cs, eps) ==
    \A i \in 1..Len(lines) : LET ln == lines[i] IN
        Len(ln) <= 1 + Len(brk.sep) \/ Width(f, ShownText(f, ln), fs10, cs) <= wid + eps + (IF SpAmb(f, cs, fs10) THEN Len(ln) * fs10 ELSE 0)
        \* the kerning between the last two characters and before a separator is not looked ahead at
           + 200 * fs10 * (IF f.kern # 0 THEN 1 ELSE 0)
=============================================================================
