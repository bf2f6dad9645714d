------------------------------- MODULE Facts -------------------------------
(* What the source files hold: fonts, images and pages of PDF files, read by the independent readers *)
(* of the harness.                                                                                     *)
EXTENDS Arith, SequencesExt, FiniteSets, TLC, Json, IOUtils

FactsRec == ndJsonDeserialize(IOEnv.FACTS)[1]

Lookup(seq, F(_)) == LET S == {seq[i] : i \in 1..Len(seq)} IN
                     [c \in {e[1] : e \in S} |-> F(CHOOSE e \in S : e[1] = c)]
PrepFontFacts(f) ==
    LET Same(e) == IF e[2] = 0 THEN {} ELSE {f.chars[i][1] : i \in {j \in 1..Len(f.chars) : f.chars[j][2] = e[2]}}
        G(e) == [g |-> e[2], w |-> Trunc(e[3] * 1000, f.upem), a |-> e[3], h |-> e[4], us |-> Same(e)]
        V(e) == e[2]
        K(e) == Lookup(e[2], V) IN
    [name |-> f.name, upem |-> f.upem, asc |-> f.asc, desc |-> f.desc, hasc |-> f.hasc, hdesc |-> f.hdesc,
     fd |-> f.fd, progs |-> f.progs, upos |-> f.upos, uth |-> f.uth, ch |-> Lookup(f.chars, G), kern |-> Lookup(f.kern, K)]
FontTab == [i \in 1..Len(FactsRec.fonts) |-> PrepFontFacts(FactsRec.fonts[i])]
FontNo(name) == LET S == {i \in 1..Len(FontTab) : FontTab[i].name = name} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
ImgTab == FactsRec.images
ImgNo(name) == LET S == {i \in 1..Len(ImgTab) : ImgTab[i].name = name} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
PdfTab == FactsRec.pdfs
PdfNo(name) == LET S == {i \in 1..Len(PdfTab) : PdfTab[i].name = name} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

\* the glyph a font has for a character, 0 if none
GidOf(fi, c) == IF c \in DOMAIN FontTab[fi].ch THEN FontTab[fi].ch[c].g ELSE 0
GlyphOf(fi, c) == IF c \in DOMAIN FontTab[fi].ch THEN FontTab[fi].ch[c] ELSE FontTab[fi].ch[-1]
KernOf(fi, l, r) == LET k == FontTab[fi].kern IN
                    IF l \in DOMAIN k /\ r \in DOMAIN k[l] THEN k[l][r] ELSE 0
=============================================================================
