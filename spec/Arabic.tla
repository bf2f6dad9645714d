------------------------------- MODULE Arabic -------------------------------
(* What the shaping of Arabic text must give: every letter in the form its joining with its neighbours     *)
(* asks for, marks kept with their letters, everything in display (reversed) order.                        *)
EXTENDS ArabicTable, Integers, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Marks == (1611..1624) \cup {1648}
\* vowel and shadda in one character
ShaddaWith == (64606 :> 1612) @@ (64607 :> 1613) @@ (64608 :> 1614) @@ (64609 :> 1615) @@ (64610 :> 1616) @@ (64611 :> 1648)
Shadda == 1617
Lam == 1604
\* the name of God is written with one character
AllahWord == <<1575, 1604, 1604, 1607>>
AllahSign == 65010

Codes == {Letters[i].c : i \in 1..Len(Letters)}
Row(c) == Letters[CHOOSE i \in 1..Len(Letters) : Letters[i].c = c]
LetterOf == [c \in Codes |-> Row(c)]
LigOf == [c \in {LamAlefs[i].c : i \in 1..Len(LamAlefs)} |-> LamAlefs[CHOOSE i \in 1..Len(LamAlefs) : LamAlefs[i].c = c]]

Folded(t) == FoldLeftDomain(LAMBDA s, i : IF s.skip > 0 THEN [s EXCEPT !.skip = @ - 1]
                                          ELSE IF i + 3 <= Len(t) /\ SubSeq(t, i, i + 3) = AllahWord THEN [t |-> Append(s.t, AllahSign), skip |-> 3]
                                          ELSE [s EXCEPT !.t = Append(@, t[i])], [t |-> <<>>, skip |-> 0], t).t

\* characters with the marks on them: [c, lig (the alef joined to a lam, or 0), m]; lead: marks before any character
Groups(t) ==
    FoldLeft(LAMBDA s, c :
        LET n == Len(s.g) IN
        IF c \in Marks THEN IF n = 0 THEN [s EXCEPT !.lead = Append(@, c)] ELSE [s EXCEPT !.g[n].m = Append(@, c)]
        ELSE IF n > 0 /\ c \in DOMAIN LigOf /\ s.g[n].c = Lam /\ s.g[n].lig = 0 THEN [s EXCEPT !.g[n].lig = c]
        ELSE [s EXCEPT !.g = Append(@, [c |-> c, lig |-> 0, m |-> <<>>])], [g |-> <<>>, lead |-> <<>>], Folded(t))

JoinsNext(g) == g.lig = 0 /\ g.c \in Codes /\ LetterOf[g.c].j \in {"D", "C"}
JoinsPrev(g) == g.c \in Codes /\ LetterOf[g.c].j \in {"D", "R", "C"}
\* the characters that may stand for group i
FormsOf(gs, i) ==
    LET g == gs[i]
        p == i > 1 /\ JoinsNext(gs[i-1]) /\ JoinsPrev(g)
        q == i < Len(gs) /\ JoinsNext(g) /\ JoinsPrev(gs[i+1]) IN
    IF g.c \notin Codes THEN {g.c}
    ELSE IF g.lig # 0 THEN IF p THEN {LigOf[g.lig].fin} ELSE {LigOf[g.lig].iso}
    ELSE LET r == LetterOf[g.c] IN
         IF p /\ q THEN {r.med} ELSE IF q THEN {r.ini} ELSE IF p THEN {r.fin} ELSE {r.iso, r.c}

\* marks as a set of <<mark, how often>>
Times(ms) == LET s == FoldLeft(LAMBDA a, c : IF c \in DOMAIN ShaddaWith THEN a \o <<ShaddaWith[c], Shadda>> ELSE Append(a, c), <<>>, ms) IN
             {<<c, Cardinality({i \in 1..Len(s) : s[i] = c})>> : c \in {s[i] : i \in 1..Len(s)}}
\* the shaped text, back in reading order: each character is preceded by its marks
Read(o) ==
    LET r == FoldLeft(LAMBDA s, c : IF c \in Marks \/ c \in DOMAIN ShaddaWith THEN [s EXCEPT !.m = Append(@, c)]
                                    ELSE [g |-> Append(s.g, [c |-> c, m |-> s.m]), m |-> <<>>], [g |-> <<>>, m |-> <<>>], o) IN
    [g |-> Reverse(r.g), lead |-> r.m]

\* "" if o is the shaping of t, else what is wrong
ShapeBad(t, o) ==
    LET e == Groups(t) r == Read(o) IN
    IF Len(r.g) # Len(e.g) THEN <<"letters", Len(e.g), Len(r.g)>>
    ELSE IF \E i \in 1..Len(e.g) : r.g[i].c \notin FormsOf(e.g, i)
         THEN LET i == CHOOSE i \in 1..Len(e.g) : r.g[i].c \notin FormsOf(e.g, i) IN <<"form", i, FormsOf(e.g, i), r.g[i].c>>
    ELSE IF Times(r.lead) # Times(e.lead) \/ \E i \in 1..Len(e.g) : Times(r.g[i].m) # Times(e.g[i].m) THEN <<"marks", e.lead, r.lead>>
    ELSE <<>>
\* one right answer
ShapeOf(t) == LET e == Groups(t) n == Len(e.g) IN
              FlattenSeq([i \in 1..n |-> Append(e.g[n + 1 - i].m, CHOOSE c \in FormsOf(e.g, n + 1 - i) : TRUE)]) \o e.lead
=============================================================================
