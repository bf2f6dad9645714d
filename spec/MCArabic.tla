------------------------------ MODULE MCArabic ------------------------------
(* All texts up to a length over representatives of the classes of characters: what shaping must preserve  *)
(* is checked on the specification, and the texts are printed to be shaped by the real code.                *)
EXTENDS Arabic, TLC, Json, IOUtils
A == JsonDeserialize(IOEnv.ALPHA)
VARIABLE t
Init == t = <<>>
Next == Len(t) < A.depth /\ \E c \in ToSet(A.alpha) : t' = Append(t, c) /\ PrintT("SEQ " \o ToJson(t'))
Spec == Init /\ [][Next]_t

\* which letter a form is of (with the alef of a ligature)
IsForm(c, r) == c \in {r.c, r.iso, r.fin, r.ini, r.med}
Base(c) == IF \E i \in 1..Len(LamAlefs) : c \in {LamAlefs[i].iso, LamAlefs[i].fin}
           THEN <<Lam, LamAlefs[CHOOSE i \in 1..Len(LamAlefs) : c \in {LamAlefs[i].iso, LamAlefs[i].fin}].c>>
           ELSE IF c = AllahSign THEN AllahWord
           ELSE IF \E i \in 1..Len(Letters) : IsForm(c, Letters[i])
           THEN <<Letters[CHOOSE i \in 1..Len(Letters) : IsForm(c, Letters[i])].c>> ELSE <<c>>
NoMarks(s) == SelectSeq(s, LAMBDA c : c \notin Marks)
\* no form belongs to two letters
TableOK == \A i, j \in 1..Len(Letters) : i # j => ({Letters[i].c, Letters[i].iso, Letters[i].fin, Letters[i].ini, Letters[i].med} \cap {Letters[j].c, Letters[j].iso, Letters[j].fin, Letters[j].ini, Letters[j].med}) = {}
\* shaping keeps the letters in order
Keeps == FlattenSeq([i \in 1..Len(Read(ShapeOf(t)).g) |-> Base(Read(ShapeOf(t)).g[i].c)]) = NoMarks(t)
Right == ShapeBad(t, ShapeOf(t)) = <<>>
\* a letter reaches out to the next exactly when the next reaches back
Mutual == LET r == Read(ShapeOf(t)).g e == Groups(t).g
              Out(i) == e[i].c \in Codes /\ (LetterOf[e[i].c].j = "C" \/ (LetterOf[e[i].c].j = "D" /\ r[i].c \in {LetterOf[e[i].c].ini, LetterOf[e[i].c].med}))
              Back(i) == e[i].c \in Codes /\ (LetterOf[e[i].c].j = "C" \/ r[i].c = (IF e[i].lig # 0 THEN LigOf[e[i].lig].fin ELSE LetterOf[e[i].c].fin)
                                              \/ (LetterOf[e[i].c].j = "D" /\ r[i].c = LetterOf[e[i].c].med)) IN
          \A i \in 1..Len(e) - 1 : LetterOf[1600].j = "C" /\
              ((e[i].c # 1600 /\ e[i+1].c # 1600 /\ e[i].lig = 0 /\ e[i+1].c # 1569) => (Out(i) <=> Back(i+1)))
\* turning a text without Arabic round
Plain == (\A i \in 1..Len(t) : t[i] \notin Codes \cup Marks) => ShapeOf(t) = Reverse(t)
Inv == Keeps /\ Right /\ Mutual /\ Plain
ASSUME TableOK
=============================================================================
