------------------------------- MODULE MCText -------------------------------
(* Every text up to a length over a few characters, against widths, heights and ways of breaking (file      *)
(* ALPHA: chars, depth, font, fs10, widths, heights, brks): what the property asks of splitting, fitting    *)
(* and measuring is checked on the definitions of module Text; the texts are printed and replayed.          *)
EXTENDS Text
A == JsonDeserialize(IOEnv.ALPHA)
F(k) == [fam |-> "f", fi |-> FontNo(A.font), sty |-> 0, kern |-> k, cb |-> 1, subst |-> 63, ov |-> <<>>, zero |-> {}]
VARIABLE t
Init == t = <<>>
Next == Len(t) < A.depth /\ \E c \in ToSet(A.chars) : t' = Append(t, c) /\ PrintT("SEQ " \o ToJson(t'))
Spec == Init /\ [][Next]_t

Ks == {0, 1}
WE == IF ExactW(1, 1, A.fs10, 0) THEN -1 ELSE 3
HE == IF ExactH(F(0), 1, 1, A.fs10) THEN -1 ELSE 3
Splits == \A k \in Ks, w \in ToSet(A.widths), b \in ToSet(A.brks) :
    LET r == SplitText(F(k), t, w, b, A.fs10, 0, WE)
        OutOf(ln) == b.mode = 1 /\ \E i \in 2..Len(ln) : ln[i] = b.ind IN
    /\ r.done
    /\ (t # <<>> => Recombines(t, r.lines, b))
    /\ LinesFit(F(k), r.lines, w, b, A.fs10, 0, 0)
    \* no line of nothing but what follows a newline
    /\ \A i \in 1..Len(r.lines) : r.lines[i] = <<>> => (\E j \in 1..Len(t) : t[j] = 10)
    \* a line is broken within a word only when it holds no indicator to break at
    /\ (b.sep = <<>> /\ ~(\E j \in 1..Len(t) : t[j] = 10) /\ b.mode = 1)
       => \A i \in 1..Len(r.lines) - 1 :
            LET p == Len(FlattenSeq(SubSeq(r.lines, 1, i))) IN OutOf(r.lines[i]) => \E e \in 1..Len(t) : e > p /\ t[e] = b.ind
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Fits == \A k \in Ks, w \in ToSet(A.widths), h \in ToSet(A.heights) :
    LET s == ShownText(F(k), t)
        lh == LineH(F(k), A.fs10)
        r == FitLines(F(k), s, w, h, lh, A.fs10, 0, WE, HE)
        drawn == FlattenSeq(r.lines) IN
    r.amb \/
    /\ Prefix(drawn, s)
    /\ (r.fit <=> drawn = s)
    /\ (r.fit => r.tot = Len(r.lines) * lh)
    /\ Len(r.lines) * lh <= h \/ r.lines = <<>>
    /\ LinesFit(F(k), r.lines, w, [mode |-> 0, ind |-> 0, sep |-> <<>>], A.fs10, 0, 0)
    \* more height never draws less
    /\ \A h2 \in ToSet(A.heights) : h2 >= h => LET r2 == FitLines(F(k), s, w, h2, lh, A.fs10, 0, WE, HE) IN r2.amb \/ (Prefix(drawn, FlattenSeq(r2.lines)) /\ (r.fit => r2.fit))
\* C15: width is additive: a text is as wide as its parts, with the kerning between them
Measures == \A k \in Ks, i \in 0..Len(t) :
    LET s == ShownText(F(k), t) a == SubSeq(s, 1, i) b == SubSeq(s, i + 1, Len(s)) IN
    Units(F(k), s, 7) = Units(F(k), a, 7) + Units(F(k), b, 7) + (IF i \in 1..Len(s) - 1 THEN KernUnits(F(k), s[i], s[i+1]) ELSE 0)
    /\ (Len(s) > 0 => LET o == Offsets(F(k), s, 7) IN o.w = Units(F(k), s, 7) /\ o.off[1] = 0)
Inv == Splits /\ Fits /\ Measures
=============================================================================
