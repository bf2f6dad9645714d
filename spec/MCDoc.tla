------------------------------- MODULE MCDoc -------------------------------
(* Explores every sequence of calls over a small alphabet (file ALPHA: prefix, alpha, depth) on the        *)
(* document model, checks what must hold of every step and state, and prints the complete sequences so     *)
(* that they are replayed on the real code.                                                               *)
EXTENDS GoPdfDoc

A == JsonDeserialize(IOEnv.ALPHA)
VARIABLES d, r, hist

\* calls a caller may make in this state (the others are outside the contract of the library)
Open(dd) == IF dd.cur = 0 THEN <<>>
            ELSE FoldLeft(LAMBDA s, it : CASE it.k = "rot" -> Append(s, "RotateReset") [] it.k = "save" -> Append(s, "Restore")
                                           [] it.k = "unsave" -> IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1) [] OTHER -> s,
                          <<>>, dd.pages[dd.cur].items)
PageOps == {"AddPage", "AddPageOpt", "SetPage", "SetNewY", "SetNewYIfNoOffset", "SetNewXY", "ImportAll"}
Textual == {"Text", "Cell", "CellOpt", "MultiCell", "MultiCellOpt", "IsFit", "IsFitNL", "Split", "Measure", "MeasureH", "Placeholder", "Table", "FillPlaceholder"}
Drawing == {"Line", "Rect", "Oval", "Curve", "Polygon", "ClipPolygon", "Rectangle", "SetLineWidth", "SetLineType", "SetCustomLineType", "SetGrayFill",
            "SetGrayStroke", "SetStrokeColor", "SetFillColor", "SetStrokeColorCMYK", "SetFillColorCMYK", "Rotate", "RotateReset", "Save", "Restore",
            "Image", "ImageOpt", "SetCS", "ExtLink", "IntLink", "SetAnchor", "Outline", "OutlinePos", "UseTemplate"} \cup Textual
Allowed(dd, o) ==
    /\ ~dd.skip
    /\ o.op \in Drawing => dd.cur > 0
    /\ o.op \in Textual => dd.cf > 0
    /\ o.op \in {"RotateReset", "Restore"} => LET s == Open(dd) IN s # <<>> /\ s[Len(s)] = o.op
    /\ o.op \in PageOps => Open(dd) = <<>>
    /\ o.op \in {"SetNewY", "SetNewYIfNoOffset", "SetNewXY"} => dd.cur > 0
    /\ o.op = "UseTemplate" => o.t <= Len(dd.tpls)
    /\ o.op = "OutlineTree" => dd.outl # <<>> /\ Len(dd.outl) = Len(o.parent) /\ \A i \in 1..Len(dd.outl) : dd.outl[i].pos = "OutlinePos"
    /\ (o.op = "OutlinePos" => ~\E i \in 1..Len(dd.outl) : dd.outl[i].pos = "Outline")

Init == /\ d = RunOps(NewDoc(A.prefix[1]), <<>>, Tail(A.prefix)) /\ r = Ok(NewDoc(A.prefix[1])) /\ hist = <<>>
Next == /\ Len(hist) < A.depth
        /\ \E i \in 1..Len(A.alpha) :
             /\ Allowed(d, A.alpha[i])
             /\ LET s == Step(d, <<>>, A.alpha[i]) IN d' = s.d /\ r' = [s EXCEPT !.d = NoDoc]
             /\ hist' = Append(hist, i)
             /\ Len(hist') < A.print \/ Len(hist') > A.print \/ PrintT("SEQ " \o ToJson(hist'))
vars == <<d, r, hist>>
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* the call made last
Call == A.alpha[hist'[Len(hist')]]
N(dd) == Len(dd.pages)

\* C18: a failing call changes nothing
FailKeeps == r'.err = 1 => d' = d
\* C02: pages are only added, at the end, and keep their size
PagesGrow == /\ N(d') >= N(d) /\ (N(d') > N(d) => Call.op \in PageOps)
             /\ \A i \in 1..N(d) : d'.pages[i].size = d.pages[i].size /\ d'.pages[i].trim = d.pages[i].trim
\* C03: only the current page is drawn on, by appending (a text may continue the last one)
OnlyCurrent == Call.op # "FillPlaceholder" => \A i \in 1..N(d) : (i # d.cur \/ Call.op \in PageOps) => d'.pages[i] = d.pages[i]
Appends ==
    (Call.op # "FillPlaceholder" /\ d.cur > 0) =>
    LET a == d.pages[d.cur].items b == d'.pages[d.cur].items n == Len(a) IN
    /\ Len(b) >= n
    /\ \A i \in 1..n : b[i] = a[i] \/ (i = n /\ a[n].k = "text" /\ b[n].k = "text" /\ Len(b[n].t) > Len(a[n].t)
                                       /\ SubSeq(b[n].t, 1, Len(a[n].t)) = a[n].t /\ [b[n] EXCEPT !.t = a[n].t] = a[n])
\* C09: the calls that move the writing position
Movers == {"SetX", "SetY", "SetXY", "Br", "Text", "Cell", "CellOpt", "MultiCell", "MultiCellOpt", "Placeholder", "Table"} \cup (PageOps \ {"SetPage"})
Moves == (d'.x # d.x \/ d'.y # d.y) => Call.op \in Movers
AddHome == Call.op \in {"AddPage", "AddPageOpt"} => d'.x = d'.l /\ d'.y = d'.t
\* C10: the page break helpers add one page, exactly when the element would cross the bottom margin
Breaks == Call.op \in {"SetNewY", "SetNewXY"} /\ ~d'.skip =>
          LET out == d.y + U(d, Call.h) > H(d) - d.b IN
          /\ N(d') = N(d) + (IF out THEN 1 ELSE 0)
          /\ d'.y = IF out THEN d.t ELSE U(d, Call.y)
\* C14: fonts are only added, the selection changes only by selecting
FontsGrow == /\ Len(d'.fonts) >= Len(d.fonts)
             /\ \A i \in 1..Len(d.fonts) : d'.fonts[i].fam = d.fonts[i].fam /\ d'.fonts[i].fi = d.fonts[i].fi /\ d'.fonts[i].sty = d.fonts[i].sty
             /\ (d'.cf # d.cf => Call.op \in {"SetFont", "Table"}) /\ (d'.cs # d.cs => Call.op = "SetCharSpacing")
             /\ (d'.tcol # d.tcol => Call.op \in {"SetTextColor", "SetTextColorCMYK", "SetGrayFill", "Table"})
\* C22: entries are never lost
OutlineGrows == IF Call.op = "OutlineTree" THEN Len(d'.outl) = Len(d.outl) /\ {<<d'.outl[i].t, d'.outl[i].page, d'.outl[i].y>> : i \in 1..Len(d.outl)} = {<<d.outl[i].t, d.outl[i].page, d.outl[i].y>> : i \in 1..Len(d.outl)}
                ELSE Len(d'.outl) >= Len(d.outl) /\ \A i \in 1..Len(d.outl) : d'.outl[i] = d.outl[i]
\* C26: a colour space keeps its definition
SpacesGrow == Len(d'.spaces) >= Len(d.spaces) /\ SubSeq(d'.spaces, 1, Len(d.spaces)) = d.spaces
Actions == [][FailKeeps /\ PagesGrow /\ OnlyCurrent /\ Appends /\ Moves /\ AddHome /\ Breaks /\ FontsGrow /\ OutlineGrows /\ SpacesGrow]_vars

\* what the pages show: C06: the marks of a page depend on no other page, and never more scopes are closed than opened;
\* C19: all is opaque where no transparency was asked for; C07/C03: what was drawn stays
Opaque(m) == m.ca = 100000 /\ m.bm = "Normal"
Shows ==
    \A p \in 1..N(d) :
       LET m == Render(d.pages[p].items) IN
       /\ m.under = 0
       /\ (\A i \in 1..Len(d.pages[p].items) : LET it == d.pages[p].items[i] IN it.k \in {"path", "text"} => it.tr = <<>>)
          => \A i \in 1..Len(m.marks) : m.marks[i].k \in {"path", "glyph"} => Opaque(m.marks[i])
\* C25: cutting a text changes neither the glyphs nor the end position
Words == IF "words" \in DOMAIN A THEN A.words ELSE <<>>
Pieces ==
    (d.cur > 0 /\ d.cf > 0 /\ ~d.skip) =>
    \A i, j \in 1..Len(Words) :
       LET whole == PutText(d, "T", Words[i] \o Words[j], <<>>, PlainLook, <<>>).d
           cut == PutText(PutText(d, "T", Words[i], <<>>, PlainLook, <<>>).d, "T", Words[j], <<>>, PlainLook, <<>>).d IN
       Near(whole.x, cut.x, 2) /\ whole.y = cut.y /\ Render(whole.pages[d.cur].items).marks = Render(cut.pages[d.cur].items).marks
States == Shows /\ Pieces
=============================================================================
