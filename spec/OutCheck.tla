------------------------------ MODULE OutCheck ------------------------------
(* Judges one produced file (as read by the independent reader of the harness) against the document      *)
(* built so far.  Judge(d, o) is a set of findings <<aspect, description>>.                               *)
EXTENDS GoPdfDoc

F(cond, asp, det) == IF cond THEN {<<asp, ToString(det)>>} ELSE {}
T4(a) == Rnd(a, 10)

---------------------------------------------------------------------------
\* C01: the file as such
KindsFor(ctx) ==
    CASE ctx = "Pages" -> {"Pages"} [] ctx = "Kids" -> {"Page", "Pages"}
      [] ctx = "Outlines" -> {"Outlines"} [] ctx \in {"First", "Last", "Next", "Prev"} -> {"OutlineItem"}
      [] ctx = "Resources" -> {"Resources", "dict"} [] ctx = "Contents" -> {"stream"} [] ctx = "Annots" -> {"Annot"}
      [] ctx = "in:Font" -> {"Font/Type0", "Font/TrueType", "Font/Type1"} [] ctx = "DescendantFonts" -> {"Font/CIDFontType2"}
      [] ctx = "FontDescriptor" -> {"FontDescriptor"} [] ctx \in {"FontFile", "FontFile2", "FontFile3", "ToUnicode"} -> {"stream"}
      [] ctx = "in:XObject" -> {"XObject/Image", "XObject/Form"} [] ctx = "in:ExtGState" -> {"ExtGState"}
      [] ctx = "in:ColorSpace" -> {"array/Separation", "array/ICCBased", "array/Indexed", "array/CalRGB"}
      [] ctx = "G" -> {"XObject/Form"} [] ctx = "Dest" -> {"Page"}
      [] OTHER -> {}
KindOk(ctx, src, k) ==
    CASE ctx = "Parent" -> IF src = "Page" THEN k = "Pages" ELSE IF src = "OutlineItem" THEN k \in {"Outlines", "OutlineItem"} ELSE TRUE
      [] ctx = "SMask" -> IF src = "XObject/Image" THEN k = "XObject/Image" ELSE k = "Mask"
      [] OTHER -> KindsFor(ctx) = {} \/ k \in KindsFor(ctx)
FileBad(o) ==
    LET ids == [i \in 1..Len(o.objs) |-> o.objs[i].id]
        IdSet == {ids[i] : i \in 1..Len(ids)}
        ob == [i \in IdSet |-> o.objs[CHOOSE j \in 1..Len(ids) : ids[j] = i]]
        n == Len(o.ents) IN
    F(o.bad # <<>>, "file", o.bad)
    \cup F(o.sx # o.xpos \/ o.hdr # 1, "file", <<"startxref", o.sx, o.xpos>>)
    \cup F(n = 0 \/ o.trailer.size # n, "file", <<"size", o.trailer.size, n>>)
    \cup F(\E i \in 1..n : o.ents[i][1] # i - 1, "file", <<"entries not numbered", n>>)
    \cup F(n > 0 /\ o.ents[1][2] # 0, "file", <<"first entry", 0>>)
    \cup LET b == {i \in 2..n : o.ents[i][2] # 1 \/ o.ents[i][4] # i - 1} IN F(b # {}, "file", <<"offset of", b>>)
    \cup F(Cardinality(IdSet) # Len(ids), "file", <<"objects listed twice", Len(ids)>>)
    \cup LET b2 == {i \in 1..Len(ids) : o.objs[i].decl # o.objs[i].act \/ o.objs[i].ended # 1} IN
         F(b2 # {}, "file", <<"stream length or end of objects", {ids[i] : i \in b2}>>)
    \cup F(o.trailer.root \notin IdSet \/ (o.trailer.root \in IdSet /\ ob[o.trailer.root].k # "Catalog"), "refs", <<"root", o.trailer.root>>)
    \cup LET b3 == {<<i, e>> \in UNION {{<<i, e>> : e \in 1..Len(o.objs[i].refs)} : i \in 1..Len(ids)} :
                     LET r == o.objs[i].refs[e] IN r[2] \notin IdSet \/ ~KindOk(r[1], o.objs[i].k, ob[r[2]].k)} IN
         F(b3 # {}, "refs", {<<ids[x[1]], o.objs[x[1]].k, o.objs[x[1]].refs[x[2]],
                            IF o.objs[x[1]].refs[x[2]][2] \in IdSet THEN ob[o.objs[x[1]].refs[x[2]][2]].k ELSE "missing">> : x \in b3})

---------------------------------------------------------------------------
\* C02: the page tree
NearBox(a, b, tol) == Len(a) = 4 /\ Len(b) = 4 /\ \A i \in 1..4 : Near(a[i], b[i], tol)
Box(a) == [i \in 1..Len(a) |-> T4(a[i])]
TreeBad(d, o) ==
    LET n == Len(d.pages) kids == o.tree.kids IN
    F(Len(kids) # n \/ o.tree.count # n \/ Len(o.pages) # n, "tree", <<n, o.tree.count, kids>>)
    \cup F(Cardinality({kids[i] : i \in 1..Len(kids)}) # Len(kids), "tree", kids)
    \cup UNION {LET p == o.pages[i] e == d.pages[i] IN
            F(p.id # kids[i] \/ p.type # "Page" \/ p.parent # o.cat.pages, "tree", <<i, p.id, p.type, p.parent>>)
            \cup F(~NearBox(Box(IF p.media = <<>> THEN o.tree.media ELSE p.media), <<0, 0, e.size[1], e.size[2]>>, 60), "size", <<i, p.media, o.tree.media, e.size>>)
            \cup F(IF e.trim = <<>> THEN p.trim # <<>> ELSE ~NearBox(Box(p.trim), e.trim, 60), "trim", <<i, p.trim, e.trim>>)
            : i \in 1..Min2(Min2(n, Len(kids)), Len(o.pages))}
    \* the pages come in the order they were written: ascending object numbers need not hold, the content decides

---------------------------------------------------------------------------
\* C21: links
NormRect(r) == <<Min2(r[1], r[3]), Min2(r[2], r[4]), Max2(r[1], r[3]), Max2(r[2], r[4])>>
LinkBad(d, o, i) ==
    LET es == d.pages[i].links os == o.pages[i].annots IN
    IF Len(es) # Len(os) THEN F(TRUE, "links", <<i, "links", Len(es), Len(os)>>)
    ELSE UNION {LET e == es[k] a == os[k] IN
        F(a.sub # "Link" \/ Len(a.rect) # 4, "links", <<i, k, a.sub, a.rect>>)
        \cup (IF Len(a.rect) # 4 THEN {} ELSE F(~NearBox(NormRect(Box(a.rect)), NormRect(e.rect), 75), "linkrect", <<i, k, a.rect, e.rect>>))
        \cup (IF e.kind = "ExtLink" THEN F(a.kind # "uri" \/ a.uri # e.url, "linkdest", <<i, k, a.kind, a.uri, e.url>>)
              ELSE LET n == AnchorOf(d, e.name) IN
                   IF n = 0 THEN F(a.kind # "none", "linkdest", <<i, k, a.kind, "no anchor">>)
                   ELSE LET an == d.anchors[n] IN
                        F(a.kind # "dest" \/ an.page > Len(o.pages), "linkdest", <<i, k, a.kind>>)
                        \cup (IF a.kind # "dest" \/ an.page > Len(o.pages) THEN {}
                              ELSE F(a.dpage # o.pages[an.page].id \/ a.dkind # "XYZ" \/ Len(a.dnum) < 2, "linkdest", <<i, k, a.dpage, a.dkind, a.dnum>>)
                                   \cup (IF Len(a.dnum) < 2 THEN {} ELSE F(~Near(T4(a.dnum[2]), an.y, 75), "linkdest", <<i, k, a.dnum, an.y>>))))
        : k \in 1..Len(es)}

---------------------------------------------------------------------------
\* C22: outlines
OutlBad(d, o) ==
    LET n == Len(d.outl)
        its == o.oitems
        ById == [id \in {its[i].id : i \in 1..Len(its)} |-> its[CHOOSE i \in 1..Len(its) : its[i].id = id]]
        Kids(p) == SelectSeq(Times(n), LAMBDA i : d.outl[i].par = p)
        \* the chain of items starting at id, at most n + 1 long
        Chain(id) == FoldLeft(LAMBDA st, k : IF st.id = 0 \/ st.id \notin DOMAIN ById THEN st
                                             ELSE [c |-> Append(st.c, st.id), id |-> ById[st.id].next],
                              [c |-> <<>>, id |-> id], Times(n + 1))
        \* checks the children of entry p shown under item id with the references first and last
        Node(st, w) ==   \* w: [p, id, first, last]
            LET ks == Kids(w.p) ch == Chain(w.first) c == ch.c m == Min2(Len(ks), Len(c)) IN
            [bad |-> st.bad
               \cup F(ch.id # 0 \/ Len(c) # Len(ks), "outline", <<"entries under", w.p, Len(ks), c>>)
               \cup F(IF ks = <<>> THEN w.first # 0 \/ w.last # 0 ELSE (Len(c) = 0 \/ w.last # c[Len(c)]), "outline", <<"last of", w.p, w.last, c>>)
               \cup UNION {LET it == ById[c[i]] e == d.outl[ks[i]] IN
                     F(it.title # e.t, "otitle", <<ks[i], it.title, e.t>>)
                     \cup F(it.parent # w.id, "outline", <<"parent of", ks[i], it.parent, w.id>>)
                     \cup F(it.prev # (IF i = 1 THEN 0 ELSE c[i-1]), "outline", <<"previous of", ks[i], it.prev>>)
                     \cup (IF e.page = 0 THEN F(it.dkind # "" \/ it.dpage # 0, "odest", <<ks[i], it.dkind, it.dpage, "no page">>) ELSE
                     F(e.page > Len(o.pages) \/ (e.page <= Len(o.pages) /\ it.dpage # o.pages[e.page].id), "odest", <<ks[i], it.dpage>>)
                     \cup F(it.dkind # "XYZ" \/ Len(it.dnum) < 2, "odest", <<ks[i], it.dkind, it.dnum>>)
                     \cup (IF Len(it.dnum) < 2 \/ e.pos # "OutlinePos" THEN {} ELSE F(~Near(T4(it.dnum[2]), e.y, 75), "odest", <<ks[i], it.dnum, e.y>>)))
                     : i \in 1..m},
             todo |-> st.todo \o [i \in 1..m |-> [p |-> ks[i], id |-> c[i], first |-> ById[c[i]].first, last |-> ById[c[i]].last]]]
        Visit(st, k) == IF k > Len(st.todo) THEN st ELSE Node(st, st.todo[k]) IN
    F(Len(its) # n, "outline", <<"entries", n, Len(its)>>)
    \cup (IF n = 0 THEN {} ELSE
          F(o.oroot.id = 0 \/ o.oroot.count # n, "outline", o.oroot)
          \cup FoldLeft(Visit, [bad |-> {}, todo |-> <<[p |-> 0, id |-> o.oroot.id, first |-> o.oroot.first, last |-> o.oroot.last]>>], Times(n + 1)).bad)

---------------------------------------------------------------------------
\* C32: information
Dig(v, n) == LET P(k) == (v \div (IF k = 4 THEN 1000 ELSE IF k = 3 THEN 100 ELSE IF k = 2 THEN 10 ELSE 1)) % 10 IN
             IF n = 4 THEN ToString(P(4)) \o ToString(P(3)) \o ToString(P(2)) \o ToString(P(1)) ELSE ToString(P(2)) \o ToString(P(1))
DateStr(a) == "D:" \o Dig(a[1], 4) \o Dig(a[2], 2) \o Dig(a[3], 2) \o Dig(a[4], 2) \o Dig(a[5], 2) \o Dig(a[6], 2)
              \o (IF a[7] < 0 THEN "-" ELSE "+") \o Dig(Abs(a[7]) \div 60, 2) \o "'" \o Dig(Abs(a[7]) % 60, 2) \o "'"
InfoBad(d, o) ==
    IF d.info = <<>> THEN F(o.hasinfo # 0, "info", o.info)
    ELSE LET f == d.info[1]
             pairs == << <<"Title", f.title>>, <<"Author", f.author>>, <<"Subject", f.subject>>, <<"Creator", f.creator>>, <<"Producer", f.producer>> >>
             exp == {<<pairs[i][1], pairs[i][2], "">> : i \in {k \in 1..5 : pairs[k][2] # <<>>}}
                    \cup (IF f.date = <<>> THEN {} ELSE {<<"CreationDate", <<>>, DateStr(f.date)>>})
             got == {<<o.info[i][1], o.info[i][2], o.info[i][3]>> : i \in 1..Len(o.info)} IN
         F(o.hasinfo # 1 \/ exp # got \/ Len(o.info) # Cardinality(exp), "info", <<exp, o.info>>)

---------------------------------------------------------------------------
\* C16: protection
ProtBad(d, o) ==
    IF d.prot = 0 THEN F(o.prot # 0, "prot", o.encr)
    ELSE IF o.prot = 0 THEN {<<"prot", "not protected">>}
    ELSE F(o.encr.filter # "Standard" \/ o.encr.v # 1 \/ o.encr.r # 2, "prot", o.encr)
         \cup F(o.encr.p # d.perm - 64, "perm", <<o.encr.p, d.perm>>)
         \cup F(o.encr.opened # 1 \/ o.auth.user # 1, "auth", o.auth)
         \cup (IF d.owner = <<>> THEN {} ELSE F(o.auth.owner # 1 \/ o.auth.same # 1, "auth", o.auth))
         \cup F(o.auth.empty # (IF d.user = <<>> THEN 1 ELSE 0), "auth", o.auth)
         \cup F(o.leak # <<>>, "leak", o.leak)

---------------------------------------------------------------------------
\* the content of the pages
Imgs(its) == SelectSeq(its, LAMBDA i : i.k = "img")
ResOf(o, id) == LET S == {i \in 1..Len(o.rs) : o.rs[i].id = id} IN
                IF S = {} THEN [fonts |-> <<>>, xo |-> <<>>, gs |-> <<>>, cs |-> <<>>, grps |-> <<>>] ELSE o.rs[CHOOSE i \in S : TRUE]
PageBad(d, o, i, R) ==   \* [bad, n, ids]
    LET e == Render(d.pages[i].items)
        p == o.pages[i]
        g == Image(p.ops, R[p.res], M0)
        c == Compare(e.marks, g.marks) IN
    [bad |-> {<<"marks:" \o a, ToString(i) \o ": " \o c.det>> : a \in c.asps}
             \cup F(g.bad # <<>>, "ops", <<i, g.bad>>)
             \cup F(e.under = 0 /\ (g.under # 0 \/ Len(g.stack) # Len(e.stack)), "balance", <<i, e.under, Len(e.stack), g.under, Len(g.stack)>>)
             \cup (IF p.ncont = 0 THEN {} ELSE F(IF d.comp = 0 THEN p.flate # 0 \/ p.stored = 0 ELSE p.stored # 0, "stored", <<i, d.comp, p.stored, p.flate>>)),
     n |-> c.n, ids |-> c.ids]

\* findings, number of marks compared
Judge(d, o) ==
    LET n == Min2(Len(d.pages), Len(o.pages))
        resids == {o.pages[i].res : i \in 1..n}
        R == [id \in resids |-> PrepRes(ResOf(o, id))]
        P == [i \in 1..n |-> PageBad(d, o, i, R)]
        ids == UNION {P[i].ids : i \in 1..n}
        twice == {x \in ids : \E y \in ids : x[1] = y[1] /\ x[2] # y[2]}
        forms == \E i \in 1..n : \E k \in 1..Len(d.pages[i].items) : d.pages[i].items[k].k = "form" IN
    [bad |-> FileBad(o) \cup TreeBad(d, o) \cup OutlBad(d, o) \cup InfoBad(d, o) \cup ProtBad(d, o)
             \cup F(o.fbad # <<>>, "fonts", o.fbad) \cup F(o.ibad # <<>>, "file", o.ibad)
             \cup UNION {LinkBad(d, o, i) : i \in 1..n}
             \cup UNION {P[i].bad : i \in 1..n}
             \cup F(twice # {}, "imgonce", twice),
     marks |-> FoldLeft(LAMBDA s, i : s + P[i].n, 0, Times(n))]
=============================================================================
