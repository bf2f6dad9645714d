"""What each check runs: profiles of random programs (quick and thorough numbers), alphabets whose call sequences
module MCDoc enumerates (with the number of sequences replayed), other specifications, and the aspects of the judge's
findings that concern the property (patterns on "call/aspect")."""

FILE = ["*/outerr", "Output/file", "Output/refs", "Output/ops", "Output/fonts"]
MARKS = ["Output/marks:*", "Output/balance"]
STATE = ["*/pos", "*/np", "*/mg", "*/err", "*/start"]
VALUES = ["*/ret", "*/lines", "*/nf"]
ALL = ["*"]
TEXTM = ["Output/marks:g*", "Output/marks:count:glyph", "Output/marks:order"]
UNITS = ["unit2", "unit3", "unit4", "unit5", "unit1c"]

C = {}


def check(id, rnd, mc, asp, extra=(), note="", synth=(0, 0)):
    """synth: numbers of made-up fonts and images (quick; three and four times as many in thorough)"""
    C[id] = dict(rnd=rnd, mc=mc, asp=asp + ["*/panic", "*/crash", "*/hang"], extra=list(extra), note=note, synth=synth)


q, t = 1, 2
check("C01", [("every", 270, 3000), ("compress", 72, 800), ("tmpl", 72, 800), ("many", 6, 60), ("severy", 36, 600), ("long", 6, 60), ("early", 24, 300), ("big", 3, 20), ("wide", 4, 40)], [("objects", 700, 8000)], FILE, synth=(2, 8))
check("C02", [("pages", 270, 3000), ("header", 72, 800), ("tmpl", 48, 600), ("many", 4, 40)], [("pages", 1000, 8000)], ["Output/tree", "Output/size", "Output/trim", "*/np", "*/outerr"])
check("C03", [("pages", 240, 3000), ("every", 180, 2000), ("tmpl", 48, 500), ("long", 4, 60)], [("draw", 1000, 8000)], ["Output/marks:count:*", "Output/marks:order", "Output/marks:geom", "Output/marks:gpos", "Output/marks:imgpos", "Output/marks:formpos", "Output/marks:gchar", "Output/tree", "*/np", "*/outerr"])
check("C04", [("outputs", 270, 3000), ("pages", 72, 800), ("tmpl", 72, 800), ("severy", 30, 400)], [("again", 700, 8000)], ["Output/*", "Same/*"], synth=(2, 8))
check("C05", [("faulty", 80, 1000), ("smallfaulty", 48, 400), ("reading", 128, 2000)], [], ["Faults/*", "Reads/*", "Stream/*", "Output/outerr"], extra=["stream"])
check("C06", [("shape", 270, 3000), ("every", 150, 1500), ("spot", 48, 500), ("early", 16, 200)], [("attrs", 1000, 12000)], ["Output/marks:lw", "Output/marks:dash", "Output/marks:sc", "Output/marks:fc", "Output/marks:clip", "Output/marks:geom", "Output/marks:count:path", "Output/marks:order", "Output/balance", "Output/ops", "*/outerr"])
check("C07", [("shape", 360, 4000), ("units", 72, 800)], [("shapes", 1000, 12000)], ["Output/marks:geom", "Output/marks:paint", "Output/marks:clip", "Output/marks:count:path", "Output/marks:order", "Output/ops", "Rect*/err", "*/outerr"])
check("C08", [("units", 330, 4000), ("convert", 180, 2000)], [(u, 180, 2500) for u in UNITS], STATE + ["*/ret", "Output/size", "Output/trim", "Output/linkrect", "Output/linkdest", "Output/odest"] + MARKS)
check("C09", [("move", 300, 4000), ("every", 120, 1500), ("header", 48, 500)], [("moves", 1200, 12000)], ["*/pos", "*/ret", "Output/marks:gpos"])
check("C10", [("break", 360, 5000), ("convert", 72, 800)], [("breaks", 1800, 20000)], ["*/np", "*/pos", "*/mg", "Output/tree", "Output/size"])
check("C11", [("splits", 330, 4000), ("multi", 72, 800), ("ssplit", 90, 1200)], [], ["Split/*", "MultiCell*/*"] + TEXTM, extra=["mctext"], synth=(5, 0))
check("C12", [("multi", 330, 4000), ("splits", 72, 800), ("ssplit", 90, 1200)], [], ["MultiCell*/*", "IsFit*/*", "Output/marks:g*", "Output/marks:count:glyph", "Output/marks:order"], extra=["mctext"], synth=(5, 0))
check("C13", [("text", 240, 3000), ("missing", 72, 800), ("measure", 48, 600), ("stext", 90, 1200), ("wide", 24, 240)], [("glyphs", 700, 8000)], ["Output/fonts", "Output/marks:gglyph", "Output/marks:gfont", "Output/marks:gchar", "Output/marks:gwidth", "Output/marks:count:glyph", "Output/refs", "*/outerr"], synth=(6, 0))
check("C14", [("text", 270, 3000), ("every", 72, 800), ("stext", 90, 1200), ("early", 16, 200)], [("fonts", 1000, 12000)], ["Output/marks:gsize", "Output/marks:gcol", "Output/marks:gglyph", "Output/marks:gchar", "Output/marks:gwidth", "Output/marks:gpos", "Output/marks:count:*", "SetFont/*", "AddFont/*", "*/pos"], synth=(6, 0))
check("C15", [("align", 270, 3000), ("measure", 150, 2000), ("stext", 120, 1500)], [("cut", 300, 4000)], ["Measure*/ret", "Output/marks:gpos", "Output/marks:gdir", "Output/marks:geom", "Output/marks:lw", "Output/marks:count:*", "Output/marks:order", "Cell*/pos", "Text/pos"], extra=["mcwidth"], synth=(6, 0))
check("C16", [("prot", 330, 3000), ("manyprot", 6, 60), ("sprot", 72, 900), ("long", 4, 60), ("bigprot", 2, 16)], [("secret", 600, 8000)], ALL, extra=["findings"], synth=(3, 8))
check("C17", [("image", 360, 4000), ("every", 72, 800), ("simage", 150, 1500)], [("images", 700, 8000)], ["Output/marks:img*", "Output/marks:mask*", "Output/marks:clip", "Output/imgonce", "Output/marks:count:img", "Output/marks:order", "Output/refs", "Output/ops", "Image*/err", "*/outerr"], synth=(0, 40))
check("C18", [("fail", 330, 4000), ("broken", 360, 6000)], [("fails", 882, 9000)], ["*/err", "*/pos", "*/np", "*/mg", "Output/*"], synth=(2, 10, 60))
check("C19", [("transp", 330, 4000)], [("transp", 900, 9000)], ["Output/marks:alpha", "Output/marks:count:*", "Output/refs", "Output/ops", "*/err", "*/outerr"])
check("C20", [("mut", 270, 3000), ("prot", 48, 500)], [("caller", 600, 8000)], ["*/chg", "Same/*", "Output/*"])
check("C21", [("link", 360, 4000), ("every", 48, 500), ("early", 40, 500)], [("links", 1000, 9000)], ["Output/links", "Output/linkrect", "Output/linkdest", "Output/refs", "*/outerr"])
check("C22", [("link", 300, 3000), ("prot", 36, 500), ("early", 40, 500)], [("outlines", 600, 6000), ("trees", 800, 5000)], ["Output/outline", "Output/otitle", "Output/odest", "Output/refs", "*/outerr"])
check("C23", [("place", 360, 4000)], [("places", 1000, 12000)], ["*Placeholder/*", "Output/marks:*", "*/pos", "*/outerr"])
check("C24", [("header", 360, 4000)], [("headers", 1000, 9000)], ["*/np", "*/pos", "Output/marks:*", "Output/tree", "Output/balance", "Output/links"])
check("C25", [("pieces", 360, 4000), ("text", 72, 800), ("stext", 72, 1000)], [("cut", 1000, 12000)], ["Output/marks:*", "*/pos"], synth=(5, 0))
check("C26", [("spot", 360, 4000)], [("spots", 1000, 9000)], ["Output/marks:sc", "Output/marks:fc", "Output/marks:count:*", "*CS*/err", "Output/refs", "Output/file", "Output/ops", "*/outerr"])
check("C27", [("table", 360, 3000)], [("tables", 288, 3000)], ["Output/marks:*", "Table/*", "Output/balance", "Output/ops"])
check("C28", [("tmpl", 360, 4000)], [("imports", 600, 8000), ("importall", 136, 500)], ["Output/*", "Import*/*", "UseTemplate/*", "PageSizes/*", "*/np"], extra=["findings"])
check("C29", [("compress", 330, 3000), ("simage", 48, 600), ("long", 8, 80)], [("levels", 800, 9000)], ["Output/*"], synth=(0, 20))
check("C30", [("restart", 240, 3000), ("early", 16, 200)], [], ALL, extra=["restarts"])
check("C31", [("turns", 120, 2000)], [], ["Same/*", "Output/*", "*/err", "*/pos", "*/ret", "Parallel/*"], extra=["weave", "parallel"])
check("C32", [("info", 360, 4000), ("prot", 48, 500)], [("infos", 864, 6000)], ["Output/info", "GetInfo/*", "Output/refs", "*/outerr"])
check("C33", [("missing", 330, 4000), ("smiss", 120, 1500)], [("absent", 800, 9000)], ["*/nf", "Output/marks:g*", "Output/marks:count:glyph", "Output/fonts", "GlyphQ/*", "Measure/ret", "*/pos", "Split/lines", "*/outerr"], synth=(6, 0))
check("C34", [("arabic", 180, 2000)], [], ["ToArabic/*"], extra=["mcarabic"])
