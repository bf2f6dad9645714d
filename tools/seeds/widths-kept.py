prop = 'C04'
needs = 'new characters written after an output'
breaks = 'the widths of characters first used after an output are missing in the next one'
edits = [
    ('cid_font_obj.go',
     '\tfor _, v := range glyphIndexs {\n\t\twidth := ci.PtrToSubsetFontObj.GlyphIndexToPdfWidth(v)\n\t\tfmt.Fprintf(w, "%d[%d]", v, width)\n\t}\n',
     '\tfor len(ci.widths) < len(glyphIndexs) && !ci.written {\n\t\tv := glyphIndexs[len(ci.widths)]\n\t\twidth := ci.PtrToSubsetFontObj.GlyphIndexToPdfWidth(v)\n\t\tci.widths = append(ci.widths, fmt.Sprintf("%d[%d]", v, width))\n\t}\n\tci.written = true\n\tfor _, s := range ci.widths {\n\t\tio.WriteString(w, s)\n\t}\n'),
    ('cid_font_obj.go',
     '\tindexObjSubfontDescriptor int\n',
     '\tindexObjSubfontDescriptor int\n\twidths                    []string\n\twritten                   bool\n'),
]
demo = r"""
import (
	"regexp"
)

func main() {
	gp := start()
	gp.AddPage()
	must(gp.Text("abc"))
	output(gp)
	must(gp.Text("xyz"))
	again := output(gp)
	gp = start()
	gp.AddPage()
	must(gp.Text("abc"))
	must(gp.Text("xyz"))
	w := regexp.MustCompile(`/W \[.*`)
	expect(string(w.Find(again)) == string(w.Find(output(gp))), "widths %s", w.Find(again))
}
"""
