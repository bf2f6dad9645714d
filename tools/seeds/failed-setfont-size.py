prop = 'C18'
needs = 'a font selection that fails, with a size different from the one in use'
breaks = 'a failed font selection changes the size of the selected font'
edits = [
    ('gopdf.go',
     '\tfound := false\n\ti := 0\n\tmax := len(gp.pdfObjs)\n\tfor i < max {\n\t\tif gp.pdfObjs[i].getType() == subsetFont {\n\t\t\tobj := gp.pdfObjs[i]\n\t\t\tsub, ok := obj.(*SubsetFontObj)\n\t\t\tif ok {\n\t\t\t\tif sub.GetFamily() == family && sub.GetTtfFontOption().Style == style&^Underline {\n\t\t\t\t\tgp.curr.FontSize = fontSize\n',
     '\tfound := false\n\ti := 0\n\tmax := len(gp.pdfObjs)\n\tgp.curr.FontSize = fontSize\n\tfor i < max {\n\t\tif gp.pdfObjs[i].getType() == subsetFont {\n\t\t\tobj := gp.pdfObjs[i]\n\t\t\tsub, ok := obj.(*SubsetFontObj)\n\t\t\tif ok {\n\t\t\t\tif sub.GetFamily() == family && sub.GetTtfFontOption().Style == style&^Underline {\n'),
]
demo = r"""
import (
)

func main() {
	gp := start()
	gp.AddPage()
	expect(gp.SetFont("nosuch", "", 40) != nil, "selecting an unknown font succeeds")
	must(gp.Cell(nil, "one"))
	s := find(pages(output(gp))[0].content, `/F\d+ `+num+` Tf`)
	expect(len(s) == 1 && s[0][0] == 14, "size %v", s)
}
"""
