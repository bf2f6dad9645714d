prop = 'C06'
needs = 'a line width set again after the graphics state was restored (or on a page that has content already)'
breaks = 'setting the line width has no effect when it was the last one set, though the page has another one now'
edits = [
    ('gopdf.go',
     '\tgp.curr.lineWidth = gp.UnitsToPoints(width)\n\tgp.getContent().AppendStreamSetLineWidth(gp.UnitsToPoints(width))',
     '\twidth = gp.UnitsToPoints(width)\n\tif gp.curr.lineWidth == width && gp.indexOfContent != -1 {\n\t\treturn //already set\n\t}\n\tgp.curr.lineWidth = width\n\tgp.getContent().AppendStreamSetLineWidth(width)'),
]
demo = r"""
import (
)

func main() {
	gp := start()
	gp.AddPage()
	gp.SaveGraphicsState()
	gp.SetLineWidth(5)
	gp.RestoreGraphicsState()
	gp.SetLineWidth(5)
	gp.Line(1, 1, 2, 2)
	expect(len(find(pages(output(gp))[0].content, num+` w`)) == 2, "the second width is missing")
}
"""
