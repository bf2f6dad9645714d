prop = 'C24'
needs = 'a footer function that moves the position sideways'
breaks = 'after adding a page the x position is where the footer function left it'
edits = [
    ('gopdf.go',
     '\tif gp.footerFunc != nil {\n\t\tgp.footerFunc()\n\t\tgp.resetCurrXY()',
     '\tif gp.footerFunc != nil {\n\t\tgp.footerFunc()\n\t\tgp.curr.Y = gp.margins.Top'),
]
demo = r"""
import (
)

func main() {
	gp := start()
	gp.AddFooter(func() {
		gp.SetXY(250, 800)
		must(gp.Cell(nil, "footer"))
	})
	gp.AddPage()
	expect(near(gp.GetX(), gp.MarginLeft()) && near(gp.GetY(), gp.MarginTop()), "position %v %v", gp.GetX(), gp.GetY())
}
"""
