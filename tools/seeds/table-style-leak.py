prop = 'C27'
needs = 'a row with a styled and, after it, an unstyled cell'
breaks = 'the style of a cell is used for the unstyled cells right of it'
edits = [
    ('table.go',
     '\t\tx = t.startX\n\t\tfor i, cell := range row {\n\t\t\tcellStyle := t.cellStyle\n\t\t\tif cell.useCellStyle {',
     '\t\tx = t.startX\n\t\tcellStyle := t.cellStyle\n\t\tfor i, cell := range row {\n\t\t\tif cell.useCellStyle {'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	gp.AddPage()
	t := gp.NewTableLayout(20, 20, 30, 1)
	t.AddColumn("A", 100, "left")
	t.AddColumn("B", 100, "left")
	t.SetCellStyle(gopdf.CellStyle{Font: "F", FontSize: 10})
	row := make([]gopdf.RowCell, 2)
	row[0] = gopdf.NewRowCell("x", gopdf.CellStyle{FillColor: gopdf.RGBColor{G: 255}, Font: "F", FontSize: 20})
	t.AddStyledRow(row)
	must(t.DrawTable())
	n := find(pages(output(gp))[0].content, `(0\.000 1\.000 0\.000) rg`)
	expect(len(n) == 1, "%d filled cells", len(n))
}
"""
