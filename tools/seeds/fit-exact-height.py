prop = 'C12'
needs = 'a cell that holds the lines with little room left'
breaks = 'the fit check says no though the cell draws the whole text'
edits = [
    ('gopdf.go',
     '\tfor i, v := range []rune(text) {\n\t\tif totalLineHeight+lineHeight > rectangle.H {\n\t\t\treturn false, totalLineHeight, nil',
     '\tfor i, v := range []rune(text) {\n\t\tif totalLineHeight+lineHeight*1.1 > rectangle.H {\n\t\t\treturn false, totalLineHeight, nil'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	gp.AddPage()
	h, _ := gp.MeasureCellHeightByText("x")
	ok, _, err := gp.IsFitMultiCell(&gopdf.Rect{W: 500, H: h * 1.05}, "one line")
	must(err)
	expect(ok, "one line does not fit")
}
"""
