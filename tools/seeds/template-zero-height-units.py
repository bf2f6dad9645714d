prop = 'C28'
needs = 'a unit other than points and a template drawn with its height left to its shape'
breaks = 'the width is taken as points'
edits = [
    ('gopdf.go',
     '\tgp.UnitsToPointsVar(&x, &y, &w, &h)\n\t// Get template values to draw\n',
     '\tgp.UnitsToPointsVar(&x, &y)\n\tif w != 0 && h != 0 {\n\t\tgp.UnitsToPointsVar(&w, &h)\n\t}\n\t// Get template values to draw\n'),
]
demo = r"""
import (
	"io"
	"bytes"

	"github.com/signintech/gopdf"
)

func main() {
	src := start()
	src.AddPage()
	src.Line(10, 10, 50, 50)
	rs := io.ReadSeeker(bytes.NewReader(output(src)))
	gp := start(gopdf.Config{Unit: gopdf.UnitMM, PageSize: *gopdf.PageSizeA4})
	gp.AddPage()
	t := gp.ImportPageStream(&rs, 1, "/MediaBox")
	gp.UseImportedTemplate(t, 10, 10, 100, 0)
	gp.UseImportedTemplate(t, 10, 10, 100, 100*gopdf.PageSizeA4.H/gopdf.PageSizeA4.W)
	m := find(pages(output(gp))[0].content, `q 0 J 1 w 0 j 0 G 0 g q `+num+` 0 0 `+num+` `)
	expect(len(m) == 2, "%v", m)
	expect(near(m[0][0], m[1][0]) && near(m[0][1], m[1][1]), "scales %v", m)
}
"""
