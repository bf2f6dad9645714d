prop = 'C24'
needs = 'a footer and pages imported from another file'
breaks = 'the footer of imported pages is not drawn'
edits = [
    ('gopdf.go',
     '\t\t// Add a new page to the document\n\t\tgp.AddPage()\n',
     '\t\t// Add a new page to the document, the imported content covers it\n\t\tfooter := gp.footerFunc\n\t\tgp.footerFunc = nil\n\t\tgp.AddPage()\n\t\tgp.footerFunc = footer\n'),
]
demo = r"""
import (
	"bytes"

	"github.com/signintech/gopdf"
)

func main() {
	src := start()
	src.AddPage()
	src.SetXY(50, 50)
	must(src.Text("one"))
	src.AddPage()
	src.SetXY(50, 50)
	must(src.Text("two"))
	b := output(src)
	gp := start()
	n := 0
	gp.AddFooter(func() {
		n++
		gp.Line(11, 22, 33, 44)
	})
	gp.AddPage()
	must(gp.ImportPagesFromSource(b, "/MediaBox"))
	gp.AddPage()
	expect(n == 4, "the footer was drawn %d times", n)
	for i, p := range pages(output(gp)) {
		expect(bytes.Contains([]byte(p.content), []byte("11.00 ")), "no footer on page %d", i+1)
	}
	_ = gopdf.PageSizeA4
}
"""
