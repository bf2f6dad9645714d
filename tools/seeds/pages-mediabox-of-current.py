prop = 'C02'
needs = 'the page current at the output has a size of its own and another page has none'
breaks = 'pages without a size of their own get the size of the page current at the output'
edits = [
    ('pages_obj.go',
     'rootConfig := p.getRoot().config\n\tfmt.Fprintf(w, "  /MediaBox [ 0 0 %0.2f %0.2f ]\\n", rootConfig.PageSize.W, rootConfig.PageSize.H)',
     'size := p.getRoot().config.PageSize\n\tif p.getRoot().curr.pageSize != nil {\n\t\tsize = *p.getRoot().curr.pageSize\n\t}\n\tfmt.Fprintf(w, "  /MediaBox [ 0 0 %0.2f %0.2f ]\\n", size.W, size.H)'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	gp.AddPage()
	gp.AddPageWithOption(gopdf.PageOption{PageSize: &gopdf.Rect{W: 300, H: 200}})
	box := nums(after(objects(output(gp))[2].dict, "/MediaBox"))
	expect(near(box[2], gopdf.PageSizeA4.W) && near(box[3], gopdf.PageSizeA4.H), "default size of the pages is %v", box[:4])
}
"""
