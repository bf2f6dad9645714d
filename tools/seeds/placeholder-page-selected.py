prop = 'C23'
needs = 'a name reserved on several pages and filled in while an earlier page is selected'
breaks = 'the places on later pages stay empty'
edits = [
    ('gopdf.go',
     '\tfor _, info := range infos {\n\t\tcontent, ok := gp.pdfObjs[info.indexOfContent]',
     '\tfor _, info := range infos {\n\t\tif info.indexOfContent > gp.indexOfContent {\n\t\t\tcontinue\n\t\t}\n\t\tcontent, ok := gp.pdfObjs[info.indexOfContent]'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	gp.AddPage()
	gp.SetXY(50, 50)
	must(gp.PlaceHolderText("total", 60))
	gp.AddPage()
	gp.SetXY(50, 50)
	must(gp.PlaceHolderText("total", 60))
	must(gp.SetPage(1))
	must(gp.FillInPlaceHoldText("total", "27", gopdf.Left))
	for i, p := range pages(output(gp)) {
		expect(len(find(p.content, `<([0-9A-F]+)>`)) == 1, "nothing filled in on page %d", i+1)
	}
}
"""
