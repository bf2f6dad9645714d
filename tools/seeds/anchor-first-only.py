prop = 'C21'
needs = 'an anchor set twice'
breaks = 'links lead to the first instead of the last place of an anchor'
edits = [
    ('gopdf.go',
     '\tgp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}',
     '\tif _, ok := gp.anchors[name]; !ok {\n\t\tgp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}\n\t}'),
]
demo = r"""
import (
	"strings"
)

func main() {
	gp := start()
	gp.AddPage()
	gp.SetAnchor("a")
	gp.AddInternalLink("a", 10, 10, 50, 20)
	gp.AddPage()
	gp.SetAnchor("a")
	b := output(gp)
	p := pages(b)
	for _, o := range objects(b) {
		if strings.Contains(o.dict, "/Subtype /Link") {
			expect(refs(after(o.dict, "/Dest ["))[0] == p[1].id, "the link leads to object %v", refs(after(o.dict, "/Dest [")))
		}
	}
}
"""
