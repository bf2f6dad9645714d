prop = 'C30'
needs = 'a document object started again, with a link to an anchor that only the earlier document had'
breaks = 'anchors of the earlier document stay'
edits = [
    ('gopdf.go',
     '\tgp.anchors = make(map[string]anchorOption)',
     '\tif gp.anchors == nil {\n\t\tgp.anchors = make(map[string]anchorOption)\n\t}'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
	"strings"
)

func main() {
	gp := start()
	gp.AddPage()
	gp.SetAnchor("a")
	output(gp)
	gp.Start(gopdf.Config{PageSize: *gopdf.PageSizeA4})
	gp.AddPage()
	gp.AddInternalLink("a", 1, 1, 2, 2)
	for _, o := range objects(output(gp)) {
		expect(!strings.Contains(o.dict, "/Dest"), "link to an anchor of the earlier document")
	}
}
"""
