prop = 'C22'
needs = 'a node with exactly one child, followed by another entry in the order of the calls'
breaks = 'the only child of a node has a next reference out of its level'
edits = [
    ('outlines_obj.go',
     '\t\t\tobj.Obj.SetLast(children.Obj.GetIndex())\n\t\t\tchildren.Obj.SetNext(-1)',
     '\t\t\tobj.Obj.SetLast(children.Obj.GetIndex())\n\t\t\tif len(obj.Children) > 1 {\n\t\t\t\tchildren.Obj.SetNext(-1)\n\t\t\t}'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
	"strings"
)

func main() {
	gp := start()
	gp.AddPage()
	a := gp.AddOutlineWithPosition("a")
	b := gp.AddOutlineWithPosition("b")
	c := gp.AddOutlineWithPosition("c")
	gopdf.OutlineNodes{{Obj: a, Children: []*gopdf.OutlineNode{{Obj: b}}}, {Obj: c}}.Parse()
	obs := objects(output(gp))
	expect(!strings.Contains(obs[b.GetIndex()].dict, "/Next"), "the only child of a has a next entry")
	expect(refs(after(obs[a.GetIndex()].dict, "/Next"))[0] == c.GetIndex(), "next of a")
}
"""
