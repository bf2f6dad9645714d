prop = 'C19'
needs = 'two alpha values that differ only in the third decimal'
breaks = 'the second transparency is drawn with the alpha of the first'
edits = [
    ('ext_g_state_obj.go',
     '\t\tid += fmt.Sprintf("CA_%.3f;", *extOpt.StrokingCA)',
     '\t\tid += fmt.Sprintf("CA_%.2f;", *extOpt.StrokingCA)'),
    ('ext_g_state_obj.go',
     '\t\tid += fmt.Sprintf("ca_%.3f;", *extOpt.NonStrokingCa)',
     '\t\tid += fmt.Sprintf("ca_%.2f;", *extOpt.NonStrokingCa)'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	gp.AddPage()
	must(gp.SetTransparency(gopdf.Transparency{Alpha: 0.501}))
	gp.Line(1, 1, 2, 2)
	must(gp.SetTransparency(gopdf.Transparency{Alpha: 0.504}))
	gp.Line(1, 1, 2, 2)
	b := output(gp)
	gs := find(pages(b)[0].content, `/GS(\d+) gs`)
	expect(len(gs) == 2, "states %v", gs)
	obs := objects(b)
	expect(nums(after(obs[int(gs[0][0])].dict, "/CA "))[0] == 0.501, "first alpha")
	expect(nums(after(obs[int(gs[1][0])].dict, "/CA "))[0] == 0.504, "second alpha")
}
"""
