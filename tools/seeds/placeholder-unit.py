prop = 'C23'
needs = 'a document unit other than points'
breaks = 'the position moves by the reserved width taken as points'
edits = [
    ('gopdf.go',
     '\tx := gp.curr.X\n\tgp.UnitsToPointsVar(&placeHolderWidth)\n\terr = gp.getContent().appendStreamPlaceHolderText(placeHolderWidth)\n\tif err != nil {\n\t\treturn err\n\t}\n',
     '\tx := gp.curr.X\n\terr = gp.getContent().appendStreamPlaceHolderText(placeHolderWidth)\n\tif err != nil {\n\t\treturn err\n\t}\n\tgp.UnitsToPointsVar(&placeHolderWidth)\n'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start(gopdf.Config{PageSize: gopdf.Rect{W: 210, H: 297}, Unit: gopdf.UnitMM})
	gp.AddPage()
	x := gp.GetX()
	must(gp.PlaceHolderText("p", 30))
	expect(near(gp.GetX(), x+30), "moved from %v to %v", x, gp.GetX())
}
"""
