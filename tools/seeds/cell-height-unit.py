prop = 'C08'
needs = 'a custom conversion factor for the unit'
breaks = 'the measured height of a text ignores the custom conversion factor'
edits = [
    ('gopdf.go',
     '\treturn pointsToUnits(gp.config, cellHeightPdfUnit), nil',
     '\treturn PointsToUnits(gp.config.Unit, cellHeightPdfUnit), nil'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	a := start(gopdf.Config{PageSize: *gopdf.PageSizeA4})
	b := start(gopdf.Config{PageSize: gopdf.Rect{W: 300, H: 400}, ConversionForUnit: 2})
	ha, _ := a.MeasureCellHeightByText("x")
	hb, _ := b.MeasureCellHeightByText("x")
	expect(near(ha, 2*hb), "heights %v and %v", ha, hb)
}
"""
