prop = 'C09'
needs = 'a cell that moves the position both right and down'
breaks = 'the position does not move down'
edits = [
    ('list_cache_content.go',
     '\t}\n\tif cacheFont.cellOpt.Float&Bottom == Bottom {',
     '\t} else if cacheFont.cellOpt.Float&Bottom == Bottom {'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	gp.AddPage()
	y := gp.GetY()
	must(gp.CellWithOption(&gopdf.Rect{W: 50, H: 30}, "x", gopdf.CellOption{Float: gopdf.Right | gopdf.Bottom}))
	expect(near(gp.GetY(), y+30), "y %v", gp.GetY())
}
"""
