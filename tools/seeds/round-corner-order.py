prop = 'C07'
needs = 'a rounded rectangle with at least two points per corner'
breaks = 'the points of the lower left corner are in the wrong order'
edits = [
    ('gopdf.go',
     '\t\t\tv := radians[len(radians)-1-i]\n\t\t\toffsetX := radius * math.Cos(v)\n\t\t\toffsetY := radius * math.Sin(v)\n\t\t\tx := x0 + radius - offsetX\n\t\t\ty := y1 - radius + offsetY',
     '\t\t\tv := radians[i]\n\t\t\toffsetX := radius * math.Cos(v)\n\t\t\toffsetY := radius * math.Sin(v)\n\t\t\tx := x0 + radius - offsetX\n\t\t\ty := y1 - radius + offsetY'),
]
demo = r"""
import (
	"strings"
)

func main() {
	gp := start()
	gp.AddPage()
	must(gp.Rectangle(100, 100, 300, 200, "D", 20, 3))
	n := nums(strings.SplitN(after(pages(output(gp))[0].content, "q\n"), " s", 2)[0])
	// the outline goes round: the y of the last points (lower left corner) rises towards the left side
	k := len(n)
	expect(n[k-1] > n[k-3] && n[k-3] > n[k-5] && n[k-5] > n[k-7], "last points %v", n[k-10:])
}
"""
