prop = 'C20'
needs = 'the points of a polygon used again or changed after the call'
breaks = 'the points of the caller are converted in place and kept'
edits = [
    ('gopdf.go',
     '\tvar pointReals []Point\n\tfor _, p := range points {\n\t\tx := p.X\n\t\ty := p.Y\n\t\tgp.UnitsToPointsVar(&x, &y)\n\t\tpointReals = append(pointReals, Point{X: x, Y: y})\n\t}\n\tgp.getContent().AppendStreamPolygon(pointReals, style, opts)',
     '\tpointReals := points[:0]\n\tfor _, p := range points {\n\t\tx := p.X\n\t\ty := p.Y\n\t\tgp.UnitsToPointsVar(&x, &y)\n\t\tpointReals = append(pointReals, Point{X: x, Y: y})\n\t}\n\tgp.getContent().AppendStreamPolygon(pointReals, style, opts)'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	gp.AddPage()
	pts := []gopdf.Point{{X: 10, Y: 10}, {X: 50, Y: 10}, {X: 50, Y: 80}}
	gp.Polygon(pts, "D")
	for i := range pts {
		pts[i].X += 100
	}
	gp.Polygon(pts, "D")
	m := find(pages(output(gp))[0].content, num+` `+num+` m `)
	expect(len(m) == 2 && near(m[0][0], 10) && near(m[1][0], 110), "polygons start at %v", m)
}
"""
