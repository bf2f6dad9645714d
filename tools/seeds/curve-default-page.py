prop = 'C07'
needs = 'a curve on a page with a height of its own'
breaks = 'the curve is placed as if the page had the default height'
edits = [
    ('content_obj.go',
     '\tvar cache cacheContentCurve\n\tcache.pageHeight = c.getRoot().curr.pageSize.H',
     '\tvar cache cacheContentCurve\n\tcache.pageHeight = c.getRoot().config.PageSize.H'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	gp.AddPageWithOption(gopdf.PageOption{PageSize: &gopdf.Rect{W: 300, H: 200}})
	gp.Curve(10, 20, 30, 40, 50, 60, 70, 80, "D")
	m := find(pages(output(gp))[0].content, num+` `+num+` m`)
	expect(len(m) == 1 && near(m[0][1], 180), "curve starts at %v", m)
}
"""
