prop = 'C10'
needs = 'a page without size added after a page with a size of its own'
breaks = 'the default page is treated (page breaks, coordinates) as if it had the size of the page before it'
edits = [
    ('gopdf.go',
     '\t} else { //use default\n\t\tgp.curr.pageSize = &gp.config.PageSize\n\t}\n\n\tpage.Res',
     '\t} else if gp.curr.pageSize == nil { //use default\n\t\tgp.curr.pageSize = &gp.config.PageSize\n\t}\n\n\tpage.Res'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	gp.AddPageWithOption(gopdf.PageOption{PageSize: &gopdf.Rect{W: 300, H: 200}})
	gp.AddPage()
	gp.SetY(300)
	gp.SetNewY(320, 50)
	expect(gp.GetNumberOfPages() == 2, "a break on an almost empty A4 page")
	expect(near(gp.GetY(), 320), "position %v", gp.GetY())
}
"""
