prop = 'C14'
needs = 'two styles of one family'
breaks = 'text in the second style of a family is shown with the font of another one'
edits = [
    ('gopdf.go',
     '\t\tif !procset.Relates.IsContainsFamilyAndStyle(family, option.Style&^Underline) {',
     '\t\tif !procset.Relates.IsContainsFamily(family) {'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
	"regexp"
)

func main() {
	gp := start()
	must(gp.AddTTFFontWithOption("F", "test/res/LiberationSerif-Regular.ttf", gopdf.TtfOption{Style: gopdf.Bold}))
	gp.AddPage()
	must(gp.Cell(nil, "one"))
	must(gp.SetFontWithStyle("F", gopdf.Bold, 14))
	gp.Br(20)
	must(gp.Cell(nil, "two"))
	c := pages(output(gp))[0].content
	f := regexp.MustCompile(`/F(\d+) `).FindAllStringSubmatch(c, -1)
	expect(len(f) == 2 && f[0][1] != f[1][1], "fonts %v", f)
}
"""
