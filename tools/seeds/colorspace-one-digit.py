prop = 'C26'
needs = 'more than ten colour spaces'
breaks = 'the resource of the tenth colour space and those after it has another name than the content uses'
edits = [
    ('procset_obj.go',
     '\t\tcolorSpaces += fmt.Sprintf("\\t\\t/CS%d %d 0 R\\n", relate.CountOfColorSpace+1, relate.IndexOfObj+1)\n',
     '\t\tcolorSpaces += "\\t\\t/CS" + string(rune(\'1\'+relate.CountOfColorSpace)) + fmt.Sprintf(" %d 0 R\\n", relate.IndexOfObj+1)\n'),
]
demo = r"""
import (
	"fmt"
	"strings"
)

func main() {
	gp := start()
	gp.AddPage()
	for i := 1; i <= 11; i++ {
		must(gp.AddColorSpaceRGB(fmt.Sprintf("Spot%d", i), uint8(10*i), 0, 0))
	}
	gp.SetXY(50, 50)
	must(gp.SetColorSpace("Spot11"))
	must(gp.Text("a"))
	b := output(gp)
	expect(strings.Contains(pages(b)[0].content, "/CS11 CS"), "not used")
	found := false
	for _, o := range objects(b) {
		found = found || strings.Contains(o.dict, "/CS11 ")
	}
	expect(found, "CS11 is no resource")
}
"""
