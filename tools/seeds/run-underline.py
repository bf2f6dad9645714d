prop = 'C25'
needs = 'a text piece continuing another one that differs only in being underlined'
breaks = 'the piece is shown (not) underlined like the one before'
edits = [
    ('cache_content_text.go',
     '\t\tc.fontStyle == cache.fontStyle &&\n',
     ''),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	gp.AddPage()
	must(gp.Text("abc"))
	must(gp.SetFontWithStyle("F", gopdf.Underline, 14))
	must(gp.Text("def"))
	expect(len(find(pages(output(gp))[0].content, num+` re f`)) == 1, "no underline")
}
"""
