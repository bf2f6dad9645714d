prop = 'C11'
needs = 'a strict break right after a comma or full stop'
breaks = 'the line is wider than allowed by the comma before its last character'
edits = [
    ('gopdf.go',
     '\t\tlineWidth, err := gp.MeasureTextWidth(string(lineText))',
     '\t\tlineWidth, err := gp.MeasureTextWidth(strings.TrimRight(string(lineText), ",."))'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	gp.AddPage()
	for w := 30.0; w < 60; w += 0.25 {
		l, err := gp.SplitTextWithOption("Mi,Wl,Mt,Wi.MlWM,iM,WM.MiW", w, &gopdf.BreakOption{Mode: gopdf.BreakModeStrict})
		must(err)
		for _, s := range l {
			m, _ := gp.MeasureTextWidth(s)
			expect(m <= w+0.01, "line %q of width %v for %v", s, m, w)
		}
	}
}
"""
