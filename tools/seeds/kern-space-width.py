prop = 'C15'
needs = 'kerning on and a font with a kerning pair whose right character is a space'
breaks = 'the measured width leaves out the kerning before a space, which is drawn'
edits = [
    ('cache_content_text.go',
     '\t\tpairvalPdfUnit := 0\n\t\tif i > 0 && f.ttfFontOption.UseKerning { //kerning',
     "\t\tpairvalPdfUnit := 0\n\t\tif i > 0 && r != ' ' && f.ttfFontOption.UseKerning { //kerning"),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
	"math"
)

func main() {
	gp := start()
	must(gp.AddTTFFontWithOption("K", fontPath, gopdf.TtfOption{UseKerning: true}))
	must(gp.SetFont("K", "", 20))
	must(gp.KernOverride("K", func(l, r rune, li, ri uint, v int16) int16 {
		if r == ' ' {
			return -300
		}
		return v
	}))
	gp.AddPage()
	a, _ := gp.MeasureTextWidth("A")
	s, _ := gp.MeasureTextWidth(" ")
	as, _ := gp.MeasureTextWidth("A ")
	must(gp.Text("A "))
	k := find(pages(output(gp))[0].content, `>`+num+`<`)
	expect(len(k) == 1, "no kerning drawn")
	expect(math.Abs(as-(a+s-k[0][0]*20/1000)) < 0.03, "width %v of %v + %v kerned by %v", as, a, s, k[0][0])
}
"""
