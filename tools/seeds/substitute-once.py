prop = 'C33'
needs = 'a missing character after its substitute has been used'
breaks = 'the missing character is not replaced and disappears'
edits = [
    ('subset_font_obj.go',
     '\t\t\t\ts.CharacterToGlyphIndex.Set(runeValueReplace, glyphIndexReplace) // [runeValue] = glyphIndex\n\t\t\t}\n\t\t\t//end: try to find rune for replace\n\t\t\ts.addCharsBuff = append(s.addCharsBuff, runeValueReplace)\n\t\t\tcontinue',
     '\t\t\t\ts.CharacterToGlyphIndex.Set(runeValueReplace, glyphIndexReplace) // [runeValue] = glyphIndex\n\t\t\t\truneValue = runeValueReplace\n\t\t\t}\n\t\t\t//end: try to find rune for replace\n\t\t\ts.addCharsBuff = append(s.addCharsBuff, runeValue)\n\t\t\tcontinue'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := &gopdf.GoPdf{}
	gp.Start(gopdf.Config{PageSize: *gopdf.PageSizeA4})
	gp.SetNoCompression()
	must(gp.AddTTFFontWithOption("F", fontPath, gopdf.TtfOption{OnGlyphNotFoundSubstitute: func(r rune) rune { return '?' }}))
	must(gp.SetFont("F", "", 14))
	gp.AddPage()
	one, err := gp.MeasureTextWidth("?")
	must(err)
	w, err := gp.MeasureTextWidth("\u4e00\u4e01")
	must(err)
	expect(near(w, 2*one), "width %v instead of %v", w, 2*one)
}
"""
