prop = 'C13'
needs = 'a character drawn from three parts (fractions, letters with two accents) whose third part is not otherwise used'
breaks = 'the third part of the character is missing from the embedded font'
edits = [
    ('pdf_dictionary_obj.go',
     '\toffset += 8\n',
     '\toffset += 8\n\tparts := 0 // base and accent\n'),
    ('pdf_dictionary_obj.go',
     '\t\tif (flags & moreComponents) == 0 {\n',
     '\t\tif parts++; parts == 2 || (flags&moreComponents) == 0 {\n'),
]
demo = r"""
import (
	"encoding/binary"
	"os"
	"strings"
)

type sfnt struct {
	b   []byte
	tab map[string]int
}

func load(b []byte) sfnt {
	f := sfnt{b, map[string]int{}}
	for i := 0; i < int(binary.BigEndian.Uint16(b[4:])); i++ {
		e := b[12+16*i:]
		f.tab[string(e[:4])] = int(binary.BigEndian.Uint32(e[8:]))
	}
	return f
}

// glyph returns the outline of a glyph (the font has long offsets)
func (f sfnt) glyph(g int) []byte {
	lo := f.b[f.tab["loca"]+4*g:]
	return f.b[f.tab["glyf"]+int(binary.BigEndian.Uint32(lo)) : f.tab["glyf"]+int(binary.BigEndian.Uint32(lo[4:]))]
}

func main() {
	orig, err := os.ReadFile(fontPath)
	must(err)
	src := load(orig)
	gp := start()
	gp.AddPage()
	must(gp.Text("\u00bc"))
	n := 0
	for _, o := range objects(output(gp)) {
		if !strings.Contains(o.dict, "/Length1") {
			continue
		}
		n++
		sub := load(o.stream)
		for _, g := range []int{2045, 123, 2053} { // the parts of one quarter in this font
			expect(len(src.glyph(g)) > 0 && string(sub.glyph(g)) == string(src.glyph(g)), "part %d is missing", g)
		}
	}
	expect(n == 1, "%d font files", n)
}
"""
