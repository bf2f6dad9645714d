prop = 'C01'
needs = 'a file of more than 1000000 bytes'
breaks = 'entries of the cross-reference table for objects behind the first million bytes are one byte too long'
edits = [
    ('gopdf.go',
     '\tstr := strconv.FormatInt(n, 10)\n\tfor len(str) < 10 {\n\t\tstr = "0" + str\n\t}\n\treturn str\n',
     '\tconst zeros = "000000"\n\tstr := strconv.FormatInt(n, 10)\n\tif len(str) < len(zeros) {\n\t\tstr = zeros[len(str):] + str\n\t}\n\treturn "0000" + str\n'),
]
demo = r"""
import (
	"bytes"
	"strings"

	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	for i := 0; i < 3; i++ {
		gp.AddPage()
		gp.SetXY(10, 100)
		pts := []gopdf.Point{}
		for k := 0; k < 40000; k++ {
			pts = append(pts, gopdf.Point{X: 100.25 + float64(k%400), Y: 200.25 + float64(k%300)})
		}
		gp.Polygon(pts, "D")
	}
	b := output(gp)
	expect(len(b) > 1000000, "only %d bytes", len(b))
	x := b[bytes.LastIndex(b, []byte("xref\n0 ")):]
	lines := strings.SplitAfter(string(x), "\n")
	n := 0
	for _, l := range lines[2:] {
		if l == "trailer\n" {
			break
		}
		n++
		expect(len(l) == 20, "entry of %d bytes: %q", len(l), l)
	}
	expect(n > 5, "%d entries", n)
	objects(b)
}
"""
