prop = 'C29'
needs = 'compression level -2 (Huffman only)'
breaks = 'page contents are compressed but not marked so'
edits = [
    ('content_obj.go',
     '\tif isFlate {\n\t\tif _, err := io.WriteString(w, "/Filter/FlateDecode")',
     '\tif isFlate && c.getRoot().compressLevel >= zlib.DefaultCompression {\n\t\tif _, err := io.WriteString(w, "/Filter/FlateDecode")'),
]
demo = r"""
import (
	"strings"

	"github.com/signintech/gopdf"
)

func main() {
	for level := -2; level <= 9; level++ {
		gp := &gopdf.GoPdf{}
		gp.Start(gopdf.Config{PageSize: *gopdf.PageSizeA4})
		gp.SetCompressLevel(level)
		gp.AddPage()
		for i := 0; i < 200; i++ {
			gp.Line(1, 1, 2, 2)
		}
		expect(strings.Contains(pages(output(gp))[0].content, " l S"), "line is not there at level %d", level)
	}
}
"""
