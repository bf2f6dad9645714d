prop = 'C01'
needs = 'a protected document with a masked image'
breaks = 'the stream length of the mask group is the number of characters, wrong for encrypted data'
edits = [
    ('transparency_xobject_group.go',
     '\tcontent += fmt.Sprintf("\\t/Length %d\\n", len(stream))',
     '\tcontent += fmt.Sprintf("\\t/Length %d\\n", utf8.RuneCount(stream))'),
    ('transparency_xobject_group.go',
     'import (\n\t"fmt"\n\t"io"\n)',
     'import (\n\t"fmt"\n\t"io"\n\t"unicode/utf8"\n)'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start(gopdf.Config{PageSize: *gopdf.PageSizeA4, Protection: gopdf.PDFProtectionConfig{UseProtection: true, UserPass: []byte("u"), OwnerPass: []byte("o")}})
	gp.AddPage()
	m, err := gopdf.ImageHolderByPath("test/res/mask.png")
	must(err)
	h, err := gopdf.ImageHolderByPath("test/res/gopher01.jpg")
	must(err)
	must(gp.ImageByHolderWithOptions(h, gopdf.ImageOptions{X: 10, Y: 10, Rect: &gopdf.Rect{W: 100, H: 100},
		Mask: &gopdf.MaskOptions{Holder: m, ImageOptions: gopdf.ImageOptions{X: 10, Y: 10, Rect: &gopdf.Rect{W: 100, H: 100}}}}))
	objects(output(gp))
}
"""
