prop = 'C17'
needs = 'an image both cropped (from x > 0) and flipped horizontally'
breaks = 'the wrong part of the picture is shown in the clip'
edits = [
    ('cache_content_image.go',
     '\t\tx -= c.crop.X\n\t\tif c.horizontalFlip {\n\t\t\tx = -x - width\n\t\t}\n\n\t\ty += c.crop.Y - height',
     '\t\tif c.horizontalFlip {\n\t\t\tx = -x - width\n\t\t}\n\t\tx -= c.crop.X\n\n\t\ty += c.crop.Y - height'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	gp.AddPage()
	h, err := gopdf.ImageHolderByPath("test/res/gopher01.jpg")
	must(err)
	must(gp.ImageByHolderWithOptions(h, gopdf.ImageOptions{X: 50, Y: 60, HorizontalFlip: true, Rect: &gopdf.Rect{W: 200, H: 100},
		Crop: &gopdf.CropOptions{X: 30, Y: 20, Width: 80, Height: 40}}))
	m := find(pages(output(gp))[0].content, num+` 0 0\s+`+num+` `+num+` `+num+` cm /I`)
	// mirrored: the left edge of the crop lies at the right edge of the clip (x = -50-80)
	expect(len(m) == 1 && near(m[0][2], -50+30-200), "x %v", m)
}
"""
