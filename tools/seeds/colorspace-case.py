prop = 'C26'
needs = 'two colour spaces whose names differ only in case'
breaks = 'the second of them is refused'
edits = [
    ('gopdf.go',
     '\t\t\tif relate.Name == colorSpace.Name {\n\t\t\t\treturn ErrExistsColorSpace',
     '\t\t\tif strings.EqualFold(relate.Name, colorSpace.Name) {\n\t\t\t\treturn ErrExistsColorSpace'),
]
demo = r"""
import (
)

func main() {
	gp := start()
	must(gp.AddColorSpaceRGB("Logo", 255, 0, 0))
	must(gp.AddColorSpaceRGB("LOGO", 0, 255, 0))
}
"""
