prop = 'C03'
needs = 'the same call made twice in a row (visible with transparency, or for nested rotations)'
breaks = 'a call that repeats the one before leaves no mark'
edits = [
    ('list_cache_content.go',
     'import "io"\n',
     'import (\n\t"io"\n\t"reflect"\n)\n'),
    ('list_cache_content.go',
     '\tfor _, cache := range l.caches {\n\t\tif err',
     '\tfor i, cache := range l.caches {\n\t\tif i > 0 && reflect.DeepEqual(cache, l.caches[i-1]) {\n\t\t\tcontinue // already there\n\t\t}\n\t\tif err'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
)

func main() {
	gp := start()
	gp.AddPage()
	must(gp.SetTransparency(gopdf.Transparency{Alpha: 0.5, BlendModeType: "/Normal"}))
	for i := 0; i < 2; i++ {
		gp.Oval(10, 10, 50, 60)
	}
	n := find(pages(output(gp))[0].content, num+` `+num+` `+num+` `+num+` `+num+` `+num+` c`)
	expect(len(n) == 8, "%d curves", len(n))
}
"""
