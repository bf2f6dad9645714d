prop = 'C34'
needs = 'the letter in the middle of a word'
breaks = 'a letter is replaced by the form of another letter'
edits = [('arabic_alphabet.go',
    "        Beginning: '\\ufb58',\n\t\tMiddle:    '\\ufb59',".replace('        ', '\t\t'),
    "        Beginning: '\\ufb58',\n\t\tMiddle:    '\\ufb58',".replace('        ', '\t\t'))]
demo = r"""
import "github.com/signintech/gopdf"

func main() {
	got := []rune(gopdf.ToArabic("\u0628\u067e\u0628"))
	expect(len(got) == 3 && got[1] == 0xfb59, "middle letter %X", got)
}
"""
