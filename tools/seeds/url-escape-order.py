prop = 'C21'
needs = 'an address with parentheses'
breaks = 'the backslash before a parenthesis is escaped itself, the address in the file is another one (and the string may not end)'
edits = [
    ('annot_obj.go',
     '\turl = strings.Replace(url, "\\\\", "\\\\\\\\", -1)\n\turl = strings.Replace(url, "(", "\\\\(", -1)\n\turl = strings.Replace(url, ")", "\\\\)", -1)\n\turl = strings.Replace(url, "\\r", "\\\\r", -1)',
     '\tfor _, c := range []string{"(", ")", "\\\\"} {\n\t\tif strings.Contains(url, c) {\n\t\t\turl = strings.Replace(url, c, "\\\\"+c, -1)\n\t\t}\n\t}\n\turl = strings.Replace(url, "\\r", "\\\\r", -1)'),
]
demo = r"""
import (
	"strings"
)

func main() {
	const url = "http://e/a(b)c"
	gp := start()
	gp.AddPage()
	gp.AddExternalLink(url, 10, 10, 50, 20)
	for _, o := range objects(output(gp)) {
		if strings.Contains(o.dict, "/URI (") {
			s, out, depth := after(o.dict, "/URI ("), "", 0
			for i := 0; i < len(s); i++ {
				if s[i] == '\\' {
					i++
				} else if s[i] == '(' {
					depth++
				} else if s[i] == ')' {
					if depth == 0 {
						break
					}
					depth--
				}
				out += s[i : i+1]
			}
			expect(out == url, "address %q", out)
		}
	}
}
"""
