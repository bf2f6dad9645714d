prop = 'C32'
needs = 'a producer but no creator'
breaks = 'the producer is missing'
edits = [
    ('gopdf.go',
     '\tif gp.info.Creator != "" {\n\t\tfmt.Fprintf(w, "/Creator <FEFF%s>\\n", encodeUtf8(gp.info.Creator))\n\t}\n\n\tif gp.info.Producer != "" {\n\t\tfmt.Fprintf(w, "/Producer <FEFF%s>\\n", encodeUtf8(gp.info.Producer))\n\t}\n',
     '\tif gp.info.Creator != "" {\n\t\tfmt.Fprintf(w, "/Creator <FEFF%s>\\n", encodeUtf8(gp.info.Creator))\n\t\tif gp.info.Producer != "" {\n\t\t\tfmt.Fprintf(w, "/Producer <FEFF%s>\\n", encodeUtf8(gp.info.Producer))\n\t\t}\n\t}\n'),
]
demo = r"""
import (
	"github.com/signintech/gopdf"
	"strings"
)

func main() {
	gp := start()
	gp.SetInfo(gopdf.PdfInfo{Title: "t", Producer: "p"})
	gp.AddPage()
	expect(strings.Contains(string(output(gp)), "/Producer <FEFF0070>"), "no producer")
}
"""
