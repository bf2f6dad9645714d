prop = 'C05'
needs = 'writing over an existing longer file'
breaks = 'the end of the earlier file stays behind the new one'
edits = [
    ('gopdf.go',
     '\treturn os.WriteFile(pdfPath, b, 0644)',
     '\tf, err := os.OpenFile(pdfPath, os.O_WRONLY|os.O_CREATE, 0644)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif _, err := f.Write(b); err != nil {\n\t\tf.Close()\n\t\treturn err\n\t}\n\treturn f.Close()'),
]
demo = r"""
import (
	"bytes"
	"os"
)

func main() {
	dir, err := os.MkdirTemp("", "demo")
	must(err)
	defer os.RemoveAll(dir)
	p := dir + "/a.pdf"
	must(os.WriteFile(p, bytes.Repeat([]byte("x"), 1<<20), 0644))
	gp := start()
	gp.AddPage()
	must(gp.WritePdf(p))
	got, err := os.ReadFile(p)
	must(err)
	expect(bytes.Equal(got, output(gp)), "the file has %d bytes", len(got))
}
"""
