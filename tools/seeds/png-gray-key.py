prop = 'C17'
needs = 'a grey PNG whose transparent value is not 0'
breaks = 'another grey value is transparent (or none is)'
edits = [
    ('image_obj_parse.go', 'trns = []byte{(t[1])}', 'trns = []byte{(t[0])}'),
]
demo = r"""
import (
	"bytes"
	"encoding/binary"
	"hash/crc32"
	"strings"

	"github.com/signintech/gopdf"
)

func chunk(t string, d []byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(len(d)))
	c := append([]byte(t), d...)
	return binary.BigEndian.AppendUint32(append(b, c...), crc32.ChecksumIEEE(c))
}

func main() {
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write([]byte{0, 10, 77, 0, 77, 20})
	w.Close()
	b := []byte("\x89PNG\r\n\x1a\n")
	b = append(b, chunk("IHDR", []byte{0, 0, 0, 2, 0, 0, 0, 2, 8, 0, 0, 0, 0})...)
	b = append(b, chunk("tRNS", []byte{0, 77})...)
	b = append(b, chunk("IDAT", z.Bytes())...)
	b = append(b, chunk("IEND", nil)...)
	gp := start()
	gp.AddPage()
	h, err := gopdf.ImageHolderByBytes(b)
	must(err)
	must(gp.ImageByHolder(h, 10, 10, nil))
	n := 0
	for _, o := range objects(output(gp)) {
		if strings.Contains(o.dict, "/Subtype /Image") {
			n++
			m := nums(after(o.dict, "/Mask"))
			expect(len(m) >= 2 && m[0] == 77 && m[1] == 77, "transparent value %v", m)
		}
	}
	expect(n == 1, "%d pictures", n)
}
"""
