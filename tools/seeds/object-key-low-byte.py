prop = 'C16'
needs = 'a protected document with more than 255 objects'
breaks = 'objects with numbers above 255 are encrypted with the key of another object'
edits = [
    ('pdf_protection.go',
     '\ttmp2 := append(p.encryptionKey, tmp[0], tmp[1], tmp[2], 0, 0)',
     '\ttmp2 := append(p.encryptionKey, tmp[0], 0, 0, 0, 0)'),
]
demo = r"""
import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"github.com/signintech/gopdf"
	"strings"
)

func main() {
	user := []byte("u")
	gp := start(gopdf.Config{PageSize: *gopdf.PageSizeA4, Protection: gopdf.PDFProtectionConfig{UseProtection: true, UserPass: user, OwnerPass: []byte("o")}})
	for i := 0; i < 150; i++ {
		gp.AddPage()
		gp.Line(10, 10, 100, 100)
	}
	b := output(gp)
	obs := objects(b)
	enc := refs(after(string(b[bytes.LastIndex(b, []byte("trailer")):]), "/Encrypt"))[0]
	d := obs[enc].dict
	o := unescape(after(d, "/O ("))
	p := uint32(int32(nums(after(d, "/P "))[0]))
	m := md5.New()
	m.Write(pad(user))
	m.Write(o)
	m.Write([]byte{byte(p), byte(p >> 8), byte(p >> 16), byte(p >> 24)})
	key := m.Sum(nil)[:5]
	kids := after(obs[2].dict, "/Kids [")
	for _, k := range refs(kids[:strings.Index(kids, "]")]) {
		c := refs(strings.SplitN(after(obs[k].dict, "/Contents"), "\n", 2)[0])[0]
		s := md5.Sum(append(append([]byte{}, key...), byte(c), byte(c>>8), byte(c>>16), 0, 0))
		r, err := rc4.NewCipher(s[:10])
		must(err)
		out := make([]byte, len(obs[c].raw))
		r.XORKeyStream(out, obs[c].raw)
		expect(strings.Contains(string(out), " l S"), "content object %d does not decrypt", c)
	}
}

func pad(p []byte) []byte {
	return append(append([]byte{}, p...), []byte{
		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
		0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A}...)[:32]
}

func unescape(s string) []byte {
	var out []byte
	for i := 0; s[i] != ')'; i++ {
		if s[i] == '\\' {
			i++
			if s[i] == 'r' {
				out = append(out, '\r')
				continue
			}
		}
		out = append(out, s[i])
	}
	return out
}
"""
