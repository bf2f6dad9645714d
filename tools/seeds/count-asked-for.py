prop = 'C05'
needs = 'a destination that fails in the middle of a write'
breaks = 'the count returned with the error exceeds what the destination accepted'
edits = [
    ('gopdf.go',
     '\tcw.offset += int64(n)\n',
     '\tcw.offset += int64(len(b))\n'),
]
demo = r"""
import (
	"errors"
)

type limited struct{ got, max int }

func (l *limited) Write(b []byte) (int, error) {
	n := len(b)
	if l.got+n > l.max {
		n = l.max - l.got
	}
	l.got += n
	if n < len(b) {
		return n, errors.New("full")
	}
	return n, nil
}

func main() {
	for max := 0; max < 900; max += 7 {
		gp := start()
		gp.AddPage()
		must(gp.Text("some text"))
		l := &limited{max: max}
		n, err := gp.WriteTo(l)
		expect(err != nil, "no error after %d bytes", max)
		expect(n == int64(l.got), "count %d for %d bytes", n, l.got)
	}
}
"""
