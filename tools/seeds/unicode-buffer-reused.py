prop = 'C31'
needs = 'several documents written at the same time'
breaks = 'the buffer is given back to the pool before it is used, documents overwrite each other'
edits = [
    ('unicode_map.go',
     '\tbuff := GetBuffer()\n\tdefer PutBuffer(buff)\n\n\tbuff.WriteString(prefix)',
     '\tbuff := GetBuffer()\n\tPutBuffer(buff)\n\n\tbuff.WriteString(prefix)'),
]
demo = r"""
import (
	"bytes"
	"sync"
)

func build(i int) []byte {
	gp := start()
	gp.AddPage()
	t := ""
	for r := rune(0x20 + i%3); r < 0x7f; r += rune(1 + i%3) {
		t += string(r)
	}
	must(gp.Text(t))
	return output(gp)
}

func main() {
	want := [3][]byte{build(0), build(1), build(2)}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 12; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 60; k++ {
				ok := func() (ok bool) {
					defer func() {
						if recover() != nil {
							ok = false
						}
					}()
					return bytes.Equal(build(g), want[g%3])
				}()
				if !ok {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	expect(bad == 0, "%d documents differ", bad)
}
"""
