package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"math"
	"os"
	"regexp"
	"strconv"
	"strings"

	"github.com/signintech/gopdf"
)

const fontPath = "test/res/LiberationSerif-Regular.ttf"

// expect ends the demonstration with status 1 if cond does not hold
func expect(cond bool, format string, args ...interface{}) {
	if !cond {
		fmt.Printf("BROKEN: "+format+"\n", args...)
		os.Exit(1)
	}
}

func must(err error) {
	if err != nil {
		fmt.Println("BROKEN: unexpected error:", err)
		os.Exit(1)
	}
}

func near(a, b float64) bool { return math.Abs(a-b) < 0.02 }

// start returns a started document with A4 pages in points and a font F of size 14
func start(cfg ...gopdf.Config) *gopdf.GoPdf {
	c := gopdf.Config{PageSize: *gopdf.PageSizeA4}
	if len(cfg) > 0 {
		c = cfg[0]
	}
	gp := &gopdf.GoPdf{}
	gp.Start(c)
	must(gp.AddTTFFont("F", fontPath))
	must(gp.SetFont("F", "", 14))
	gp.SetNoCompression()
	return gp
}

func output(gp *gopdf.GoPdf) []byte {
	b, err := gp.GetBytesPdfReturnErr()
	must(err)
	return b
}

type object struct {
	dict   string
	raw    []byte
	stream []byte // inflated
}

// objects reads the file by its cross-reference table
func objects(b []byte) map[int]object {
	i := bytes.LastIndex(b, []byte("startxref\n"))
	expect(i > 0, "no startxref")
	off, err := strconv.Atoi(strings.Fields(string(b[i+10:]))[0])
	must(err)
	lines := strings.Split(string(b[off:]), "\n")
	expect(lines[0] == "xref", "startxref does not lead to xref")
	n, _ := strconv.Atoi(strings.Fields(lines[1])[1])
	res := map[int]object{}
	for k := 1; k < n; k++ {
		o, _ := strconv.Atoi(strings.Fields(lines[2+k])[0])
		head := fmt.Sprintf("%d 0 obj\n", k)
		expect(o+len(head) < len(b) && string(b[o:o+len(head)]) == head, "object %d is not at its offset", k)
		rest := b[o+len(head):]
		end := bytes.Index(rest, []byte("endobj"))
		st := bytes.Index(rest, []byte("stream\n"))
		if st < 0 || (end >= 0 && end < st) {
			res[k] = object{dict: string(rest[:end])}
			continue
		}
		ob := object{dict: string(rest[:st])}
		l, err := strconv.Atoi(regexp.MustCompile(`/Length (\d+)`).FindStringSubmatch(ob.dict)[1])
		must(err)
		ob.raw = rest[st+7 : st+7+l]
		ob.stream = ob.raw
		tail := strings.TrimLeft(string(rest[st+7+l:st+7+l+12]), "\n")
		expect(strings.HasPrefix(tail, "endstream"), "length of object %d is wrong", k)
		if strings.Contains(ob.dict, "/FlateDecode") {
			if z, err := zlib.NewReader(bytes.NewReader(ob.raw)); err == nil {
				if s, err := io.ReadAll(z); err == nil {
					ob.stream = s
				}
			}
		}
		res[k] = ob
	}
	return res
}

func refs(s string) []int {
	var out []int
	for _, m := range regexp.MustCompile(`(\d+) 0 R`).FindAllStringSubmatch(s, -1) {
		n, _ := strconv.Atoi(m[1])
		out = append(out, n)
	}
	return out
}

func after(s, key string) string {
	i := strings.Index(s, key)
	if i < 0 {
		return ""
	}
	return s[i+len(key):]
}

type pageInfo struct {
	id            int
	dict, content string
}

// pages returns the pages in the order of the page tree
func pages(b []byte) []pageInfo {
	obs := objects(b)
	kids := after(obs[2].dict, "/Kids [")
	kids = kids[:strings.Index(kids, "]")]
	var out []pageInfo
	for _, k := range refs(kids) {
		p := pageInfo{id: k, dict: obs[k].dict}
		cont := after(p.dict, "/Contents")
		if cont != "" {
			for _, c := range refs(strings.SplitN(cont, "\n", 2)[0]) {
				p.content += string(obs[c].stream)
			}
		}
		out = append(out, p)
	}
	return out
}

// nums returns all numbers of s
func nums(s string) []float64 {
	var out []float64
	for _, m := range regexp.MustCompile(`-?\d+(\.\d+)?`).FindAllString(s, -1) {
		f, _ := strconv.ParseFloat(m, 64)
		out = append(out, f)
	}
	return out
}

// find returns the numbers of all matches of the expression
func find(s, expr string) [][]float64 {
	var out [][]float64
	for _, m := range regexp.MustCompile(expr).FindAllStringSubmatch(s, -1) {
		var l []float64
		for _, x := range m[1:] {
			f, _ := strconv.ParseFloat(x, 64)
			l = append(l, f)
		}
		out = append(out, l)
	}
	return out
}

const num = `(-?[0-9.]+)`
