package main

// An independent reader of PDF files: it takes bytes and reports what they hold, without any code of gopdf.

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"strconv"
	"strings"
)

type Name string
type Num struct{ S string }
type Str struct{ B []byte }
type Ref struct{ ID, Gen int }
type Arr []interface{}
type Dict struct {
	K []string
	M map[string]interface{}
}
type Null struct{}

type Obj struct {
	ID, Gen int
	V       interface{}
	HasStm  bool
	Raw     []byte // raw stream bytes as found between stream and endstream
	Decl    int    // declared length, -1 if none
	Act     int    // real number of bytes
	Ended   bool   // endobj present
	Problem string
}

type XEnt struct {
	ID, Off, Gen int
	N            bool
}

type PDF struct {
	B        []byte
	Problems []string
	StartX   int
	XPos     int
	Ents     []XEnt
	Trailer  *Dict
	Objs     map[int]*Obj
	Order    []int
	Enc      *encState
}

func isWS(c byte) bool {
	return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32
}
func isDelim(c byte) bool { return strings.IndexByte("()<>[]{}/%", c) >= 0 }

type lexer struct {
	b []byte
	p int
}

func (l *lexer) ws() {
	for l.p < len(l.b) {
		c := l.b[l.p]
		if isWS(c) {
			l.p++
		} else if c == '%' {
			for l.p < len(l.b) && l.b[l.p] != 10 && l.b[l.p] != 13 {
				l.p++
			}
		} else {
			return
		}
	}
}

type op string // keyword

func (l *lexer) token() (interface{}, error) {
	l.ws()
	if l.p >= len(l.b) {
		return nil, io.EOF
	}
	c := l.b[l.p]
	switch {
	case c == '/':
		l.p++
		var out []byte
		for l.p < len(l.b) && !isWS(l.b[l.p]) && !isDelim(l.b[l.p]) {
			ch := l.b[l.p]
			if ch == '#' && l.p+2 < len(l.b) {
				if v, err := strconv.ParseUint(string(l.b[l.p+1:l.p+3]), 16, 8); err == nil {
					out = append(out, byte(v))
					l.p += 3
					continue
				}
			}
			out = append(out, ch)
			l.p++
		}
		return Name(out), nil
	case c == '(':
		return l.litString()
	case c == '<':
		if l.p+1 < len(l.b) && l.b[l.p+1] == '<' {
			l.p += 2
			return op("<<"), nil
		}
		l.p++
		var hex []byte
		for {
			if l.p >= len(l.b) {
				return nil, fmt.Errorf("unterminated hex string")
			}
			ch := l.b[l.p]
			l.p++
			if ch == '>' {
				break
			}
			if isWS(ch) {
				continue
			}
			if !((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F')) {
				return nil, fmt.Errorf("bad hex digit %q", ch)
			}
			hex = append(hex, ch)
		}
		if len(hex)%2 == 1 {
			hex = append(hex, '0')
		}
		out := make([]byte, len(hex)/2)
		for i := range out {
			v, _ := strconv.ParseUint(string(hex[2*i:2*i+2]), 16, 8)
			out[i] = byte(v)
		}
		return Str{out}, nil
	case c == '>':
		if l.p+1 < len(l.b) && l.b[l.p+1] == '>' {
			l.p += 2
			return op(">>"), nil
		}
		return nil, fmt.Errorf("stray >")
	case c == '[' || c == ']' || c == '{' || c == '}':
		l.p++
		return op(string(c)), nil
	case c == ')':
		return nil, fmt.Errorf("stray )")
	}
	s := l.p
	for l.p < len(l.b) && !isWS(l.b[l.p]) && !isDelim(l.b[l.p]) {
		l.p++
	}
	t := string(l.b[s:l.p])
	if isNumber(t) {
		return Num{t}, nil
	}
	return op(t), nil
}

func isNumber(t string) bool {
	i := 0
	if i < len(t) && (t[i] == '+' || t[i] == '-') {
		i++
	}
	d, dots := 0, 0
	for ; i < len(t); i++ {
		if t[i] >= '0' && t[i] <= '9' {
			d++
		} else if t[i] == '.' {
			dots++
		} else {
			return false
		}
	}
	return d > 0 && dots <= 1
}

func (l *lexer) litString() (interface{}, error) {
	l.p++
	depth := 1
	var out []byte
	for {
		if l.p >= len(l.b) {
			return nil, fmt.Errorf("unterminated string")
		}
		c := l.b[l.p]
		l.p++
		switch c {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return Str{out}, nil
			}
		case '\\':
			if l.p >= len(l.b) {
				return nil, fmt.Errorf("unterminated string")
			}
			e := l.b[l.p]
			l.p++
			switch e {
			case 'n':
				out = append(out, 10)
			case 'r':
				out = append(out, 13)
			case 't':
				out = append(out, 9)
			case 'b':
				out = append(out, 8)
			case 'f':
				out = append(out, 12)
			case 10:
			case 13:
				if l.p < len(l.b) && l.b[l.p] == 10 {
					l.p++
				}
			default:
				if e >= '0' && e <= '7' {
					v := int(e - '0')
					for k := 0; k < 2 && l.p < len(l.b) && l.b[l.p] >= '0' && l.b[l.p] <= '7'; k++ {
						v = v*8 + int(l.b[l.p]-'0')
						l.p++
					}
					out = append(out, byte(v))
				} else {
					out = append(out, e)
				}
			}
			continue
		case 13: // end of line in a literal string is read as newline
			if l.p < len(l.b) && l.b[l.p] == 10 {
				l.p++
			}
			c = 10
		}
		out = append(out, c)
	}
}

// value parses one object; refs are recognised.
func (l *lexer) value() (interface{}, error) {
	t, err := l.token()
	if err != nil {
		return nil, err
	}
	return l.valueFrom(t)
}

func (l *lexer) valueFrom(t interface{}) (interface{}, error) {
	switch v := t.(type) {
	case Num:
		if strings.IndexByte(v.S, '.') < 0 {
			save := l.p
			t2, err := l.token()
			if n2, ok := t2.(Num); err == nil && ok && strings.IndexByte(n2.S, '.') < 0 {
				t3, err := l.token()
				if o, ok := t3.(op); err == nil && ok && o == "R" {
					a, _ := strconv.Atoi(v.S)
					g, _ := strconv.Atoi(n2.S)
					return Ref{a, g}, nil
				}
			}
			l.p = save
		}
		return v, nil
	case op:
		switch v {
		case "<<":
			d := &Dict{M: map[string]interface{}{}}
			for {
				k, err := l.token()
				if err != nil {
					return nil, err
				}
				if o, ok := k.(op); ok && o == ">>" {
					return d, nil
				}
				kn, ok := k.(Name)
				if !ok {
					return nil, fmt.Errorf("dictionary key %v is not a name", k)
				}
				val, err := l.value()
				if err != nil {
					return nil, err
				}
				if _, dup := d.M[string(kn)]; dup {
					return nil, fmt.Errorf("duplicate key %s", kn)
				}
				d.K = append(d.K, string(kn))
				d.M[string(kn)] = val
			}
		case "[":
			var a Arr
			for {
				t, err := l.token()
				if err != nil {
					return nil, err
				}
				if o, ok := t.(op); ok && o == "]" {
					if a == nil {
						a = Arr{}
					}
					return a, nil
				}
				val, err := l.valueFrom(t)
				if err != nil {
					return nil, err
				}
				a = append(a, val)
			}
		case "true":
			return true, nil
		case "false":
			return false, nil
		case "null":
			return Null{}, nil
		}
		return nil, fmt.Errorf("unexpected keyword %q", string(v))
	}
	return t, nil
}

func (p *PDF) bad(f string, a ...interface{}) {
	if len(p.Problems) < 20 {
		p.Problems = append(p.Problems, fmt.Sprintf(f, a...))
	}
}

// ParsePDF reads a whole file strictly: the cross-reference table at startxref and the objects it lists.
func ParsePDF(b []byte) *PDF {
	p := &PDF{B: b, Objs: map[int]*Obj{}, StartX: -1, XPos: -1}
	if !bytes.HasPrefix(b, []byte("%PDF-1.")) {
		p.bad("no header")
	}
	tail := len(b) - 64
	if tail < 0 {
		tail = 0
	}
	if !bytes.HasSuffix(bytes.TrimRight(b[tail:], "\r\n "), []byte("%%EOF")) {
		p.bad("no EOF marker at the end")
	}
	i := bytes.LastIndex(b, []byte("startxref"))
	if i < 0 {
		p.bad("no startxref")
		return p
	}
	l := &lexer{b, i + len("startxref")}
	t, _ := l.token()
	if n, ok := t.(Num); ok {
		p.StartX, _ = strconv.Atoi(n.S)
	} else {
		p.bad("startxref without number")
		return p
	}
	if p.StartX < 0 || p.StartX+4 > len(b) || string(b[p.StartX:p.StartX+4]) != "xref" {
		p.bad("startxref does not point at xref")
		return p
	}
	p.XPos = p.StartX
	l = &lexer{b, p.StartX + 4}
	for {
		save := l.p
		t, err := l.token()
		if err != nil {
			p.bad("xref: %v", err)
			return p
		}
		if o, ok := t.(op); ok && o == "trailer" {
			break
		}
		l.p = save
		first, e1 := l.intTok()
		count, e2 := l.intTok()
		if e1 != nil || e2 != nil {
			p.bad("xref subsection header")
			return p
		}
		l.ws()
		for k := 0; k < count; k++ {
			if l.p+20 > len(b) {
				p.bad("xref entry truncated")
				return p
			}
			e := string(b[l.p : l.p+20])
			off, err1 := strconv.Atoi(e[0:10])
			gen, err2 := strconv.Atoi(e[11:16])
			eol := e[18:20]
			if err1 != nil || err2 != nil || e[10] != ' ' || e[16] != ' ' || (e[17] != 'n' && e[17] != 'f') ||
				!(eol == " \n" || eol == " \r" || eol == "\r\n") {
				p.bad("xref entry %d malformed", first+k)
				return p
			}
			p.Ents = append(p.Ents, XEnt{first + k, off, gen, e[17] == 'n'})
			l.p += 20
		}
	}
	v, err := l.value()
	if err != nil {
		p.bad("trailer: %v", err)
		return p
	}
	d, ok := v.(*Dict)
	if !ok {
		p.bad("trailer is no dictionary")
		return p
	}
	p.Trailer = d
	for _, e := range p.Ents {
		if !e.N {
			continue
		}
		o := p.parseObj(e.Off)
		if o == nil {
			p.bad("entry %d: no object at its offset", e.ID)
			continue
		}
		if o.ID != e.ID || o.Gen != e.Gen {
			p.bad("entry %d: object %d %d at its offset", e.ID, o.ID, o.Gen)
			continue
		}
		if o.Problem != "" {
			p.bad("object %d: %s", o.ID, o.Problem)
		}
		if _, dup := p.Objs[o.ID]; dup {
			p.bad("object %d listed twice", o.ID)
		}
		p.Objs[o.ID] = o
		p.Order = append(p.Order, o.ID)
	}
	return p
}

func (l *lexer) intTok() (int, error) {
	t, err := l.token()
	if err != nil {
		return 0, err
	}
	if n, ok := t.(Num); ok {
		return strconv.Atoi(n.S)
	}
	return 0, fmt.Errorf("not a number")
}

func (p *PDF) parseObj(off int) *Obj {
	if off < 0 || off >= len(p.B) {
		return nil
	}
	if isWS(p.B[off]) || (off > 0 && p.B[off-1] >= '0' && p.B[off-1] <= '9') {
		return nil // not the exact offset
	}
	l := &lexer{p.B, off}
	id, e1 := l.intTok()
	gen, e2 := l.intTok()
	t, e3 := l.token()
	if e1 != nil || e2 != nil || e3 != nil {
		return nil
	}
	if o, ok := t.(op); !ok || o != "obj" {
		return nil
	}
	o := &Obj{ID: id, Gen: gen, Decl: -1}
	v, err := l.value()
	if err != nil {
		o.Problem = err.Error()
		return o
	}
	o.V = v
	t, err = l.token()
	if err != nil {
		o.Problem = "not ended"
		return o
	}
	if k, ok := t.(op); ok && k == "stream" {
		o.HasStm = true
		d, isd := v.(*Dict)
		if !isd {
			o.Problem = "stream without dictionary"
			return o
		}
		if l.p < len(p.B) && p.B[l.p] == '\r' {
			l.p++
		}
		if l.p < len(p.B) && p.B[l.p] == '\n' {
			l.p++
		} else {
			o.Problem = "stream keyword not followed by a line end"
			return o
		}
		start := l.p
		switch n := d.M["Length"].(type) {
		case Num:
			o.Decl, _ = strconv.Atoi(n.S)
		case Ref:
			if lo := p.lenOf(n.ID); lo >= 0 {
				o.Decl = lo
			}
		}
		if o.Decl < 0 || start+o.Decl > len(p.B) {
			o.Problem = "bad stream length"
			return o
		}
		o.Raw = p.B[start : start+o.Decl]
		// the real end: endstream right after, optionally after one line end
		q := start + o.Decl
		rest := p.B[q:]
		k := 0
		if bytes.HasPrefix(rest, []byte("\r\n")) {
			k = 2
		} else if len(rest) > 0 && (rest[0] == '\n' || rest[0] == '\r') {
			k = 1
		}
		if bytes.HasPrefix(rest[k:], []byte("endstream")) {
			o.Act = o.Decl
			l.p = q + k + len("endstream")
		} else {
			j := bytes.Index(p.B[start:], []byte("endstream"))
			o.Act = j
			if j < 0 {
				o.Problem = "no endstream"
				return o
			}
			o.Problem = fmt.Sprintf("stream length %d but endstream after %d", o.Decl, j)
			l.p = start + j + len("endstream")
		}
		t, err = l.token()
		if err != nil {
			o.Problem = "not ended"
			return o
		}
	}
	if k, ok := t.(op); ok && k == "endobj" {
		o.Ended = true
	} else {
		o.Problem = fmt.Sprintf("%v instead of endobj", t)
	}
	return o
}

func (p *PDF) lenOf(id int) int {
	for _, e := range p.Ents {
		if e.ID == id && e.N {
			l := &lexer{p.B, e.Off}
			l.intTok()
			l.intTok()
			l.token()
			if n, err := l.intTok(); err == nil {
				return n
			}
		}
	}
	return -1
}

// ---- access helpers

func (p *PDF) res(v interface{}) interface{} {
	for i := 0; i < 8; i++ {
		r, ok := v.(Ref)
		if !ok {
			return v
		}
		o := p.Objs[r.ID]
		if o == nil {
			return nil
		}
		v = o.V
	}
	return nil
}
func (p *PDF) dict(v interface{}) *Dict {
	d, _ := p.res(v).(*Dict)
	return d
}
func (p *PDF) arr(v interface{}) Arr {
	a, _ := p.res(v).(Arr)
	return a
}
func (d *Dict) get(k string) interface{} {
	if d == nil {
		return nil
	}
	return d.M[k]
}
func nameOf(v interface{}) string {
	n, _ := v.(Name)
	return string(n)
}
func refID(v interface{}) int {
	if r, ok := v.(Ref); ok {
		return r.ID
	}
	return 0
}
func (p *PDF) intOf(v interface{}, def int) int {
	if n, ok := p.res(v).(Num); ok {
		if f, err := strconv.ParseFloat(n.S, 64); err == nil {
			return int(f)
		}
	}
	return def
}

// scaled reads a decimal numeral exactly and returns it times 10^d, rounded half away, clamped to 31 bits.
func scaled(s string, d int) int {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	ip, fp := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		ip, fp = s[:i], s[i+1:]
	}
	var v int64
	lim := int64(2000000000)
	for i := 0; i < len(ip); i++ {
		v = v*10 + int64(ip[i]-'0')
		if v > lim {
			v = lim
		}
	}
	for i := 0; i < d; i++ {
		c := int64(0)
		if i < len(fp) {
			c = int64(fp[i] - '0')
		}
		v = v*10 + c
		if v > lim {
			v = lim
		}
	}
	if len(fp) > d && fp[d] >= '5' && v < lim {
		v++
	}
	if neg {
		v = -v
	}
	return int(v)
}
func (p *PDF) sc(v interface{}, d int) int {
	if n, ok := p.res(v).(Num); ok {
		return scaled(n.S, d)
	}
	return 0
}
func (p *PDF) scArr(v interface{}, d int) []int {
	out := []int{}
	for _, e := range p.arr(v) {
		out = append(out, p.sc(e, d))
	}
	return out
}

// data returns the decoded bytes of a stream (decrypted, filters undone except image codecs).
func (p *PDF) data(o *Obj) ([]byte, []string, error) {
	b := o.Raw
	if p.Enc != nil {
		b = p.Enc.decrypt(o.ID, b)
	}
	d, _ := o.V.(*Dict)
	var filters []string
	var parms []*Dict
	switch f := p.res(d.get("Filter")).(type) {
	case Name:
		filters = []string{string(f)}
		parms = []*Dict{p.dict(d.get("DecodeParms"))}
	case Arr:
		pa := p.arr(d.get("DecodeParms"))
		for i, e := range f {
			filters = append(filters, nameOf(p.res(e)))
			var dp *Dict
			if i < len(pa) {
				dp = p.dict(pa[i])
			}
			parms = append(parms, dp)
		}
	}
	var left []string
	for i, f := range filters {
		switch f {
		case "FlateDecode":
			zr, err := zlib.NewReader(bytes.NewReader(b))
			if err != nil {
				return nil, nil, fmt.Errorf("flate: %v", err)
			}
			out, err := io.ReadAll(zr)
			if err != nil {
				return nil, nil, fmt.Errorf("flate: %v", err)
			}
			b = out
			if parms[i] != nil && p.intOf(parms[i].get("Predictor"), 1) >= 10 {
				b, err = pngPredict(b, p.intOf(parms[i].get("Columns"), 1), p.intOf(parms[i].get("Colors"), 1), p.intOf(parms[i].get("BitsPerComponent"), 8))
				if err != nil {
					return nil, nil, err
				}
			}
		default:
			left = append(left, f)
		}
	}
	return b, left, nil
}

func pngPredict(b []byte, cols, colors, bpc int) ([]byte, error) {
	row := (cols*colors*bpc + 7) / 8
	bpp := (colors*bpc + 7) / 8
	var out []byte
	prev := make([]byte, row)
	for len(b) > 0 {
		if len(b) < row+1 {
			return nil, fmt.Errorf("predictor: short row")
		}
		ft := b[0]
		cur := append([]byte(nil), b[1:row+1]...)
		b = b[row+1:]
		for i := range cur {
			var a, up, ul int
			if i >= bpp {
				a = int(cur[i-bpp])
				ul = int(prev[i-bpp])
			}
			up = int(prev[i])
			switch ft {
			case 0:
			case 1:
				cur[i] += byte(a)
			case 2:
				cur[i] += byte(up)
			case 3:
				cur[i] += byte((a + up) / 2)
			case 4:
				pa, pb, pc := abs(up-ul), abs(a-ul), abs(a+up-2*ul)
				pr := ul
				if pa <= pb && pa <= pc {
					pr = a
				} else if pb <= pc {
					pr = up
				}
				cur[i] += byte(pr)
			default:
				return nil, fmt.Errorf("predictor: filter %d", ft)
			}
		}
		out = append(out, cur...)
		prev = cur
	}
	return out, nil
}
func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}
