package main

// Turns the bytes of one output into the event the specification judges.

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"image"
	"image/color"
	_ "image/gif"
	"image/jpeg"
	_ "image/png"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
)

type J = map[string]interface{}

func hash(b []byte) string {
	s := sha1.Sum(b)
	return hex.EncodeToString(s[:8])
}

func kindOf(o *Obj) string {
	switch v := o.V.(type) {
	case *Dict:
		t, s := nameOf(v.get("Type")), nameOf(v.get("Subtype"))
		switch {
		case t == "" && nameOf(v.get("Filter")) == "Standard":
			return "Encrypt"
		case t == "" && v.get("Title") != nil && v.get("Parent") != nil:
			return "OutlineItem"
		case t == "" && v.get("ProcSet") != nil:
			return "Resources"
		case o.HasStm && t == "" && s == "Form":
			return "XObject/Form"
		case o.HasStm && t == "" && s == "Image":
			return "XObject/Image"
		case t == "Font" || t == "XObject":
			return t + "/" + s
		case t != "":
			return t
		case o.HasStm:
			return "stream"
		case v.get("S") != nil && v.get("TransparencyXObjectGroup") != nil:
			return "Mask"
		case nameOf(v.get("S")) == "Luminosity" || nameOf(v.get("S")) == "Alpha":
			return "Mask"
		}
		return "dict"
	case Arr:
		if len(v) > 0 && nameOf(v[0]) != "" {
			return "array/" + nameOf(v[0])
		}
		return "array"
	case Num:
		return "number"
	case Str:
		return "string"
	case Null:
		return "null"
	}
	return "other"
}

func refsOf(v interface{}, key, ctx string, out *[]interface{}) {
	switch x := v.(type) {
	case Ref:
		k := key
		if ctx != "" {
			k = ctx
		}
		*out = append(*out, []interface{}{k, x.ID})
	case Arr:
		for _, e := range x {
			refsOf(e, key, ctx, out)
		}
	case *Dict:
		c := ""
		switch key {
		case "Font", "XObject", "ExtGState", "ColorSpace":
			c = "in:" + key
		}
		for _, k := range x.K {
			refsOf(x.M[k], k, c, out)
		}
	}
}

func (p *PDF) encryption() *encInfo {
	if p.Trailer == nil {
		return nil
	}
	d := p.dict(p.Trailer.get("Encrypt"))
	if d == nil {
		return nil
	}
	e := &encInfo{Filter: nameOf(d.get("Filter")), V: p.intOf(d.get("V"), 0), R: p.intOf(d.get("R"), 0), P: p.intOf(d.get("P"), 0)}
	if s, ok := d.get("O").(Str); ok {
		e.O = s.B
	}
	if s, ok := d.get("U").(Str); ok {
		e.U = s.B
	}
	if a := p.arr(p.Trailer.get("ID")); len(a) > 0 {
		if s, ok := a[0].(Str); ok {
			e.ID = s.B
		}
	}
	return e
}

func (p *PDF) str(v interface{}, objID int) []byte {
	if s, ok := v.(Str); ok {
		if p.Enc != nil && objID > 0 {
			return p.Enc.decrypt(objID, s.B)
		}
		return s.B
	}
	return nil
}

func textCodes(b []byte) []int {
	out := []int{}
	if len(b) >= 2 && b[0] == 0xFE && b[1] == 0xFF {
		var u []uint16
		for i := 2; i+1 < len(b); i += 2 {
			u = append(u, uint16(b[i])<<8|uint16(b[i+1]))
		}
		if len(b)%2 == 1 {
			out = append(out, -1)
		}
		for i := 0; i < len(u); i++ {
			if u[i] >= 0xD800 && u[i] < 0xDC00 && i+1 < len(u) && u[i+1] >= 0xDC00 && u[i+1] < 0xE000 {
				out = append(out, int(utf16.DecodeRune(rune(u[i]), rune(u[i+1]))))
				i++
			} else if u[i] >= 0xD800 && u[i] < 0xE000 {
				out = append(out, -2) // lone surrogate
			} else {
				out = append(out, int(u[i]))
			}
		}
		return out
	}
	out = append(out, -3) // not a UTF-16 text string
	for _, c := range b {
		out = append(out, int(c))
	}
	return out
}

// tokens of a content stream; numbers times 1e5 (TJ numbers times 100)
func contentOps(b []byte) (ops []interface{}, problem string) {
	ops = []interface{}{}
	l := &lexer{b, 0}
	var args []interface{}
	for {
		l.ws()
		if l.p >= len(l.b) {
			break
		}
		t, err := l.token()
		if err != nil {
			return ops, "content: " + err.Error()
		}
		o, isop := t.(op)
		if isop && o != "[" && o != "<<" && o != "true" && o != "false" && o != "null" {
			if o == "BI" || o == "]" || o == ">>" || o == "{" || o == "}" {
				return ops, "content: unexpected " + string(o)
			}
			rec := J{"o": string(o), "a": []int{}, "n": "", "t": []int{}, "k": []int{}}
			nums := []int{}
			for _, a := range args {
				switch x := a.(type) {
				case Num:
					nums = append(nums, scaled(x.S, 5))
				case Name:
					rec["n"] = string(x)
				case Str:
					if o == "Tj" {
						codes(x.B, rec)
					}
				case Arr:
					if o == "TJ" {
						tk, kk := []int{}, []int{}
						pend := 0
						for _, e := range x {
							switch y := e.(type) {
							case Num:
								pend += scaled(y.S, 2)
							case Str:
								for i := 0; i+1 < len(y.B); i += 2 {
									tk = append(tk, int(y.B[i])<<8|int(y.B[i+1]))
									kk = append(kk, pend)
									pend = 0
								}
								if len(y.B)%2 == 1 {
									return ops, "content: odd number of bytes in text"
								}
							}
						}
						tk = append(tk, -1) // trailing adjustment
						kk = append(kk, pend)
						rec["t"], rec["k"] = tk, kk
					} else if o == "d" {
						dd := []int{}
						for _, e := range x {
							if n, ok := e.(Num); ok {
								dd = append(dd, scaled(n.S, 5))
							}
						}
						rec["t"] = dd
					}
				}
			}
			rec["a"] = nums
			ops = append(ops, rec)
			args = nil
			continue
		}
		v, err := l.valueFrom2(t)
		if err != nil {
			return ops, "content: " + err.Error()
		}
		args = append(args, v)
	}
	if len(args) > 0 {
		return ops, "content: operands left over"
	}
	return ops, ""
}

// valueFrom2 is valueFrom without references.
func (l *lexer) valueFrom2(t interface{}) (interface{}, error) {
	if o, ok := t.(op); ok && o == "[" {
		a := Arr{}
		for {
			t, err := l.token()
			if err != nil {
				return nil, err
			}
			if o, ok := t.(op); ok && o == "]" {
				return a, nil
			}
			v, err := l.valueFrom2(t)
			if err != nil {
				return nil, err
			}
			a = append(a, v)
		}
	}
	if _, ok := t.(Num); ok {
		return t, nil
	}
	return l.valueFrom(t)
}

func codes(b []byte, rec J) {
	tk, kk := []int{}, []int{}
	for i := 0; i+1 < len(b); i += 2 {
		tk = append(tk, int(b[i])<<8|int(b[i+1]))
		kk = append(kk, 0)
	}
	tk = append(tk, -1)
	kk = append(kk, 0)
	rec["t"], rec["k"] = tk, kk
}

// ---- images

type pix struct {
	w, h int
	rgb  []byte // 3 bytes per pixel
	gray []byte // for grayscale data only, 1 byte per pixel
}

func pixOf(img image.Image) (rgb, alpha []byte, hasAlpha bool) {
	b := img.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			c := color.NRGBAModel.Convert(img.At(x, y)).(color.NRGBA)
			rgb = append(rgb, c.R, c.G, c.B)
			alpha = append(alpha, c.A)
			if c.A != 255 {
				hasAlpha = true
			}
		}
	}
	return
}

func (p *PDF) imagePix(o *Obj) (J, string) {
	d := o.V.(*Dict)
	w, h := p.intOf(d.get("Width"), 0), p.intOf(d.get("Height"), 0)
	b, left, err := p.data(o)
	if err != nil {
		return nil, err.Error()
	}
	bpc := p.intOf(d.get("BitsPerComponent"), 8)
	var rgb []byte
	var raw [][4]int // samples as stored, for colour key masks
	csv := p.res(d.get("ColorSpace"))
	csname := nameOf(csv)
	dec := ""
	if a := p.arr(d.get("Decode")); a != nil {
		for _, e := range a {
			if n, ok := e.(Num); ok {
				dec += n.S + " "
			}
		}
	}
	if len(left) > 0 {
		if left[0] != "DCTDecode" {
			return nil, "unknown filter " + left[0]
		}
		img, err := jpeg.Decode(bytes.NewReader(b))
		if err != nil {
			return nil, err.Error()
		}
		if img.Bounds().Dx() != w || img.Bounds().Dy() != h {
			return nil, "jpeg size differs from the dictionary"
		}
		want := "DeviceRGB"
		switch img.(type) {
		case *image.Gray:
			want = "DeviceGray"
		case *image.CMYK:
			want = "DeviceCMYK"
		}
		if csname != want {
			return nil, "jpeg of " + want + " in " + csname
		}
		rgb, _, _ = pixOf(img)
	} else {
		ncomp := 1
		var pal []byte
		switch cs := csv.(type) {
		case Name:
			switch cs {
			case "DeviceRGB":
				ncomp = 3
			case "DeviceGray":
				ncomp = 1
			case "DeviceCMYK":
				ncomp = 4
			default:
				return nil, "colour space " + string(cs)
			}
		case Arr:
			if len(cs) == 4 && nameOf(cs[0]) == "Indexed" {
				if s, ok := cs[3].(Str); ok {
					pal = p.str(s, o.ID)
				} else if r, ok := cs[3].(Ref); ok && p.Objs[r.ID] != nil && p.Objs[r.ID].HasStm {
					pal, _, err = p.data(p.Objs[r.ID])
					if err != nil {
						return nil, err.Error()
					}
				}
				hival := p.intOf(cs[2], -1)
				if hival < 0 || hival > 255 || len(pal) < 3*(hival+1) {
					return nil, "palette too short"
				}
				pal = pal[:3*(hival+1)]
			} else {
				return nil, "colour space array"
			}
		default:
			return nil, "no colour space"
		}
		row := (w*ncomp*bpc + 7) / 8
		if len(b) < row*h {
			return nil, fmt.Sprintf("image data too short: %d of %d", len(b), row*h)
		}
		for y := 0; y < h; y++ {
			r := b[y*row : (y+1)*row]
			for x := 0; x < w; x++ {
				var c [4]int
				for k := 0; k < ncomp; k++ {
					bit := (x*ncomp + k) * bpc
					switch bpc {
					case 8:
						c[k] = int(r[bit/8])
					case 16:
						c[k] = int(r[bit/8])
					default:
						c[k] = int(r[bit/8]>>(8-uint(bit%8)-uint(bpc))) & (1<<uint(bpc) - 1)
					}
				}
				raw = append(raw, c)
				for k := 0; k < ncomp && bpc < 8 && pal == nil; k++ {
					c[k] = c[k] * 255 / (1<<uint(bpc) - 1)
				}
				switch {
				case pal != nil:
					if 3*c[0]+2 >= len(pal) {
						return nil, "palette index"
					}
					rgb = append(rgb, pal[3*c[0]], pal[3*c[0]+1], pal[3*c[0]+2])
				case ncomp == 3:
					rgb = append(rgb, byte(c[0]), byte(c[1]), byte(c[2]))
				case ncomp == 1:
					rgb = append(rgb, byte(c[0]), byte(c[0]), byte(c[0]))
				default:
					rgb = append(rgb, byte(c[0]), byte(c[1]), byte(c[2]), byte(c[3]))
				}
			}
		}
	}
	res := J{"w": w, "h": h, "pix": hash(append(rgb, []byte(dec)...)), "alpha": "none"}
	if a, ok := d.get("Mask").(Arr); ok {
		if len(raw) != w*h || len(a)%2 != 0 || len(a) == 0 {
			return nil, "colour key mask"
		}
		ar, has := []byte{}, false
		for _, c := range raw {
			v := byte(0)
			for k := 0; 2*k+1 < len(a) && k < 4; k++ {
				if c[k] < p.intOf(a[2*k], -1) || c[k] > p.intOf(a[2*k+1], -1) {
					v = 255
				}
			}
			has = has || v == 0
			ar = append(ar, v, v, v)
		}
		if has {
			res["alpha"] = hash(ar)
		}
	}
	if r, ok := d.get("SMask").(Ref); ok {
		so := p.Objs[r.ID]
		if so == nil || !so.HasStm {
			return nil, "soft mask missing"
		}
		sj, e := p.imagePix(so)
		if e != "" {
			return nil, "soft mask: " + e
		}
		if nameOf(p.res(so.V.(*Dict).get("ColorSpace"))) != "DeviceGray" {
			return nil, "soft mask not gray"
		}
		if sj["w"] != w || sj["h"] != h {
			return nil, "soft mask of another size"
		}
		res["alpha"] = sj["pix"]
	}
	return res, ""
}

// srcImage is what the specification is told about a source image.
func srcImage(b []byte) (J, error) {
	img, format, err := image.Decode(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	rgb, alpha, has := pixOf(img)
	w, h := img.Bounds().Dx(), img.Bounds().Dy()
	dec := ""
	if _, ok := img.(*image.CMYK); ok {
		dec = "1 0 1 0 1 0 1 0 "
	}
	ar := []byte{}
	for _, a := range alpha {
		ar = append(ar, a, a, a)
	}
	ah := "none"
	if has {
		ah = hash(ar)
	}
	return J{"w": w, "h": h, "pix": hash(append(rgb, []byte(dec)...)), "alpha": ah, "alphapix": hash(ar), "fmt": format}, nil
}

// ---- a digest of a value that does not depend on object numbers

func (p *PDF) deep(v interface{}, owner int, seen map[int]int) string {
	switch x := v.(type) {
	case Ref:
		o := p.Objs[x.ID]
		if o == nil {
			return "missing"
		}
		if n, ok := seen[x.ID]; ok {
			return fmt.Sprintf("back%d", n)
		}
		seen[x.ID] = len(seen)
		if o.HasStm {
			b, _, err := p.data(o)
			if err != nil {
				b = o.Raw
			}
			d := o.V.(*Dict)
			c := &Dict{M: map[string]interface{}{}}
			for _, k := range d.K {
				if k != "Length" && k != "Filter" && k != "DecodeParms" {
					c.K = append(c.K, k)
					c.M[k] = d.M[k]
				}
			}
			return "S" + p.deep(c, x.ID, seen) + hash(b)
		}
		return p.deep(o.V, x.ID, seen)
	case Arr:
		s := "["
		for _, e := range x {
			s += p.deep(e, owner, seen) + ","
		}
		return s + "]"
	case *Dict:
		ks := append([]string{}, x.K...)
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			if k == "Parent" || k == "P" {
				continue
			}
			s += k + ":" + p.deep(x.M[k], owner, seen) + ","
		}
		return s + "}"
	case Num:
		if f, err := strconv.ParseFloat(x.S, 64); err == nil {
			return strconv.FormatFloat(f, 'f', 3, 64)
		}
		return x.S
	case Str:
		return "(" + hex.EncodeToString(p.str(x, owner)) + ")"
	case Name:
		return "/" + string(x)
	}
	return fmt.Sprint(v)
}

func (p *PDF) pageContent(d *Dict) ([]byte, string) {
	var all []byte
	ids := []int{}
	switch c := d.get("Contents").(type) {
	case Ref:
		if o := p.Objs[c.ID]; o != nil && !o.HasStm {
			for _, e := range p.arr(c) {
				ids = append(ids, refID(e))
			}
		} else {
			ids = append(ids, c.ID)
		}
	case Arr:
		for _, e := range c {
			ids = append(ids, refID(e))
		}
	}
	for _, id := range ids {
		o := p.Objs[id]
		if o == nil || !o.HasStm {
			return nil, "contents missing"
		}
		b, left, err := p.data(o)
		if err != nil {
			return nil, err.Error()
		}
		if len(left) > 0 {
			return nil, "content filter"
		}
		all = append(all, b...)
		all = append(all, '\n')
	}
	return all, ""
}

// ---- fonts

func (p *PDF) fontRec(name string, id int, bad *[]string) J {
	say := func(f string, a ...interface{}) { *bad = append(*bad, "font "+name+": "+fmt.Sprintf(f, a...)) }
	r := J{"n": name, "id": id, "base": "", "w": []interface{}{}, "tu": []interface{}{}, "gl": []interface{}{}, "upem": 1000, "file": "", "fd": []int{}, "progs": ""}
	o := p.Objs[id]
	if o == nil {
		return r
	}
	d, _ := o.V.(*Dict)
	r["base"] = nameOf(d.get("BaseFont"))
	if nameOf(d.get("Encoding")) != "Identity-H" {
		say("encoding is not Identity-H")
	}
	df := p.arr(d.get("DescendantFonts"))
	if len(df) != 1 {
		say("descendant fonts")
		return r
	}
	cf := p.dict(df[0])
	if cf == nil {
		say("no descendant font")
		return r
	}
	if g, ok := cf.get("CIDToGIDMap").(Name); ok && g != "Identity" {
		say("CIDToGIDMap %s", g)
	}
	si := p.dict(cf.get("CIDSystemInfo"))
	if string(p.str(si.get("Registry"), refID(df[0]))) != "Adobe" || string(p.str(si.get("Ordering"), refID(df[0]))) != "Identity" && string(p.str(si.get("Ordering"), refID(df[0]))) != "UCS" {
		say("character collection %s %s", p.str(si.get("Registry"), refID(df[0])), p.str(si.get("Ordering"), refID(df[0])))
	}
	if p.intOf(si.get("Supplement"), -1) < 0 {
		say("no supplement number")
	}
	w := []interface{}{}
	wa := p.arr(cf.get("W"))
	for i := 0; i+1 < len(wa); {
		c := p.intOf(wa[i], -1)
		if a, ok := wa[i+1].(Arr); ok {
			for k, e := range a {
				w = append(w, []int{c + k, p.sc(e, 0)})
			}
			i += 2
		} else if i+2 < len(wa) {
			for k := c; k <= p.intOf(wa[i+1], -1); k++ {
				w = append(w, []int{k, p.sc(wa[i+2], 0)})
			}
			i += 3
		} else {
			say("bad W array")
			break
		}
	}
	r["w"] = w
	if tu := p.Objs[refID(d.get("ToUnicode"))]; tu != nil && tu.HasStm {
		b, _, err := p.data(tu)
		if err != nil {
			say("ToUnicode: %v", err)
		} else {
			m, e := parseCMap(b)
			if e != "" {
				say("ToUnicode: %s", e)
			}
			r["tu"] = m
		}
	} else {
		say("no ToUnicode")
	}
	fd := p.dict(cf.get("FontDescriptor"))
	if fd == nil {
		say("no descriptor")
		return r
	}
	if fl := p.intOf(fd.get("Flags"), 0); fl&4 != 0 == (fl&32 != 0) {
		say("flags %d", fl)
	}
	num := func(v interface{}) int {
		n := p.sc(v, 5)
		if n >= 0 {
			return (n + 50000) / 100000
		}
		return -((50000 - n) / 100000)
	}
	fdv := []int{}
	for _, k := range []string{"Ascent", "Descent", "CapHeight"} {
		fdv = append(fdv, num(fd.get(k)))
	}
	box := p.arr(fd.get("FontBBox"))
	if len(box) != 4 {
		say("no box")
		return r
	}
	for _, v := range box {
		fdv = append(fdv, num(v))
	}
	r["fd"] = append(fdv, num(fd.get("ItalicAngle")))
	if nameOf(fd.get("FontName")) != r["base"] || nameOf(cf.get("BaseFont")) != r["base"] {
		say("names differ")
	}
	ff := p.Objs[refID(fd.get("FontFile2"))]
	if ff == nil || !ff.HasStm {
		say("no font program")
		return r
	}
	b, _, err := p.data(ff)
	if err != nil {
		say("program: %v", err)
		return r
	}
	if l1 := p.intOf(ff.V.(*Dict).get("Length1"), -1); l1 != len(b) {
		say("Length1 %d of %d", l1, len(b))
	}
	t, err := ParseTTF(b)
	if err != nil {
		say("program: %v", err)
		return r
	}
	if e := t.directory(); e != "" {
		say("program: %s", e)
	}
	r["upem"], r["progs"] = t.upem, t.Progs
	r["file"] = hash(b)
	seen := map[int]bool{}
	gl := []interface{}{}
	add := func(c int) {
		if c < 0 || seen[c] {
			return
		}
		seen[c] = true
		if c >= t.nGlyphs {
			gl = append(gl, []interface{}{c, "outside", 0})
			return
		}
		adv := func() (a int) {
			defer func() {
				if recover() != nil {
					a = -1
				}
			}()
			return t.Adv(c)
		}()
		gl = append(gl, []interface{}{c, t.Outline(c), adv})
	}
	for _, e := range r["tu"].([]interface{}) {
		add(e.([]int)[0])
	}
	for _, e := range w {
		add(e.([]int)[0])
	}
	r["gl"] = gl
	return r
}

func parseCMap(b []byte) ([]interface{}, string) {
	out := []interface{}{}
	l := &lexer{b, 0}
	var st []interface{}
	var lo, hi []byte
	hasSpace := false
	declared, open := -1, ""
	inSpace := func(c []byte) bool {
		if !hasSpace || len(c) != len(lo) {
			return false
		}
		for i := range c {
			if c[i] < lo[i] || c[i] > hi[i] {
				return false
			}
		}
		return true
	}
	ints := func(b []byte) int {
		v := 0
		for _, c := range b {
			v = v<<8 | int(c)
		}
		return v
	}
	for {
		l.ws()
		if l.p >= len(l.b) {
			break
		}
		t, err := l.token()
		if err != nil {
			return out, err.Error()
		}
		o, ok := t.(op)
		if !ok || o == "[" || o == "]" {
			st = append(st, t)
			continue
		}
		if strings.HasPrefix(string(o), "end") && (strings.HasSuffix(string(o), "range") || o == "endbfchar") {
			if open != string(o[3:]) {
				return out, string(o) + " without its begin"
			}
			open = ""
		}
		switch o {
		case "begincodespacerange", "beginbfrange", "beginbfchar":
			if open != "" {
				return out, string(o) + " within " + open
			}
			open = string(o[5:])
			declared = -1
			if n := len(st); n > 0 {
				if k, ok := st[n-1].(Num); ok {
					declared, _ = strconv.Atoi(k.S)
				}
			}
			if declared < 1 || declared > 100 {
				return out, fmt.Sprintf("block of %d entries", declared)
			}
		case "endcodespacerange":
			if len(st) == 2 && declared == 1 {
				a, ok1 := st[0].(Str)
				e, ok2 := st[1].(Str)
				if ok1 && ok2 {
					lo, hi, hasSpace = a.B, e.B, true
				}
			}
			if !hasSpace {
				return out, "bad codespace"
			}
		case "endbfrange":
			n := 0
			for i := 0; i+2 < len(st); {
				a, ok1 := st[i].(Str)
				e, ok2 := st[i+1].(Str)
				v, ok3 := st[i+2].(Str)
				if !ok1 || !ok2 || !ok3 {
					return out, "bad range"
				}
				if !inSpace(a.B) || !inSpace(e.B) {
					return out, "code outside the code space"
				}
				base := textCodes(append([]byte{0xFE, 0xFF}, v.B...))
				for c := ints(a.B); c <= ints(e.B); c++ {
					u := append([]int{c}, base...)
					if len(base) > 0 {
						u[len(u)-1] += c - ints(a.B)
					}
					out = append(out, u)
				}
				n++
				i += 3
			}
			if n != declared || len(st) != 3*n {
				return out, "wrong number of ranges"
			}
		case "endbfchar":
			n := 0
			for i := 0; i+1 < len(st); i += 2 {
				a, ok1 := st[i].(Str)
				v, ok3 := st[i+1].(Str)
				if !ok1 || !ok3 || !inSpace(a.B) {
					return out, "bad bfchar"
				}
				out = append(out, append([]int{ints(a.B)}, textCodes(append([]byte{0xFE, 0xFF}, v.B...))...))
				n++
			}
			if n != declared {
				return out, "wrong number of characters"
			}
		}
		st = nil
	}
	if open != "" || !hasSpace {
		return out, "not ended " + open
	}
	return out, ""
}

// ---- the event

// outputEvent describes the file; pass is the password to open it with when protected.
func outputEvent(b []byte, pass []byte) J {
	p := ParsePDF(b)
	bad := []string{}
	ev := J{"len": len(b), "dig": hash(b), "sx": p.StartX, "xpos": p.XPos, "hdr": 1}
	ents := []interface{}{}
	for _, e := range p.Ents {
		t := 0
		if e.N {
			t = 1
		}
		there := -1
		if e.N {
			if o := p.parseObj(e.Off); o != nil {
				there = o.ID
			}
		}
		ents = append(ents, []int{e.ID, t, e.Off, there})
	}
	ev["ents"] = ents
	enc := p.encryption()
	ev["prot"] = 0
	ev["encr"] = J{"id": 0, "filter": "", "v": 0, "r": 0, "p": 0, "opened": 0, "o": ""}
	if enc != nil {
		ev["prot"] = 1
		k := userKey(pass, enc)
		op := 0
		if k != nil {
			op = 1
			p.Enc = &encState{k}
		}
		ev["encr"] = J{"id": refID(p.Trailer.get("Encrypt")), "filter": enc.Filter, "v": enc.V, "r": enc.R, "p": enc.P, "opened": op, "o": hash(enc.O)}
	}
	tr := J{"size": 0, "root": 0}
	info := []interface{}{}
	hasInfo := 0
	if p.Trailer != nil {
		tr["size"] = p.intOf(p.Trailer.get("Size"), 0)
		tr["root"] = refID(p.Trailer.get("Root"))
		if v := p.Trailer.get("Info"); v != nil {
			hasInfo = 1
			oid := refID(v)
			if d := p.dict(v); d != nil {
				for _, k := range d.K {
					s := p.str(d.M[k], oid)
					if k == "CreationDate" {
						info = append(info, []interface{}{k, []int{}, string(s)})
					} else {
						info = append(info, []interface{}{k, textCodes(s), ""})
					}
				}
			}
		}
	}
	ev["trailer"], ev["info"], ev["hasinfo"] = tr, info, hasInfo
	objs := []interface{}{}
	for _, id := range p.Order {
		o := p.Objs[id]
		refs := []interface{}{}
		refsOf(o.V, "", "", &refs)
		decl, act := -1, -1
		if o.HasStm {
			decl, act = o.Decl, o.Act
		}
		ended := 0
		if o.Ended {
			ended = 1
		}
		objs = append(objs, J{"id": id, "k": kindOf(o), "refs": refs, "decl": decl, "act": act, "ended": ended})
	}
	ev["objs"] = objs
	for _, s := range p.Problems {
		bad = append(bad, s)
	}
	// catalog, page tree
	cat := J{"pages": 0, "outlines": 0, "mode": ""}
	var cd *Dict
	if p.Trailer != nil {
		cd = p.dict(p.Trailer.get("Root"))
	}
	if cd != nil {
		cat["pages"], cat["outlines"], cat["mode"] = refID(cd.get("Pages")), refID(cd.get("Outlines")), nameOf(cd.get("PageMode"))
	}
	ev["cat"] = cat
	tree := J{"kids": []int{}, "count": -1, "media": []int{}}
	pages := []interface{}{}
	resIDs := []int{}
	formIDs := map[int]bool{}
	if pd := p.dict(cd.get("Pages")); pd != nil {
		kids := []int{}
		for _, k := range p.arr(pd.get("Kids")) {
			kids = append(kids, refID(k))
		}
		tree = J{"kids": kids, "count": p.intOf(pd.get("Count"), -1), "media": p.scArr(pd.get("MediaBox"), 5)}
		for _, k := range kids {
			d := p.dict(Ref{k, 0})
			if d == nil || nameOf(d.get("Type")) != "Page" {
				pages = append(pages, J{"id": k, "type": "none", "parent": 0, "media": []int{}, "trim": []int{}, "res": 0, "ops": []interface{}{}, "annots": []interface{}{}, "stored": 0, "flate": 0, "ncont": 0})
				continue
			}
			pg := J{"id": k, "type": "Page", "parent": refID(d.get("Parent")), "media": p.scArr(d.get("MediaBox"), 5), "trim": p.scArr(d.get("TrimBox"), 5), "res": refID(d.get("Resources"))}
			content, e := p.pageContent(d)
			if e != "" {
				bad = append(bad, fmt.Sprintf("page %d: %s", k, e))
			}
			ops, e := contentOps(content)
			if e != "" {
				bad = append(bad, fmt.Sprintf("page %d: %s", k, e))
			}
			pg["ops"] = ops
			st, fl, nc := 0, 0, 0
			var cl Arr
			switch c := d.get("Contents").(type) {
			case Ref:
				cl = Arr{c}
			case Arr:
				cl = c
			}
			for _, c := range cl {
				if o := p.Objs[refID(c)]; o != nil && o.HasStm {
					nc++
					if o.V.(*Dict).get("Filter") == nil {
						st++
					} else {
						fl++
					}
				}
			}
			pg["stored"], pg["flate"], pg["ncont"] = st, fl, nc
			an := []interface{}{}
			for _, a := range p.arr(d.get("Annots")) {
				an = append(an, p.annot(a))
			}
			pg["annots"] = an
			pages = append(pages, pg)
			resIDs = append(resIDs, refID(d.get("Resources")))
		}
	}
	ev["tree"], ev["pages"] = tree, pages
	// resources
	rs := []interface{}{}
	seen := map[int]bool{}
	for _, id := range resIDs {
		if seen[id] || id == 0 {
			continue
		}
		seen[id] = true
		rs = append(rs, p.resources(id, &bad, formIDs))
	}
	ev["rs"] = rs
	// outlines
	items := []interface{}{}
	root := J{"id": 0, "first": 0, "last": 0, "count": 0}
	if od := p.dict(cd.get("Outlines")); od != nil {
		root = J{"id": refID(cd.get("Outlines")), "first": refID(od.get("First")), "last": refID(od.get("Last")), "count": p.intOf(od.get("Count"), 0)}
	}
	for _, id := range p.Order {
		o := p.Objs[id]
		if kindOf(o) == "OutlineItem" {
			d := o.V.(*Dict)
			dest := p.arr(d.get("Dest"))
			dp, dk, dn := 0, "", []int{}
			if len(dest) > 1 {
				dp, dk = refID(dest[0]), nameOf(dest[1])
				for _, e := range dest[2:] {
					if _, ok := e.(Num); ok {
						dn = append(dn, p.sc(e, 5))
					} else {
						dn = append(dn, 2000000000)
					}
				}
			}
			items = append(items, J{"id": id, "title": textCodes(p.str(d.get("Title"), id)), "parent": refID(d.get("Parent")), "prev": refID(d.get("Prev")), "next": refID(d.get("Next")),
				"first": refID(d.get("First")), "last": refID(d.get("Last")), "count": p.intOf(d.get("Count"), 0), "dpage": dp, "dkind": dk, "dnum": dn})
		}
	}
	ev["oroot"], ev["oitems"] = root, items
	ev["bad"], ev["fbad"], ev["ibad"] = []string{}, []string{}, []string{}
	for _, b := range bad {
		k := "bad"
		if strings.HasPrefix(b, "font ") {
			k = "fbad"
		} else if strings.HasPrefix(b, "image ") {
			k = "ibad"
		}
		if l := ev[k].([]string); len(l) < 8 {
			ev[k] = append(l, b)
		}
	}
	return ev
}

func (p *PDF) annot(a interface{}) J {
	r := J{"id": refID(a), "sub": "", "rect": []int{}, "kind": "none", "uri": []int{}, "dpage": 0, "dkind": "", "dnum": []int{}}
	d := p.dict(a)
	if d == nil {
		r["sub"] = "missing"
		return r
	}
	r["sub"] = nameOf(d.get("Subtype"))
	r["rect"] = p.scArr(d.get("Rect"), 5)
	if act := p.dict(d.get("A")); act != nil && nameOf(act.get("S")) == "URI" {
		r["kind"] = "uri"
		u := []int{}
		for _, c := range p.str(act.get("URI"), refID(a)) {
			u = append(u, int(c))
		}
		r["uri"] = u
	} else if dest := p.arr(d.get("Dest")); len(dest) > 1 {
		r["kind"] = "dest"
		r["dpage"], r["dkind"] = refID(dest[0]), nameOf(dest[1])
		dn := []int{}
		for _, e := range dest[2:] {
			if _, ok := e.(Num); ok {
				dn = append(dn, p.sc(e, 5))
			} else {
				dn = append(dn, 2000000000)
			}
		}
		r["dnum"] = dn
	} else if d.get("Dest") != nil || d.get("A") != nil {
		r["kind"] = "other"
	}
	return r
}

func (p *PDF) resources(id int, bad *[]string, formIDs map[int]bool) J {
	d := p.dict(Ref{id, 0})
	r := J{"id": id}
	fonts, xo, gs, cs := []interface{}{}, []interface{}{}, []interface{}{}, []interface{}{}
	if fd := p.dict(d.get("Font")); fd != nil {
		for _, n := range fd.K {
			fonts = append(fonts, p.fontRec(n, refID(fd.M[n]), bad))
		}
	}
	if xd := p.dict(d.get("XObject")); xd != nil {
		for _, n := range xd.K {
			xid := refID(xd.M[n])
			x := J{"n": n, "id": xid, "k": "none", "pix": "", "alpha": "none", "w": 0, "h": 0, "bbox": []int{}, "matrix": []int{}, "dig": ""}
			if o := p.Objs[xid]; o != nil && o.HasStm {
				xd := o.V.(*Dict)
				switch nameOf(xd.get("Subtype")) {
				case "Image":
					x["k"] = "Image"
					j, e := p.imagePix(o)
					if e != "" {
						*bad = append(*bad, fmt.Sprintf("image %d: %s", xid, e))
					} else {
						for k, v := range j {
							x[k] = v
						}
					}
				case "Form":
					x["k"] = "Form"
					p.formRec(o, x, bad)
				}
			}
			xo = append(xo, x)
		}
	}
	if gd := p.dict(d.get("ExtGState")); gd != nil {
		for _, n := range gd.K {
			e := p.dict(gd.M[n])
			g := J{"n": n, "id": refID(gd.M[n]), "ca": -1, "CA": -1, "bm": "", "sm": "", "grp": 0}
			if e != nil {
				if e.get("ca") != nil {
					g["ca"] = p.sc(e.get("ca"), 5)
				}
				if e.get("CA") != nil {
					g["CA"] = p.sc(e.get("CA"), 5)
				}
				g["bm"] = nameOf(e.get("BM"))
				if sm := p.res(e.get("SMask")); sm != nil {
					if sn, ok := sm.(Name); ok {
						g["sm"] = string(sn)
					} else if sd, ok := sm.(*Dict); ok {
						g["sm"] = nameOf(sd.get("S"))
						g["grp"] = refID(sd.get("G"))
						formIDs[refID(sd.get("G"))] = true
					}
				}
			}
			gs = append(gs, g)
		}
	}
	if cd := p.dict(d.get("ColorSpace")); cd != nil {
		for _, n := range cd.K {
			c := J{"n": n, "id": refID(cd.M[n]), "kind": "", "name": "", "alt": "", "c0": []int{}, "c1": []int{}}
			if a := p.arr(cd.M[n]); len(a) == 4 {
				c["kind"], c["name"], c["alt"] = nameOf(a[0]), nameOf(a[1]), nameOf(a[2])
				if f := p.dict(a[3]); f != nil {
					c["c0"], c["c1"] = p.scArr(f.get("C0"), 5), p.scArr(f.get("C1"), 5)
					if p.intOf(f.get("FunctionType"), 0) != 2 || p.intOf(f.get("N"), 0) != 1 {
						*bad = append(*bad, "tint function")
					}
				}
			}
			cs = append(cs, c)
		}
	}
	grps := []interface{}{}
	var gids []int
	for g := range formIDs {
		gids = append(gids, g)
	}
	sort.Ints(gids)
	for _, g := range gids {
		o := p.Objs[g]
		x := J{"id": g, "bbox": []int{}, "ops": []interface{}{}, "cs": "", "ok": 0}
		if o != nil && o.HasStm {
			gd := o.V.(*Dict)
			b, _, err := p.data(o)
			if err != nil {
				*bad = append(*bad, "mask group: "+err.Error())
			}
			ops, e := contentOps(b)
			if e != "" {
				*bad = append(*bad, "mask group: "+e)
			}
			x["ops"], x["bbox"] = ops, p.scArr(gd.get("BBox"), 3)
			if gg := p.dict(gd.get("Group")); gg != nil && nameOf(gg.get("S")) == "Transparency" {
				x["cs"] = nameOf(gg.get("CS"))
				x["ok"] = 1
			}
		}
		grps = append(grps, x)
	}
	r["fonts"], r["xo"], r["gs"], r["cs"], r["grps"] = fonts, xo, gs, cs, grps
	return r
}

func (p *PDF) formRec(o *Obj, x J, bad *[]string) {
	d := o.V.(*Dict)
	x["bbox"], x["matrix"] = p.scArr(d.get("BBox"), 3), p.scArr(d.get("Matrix"), 5)
	b, left, err := p.data(o)
	if err != nil || len(left) > 0 {
		*bad = append(*bad, fmt.Sprintf("form %d: cannot decode", o.ID))
		return
	}
	x["dig"] = hash(normContent(b)) + hash([]byte(p.deep(d.get("Resources"), o.ID, map[int]int{})))
}

func normContent(b []byte) []byte { return []byte(strings.Join(strings.Fields(string(b)), " ")) }

// srcPage tells the specification what a page of a source file holds.
func srcPages(b []byte) []interface{} {
	p := ParsePDF(b)
	var cd *Dict
	out := []interface{}{}
	if p.Trailer != nil {
		cd = p.dict(p.Trailer.get("Root"))
	}
	var walk func(v interface{}, media interface{}, res interface{}, depth int)
	walk = func(v interface{}, media, res interface{}, depth int) {
		d := p.dict(v)
		if d == nil || depth > 10 {
			return
		}
		if m := d.get("MediaBox"); m != nil {
			media = m
		}
		if m := d.get("Resources"); m != nil {
			res = m
		}
		if nameOf(d.get("Type")) == "Pages" {
			for _, k := range p.arr(d.get("Kids")) {
				walk(k, media, res, depth+1)
			}
			return
		}
		c, _ := p.pageContent(d)
		mb := p.scArr(media, 3)
		rd := p.res(res)
		out = append(out, J{"media": mb, "dig": hash(normContent(c)) + hash([]byte(p.deep(rd, 0, map[int]int{})))})
	}
	walk(cd.get("Pages"), nil, nil, 0)
	return out
}
