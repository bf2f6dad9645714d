package main

// An independent reader of TrueType fonts.

import (
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"sort"
)

type TTF struct {
	b        []byte
	tab      map[string][2]int
	upem     int
	locFmt   int
	nGlyphs  int
	nHM      int
	Cmap     map[int]int
	TypoAsc  int
	TypoDesc int
	HAsc     int
	HDesc    int
	ULPos    int
	ULThick  int
	Kern     map[[2]int]int
	Desc     []int // ascents, descents (three readings each), cap height (0: not given), box, angle
	Progs    string
}

func u16(b []byte, o int) int { return int(binary.BigEndian.Uint16(b[o:])) }
func s16(b []byte, o int) int { return int(int16(binary.BigEndian.Uint16(b[o:]))) }
func u32(b []byte, o int) int { return int(binary.BigEndian.Uint32(b[o:])) }

func ParseTTF(b []byte) (t *TTF, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("ttf: %v", r)
		}
	}()
	t = &TTF{b: b, tab: map[string][2]int{}, Cmap: map[int]int{}, Kern: map[[2]int]int{}}
	n := u16(b, 4)
	for i := 0; i < n; i++ {
		e := 12 + 16*i
		t.tab[string(b[e:e+4])] = [2]int{u32(b, e+8), u32(b, e+12)}
	}
	for _, k := range []string{"head", "maxp", "hhea", "hmtx", "loca", "glyf"} {
		v, ok := t.tab[k]
		if !ok {
			return nil, fmt.Errorf("ttf: no %s table", k)
		}
		if v[0]+v[1] > len(b) {
			return nil, fmt.Errorf("ttf: table %s out of bounds", k)
		}
	}
	h := t.tab["head"][0]
	t.upem, t.locFmt = u16(b, h+18), s16(b, h+50)
	t.nGlyphs = u16(b, t.tab["maxp"][0]+4)
	hh := t.tab["hhea"][0]
	t.HAsc, t.HDesc, t.nHM = s16(b, hh+4), s16(b, hh+6), u16(b, hh+34)
	if o, ok := t.tab["OS/2"]; ok {
		t.TypoAsc, t.TypoDesc = s16(b, o[0]+68), s16(b, o[0]+70)
		// the line extent used for underlines: that of the window metrics where the font has typographic ones
		if t.TypoAsc != 0 {
			t.HAsc = u16(b, o[0]+74)
		}
		if t.TypoDesc != 0 {
			d := u16(b, o[0]+76)
			if t.HDesc < 0 {
				d = -d
			}
			t.HDesc = d
		}
	}
	sc := func(v int) int { return int(math.Round(float64(v) * 1000 / float64(t.upem))) }
	asc, desc, cap, ang := []int{s16(b, hh+4), s16(b, hh+4), s16(b, hh+4)}, []int{s16(b, hh+6), s16(b, hh+6), s16(b, hh+6)}, 0, 0
	if o, ok := t.tab["OS/2"]; ok {
		asc[1], asc[2], desc[1], desc[2] = s16(b, o[0]+68), u16(b, o[0]+74), s16(b, o[0]+70), -u16(b, o[0]+76)
		if u16(b, o[0]) >= 2 {
			cap = s16(b, o[0]+88)
		}
	}
	if o, ok := t.tab["post"]; ok {
		ang = s16(b, o[0]+4)
	}
	for _, v := range []int{asc[0], asc[1], asc[2], desc[0], desc[1], desc[2], cap, s16(b, h+36), s16(b, h+38), s16(b, h+40), s16(b, h+42)} {
		t.Desc = append(t.Desc, sc(v))
	}
	t.Desc = append(t.Desc, ang)
	progs := []byte{}
	for _, k := range []string{"cvt ", "fpgm", "prep"} {
		if o, ok := t.tab[k]; ok && o[0]+o[1] <= len(b) {
			progs = append(progs, fmt.Sprintf("|%d:", o[1])...)
			progs = append(progs, b[o[0]:o[0]+o[1]]...)
		} else {
			progs = append(progs, "|0:"...)
		}
	}
	t.Progs = hash(append(progs, b[t.tab["maxp"][0]+6:t.tab["maxp"][0]+t.tab["maxp"][1]]...))
	if o, ok := t.tab["post"]; ok {
		t.ULPos, t.ULThick = s16(b, o[0]+8), s16(b, o[0]+10)
	}
	if o, ok := t.tab["cmap"]; ok {
		t.readCmap(o[0])
	}
	if o, ok := t.tab["kern"]; ok {
		t.readKern(o[0])
	}
	return t, nil
}

func (t *TTF) readCmap(o int) {
	b := t.b
	n := u16(b, o+2)
	for i := 0; i < n; i++ {
		s := o + u32(b, o+4+8*i+4)
		plat, enc := u16(b, o+4+8*i), u16(b, o+4+8*i+2)
		switch f := u16(b, s); {
		case f == 4 && plat == 3 && enc == 1:
			seg := u16(b, s+6) / 2
			for k := 0; k < seg; k++ {
				end := u16(b, s+14+2*k)
				start := u16(b, s+16+2*seg+2*k)
				delta := u16(b, s+16+4*seg+2*k)
				roff := s + 16 + 6*seg + 2*k
				ro := u16(b, roff)
				for c := start; c <= end && c < 0xFFFF; c++ {
					g := 0
					if ro == 0 {
						g = (c + delta) & 0xFFFF
					} else {
						g = u16(b, roff+ro+2*(c-start))
						if g != 0 {
							g = (g + delta) & 0xFFFF
						}
					}
					if g != 0 {
						t.Cmap[c] = g
					}
				}
			}
		case f == 12 && plat == 3 && enc == 10:
			ng := u32(b, s+12)
			for k := 0; k < ng; k++ {
				a, e, g := u32(b, s+16+12*k), u32(b, s+20+12*k), u32(b, s+24+12*k)
				for c := a; c <= e; c++ {
					if c > 0xFFFF {
						t.Cmap[c] = g + c - a
					}
				}
			}
		}
	}
}

func (t *TTF) readKern(o int) {
	b := t.b
	if u16(b, o) != 0 {
		return
	}
	n := u16(b, o+2)
	s := o + 4
	for i := 0; i < n; i++ {
		l, cov := u16(b, s+2), u16(b, s+4)
		if cov>>8 == 0 {
			np := u16(b, s+6)
			for k := 0; k < np; k++ {
				e := s + 14 + 6*k
				t.Kern[[2]int{u16(b, e), u16(b, e+2)}] = s16(b, e+4)
			}
		}
		s += l
	}
}

func (t *TTF) Adv(g int) int {
	if g >= t.nHM {
		g = t.nHM - 1
	}
	return u16(t.b, t.tab["hmtx"][0]+4*g)
}

func (t *TTF) glyph(g int) []byte {
	l := t.tab["loca"][0]
	var a, e int
	if g < 0 || g >= t.nGlyphs {
		panic("glyph index")
	}
	if t.locFmt == 0 {
		a, e = 2*u16(t.b, l+2*g), 2*u16(t.b, l+2*g+2)
	} else {
		a, e = u32(t.b, l+4*g), u32(t.b, l+4*g+4)
	}
	o := t.tab["glyf"][0]
	if e > t.tab["glyf"][1] {
		panic("glyph data out of bounds")
	}
	return t.b[o+a : o+e]
}

// outline describes the shape of a glyph independent of glyph numbers: components are expanded.
func (t *TTF) outline(g, depth int) string {
	d := t.glyph(g)
	if len(d) == 0 {
		return "empty"
	}
	if depth > 8 {
		panic("nesting")
	}
	if s16(d, 0) >= 0 {
		// simple glyph: contours, instructions skipped (they do not change the outline's points)
		n := s16(d, 0)
		p := 10 + 2*n
		pts := 0
		if n > 0 {
			pts = u16(d, 10+2*(n-1)) + 1
		}
		il := u16(d, p)
		p += 2 + il
		// walk the flags and coordinates to find the end without padding
		start := p
		xs, ys := 0, 0
		for k := 0; k < pts; {
			f := d[p]
			p++
			r := 1
			if f&8 != 0 {
				r += int(d[p])
				p++
			}
			for j := 0; j < r && k < pts; j++ {
				if f&2 != 0 {
					xs++
				} else if f&16 == 0 {
					xs += 2
				}
				if f&4 != 0 {
					ys++
				} else if f&32 == 0 {
					ys += 2
				}
				k++
			}
		}
		p += xs + ys
		s := sha1.Sum(append(append([]byte{}, d[0:10+2*n]...), d[start:p]...))
		return hex.EncodeToString(s[:6])
	}
	res := "c"
	p := 10
	for {
		fl, gi := u16(d, p), u16(d, p+2)
		p += 4
		a := p
		if fl&1 != 0 {
			p += 4
		} else {
			p += 2
		}
		if fl&8 != 0 {
			p += 2
		} else if fl&0x40 != 0 {
			p += 4
		} else if fl&0x80 != 0 {
			p += 8
		}
		res += fmt.Sprintf("(%x:%x:%s)", fl&^0x120, d[a:p], t.outline(gi, depth+1))
		if fl&0x20 == 0 {
			break
		}
	}
	s := sha1.Sum([]byte(res))
	return hex.EncodeToString(s[:6])
}

func (t *TTF) Outline(g int) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("bad:", r)
		}
	}()
	return t.outline(g, 0)
}

// directory returns what is wrong with the directory of an embedded font program.
func (t *TTF) directory() string {
	b := t.b
	if v := u32(b, 0); v != 0x10000 && v != 0x74727565 {
		return "version"
	}
	n := u16(b, 4)
	es := 0
	for 2<<es <= n {
		es++
	}
	if u16(b, 6) != 16<<es || u16(b, 8) != es || u16(b, 10) != 16*n-16<<es {
		return "search fields"
	}
	last, ends := "", [][2]int{}
	for i := 0; i < n; i++ {
		e := 12 + 16*i
		tag, sum, o, l := string(b[e:e+4]), u32(b, e+4), u32(b, e+8), u32(b, e+12)
		if tag <= last {
			return "order of the tables"
		}
		last = tag
		if l == 0 {
			continue
		}
		if o%4 != 0 || o < 12+16*n || o+l > len(b) {
			return "place of " + tag
		}
		ends = append(ends, [2]int{o, o + l})
		if tag == "glyf" || tag == "loca" {
			s := 0
			for k := o; k < o+l; k++ {
				s += int(b[k]) << (24 - 8*((k-o)%4))
			}
			if s&0xFFFFFFFF != sum {
				return "checksum of " + tag
			}
		}
	}
	sort.Slice(ends, func(i, j int) bool { return ends[i][0] < ends[j][0] })
	for i := 1; i < len(ends); i++ {
		if ends[i][0] < ends[i-1][1] {
			return "tables overlap"
		}
	}
	return ""
}

// FontInfo is what the specification is told about a font file.
func fontInfo(name string, t *TTF, chars []int) map[string]interface{} {
	sort.Ints(chars)
	var cs []interface{}
	gl := map[int]bool{}
	last := -1
	for _, c := range chars {
		if c == last {
			continue
		}
		last = c
		g := t.Cmap[c]
		gl[g] = true
		cs = append(cs, []interface{}{c, g, t.Adv(g), t.Outline(g)})
	}
	kern := []interface{}{}
	var keys [][2]int
	for k := range t.Kern {
		if gl[k[0]] && gl[k[1]] {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
	})
	for i := 0; i < len(keys); {
		l := keys[i][0]
		rs := []interface{}{}
		for ; i < len(keys) && keys[i][0] == l; i++ {
			rs = append(rs, []int{keys[i][1], t.Kern[keys[i]]})
		}
		kern = append(kern, []interface{}{l, rs})
	}
	return map[string]interface{}{"name": name, "upem": t.upem, "asc": t.TypoAsc, "desc": t.TypoDesc, "hasc": t.HAsc, "hdesc": t.HDesc, "fd": t.Desc, "progs": t.Progs,
		"upos": t.ULPos, "uth": t.ULThick, "chars": cs, "kern": kern}
}
