package main

// Interprets programs: lists of operations with integer arguments, run against the public API of gopdf.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"image"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/phpdave11/gofpdi"
	"github.com/signintech/gopdf"
)

type Op = map[string]interface{}

type doc struct {
	pdf      *gopdf.GoPdf
	unit     int
	upass    []byte
	opass    []byte
	outlines []*gopdf.OutlineObj
	tpls     []int
	rs       io.ReadSeeker
	streams  map[string]*io.ReadSeeker
	nf       []int
	reading  bool // something may be left from an earlier reading
}

type World struct {
	docs   map[int]*doc
	conts  map[string]*gopdf.FontContainer
	ranges map[string]int
	res    string // resource directory
	tmp    string
	imgs   map[string]image.Image
	data   map[string][]byte
	kept   map[string]gopdf.ImageHolder // holders drawn again and again, in any document
	keep   string                       // keep bytes of outputs here
	nkeep  int
	nfile  int
}

func NewWorld(res, tmp string) *World {
	return &World{docs: map[int]*doc{}, conts: map[string]*gopdf.FontContainer{}, res: res, tmp: tmp, imgs: map[string]image.Image{}, data: map[string][]byte{}, kept: map[string]gopdf.ImageHolder{}}
}

func (w *World) path(f string) string {
	if strings.HasPrefix(f, "/") || f == "" {
		return f
	}
	return filepath.Join(w.res, f)
}
func (w *World) bytes(f string) []byte {
	if b, ok := w.data[f]; ok {
		return b
	}
	b, err := os.ReadFile(w.path(f))
	if err != nil {
		return nil
	}
	w.data[f] = b
	return b
}

func num(v interface{}) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case int:
		return float64(x)
	}
	return 0
}

func I(o Op, k string) int {
	if _, ok := o[k]; !ok {
		panic("harness: missing field " + k + " in " + fmt.Sprint(o["op"]))
	}
	return int(num(o[k]))
}
func L(o Op, k string) float64 { return float64(I(o, k)) / 100 } // lengths in 1/100 of the document unit
func I2(o Op, k string) int { // a field that may be missing
	if v, ok := o[k]; ok {
		return int(num(v))
	}
	return 0
}
func S(o Op, k string) string {
	s, ok := o[k].(string)
	if !ok {
		panic("harness: missing field " + k + " in " + fmt.Sprint(o["op"]))
	}
	return s
}
func Ints(o Op, k string) []int {
	out := []int{}
	a, _ := o[k].([]interface{})
	for _, e := range a {
		out = append(out, int(num(e)))
	}
	return out
}
func T(o Op, k string) string { // text given as code points
	r := []rune{}
	for _, c := range Ints(o, k) {
		r = append(r, rune(c))
	}
	return string(r)
}
func B(o Op, k string) []byte {
	out := []byte{}
	for _, c := range Ints(o, k) {
		out = append(out, byte(c))
	}
	return out
}

var pageSizes = map[string]*gopdf.Rect{
	"Letter": gopdf.PageSizeLetter, "LetterSmall": gopdf.PageSizeLetterSmall, "Tabloid": gopdf.PageSizeTabloid, "Ledger": gopdf.PageSizeLedger,
	"Legal": gopdf.PageSizeLegal, "Statement": gopdf.PageSizeStatement, "Executive": gopdf.PageSizeExecutive,
	"A0": gopdf.PageSizeA0, "A1": gopdf.PageSizeA1, "A2": gopdf.PageSizeA2, "A3": gopdf.PageSizeA3, "A3Landscape": gopdf.PageSizeA3Landscape,
	"A4": gopdf.PageSizeA4, "A4Landscape": gopdf.PageSizeA4Landscape, "A4Small": gopdf.PageSizeA4Small, "A5": gopdf.PageSizeA5,
	"B4": gopdf.PageSizeB4, "B5": gopdf.PageSizeB5, "Folio": gopdf.PageSizeFolio, "Quarto": gopdf.PageSizeQuarto, "10x14": gopdf.PageSize10x14,
}

func start(p *gopdf.GoPdf, o Op, c gopdf.Config) {
	if I2(o, "imp") != 0 {
		p.StartWithImporter(c, gofpdi.NewImporter())
	} else {
		p.Start(c)
	}
}

func R(o Op) *gopdf.Rect {
	switch I(o, "hasrect") {
	case 0:
		return nil
	case 2: // a size in points whatever the unit of the document
		k := *gopdf.PageSizeA5
		return &k
	}
	return &gopdf.Rect{W: L(o, "w"), H: L(o, "h")}
}
func O(o Op, k string) Op {
	m, _ := o[k].(map[string]interface{})
	if m == nil {
		panic("harness: missing object " + k + " in " + fmt.Sprint(o["op"]))
	}
	return m
}
func transp(o Op) *gopdf.Transparency {
	t := O(o, "tr")
	if I(t, "has") == 0 {
		return nil
	}
	return &gopdf.Transparency{Alpha: float64(I(t, "a")) / 1000, BlendModeType: gopdf.BlendModeType(S(t, "bm"))}
}
func brk(o Op) *gopdf.BreakOption {
	t := O(o, "brk")
	if I(t, "has") == 0 {
		return nil
	}
	return &gopdf.BreakOption{Mode: gopdf.BreakMode(I(t, "mode")), BreakIndicator: rune(I(t, "ind")), Separator: T(t, "sep")}
}
func cellOpt(o Op) gopdf.CellOption {
	return gopdf.CellOption{Align: I(o, "align"), Border: I(o, "border"), Float: I(o, "float"), Transparency: transp(o),
		CoefUnderlinePosition: L(o, "cup"), CoefLineHeight: L(o, "clh"), CoefUnderlineThickness: L(o, "cut"), BreakOption: brk(o)}
}
func pts(o Op, k string) []gopdf.Point {
	a := Ints(o, k)
	out := []gopdf.Point{}
	for i := 0; i+1 < len(a); i += 2 {
		out = append(out, gopdf.Point{X: float64(a[i]) / 100, Y: float64(a[i+1]) / 100})
	}
	return out
}

func mic(f float64) int { // times 1e5, clamped
	if math.IsNaN(f) {
		return 2000000001
	}
	f = math.Round(f * 1e5)
	if f > 2e9 {
		return 2000000000
	}
	if f < -2e9 {
		return -2000000000
	}
	return int(f)
}
func runes(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type obs struct {
	err   error
	ret   []int
	lines [][]int
	out   J
	chg   int
	extra J
	unsup bool
}

func (w *World) doc(o Op) *doc {
	id := 0
	if v, ok := o["d"]; ok {
		id = int(num(v))
	}
	d := w.docs[id]
	if d == nil {
		d = &doc{pdf: &gopdf.GoPdf{}}
		w.docs[id] = d
	}
	return d
}

// Exec runs one operation and returns the event to log.
func (w *World) Exec(o Op) (ev J) {
	d := w.doc(o)
	ev = J{}
	for k, v := range o {
		ev[k] = v
	}
	if _, ok := ev["d"]; !ok {
		ev["d"] = 0
	}
	r := &obs{}
	d.nf = []int{}
	pan := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				pan = fmt.Sprint(e)
				if strings.HasPrefix(pan, "harness:") {
					fmt.Fprintln(os.Stderr, pan)
					os.Exit(2)
				}
			}
		}()
		w.run(d, o, r)
	}()
	ob := J{"err": b2i(r.err != nil), "ret": r.ret, "lines": r.lines, "chg": r.chg, "panic": pan, "nf": d.nf, "x": 0, "y": 0, "np": 0, "mg": []int{0, 0, 0, 0}}
	if r.err != nil {
		ob["msg"] = r.err.Error()
	} else {
		ob["msg"] = ""
	}
	if r.ret == nil {
		ob["ret"] = []int{}
	}
	if r.lines == nil {
		ob["lines"] = [][]int{}
	}
	func() {
		defer func() { recover() }()
		ob["x"], ob["y"], ob["np"] = mic(d.pdf.GetX()), mic(d.pdf.GetY()), d.pdf.GetNumberOfPages()
		a, b, c, e := d.pdf.Margins()
		ob["mg"] = []int{mic(a), mic(b), mic(c), mic(e)}
	}()
	ev["obs"] = ob
	if r.out != nil {
		ev["out"] = r.out
	}
	for k, v := range r.extra {
		ev[k] = v
	}
	return ev
}

func (w *World) fontOpt(d *doc, o Op) gopdf.TtfOption {
	opt := gopdf.TtfOption{UseKerning: I(o, "kern") != 0, Style: I(o, "style")}
	if I(o, "cb") != 0 {
		opt.OnGlyphNotFound = func(r rune) { d.nf = append(d.nf, int(r)) }
	}
	if s := I(o, "subst"); s == -2 {
		opt.OnGlyphNotFoundSubstitute = func(r rune) rune { return gopdf.DefaultOnGlyphNotFoundSubstitute(r) }
	} else if s >= 0 {
		opt.OnGlyphNotFoundSubstitute = func(r rune) rune { return rune(s) }
	}
	return opt
}

func (w *World) run(d *doc, o Op, r *obs) {
	p := d.pdf
	mut := 0
	if v, ok := o["mut"]; ok {
		mut = int(num(v))
	}
	switch name := S(o, "op"); name {
	case "Start":
		c := gopdf.Config{Unit: I(o, "unit"), ConversionForUnit: L(o, "conv")}
		if S(o, "named") == "" {
			c.PageSize = gopdf.Rect{W: L(o, "w"), H: L(o, "h")}
		} else {
			c.PageSize = *pageSizes[S(o, "named")]
		}
		tb := Ints(o, "trim")
		if len(tb) == 4 {
			c.TrimBox = gopdf.Box{Left: float64(tb[0]) / 100, Top: float64(tb[1]) / 100, Right: float64(tb[2]) / 100, Bottom: float64(tb[3]) / 100}
		}
		d.upass, d.opass = nil, nil
		if I(o, "prot") != 0 {
			// the passwords are part of larger buffers of the caller
			mem := append(append(append([]byte{}, B(o, "user")...), []byte("####")...), append(B(o, "owner"), []byte("################################")...)...)
			nu := len(B(o, "user"))
			no := len(B(o, "owner"))
			keepM := append([]byte{}, mem...)
			c.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: I(o, "perm"), UserPass: mem[:nu], OwnerPass: mem[nu+4 : nu+4+no]}
			d.upass, d.opass = B(o, "user"), B(o, "owner")
			start(p, o, c)
			if !bytes.Equal(mem, keepM) {
				r.chg = 1
			}
			if mut != 0 {
				for i := range mem {
					mem[i] = 'Z'
				}
			}
		} else {
			start(p, o, c)
		}
		d.unit = I(o, "unit")
		d.outlines, d.tpls, d.streams = nil, nil, nil
	case "AddPage":
		p.AddPage()
	case "AddPageOpt":
		opt := gopdf.PageOption{}
		if S(o, "named") != "" {
			opt.PageSize = pageSizes[S(o, "named")]
		} else if I(o, "w") != 0 {
			opt.PageSize = &gopdf.Rect{W: L(o, "w"), H: L(o, "h")}
		}
		tb := Ints(o, "trim")
		if len(tb) == 4 {
			opt.TrimBox = &gopdf.Box{Left: float64(tb[0]) / 100, Top: float64(tb[1]) / 100, Right: float64(tb[2]) / 100, Bottom: float64(tb[3]) / 100}
		}
		var k1 gopdf.Rect
		var k2 gopdf.Box
		if opt.PageSize != nil {
			k1 = *opt.PageSize
		}
		if opt.TrimBox != nil {
			k2 = *opt.TrimBox
		}
		p.AddPageWithOption(opt)
		if opt.PageSize != nil && *opt.PageSize != k1 || opt.TrimBox != nil && *opt.TrimBox != k2 {
			r.chg = 1
		}
		if mut != 0 {
			if S(o, "named") == "" && opt.PageSize != nil {
				opt.PageSize.W, opt.PageSize.H = 1, 2
			}
			if opt.TrimBox != nil {
				*opt.TrimBox = gopdf.Box{Left: 9, Top: 8, Right: 7, Bottom: 6}
			}
		}
	case "SetPage":
		r.err = p.SetPage(I(o, "n"))
	case "Header", "Footer":
		var ops []Op
		for _, e := range o["ops"].([]interface{}) {
			ops = append(ops, e.(map[string]interface{}))
		}
		f := func() {
			for _, q := range ops {
				w.run(d, q, &obs{})
			}
		}
		if name == "Header" {
			p.AddHeader(f)
		} else {
			p.AddFooter(f)
		}
	case "SetX":
		p.SetX(L(o, "x"))
	case "SetY":
		p.SetY(L(o, "y"))
	case "SetXY":
		p.SetXY(L(o, "x"), L(o, "y"))
	case "Br":
		p.Br(L(o, "h"))
	case "SetNewY":
		p.SetNewY(L(o, "y"), L(o, "h"))
	case "SetNewYIfNoOffset":
		p.SetNewYIfNoOffset(L(o, "y"), L(o, "h"))
	case "SetNewXY":
		p.SetNewXY(L(o, "y"), L(o, "x"), L(o, "h"))
	case "SetMargins":
		p.SetMargins(L(o, "l"), L(o, "t"), L(o, "r"), L(o, "b"))
	case "SetMargin":
		v := L(o, "v")
		switch I(o, "which") {
		case 0:
			p.SetLeftMargin(v)
		case 1:
			p.SetTopMargin(v)
		case 2:
			p.SetMarginLeft(v)
		case 3:
			p.SetMarginTop(v)
		case 4:
			p.SetMarginRight(v)
		case 5:
			p.SetMarginBottom(v)
		}
	case "Margins":
		r.ret = []int{mic(p.MarginLeft()), mic(p.MarginTop()), mic(p.MarginRight()), mic(p.MarginBottom())}
	case "Convert":
		a := L(o, "v")
		b, c := a, a
		p.UnitsToPointsVar(&b)
		p.PointsToUnitsVar(&c)
		r.ret = []int{mic(p.UnitsToPoints(a)), mic(p.PointsToUnits(a)), mic(b), mic(c)}
		// the functions that are told the unit
		t := d.unit
		e, f, g, h := a, a+1, a, a+1
		gopdf.UnitsToPointsVar(t, &e, &f)
		gopdf.PointsToUnitsVar(t, &g, &h)
		k := gopdf.Rect{W: a, H: a + 1}
		kp, ku := k.UnitsToPoints(t), k.PointsToUnits(t)
		bx := gopdf.Box{Left: a, Top: a + 1, Right: a + 2, Bottom: a + 3}
		bp := bx.UnitsToPoints(t)
		n1, n2 := gopdf.PageSizeB5.UnitsToPoints(t), (*gopdf.Rect)(nil).PointsToUnits(t)
		if k.W != a || k.H != a+1 || bx.Left != a || bx.Bottom != a+3 || n2 != nil {
			r.chg = 1
		}
		r.ret = append(r.ret, mic(gopdf.UnitsToPoints(t, a)), mic(gopdf.PointsToUnits(t, a)), mic(e), mic(f), mic(g), mic(h), mic(kp.W), mic(kp.H), mic(ku.W), mic(ku.H),
			mic(bp.Left), mic(bp.Top), mic(bp.Right), mic(bp.Bottom), mic(n1.W), mic(n1.H))
	case "Line":
		p.Line(L(o, "x1"), L(o, "y1"), L(o, "x2"), L(o, "y2"))
	case "Rect":
		x, y, ww, h := L(o, "x"), L(o, "y"), L(o, "w"), L(o, "h")
		switch S(o, "kind") {
		case "LL":
			p.RectFromLowerLeft(x, y, ww, h)
		case "UL":
			p.RectFromUpperLeft(x, y, ww, h)
		case "LLS":
			p.RectFromLowerLeftWithStyle(x, y, ww, h, S(o, "style"))
		case "ULS":
			p.RectFromUpperLeftWithStyle(x, y, ww, h, S(o, "style"))
		case "LLO", "ULO":
			tr := transp(o)
			var kt gopdf.Transparency
			if tr != nil {
				kt = *tr
			}
			opts := gopdf.DrawableRectOptions{Rect: gopdf.Rect{W: ww, H: h}, X: x, Y: y, PaintStyle: gopdf.PaintStyle(S(o, "style")), Transparency: tr}
			if S(o, "kind") == "LLO" {
				r.err = p.RectFromLowerLeftWithOpts(opts)
			} else {
				r.err = p.RectFromUpperLeftWithOpts(opts)
			}
			if tr != nil && *tr != kt {
				r.chg = 1
			}
			if tr != nil && mut != 0 {
				tr.Alpha, tr.BlendModeType = 0.123, gopdf.Hue
			}
		}
	case "Oval":
		p.Oval(L(o, "x1"), L(o, "y1"), L(o, "x2"), L(o, "y2"))
	case "Curve":
		a := Ints(o, "pts")
		f := func(i int) float64 { return float64(a[i]) / 100 }
		p.Curve(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), S(o, "style"))
	case "Polygon":
		a := pts(o, "pts")
		k := append([]gopdf.Point{}, a...)
		p.Polygon(a, S(o, "style"))
		if !reflect.DeepEqual(a, k) {
			r.chg = 1
		}
		if mut != 0 {
			for i := range a {
				a[i] = gopdf.Point{X: 1, Y: 2}
			}
		}
	case "ClipPolygon":
		a := pts(o, "pts")
		k := append([]gopdf.Point{}, a...)
		p.ClipPolygon(a)
		if !reflect.DeepEqual(a, k) {
			r.chg = 1
		}
		if mut != 0 {
			for i := range a {
				a[i] = gopdf.Point{X: 1, Y: 2}
			}
		}
	case "Rectangle":
		r.err = p.Rectangle(L(o, "x1"), L(o, "y1"), L(o, "x2"), L(o, "y2"), S(o, "style"), L(o, "r"), I(o, "n"))
	case "SetLineWidth":
		p.SetLineWidth(L(o, "v"))
	case "SetLineType":
		p.SetLineType(S(o, "t"))
	case "SetCustomLineType":
		a := []float64{}
		for _, v := range Ints(o, "arr") {
			a = append(a, float64(v)/100)
		}
		k := append([]float64{}, a...)
		p.SetCustomLineType(a, L(o, "phase"))
		if !reflect.DeepEqual(a, k) {
			r.chg = 1
		}
		if mut != 0 {
			for i := range a {
				a[i] = 77
			}
		}
	case "SetGrayFill":
		p.SetGrayFill(L(o, "v"))
	case "SetGrayStroke":
		p.SetGrayStroke(L(o, "v"))
	case "SetStrokeColor":
		p.SetStrokeColor(uint8(I(o, "r")), uint8(I(o, "g")), uint8(I(o, "b")))
	case "SetFillColor":
		p.SetFillColor(uint8(I(o, "r")), uint8(I(o, "g")), uint8(I(o, "b")))
	case "SetTextColor":
		p.SetTextColor(uint8(I(o, "r")), uint8(I(o, "g")), uint8(I(o, "b")))
	case "SetStrokeColorCMYK":
		p.SetStrokeColorCMYK(uint8(I(o, "c")), uint8(I(o, "m")), uint8(I(o, "y")), uint8(I(o, "k")))
	case "SetFillColorCMYK":
		p.SetFillColorCMYK(uint8(I(o, "c")), uint8(I(o, "m")), uint8(I(o, "y")), uint8(I(o, "k")))
	case "SetTextColorCMYK":
		p.SetTextColorCMYK(uint8(I(o, "c")), uint8(I(o, "m")), uint8(I(o, "y")), uint8(I(o, "k")))
	case "Rotate":
		p.Rotate(float64(I(o, "deg")), L(o, "x"), L(o, "y"))
	case "RotateReset":
		p.RotateReset()
	case "Save":
		p.SaveGraphicsState()
	case "Restore":
		p.RestoreGraphicsState()
	case "SetTransparency":
		r.err = p.SetTransparency(gopdf.Transparency{Alpha: float64(I(o, "a")) / 1000, BlendModeType: gopdf.BlendModeType(S(o, "bm"))})
	case "NewTransparency":
		t, err := gopdf.NewTransparency(float64(I(o, "a"))/1000, S(o, "bm"))
		r.err = err
		if err == nil {
			r.ret = []int{int(math.Round(t.Alpha * 1000))}
			r.err = p.SetTransparency(t)
		}
	case "ClearTransparency":
		p.ClearTransparency()
	case "AddFont":
		opt := w.fontOpt(d, o)
		fam, file := S(o, "fam"), S(o, "file")
		plain := I(o, "plain") != 0
		switch S(o, "via") {
		case "path":
			if plain {
				r.err = p.AddTTFFont(fam, w.path(file))
			} else {
				r.err = p.AddTTFFontWithOption(fam, w.path(file), opt)
			}
		case "data":
			b := append([]byte{}, w.bytes(file)...)
			k := hash(b)
			if plain {
				r.err = p.AddTTFFontData(fam, b)
			} else {
				r.err = p.AddTTFFontDataWithOption(fam, b, opt)
			}
			if hash(b) != k {
				r.chg = 1
			}
			if mut != 0 {
				for i := range b {
					b[i] = 0xEE
				}
			}
		case "reader":
			if plain {
				r.err = p.AddTTFFontByReader(fam, bytes.NewReader(w.bytes(file)))
			} else {
				r.err = p.AddTTFFontByReaderWithOption(fam, bytes.NewReader(w.bytes(file)), opt)
			}
		case "container":
			c := w.conts[S(o, "cont")]
			if c == nil {
				c = &gopdf.FontContainer{}
			}
			r.err = p.AddTTFFontFromFontContainer(fam, c)
		}
	case "ContainerFont":
		c := w.conts[S(o, "cont")]
		if c == nil {
			c = &gopdf.FontContainer{}
			w.conts[S(o, "cont")] = c
		}
		opt := w.fontOpt(d, o)
		plain := I(o, "plain") != 0
		switch {
		case S(o, "via") == "path" && plain:
			r.err = c.AddTTFFont(S(o, "fam"), w.path(S(o, "file")))
		case S(o, "via") == "data" && plain:
			r.err = c.AddTTFFontData(S(o, "fam"), append([]byte{}, w.bytes(S(o, "file"))...))
		case plain:
			r.err = c.AddTTFFontByReader(S(o, "fam"), bytes.NewReader(w.bytes(S(o, "file"))))
		case S(o, "via") == "path":
			r.err = c.AddTTFFontWithOption(S(o, "fam"), w.path(S(o, "file")), opt)
		case S(o, "via") == "data":
			r.err = c.AddTTFFontDataWithOption(S(o, "fam"), append([]byte{}, w.bytes(S(o, "file"))...), opt)
		default:
			r.err = c.AddTTFFontByReaderWithOption(S(o, "fam"), bytes.NewReader(w.bytes(S(o, "file"))), opt)
		}
	case "KernOverride":
		v := int16(I(o, "v"))
		r.err = p.KernOverride(S(o, "fam"), func(l, rr rune, lp, rp uint, pv int16) int16 { return v })
	case "SetFont":
		var size interface{} = float64(I(o, "size")) / 10
		n := I(o, "size") / 10
		switch S(o, "ty") {
		case "float32":
			size = float32(I(o, "size")) / 10
		case "int":
			size = n
		case "int8":
			size = int8(n)
		case "int16":
			size = int16(n)
		case "int32":
			size = int32(n)
		case "int64":
			size = int64(n)
		case "uint":
			size = uint(n)
		case "uint8":
			size = uint8(n)
		case "uint16":
			size = uint16(n)
		case "uint32":
			size = uint32(n)
		case "uint64":
			size = uint64(n)
		case "bad":
			size = "12"
		}
		if S(o, "api") == "style" {
			r.err = p.SetFontWithStyle(S(o, "fam"), I(o, "style"), size)
		} else {
			r.err = p.SetFont(S(o, "fam"), S(o, "sty"), size)
		}
	case "SetFontSize":
		r.err = p.SetFontSize(float64(I(o, "size")) / 10)
	case "SetCharSpacing":
		r.err = p.SetCharSpacing(L(o, "v"))
	case "Text":
		r.err = p.Text(T(o, "t"))
	case "Cell":
		rc := R(o)
		var k gopdf.Rect
		if rc != nil {
			k = *rc
		}
		r.err = p.Cell(rc, T(o, "t"))
		if rc != nil && *rc != k {
			r.chg = 1
		}
		if rc != nil && mut != 0 {
			rc.W, rc.H = 1, 1
		}
	case "CellOpt", "MultiCellOpt":
		rc := R(o)
		co := cellOpt(o)
		var k gopdf.Rect
		if rc != nil {
			k = *rc
		}
		var kt gopdf.Transparency
		var kb gopdf.BreakOption
		if co.Transparency != nil {
			kt = *co.Transparency
		}
		if co.BreakOption != nil {
			kb = *co.BreakOption
		}
		if name == "CellOpt" {
			r.err = p.CellWithOption(rc, T(o, "t"), co)
		} else {
			r.err = p.MultiCellWithOption(rc, T(o, "t"), co)
		}
		if rc != nil && *rc != k || co.Transparency != nil && *co.Transparency != kt || co.BreakOption != nil && *co.BreakOption != kb {
			r.chg = 1
		}
		if mut != 0 {
			if rc != nil {
				rc.W, rc.H = 1, 1
			}
			if co.Transparency != nil {
				co.Transparency.Alpha, co.Transparency.BlendModeType = 0.123, gopdf.Hue
			}
			if co.BreakOption != nil {
				co.BreakOption.Separator = "ZZ"
			}
		}
	case "MultiCell":
		rc := R(o)
		k := *rc
		r.err = p.MultiCell(rc, T(o, "t"))
		if *rc != k {
			r.chg = 1
		}
		if mut != 0 {
			rc.W, rc.H = 1, 1
		}
	case "IsFit", "IsFitNL":
		rc := R(o)
		k := *rc
		var ok bool
		var h float64
		if name == "IsFit" {
			ok, h, r.err = p.IsFitMultiCell(rc, T(o, "t"))
		} else {
			ok, h, r.err = p.IsFitMultiCellWithNewline(rc, T(o, "t"))
		}
		r.ret = []int{b2i(ok), mic(h)}
		if *rc != k {
			r.chg = 1
		}
	case "Split":
		var ls []string
		switch S(o, "kind") {
		case "plain":
			ls, r.err = p.SplitText(T(o, "t"), L(o, "w"))
		case "word":
			ls, r.err = p.SplitTextWithWordWrap(T(o, "t"), L(o, "w"))
		default:
			bo := brk(o)
			var kb gopdf.BreakOption
			if bo != nil {
				kb = *bo
			}
			ls, r.err = p.SplitTextWithOption(T(o, "t"), L(o, "w"), bo)
			if bo != nil && *bo != kb {
				r.chg = 1
			}
		}
		r.lines = [][]int{}
		for _, l := range ls {
			r.lines = append(r.lines, runes(l))
		}
	case "Measure":
		v, err := p.MeasureTextWidth(T(o, "t"))
		r.err = err
		r.ret = []int{mic(v)}
	case "MeasureH":
		v, err := p.MeasureCellHeightByText(T(o, "t"))
		r.err = err
		r.ret = []int{mic(v)}
	case "GlyphQ":
		ok, err := p.IsCurrFontContainGlyph(rune(I(o, "c")))
		r.err = err
		r.ret = []int{b2i(ok)}
	case "Placeholder":
		r.err = p.PlaceHolderText(S(o, "name"), L(o, "w"))
	case "FillPlaceholder":
		r.err = p.FillInPlaceHoldText(S(o, "name"), T(o, "t"), I(o, "align"))
	case "Image":
		f := S(o, "file")
		rc := R(o)
		var k gopdf.Rect
		if rc != nil {
			k = *rc
		}
		switch S(o, "via") {
		case "path":
			r.err = p.Image(w.path(f), L(o, "x"), L(o, "y"), rc)
		case "bytes":
			b := append([]byte{}, w.bytes(f)...)
			h, err := gopdf.ImageHolderByBytes(b)
			if err != nil {
				r.err = err
				return
			}
			if mut != 0 {
				for i := range b {
					b[i] = 0
				}
			}
			r.err = p.ImageByHolder(h, L(o, "x"), L(o, "y"), rc)
		case "kept":
			h, err := w.holder(o)
			if err != nil {
				r.err = err
				return
			}
			r.err = p.ImageByHolder(h, L(o, "x"), L(o, "y"), rc)
		case "hpath":
			h, err := gopdf.ImageHolderByPath(w.path(f))
			if err != nil {
				r.err = err
				return
			}
			r.err = p.ImageByHolder(h, L(o, "x"), L(o, "y"), rc)
		case "reader":
			h, err := gopdf.ImageHolderByReader(bytes.NewReader(w.bytes(f)))
			if err != nil {
				r.err = err
				return
			}
			r.err = p.ImageByHolder(h, L(o, "x"), L(o, "y"), rc)
		case "from":
			im := w.imgs[f]
			if im == nil {
				im, _, _ = image.Decode(bytes.NewReader(w.bytes(f)))
				w.imgs[f] = im
			}
			r.err = p.ImageFrom(im, L(o, "x"), L(o, "y"), rc)
		case "fromnil":
			r.err = p.ImageFrom(nil, L(o, "x"), L(o, "y"), rc)
		case "fromempty":
			r.err = p.ImageFrom(image.NewNRGBA(image.Rect(0, 0, 0, 0)), L(o, "x"), L(o, "y"), rc)
		case "fromdeep":
			r.err = p.ImageFrom(image.NewGray16(image.Rect(0, 0, 4, 4)), L(o, "x"), L(o, "y"), rc)
		case "fromformat":
			r.err = p.ImageFromWithOption(image.NewGray(image.Rect(0, 0, 4, 4)), gopdf.ImageFromOption{Format: "gif", X: L(o, "x"), Y: L(o, "y"), Rect: rc})
		case "fromjpeg":
			im, _, _ := image.Decode(bytes.NewReader(w.bytes(f)))
			r.err = p.ImageFromWithOption(im, gopdf.ImageFromOption{Format: "jpeg", X: L(o, "x"), Y: L(o, "y"), Rect: rc})
		}
		if rc != nil && *rc != k {
			r.chg = 1
		}
		if rc != nil && mut != 0 {
			rc.W, rc.H = 1, 1
		}
	case "ImageOpt":
		io1, err := w.imageOpts(o)
		if err != nil {
			r.err = err
			return
		}
		m := O(o, "mask")
		if I(m, "has") != 0 {
			mo, err := w.imageOpts(m)
			if err != nil {
				r.err = err
				return
			}
			h, err := w.holder(m)
			if err != nil {
				r.err = err
				return
			}
			io1.Mask = &gopdf.MaskOptions{ImageOptions: mo, Holder: h}
			if b := Ints(m, "box"); len(b) == 4 {
				io1.Mask.BBox = &[4]float64{float64(b[0]) / 100, float64(b[1]) / 100, float64(b[2]) / 100, float64(b[3]) / 100}
			}
		}
		h, err := w.holder(o)
		if err != nil {
			r.err = err
			return
		}
		snap := snapOpts(io1)
		r.err = p.ImageByHolderWithOptions(h, io1)
		if !reflect.DeepEqual(snap, snapOpts(io1)) {
			r.chg = 1
		}
		if mut != 0 {
			for _, q := range []*gopdf.ImageOptions{&io1, maskPart(&io1)} {
				if q == nil {
					continue
				}
				if q.Rect != nil {
					q.Rect.W, q.Rect.H = 3, 3
				}
				if q.Crop != nil {
					*q.Crop = gopdf.CropOptions{X: 1, Y: 1, Width: 1, Height: 1}
				}
				if q.Transparency != nil {
					q.Transparency.Alpha = 0.123
				}
			}
			if io1.Mask != nil {
				io1.Mask.X, io1.Mask.Y = 77, 77
				if io1.Mask.BBox != nil {
					*io1.Mask.BBox = [4]float64{1, 2, 3, 4}
				}
			}
		}
	case "AddCSRGB":
		r.err = p.AddColorSpaceRGB(S(o, "name"), uint8(I(o, "r")), uint8(I(o, "g")), uint8(I(o, "b")))
	case "AddCSCMYK":
		r.err = p.AddColorSpaceCMYK(S(o, "name"), uint8(I(o, "c")), uint8(I(o, "m")), uint8(I(o, "y")), uint8(I(o, "k")))
	case "SetCS":
		r.err = p.SetColorSpace(S(o, "name"))
	case "ExtLink":
		p.AddExternalLink(string(B(o, "url")), L(o, "x"), L(o, "y"), L(o, "w"), L(o, "h"))
	case "IntLink":
		p.AddInternalLink(S(o, "name"), L(o, "x"), L(o, "y"), L(o, "w"), L(o, "h"))
	case "SetAnchor":
		p.SetAnchor(S(o, "name"))
	case "Outline":
		p.AddOutline(T(o, "t"))
	case "OutlinePos":
		d.outlines = append(d.outlines, p.AddOutlineWithPosition(T(o, "t")))
	case "OutlineTree":
		// parent[i] = 0 for top level or the 1-based number of the parent entry
		par := Ints(o, "parent")
		// order[i] is the 1-based number of the entry that is the i-th from now on
		if ord := Ints(o, "order"); len(ord) > 0 {
			was := append([]*gopdf.OutlineObj(nil), d.outlines...)
			for i, n := range ord {
				d.outlines[i] = was[n-1]
			}
		}
		nodes := make([]*gopdf.OutlineNode, len(par))
		for i := range par {
			nodes[i] = &gopdf.OutlineNode{Obj: d.outlines[i]}
		}
		var top gopdf.OutlineNodes
		for i, q := range par {
			if q == 0 {
				top = append(top, nodes[i])
			} else {
				nodes[q-1].Children = append(nodes[q-1].Children, nodes[i])
			}
		}
		top.Parse()
	case "SetInfo":
		inf := gopdf.PdfInfo{Title: T(o, "title"), Author: T(o, "author"), Subject: T(o, "subject"), Creator: T(o, "creator"), Producer: T(o, "producer")}
		if dt := Ints(o, "date"); len(dt) == 7 {
			inf.CreationDate = time.Date(dt[0], time.Month(dt[1]), dt[2], dt[3], dt[4], dt[5], 0, time.FixedZone("z", dt[6]*60))
		}
		p.SetInfo(inf)
	case "GetInfo":
		inf := p.GetInfo()
		r.lines = [][]int{runes(inf.Title), runes(inf.Author), runes(inf.Subject), runes(inf.Creator), runes(inf.Producer)}
	case "SetCompress":
		p.SetCompressLevel(I(o, "level"))
	case "NoCompress":
		p.SetNoCompression()
	case "ImportPage":
		var id int
		if S(o, "via") == "path" {
			id = p.ImportPage(w.path(S(o, "file")), I(o, "n"), S(o, "box"))
		} else {
			id = p.ImportPageStream(w.reader(d, o), I(o, "n"), S(o, "box"))
			runtime.GC()
		}
		d.tpls = append(d.tpls, id)
	case "UseTemplate":
		p.UseImportedTemplate(d.tpls[I(o, "t")-1], L(o, "x"), L(o, "y"), L(o, "w"), L(o, "h"))
	case "ImportAll":
		switch S(o, "via") {
		case "path":
			r.err = p.ImportPagesFromSource(w.path(S(o, "file")), S(o, "box"))
		case "bytes":
			r.err = p.ImportPagesFromSource(append([]byte{}, w.bytes(S(o, "file"))...), S(o, "box"))
		case "rs":
			r.err = p.ImportPagesFromSource(bytes.NewReader(w.bytes(S(o, "file"))), S(o, "box"))
		case "prs", "var":
			r.err = p.ImportPagesFromSource(w.reader(d, o), S(o, "box"))
		default:
			r.err = p.ImportPagesFromSource(42, S(o, "box"))
		}
		runtime.GC()
	case "PageSizes":
		var ps map[int]map[string]map[string]float64
		if S(o, "via") != "path" {
			ps = p.GetStreamPageSizes(w.reader(d, o))
			runtime.GC()
		} else {
			ps = p.GetPageSizes(w.path(S(o, "file")))
		}
		r.ret = []int{}
		for i := 1; i <= len(ps); i++ {
			r.ret = append(r.ret, mic(ps[i]["/MediaBox"]["w"]), mic(ps[i]["/MediaBox"]["h"]))
		}
	case "Table":
		r.err = w.table(p, o)
	case "ToArabic":
		r.lines = [][]int{runes(gopdf.ToArabic(T(o, "t")))}
	case "Output":
		b, err := w.output(d, S(o, "via"))
		r.err = err
		if err == nil {
			if w.keep != "" {
				w.nkeep++
				os.WriteFile(fmt.Sprintf("%s/out%d.pdf", w.keep, w.nkeep), b, 0644)
			}
			if v, ok := o["light"]; ok && num(v) != 0 {
				r.out = J{"dig": hash(b), "len": len(b), "light": 1}
			} else {
				r.out = outputEvent(b, d.upass)
				r.out["light"] = 0
			}
			if d.upass != nil {
				r.out["auth"] = w.auth(b, d)
				r.out["leak"] = leaks(b, o)
			}
		}
	case "Same": // the specification compares the last outputs of two documents
	case "Faults":
		r.extra = w.faults(d, o)
		d.reading = true
	case "Reads":
		r.extra = w.reads(d, o)
	case "Stream":
		r.extra = w.stream(d, w.docs[I(o, "twin")], o)
		d.reading = true
	case "Opened":
		// opens the last output with the given password
		b, err := w.output(d, "bytes")
		r.err = err
		e := ParsePDF(b).encryption()
		if err == nil && e != nil {
			pw := B(o, "pass")
			r.ret = []int{b2i(userKey(pw, e) != nil), b2i(ownerKey(pw, e) != nil)}
		}
	default:
		panic("harness: unknown op " + name)
	}
}

// reader gives a stream of the file in the way the caller keeps it: a variable used again for every stream ("var"),
// the same stream as before ("same"), or a new variable with a new stream
func (w *World) reader(d *doc, o Op) *io.ReadSeeker {
	f := S(o, "file")
	switch S(o, "via") {
	case "var":
		d.rs = bytes.NewReader(w.bytes(f))
		return &d.rs
	case "same":
		if d.streams == nil {
			d.streams = map[string]*io.ReadSeeker{}
		}
		if d.streams[f] == nil {
			rs := io.ReadSeeker(bytes.NewReader(w.bytes(f)))
			d.streams[f] = &rs
		}
		return d.streams[f]
	}
	rs := io.ReadSeeker(bytes.NewReader(w.bytes(f)))
	return &rs
}

func leaks(b []byte, o Op) []string {
	out := []string{}
	a, _ := o["secrets"].([]interface{})
	for _, s := range a {
		if t, ok := s.(string); ok && bytes.Contains(b, []byte(t)) {
			out = append(out, t)
		}
	}
	return out
}

func (w *World) auth(b []byte, d *doc) J {
	e := ParsePDF(b).encryption()
	if e == nil {
		return J{"user": 0, "owner": 0, "same": 0, "empty": 0}
	}
	uk := userKey(d.upass, e)
	ok := ownerKey(d.opass, e)
	return J{"user": b2i(uk != nil), "owner": b2i(ok != nil), "same": b2i(uk != nil && bytes.Equal(uk, ok)), "empty": b2i(userKey(nil, e) != nil)}
}

func maskPart(o *gopdf.ImageOptions) *gopdf.ImageOptions {
	if o.Mask == nil {
		return nil
	}
	return &o.Mask.ImageOptions
}

type optSnap struct {
	A    gopdf.ImageOptions
	R    gopdf.Rect
	C    gopdf.CropOptions
	Tr   gopdf.Transparency
	M    *optSnap
	Box  [4]float64
	Mask gopdf.MaskOptions
}

func snapOpts(o gopdf.ImageOptions) *optSnap {
	s := &optSnap{}
	if o.Rect != nil {
		s.R = *o.Rect
	}
	if o.Crop != nil {
		s.C = *o.Crop
	}
	if o.Transparency != nil {
		s.Tr = *o.Transparency
	}
	if o.Mask != nil {
		s.M = snapOpts(o.Mask.ImageOptions)
		if o.Mask.BBox != nil {
			s.Box = *o.Mask.BBox
		}
	}
	s.A = gopdf.ImageOptions{DegreeAngle: o.DegreeAngle, VerticalFlip: o.VerticalFlip, HorizontalFlip: o.HorizontalFlip, X: o.X, Y: o.Y}
	return s
}

func (w *World) holder(o Op) (gopdf.ImageHolder, error) {
	switch S(o, "via") {
	case "bytes":
		return gopdf.ImageHolderByBytes(append([]byte{}, w.bytes(S(o, "file"))...))
	case "reader":
		return gopdf.ImageHolderByReader(bytes.NewReader(w.bytes(S(o, "file"))))
	case "kept":
		f := S(o, "file")
		if w.kept[f] == nil {
			h, err := gopdf.ImageHolderByBytes(append([]byte{}, w.bytes(f)...))
			if err != nil {
				return nil, err
			}
			w.kept[f] = h
		}
		return w.kept[f], nil
	}
	return gopdf.ImageHolderByPath(w.path(S(o, "file")))
}

func (w *World) imageOpts(o Op) (gopdf.ImageOptions, error) {
	c := O(o, "crop")
	io1 := gopdf.ImageOptions{DegreeAngle: float64(I(o, "deg")), VerticalFlip: I(o, "vf") != 0, HorizontalFlip: I(o, "hf") != 0, X: L(o, "x"), Y: L(o, "y"), Rect: R(o), Transparency: transp(o)}
	if I(c, "has") != 0 {
		io1.Crop = &gopdf.CropOptions{X: L(c, "x"), Y: L(c, "y"), Width: L(c, "w"), Height: L(c, "h")}
	}
	return io1, nil
}

func style(o Op) gopdf.CellStyle {
	b := Ints(o, "bs") // top,left,right,bottom,width(cu),r,g,b
	f := Ints(o, "fill")
	t := Ints(o, "text")
	return gopdf.CellStyle{
		BorderStyle: gopdf.BorderStyle{Top: b[0] != 0, Left: b[1] != 0, Right: b[2] != 0, Bottom: b[3] != 0, Width: float64(b[4]) / 100, RGBColor: gopdf.RGBColor{R: uint8(b[5]), G: uint8(b[6]), B: uint8(b[7])}},
		FillColor:   gopdf.RGBColor{R: uint8(f[0]), G: uint8(f[1]), B: uint8(f[2])},
		TextColor:   gopdf.RGBColor{R: uint8(t[0]), G: uint8(t[1]), B: uint8(t[2])},
		Font:        S(o, "font"), FontSize: float64(I(o, "size")) / 10,
	}
}

func (w *World) table(p *gopdf.GoPdf, o Op) error {
	t := p.NewTableLayout(L(o, "x"), L(o, "y"), L(o, "rh"), I(o, "max"))
	for _, c := range o["cols"].([]interface{}) {
		m := c.(map[string]interface{})
		t.AddColumn(T(m, "t"), L(m, "w"), S(m, "align"))
	}
	if s := O(o, "ts"); I(s, "has") != 0 {
		t.SetTableStyle(style(s))
	}
	if s := O(o, "hs"); I(s, "has") != 0 {
		t.SetHeaderStyle(style(s))
	}
	if s := O(o, "cs"); I(s, "has") != 0 {
		t.SetCellStyle(style(s))
	}
	for _, rr := range o["rows"].([]interface{}) {
		styled := false
		row := rr.([]interface{})
		for _, c := range row {
			if I(O(c.(map[string]interface{}), "st"), "has") != 0 {
				styled = true
			}
		}
		if styled {
			var cells []gopdf.RowCell
			for _, c := range row {
				m := c.(map[string]interface{})
				if I(O(m, "st"), "has") == 0 { // an empty cell among styled ones
					cells = append(cells, gopdf.RowCell{})
					continue
				}
				cells = append(cells, gopdf.NewRowCell(T(m, "t"), style(O(m, "st"))))
			}
			t.AddStyledRow(cells)
		} else {
			var cells []string
			for _, c := range row {
				cells = append(cells, T(c.(map[string]interface{}), "t"))
			}
			t.AddRow(cells)
		}
	}
	return t.DrawTable()
}

func (w *World) output(d *doc, via string) (out []byte, err error) {
	p := d.pdf
	if via != "read" {
		defer func() { d.reading = err != nil }()
	}
	switch via {
	case "bytes":
		b, err := p.GetBytesPdfReturnErr()
		return append([]byte{}, b...), err
	case "bytespdf":
		return append([]byte{}, p.GetBytesPdf()...), nil
	case "writeto":
		var b bytes.Buffer
		n, err := p.WriteTo(&b)
		if err == nil && int(n) != b.Len() {
			return nil, fmt.Errorf("WriteTo reports %d of %d bytes", n, b.Len())
		}
		return b.Bytes(), err
	case "write":
		var b bytes.Buffer
		err := p.Write(&b)
		return b.Bytes(), err
	case "file":
		f := filepath.Join(w.tmp, fmt.Sprintf("o%d.pdf", os.Getpid()))
		defer os.Remove(f)
		if w.nfile++; w.nfile%2 == 0 { // over an existing, longer file
			if err := os.WriteFile(f, bytes.Repeat([]byte{'Y'}, 3<<20), 0644); err != nil {
				panic(err)
			}
		}
		if err := p.WritePdf(f); err != nil {
			return nil, err
		}
		return os.ReadFile(f)
	case "read":
		// nothing is left from an earlier reading after the document was written in another way
		if d.reading {
			p.Close()
		}
		d.reading = true
		b, err := io.ReadAll(p)
		return b, err
	}
	panic("harness: via " + via)
}

// ---- destinations that fail

var errDest = errors.New("destination is full")

type limited struct {
	buf   []byte
	limit int
	short bool // reports a short count without an error
	once  bool // fails only once
	calls int  // fail at this call (0: by bytes)
	n     int
	after int // writes after the failure
	fail  bool
}

func (l *limited) Write(b []byte) (int, error) {
	if l.fail && !l.once {
		l.after++
		return 0, errDest
	}
	l.n++
	room := l.limit - len(l.buf)
	if len(b) <= room || (l.fail && l.once) {
		l.buf = append(l.buf, b...)
		return len(b), nil
	}
	l.fail = true
	l.buf = append(l.buf, b[:room]...)
	if l.short {
		return room, nil
	}
	return room, errDest
}

// marker notes where each write begins
type marker struct {
	at []int
	n  int
}

func (m *marker) Write(b []byte) (int, error) {
	m.at = append(m.at, m.n)
	m.n += len(b)
	return len(b), nil
}

// faults writes to destinations failing after each of the given numbers of bytes.
func (w *World) faults(d *doc, o Op) J {
	full, err := w.output(d, "bytes")
	if err != nil {
		return J{"faults": []interface{}{}, "flen": -1}
	}
	res := []interface{}{}
	var points []int
	if I(o, "step") > 0 {
		for n := I(o, "from"); n <= len(full)+2; n += I(o, "step") {
			points = append(points, n)
		}
	}
	points = append(points, 0, 1, len(full)-1, len(full), len(full)+1)
	// and where the writes begin
	if n := I(o, "calls"); n > 0 {
		m := &marker{}
		d.pdf.WriteTo(m)
		for i, k := I(o, "from")%7, len(m.at)/n+1; i < len(m.at); i += k {
			points = append(points, m.at[i])
		}
	}
	for _, n := range points {
		for _, short := range []int{0, 1, 2} {
			l := &limited{limit: n, short: short == 1, once: short == 2}
			var ret int64
			var err error
			api := S(o, "via")
			if api == "write" {
				err = d.pdf.Write(l)
				ret = -1
			} else {
				ret, err = d.pdf.WriteTo(l)
			}
			ek := 0
			if err != nil {
				ek = 3
				if errors.Is(err, errDest) {
					ek = 1
				} else if errors.Is(err, io.ErrShortWrite) {
					ek = 2
				}
			}
			pre := 0
			if len(l.buf) <= len(full) && bytes.Equal(l.buf, full[:len(l.buf)]) {
				pre = 1
			}
			res = append(res, []int{n, short, int(ret), ek, len(l.buf), pre})
		}
	}
	// and a file that cannot be written
	werr := d.pdf.WritePdf(filepath.Join(w.tmp, "no", "such", "dir", "x.pdf"))
	if st, e := os.Stat("/dev/full"); e == nil && st.Mode()&os.ModeCharDevice != 0 && werr != nil {
		werr = d.pdf.WritePdf("/dev/full")
	}
	if werr != nil {
		werr = d.pdf.WritePdf(w.tmp)
	}
	again, err := w.output(d, "bytes")
	return J{"faults": res, "flen": len(full), "again": b2i(err == nil && bytes.Equal(again, full)), "nofile": b2i(werr != nil)}
}

// stream takes a sequence of steps (read, close, write to destinations, other outputs, a change of the document) on one
// document; its twin, which gets the same changes, tells what the complete file is.  Each step is
// [kind, multiplier, divisor, addend]: the size is multiplier/divisor of the file plus addend.
func (w *World) stream(d, twin *doc, o Op) J {
	full := func() []byte {
		b, err := w.output(twin, "bytes")
		if err != nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	files := [][]byte{full()}
	cand := []int{0} // where a read may stand
	pos := 0
	res := []interface{}{}
	lens := []int{len(files[0])}
	for _, st := range o["steps"].([]interface{}) {
		a := st.([]interface{})
		q := func(i int) int { return int(a[i].(float64)) }
		cur := files[len(files)-1]
		n := len(cur)*q(1)/q(2) + q(3)
		if n < 0 {
			n = 0
		}
		kind, ret, ek := q(0), 0, 0
		match := [][]int{}
		seek := func(b []byte) {
			for v, f := range files {
				for _, p := range cand {
					if p+len(b) <= len(f) && bytes.Equal(f[p:p+len(b)], b) {
						match = append(match, []int{v + 1, p})
					}
				}
			}
		}
		code := func(err error) int {
			switch {
			case err == nil:
				return 0
			case errors.Is(err, errDest):
				return 1
			}
			return 2
		}
		acc := -1
		switch kind {
		case 0:
			b := make([]byte, n)
			k, err := d.pdf.Read(b)
			if err == io.EOF {
				ek = 1
			} else if err != nil {
				ek = 2
			}
			if k < 0 || k > n {
				ret = k
				break
			}
			ret = k
			seek(b[:k])
			pos += k
			cand = append(cand, pos)
		case 1:
			ek = code(d.pdf.Close())
			pos = 0
		case 2, 3, 4, 5: // a counting write to a destination that takes all, fails, is short, fails once
			l := &limited{limit: n, short: kind == 4, once: kind == 5}
			if kind == 2 {
				l.limit = 1 << 30
			}
			k, err := d.pdf.WriteTo(l)
			ret, ek, acc = int(k), code(err), len(l.buf)
			seek(l.buf)
			pos = 0
		case 6:
			l := &limited{limit: n}
			ek = code(d.pdf.Write(l))
			ret, acc = -1, len(l.buf)
			seek(l.buf)
			pos = 0
		case 7:
			b, err := d.pdf.GetBytesPdfReturnErr()
			ret, ek, acc = len(b), code(err), len(b)
			seek(b)
			for i := range b { // the caller owns what it was given
				b[i] = 'Z'
			}
			pos = 0
		case 8:
			b, err := w.output(d, "file")
			ret, ek, acc = len(b), code(err), len(b)
			seek(b)
			pos = 0
		case 9:
			x := float64(10 + 7*len(files))
			d.pdf.Line(x, 20, x+30, 40)
			twin.pdf.Line(x, 20, x+30, 40)
			files = append(files, full())
			lens = append(lens, len(files[len(files)-1]))
		}
		// positions counted from the last restart, and those of reads that were not restarted
		res = append(res, J{"k": kind, "n": n, "ret": ret, "ek": ek, "acc": acc, "m": match})
	}
	return J{"steps": res, "lens": lens}
}

// reads reads the document with the given buffer sizes (cyclically).
func (w *World) reads(d *doc, o Op) J {
	full, err := w.output(d, "bytes")
	if err != nil {
		return J{"reads": []interface{}{}, "flen": -1}
	}
	d.pdf.Close()
	sizes := Ints(o, "sizes")
	res := []interface{}{}
	var got []byte
	zero := 0
	for i := 0; len(res) < 5000; i++ {
		n := sizes[i%len(sizes)]
		b := make([]byte, n)
		k, err := d.pdf.Read(b)
		ek := 0
		if err == io.EOF {
			ek = 1
		} else if err != nil {
			ek = 2
		}
		got = append(got, b[:k]...)
		res = append(res, []int{n, k, ek})
		if err != nil {
			zero++
			if zero > 2 {
				break
			}
		}
	}
	out := J{"reads": res, "flen": len(full), "same": b2i(bytes.Equal(got, full)), "got": len(got)}
	d.pdf.Close()
	return out
}

func parseJSON(b []byte) (interface{}, error) {
	var v interface{}
	err := json.Unmarshal(b, &v)
	return v, err
}
