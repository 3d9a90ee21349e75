package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/benedoc-inc/pdfer/types"
)

// Content streams: a reader and an interpreter written from the file format, the
// reference for what extraction returns.

// cop is one operator with its operands.  An inline image is one operator, "BI".
type cop struct {
	Op   string
	Args []Val
}

// lexContent reads a content stream.
func lexContent(b []byte) ([]cop, error) {
	l := &lexer{b: b}
	var out []cop
	var args []Val
	for {
		l.ws()
		if l.p >= len(l.b) {
			break
		}
		c := l.b[l.p]
		switch {
		case c == '/' || c == '(' || c == '<' || c == '[' || c == '+' || c == '-' || c == '.' || c >= '0' && c <= '9':
			start := l.p
			var v Val
			if c == '[' || c == '<' || c == '(' || c == '/' {
				v = l.value()
			} else {
				v = numVal(l.word())
			}
			if l.err != nil {
				return nil, l.err
			}
			if l.p == start {
				return nil, fmt.Errorf("at %d: no progress", start)
			}
			args = append(args, v)
		default:
			w := l.word()
			if w == "" {
				return nil, fmt.Errorf("at %d: stray %q", l.p, l.b[l.p])
			}
			if w == "true" || w == "false" || w == "null" {
				args = append(args, Name("#"+w))
				continue
			}
			out = append(out, cop{w, args})
			args = nil
			if w == "ID" {
				// the data end before an EI between white space
				e := l.p
				for {
					i := bytes.Index(l.b[e:], []byte("EI"))
					if i < 0 {
						return nil, fmt.Errorf("at %d: no EI", l.p)
					}
					e += i + 2
					if e > 2 && isWS(l.b[e-3]) && (e == len(l.b) || isWS(l.b[e])) {
						break
					}
				}
				l.p = e
			}
		}
	}
	if len(args) > 0 {
		return nil, fmt.Errorf("%d operands without operator at the end", len(args))
	}
	return out, nil
}

func numVal(w string) Val {
	if n, err := strconv.ParseInt(w, 10, 64); err == nil {
		return n
	}
	return Real(w)
}

// num is the value of a number.
func num(v Val) float64 {
	switch x := v.(type) {
	case int64:
		return float64(x)
	case Real:
		f, _ := strconv.ParseFloat(string(x), 64)
		return f
	case float64:
		return x
	}
	return math.NaN()
}

func near(a, b float64) bool {
	d := math.Abs(a - b)
	return d <= 1e-3 || d <= 1e-7*(math.Abs(a)+math.Abs(b))
}

func nearTo(a, b, tol float64) bool {
	d := math.Abs(a - b)
	return d <= tol || d <= 1e-7*(math.Abs(a)+math.Abs(b))
}

type mat [6]float64

func (a mat) then(b mat) mat {
	return mat{
		a[0]*b[0] + a[1]*b[2], a[0]*b[1] + a[1]*b[3],
		a[2]*b[0] + a[3]*b[2], a[2]*b[1] + a[3]*b[3],
		a[4]*b[0] + a[5]*b[2] + b[4], a[4]*b[1] + a[5]*b[3] + b[5],
	}
}

var unit = mat{1, 0, 0, 1, 0, 0}

type xcolor struct {
	space string
	v     [4]float64
}

type xtext struct {
	text                     string
	x, y, size, cs, ws, rise float64
	font                     string
	tm                       mat
}

type xgfx struct {
	kind         string
	fill, stroke xcolor
	width        float64
	box          [4]float64
}

type ximg struct {
	name string
	m    mat
}

type tparams struct {
	font                        string
	size, cs, ws, rise, leading float64
}

type gstate struct {
	t            tparams
	fill, stroke xcolor
	width        float64
	ctm          mat
}

type xpage struct {
	text []xtext
	gfx  []xgfx
	img  []ximg
}

// interpret runs a content stream; dec turns the bytes of a string into text.
func interpret(ops []cop, dec func(font, s string) string) *xpage {
	p := &xpage{}
	g := gstate{width: 1, ctm: unit, fill: xcolor{space: "rgb"}, stroke: xcolor{space: "rgb"}}
	var st []gstate
	tm, lm := unit, unit
	nums := func(a []Val) []float64 {
		o := make([]float64, len(a))
		for i := range a {
			o[i] = num(a[i])
		}
		return o
	}
	show := func(s string) {
		p.text = append(p.text, xtext{s, lm[4], lm[5], g.t.size, g.t.cs, g.t.ws, g.t.rise, g.t.font, tm})
	}
	move := func(x, y float64) { lm = mat{1, 0, 0, 1, x, y}.then(lm) }
	for _, o := range ops {
		v := nums(o.Args)
		switch o.Op {
		case "BT":
			tm, lm = unit, unit
		case "Td":
			move(v[0], v[1])
		case "TD":
			g.t.leading = -v[1]
			move(v[0], v[1])
		case "T*":
			move(0, -g.t.leading)
		case "Tm":
			copy(tm[:], v)
			lm = tm
		case "Tf":
			g.t.font, g.t.size = string(o.Args[0].(Name)), v[1]
		case "Tc":
			g.t.cs = v[0]
		case "Tw":
			g.t.ws = v[0]
		case "Ts":
			g.t.rise = v[0]
		case "TL":
			g.t.leading = v[0]
		case "Tj":
			show(dec(g.t.font, string(o.Args[0].(Str))))
		case "'":
			move(0, -g.t.leading)
			show(dec(g.t.font, string(o.Args[0].(Str))))
		case "\"":
			g.t.ws, g.t.cs = v[0], v[1]
			move(0, -g.t.leading)
			show(dec(g.t.font, string(o.Args[2].(Str))))
		case "TJ":
			s := ""
			for _, e := range o.Args[0].(Arr) {
				if x, ok := e.(Str); ok {
					s += dec(g.t.font, string(x))
				}
			}
			show(s)
		case "re":
			p.gfx = append(p.gfx, xgfx{"rectangle", g.fill, g.stroke, g.width, [4]float64{v[0], v[1], v[0] + v[2], v[1] + v[3]}})
		case "l":
			p.gfx = append(p.gfx, xgfx{"line", xcolor{}, g.stroke, g.width, [4]float64{}})
		case "w":
			g.width = v[0]
		case "q":
			st = append(st, g)
		case "Q":
			if len(st) > 0 {
				g = st[len(st)-1]
				st = st[:len(st)-1]
			}
		case "cm":
			var m mat
			copy(m[:], v)
			g.ctm = m.then(g.ctm)
		case "rg":
			g.fill = xcolor{"rgb", [4]float64{v[0], v[1], v[2]}}
		case "RG":
			g.stroke = xcolor{"rgb", [4]float64{v[0], v[1], v[2]}}
		case "g":
			g.fill = xcolor{"gray", [4]float64{v[0]}}
		case "G":
			g.stroke = xcolor{"gray", [4]float64{v[0]}}
		case "k":
			g.fill = xcolor{"cmyk", [4]float64{v[0], v[1], v[2], v[3]}}
		case "K":
			g.stroke = xcolor{"cmyk", [4]float64{v[0], v[1], v[2], v[3]}}
		case "Do":
			p.img = append(p.img, ximg{string(o.Args[0].(Name)), g.ctm})
		}
	}
	return p
}

func sameColor(got *types.Color, want xcolor) bool {
	if got == nil {
		return false
	}
	switch want.space {
	case "rgb":
		return (got.Space == "" || got.Space == types.ColorSpaceRGB) && near(got.R, want.v[0]) && near(got.G, want.v[1]) && near(got.B, want.v[2])
	case "gray":
		return got.Space == types.ColorSpaceGray && near(got.R, want.v[0])
	case "cmyk":
		return got.Space == types.ColorSpaceCMYK && near(got.C, want.v[0]) && near(got.M, want.v[1]) && near(got.Y, want.v[2]) && near(got.K, want.v[3])
	}
	return true
}

// diffPage compares what the library extracted with the interpretation.  name undoes
// escapes in names.
func diffPage(got *types.Page, want *xpage, tol float64) (class, text string) {
	name := func(s string) string { return nameText(strings.TrimPrefix(s, "/")) }
	if len(got.Text) != len(want.text) {
		g, w := []string{}, []string{}
		for _, t := range got.Text {
			g = append(g, t.Text)
		}
		for _, t := range want.text {
			w = append(w, t.text)
		}
		return "text-count", fmt.Sprintf("%d text elements %.300q, want %d %.300q", len(g), g, len(w), w)
	}
	for i, t := range got.Text {
		w := want.text[i]
		at := fmt.Sprintf("text element %d (%.100q)", i, w.text)
		if t.Text != w.text {
			return "text", fmt.Sprintf("text element %d is %.300q, want %.300q (font %s)", i, t.Text, w.text, w.font)
		}
		if name(t.FontName) != w.font && !(t.FontName == "" && w.font == "") {
			return "text-font", fmt.Sprintf("%s has font %s, want /%s", at, t.FontName, w.font)
		}
		if !nearTo(t.FontSize, w.size, tol) {
			return "text-size", fmt.Sprintf("%s has size %v, want %v", at, t.FontSize, w.size)
		}
		if !nearTo(t.X, w.x, tol) || !nearTo(t.Y, w.y, tol) {
			return "text-place", fmt.Sprintf("%s is at %v %v, want %v %v", at, t.X, t.Y, w.x, w.y)
		}
		if !nearTo(t.CharSpacing, w.cs, tol) || !nearTo(t.WordSpacing, w.ws, tol) || !nearTo(t.TextRise, w.rise, tol) {
			return "text-state", fmt.Sprintf("%s has character spacing %v, word spacing %v, rise %v, want %v %v %v", at, t.CharSpacing, t.WordSpacing, t.TextRise, w.cs, w.ws, w.rise)
		}
		for k := range w.tm {
			if !nearTo(t.TextMatrix[k], w.tm[k], tol) {
				return "text-matrix", fmt.Sprintf("%s has text matrix %v, want %v", at, t.TextMatrix, w.tm)
			}
		}
	}
	if len(got.Graphics) != len(want.gfx) {
		return "graphics-count", fmt.Sprintf("%d graphics, want %d", len(got.Graphics), len(want.gfx))
	}
	for i, g := range got.Graphics {
		w := want.gfx[i]
		if string(g.Type) != w.kind {
			return "graphics", fmt.Sprintf("graphic %d is a %s, want a %s", i, g.Type, w.kind)
		}
		if !nearTo(g.LineWidth, w.width, tol) {
			return "graphics-width", fmt.Sprintf("graphic %d (%s) has line width %v, want %v", i, w.kind, g.LineWidth, w.width)
		}
		if !sameColor(g.StrokeColor, w.stroke) {
			return "graphics-color", fmt.Sprintf("graphic %d (%s) has stroke color %+v, want %v", i, w.kind, g.StrokeColor, w.stroke)
		}
		if w.kind == "rectangle" {
			if !sameColor(g.FillColor, w.fill) {
				return "graphics-color", fmt.Sprintf("graphic %d has fill color %+v, want %v", i, g.FillColor, w.fill)
			}
			b := g.BoundingBox
			if b == nil || !nearTo(b.LowerX, w.box[0], tol) || !nearTo(b.LowerY, w.box[1], tol) || !nearTo(b.UpperX, w.box[2], tol) || !nearTo(b.UpperY, w.box[3], tol) {
				return "graphics-box", fmt.Sprintf("rectangle %d has the box %+v, want %v", i, b, w.box)
			}
		}
	}
	if len(got.Images) != len(want.img) {
		return "image-count", fmt.Sprintf("%d image references, want %d", len(got.Images), len(want.img))
	}
	for i, g := range got.Images {
		w := want.img[i]
		if name(g.ImageID) != w.name {
			return "image-name", fmt.Sprintf("image reference %d is %s, want /%s", i, g.ImageID, w.name)
		}
		for k := range w.m {
			if !nearTo(g.Transform[k], w.m[k], tol) {
				return "image-place", fmt.Sprintf("image reference %d has the matrix %v, want %v", i, g.Transform, w.m)
			}
		}
		if !nearTo(g.X, w.m[4], tol) || !nearTo(g.Y, w.m[5], tol) || !nearTo(g.Width, math.Abs(w.m[0]), tol) || !nearTo(g.Height, math.Abs(w.m[3]), tol) {
			return "image-place", fmt.Sprintf("image reference %d is at %v %v, size %v %v, want %v", i, g.X, g.Y, g.Width, g.Height, w.m)
		}
	}
	return "", ""
}

// nameText undoes the escapes of a name.
func nameText(s string) string {
	if !strings.Contains(s, "#") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '#' && i+2 < len(s) && hexv(s[i+1]) >= 0 && hexv(s[i+2]) >= 0 {
			b.WriteByte(byte(hexv(s[i+1])<<4 | hexv(s[i+2])))
			i += 2
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// sameOps compares operators as written with operators as meant; numbers may be rounded
// to four decimals.
func sameOps(got, want []cop) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) {
			return fmt.Sprintf("operator %d, %s, is missing", i, showOp(want[i]))
		}
		if i >= len(want) {
			return fmt.Sprintf("operator %d, %s, was never asked for", i, showOp(got[i]))
		}
		if got[i].Op != want[i].Op || !sameArgs(got[i].Args, want[i].Args) {
			return fmt.Sprintf("operator %d is %s, want %s", i, showOp(got[i]), showOp(want[i]))
		}
	}
	return ""
}

func showOp(o cop) string {
	s := ""
	for _, a := range o.Args {
		if f, ok := a.(float64); ok {
			s += fmt.Sprint(f, " ")
		} else {
			s += showVal(a) + " "
		}
	}
	return clipS(s+o.Op, 200)
}

func sameArgs(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch y := b[i].(type) {
		case int64, Real, float64:
			if !(math.Abs(num(a[i])-num(b[i])) <= 0.000051) {
				return false
			}
		case Arr:
			x, ok := a[i].(Arr)
			if !ok || !sameArgs(x, y) {
				return false
			}
		default:
			if showVal(a[i]) != showVal(y) {
				return false
			}
		}
	}
	return true
}

// roundOps is what is left of numbers after they were written with four decimals.
func roundOps(ops []cop) []cop {
	var rv func(v Val) Val
	rv = func(v Val) Val {
		switch x := v.(type) {
		case float64:
			return Real(strconv.FormatFloat(x, 'f', 4, 64))
		case Arr:
			o := make(Arr, len(x))
			for i := range x {
				o[i] = rv(x[i])
			}
			return o
		}
		return v
	}
	out := make([]cop, len(ops))
	for i, o := range ops {
		out[i] = cop{o.Op, rv(Arr(o.Args)).(Arr)}
	}
	return out
}
