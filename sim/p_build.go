package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"math"
	"sort"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	rt "github.com/benedoc-inc/pdfer/zz_simrt"
)

// C09: what is built with the page builder is what is in the file and what extraction
// returns from it.

type bimg struct {
	info  *write.ImageInfo
	kind  string // jpeg, gray, rgb
	w, h  int
	data  []byte // jpeg file, or samples
	alpha []byte // nil if opaque
	exact bool
	space string

	direct bool // only AddJPEGImage can add it
}

type bpage struct {
	pb     *write.PageBuilder
	w, h   float64
	ops    []cop
	fonts  map[string]string // resource name -> font
	imgs   map[string]*bimg
	efonts map[string]*tfont // resource name -> embedded font
	odd    bool              // has text outside of what fonts can show
}

type bhist struct {
	c      *Ctx
	b      *write.SimplePDFBuilder
	open   []*bpage
	done   []*bpage
	imgs   []*bimg
	efonts []*tfont
	marks  []types.Bookmark
	mpage  int // number of pages when the outline was made
	meta   map[string]string
	dates  map[string][2]time.Time
	enc    bool
	pass   []byte
	last   []byte
	xref   bool
	ostm   bool
	seen   [2]time.Time
	cat    Dict // the catalog of the caller, if there is one
}

func (h *bhist) tick() time.Time {
	t := rt.ClockNow()
	if h.seen[0].IsZero() || t.Before(h.seen[0]) {
		h.seen[0] = t
	}
	if t.After(h.seen[1]) {
		h.seen[1] = t
	}
	return t
}

func fx(v int64) float64 { return float64(v) / 1e6 }

var stdFonts = []string{"Helvetica", "Helvetica-Bold", "Helvetica-Oblique", "Helvetica-BoldOblique", "Times-Roman", "Times-Bold", "Times-Italic", "Times-BoldItalic", "Courier", "Courier-Bold", "Courier-Oblique", "Courier-BoldOblique"}

// pageFonts has those with codes of their own, too.
var pageFonts = append(stdFonts[:len(stdFonts):len(stdFonts)], "Symbol", "ZapfDingbats")

// content applies one drawing operation to the builder and to the model.
func (h *bhist) content(p *bpage, op Op) {
	cs := p.pb.Content()
	v := make([]float64, 8)
	for i := range v {
		if i+2 < len(op.A) {
			v[i] = fx(op.A[i+2])
		}
	}
	add := func(name string, args ...Val) { p.ops = append(p.ops, cop{name, args}) }
	f := func(n int) []Val {
		o := make([]Val, n)
		for i := range o {
			o[i] = v[i]
		}
		return o
	}
	s := op.Str(0)
	for _, s := range op.S {
		if op.I(1) != 26 {
			s = shownCodes(s)
		}
		for i := 0; i < len(s); i++ {
			if _, ok := winShows(s[i]); !ok {
				p.odd = true
			}
		}
	}
	h.c.Call("ContentStream", func() {
		switch op.I(1) {
		case 0:
			cs.SaveState()
			add("q")
		case 1:
			cs.RestoreState()
			add("Q")
		case 2:
			cs.SetMatrix(v[0], v[1], v[2], v[3], v[4], v[5])
			add("cm", f(6)...)
		case 3:
			cs.Translate(v[0], v[1])
			add("cm", 1.0, 0.0, 0.0, 1.0, v[0], v[1])
		case 4:
			cs.Scale(v[0], v[1])
			add("cm", v[0], 0.0, 0.0, v[1], 0.0, 0.0)
		case 5:
			cs.SetFillColorRGB(v[0], v[1], v[2])
			add("rg", f(3)...)
		case 6:
			cs.SetStrokeColorRGB(v[0], v[1], v[2])
			add("RG", f(3)...)
		case 7:
			cs.SetFillColorGray(v[0])
			add("g", f(1)...)
		case 8:
			cs.SetStrokeColorGray(v[0])
			add("G", f(1)...)
		case 9:
			cs.MoveTo(v[0], v[1])
			add("m", f(2)...)
		case 10:
			cs.LineTo(v[0], v[1])
			add("l", f(2)...)
		case 11:
			cs.Rectangle(v[0], v[1], v[2], v[3])
			add("re", f(4)...)
		case 12:
			cs.Stroke()
			add("S")
		case 13:
			cs.Fill()
			add("f")
		case 14:
			cs.FillStroke()
			add("B")
		case 15:
			cs.ClosePath()
			add("h")
		case 16:
			cs.ClosePathStroke()
			add("s")
		case 17:
			cs.SetLineWidth(v[0])
			add("w", f(1)...)
		case 18:
			cs.BeginText()
			add("BT")
		case 19:
			cs.EndText()
			add("ET")
		case 20:
			names := sortedStr(p.fonts)
			if len(names) == 0 {
				return
			}
			n := names[abs(op.I(3))%len(names)]
			cs.SetFont("/"+n, v[0])
			add("Tf", Name(n), v[0])
		case 21:
			cs.SetTextPosition(v[0], v[1])
			add("Td", f(2)...)
		case 22:
			cs.SetTextMatrix(v[0], v[1], v[2], v[3], v[4], v[5])
			add("Tm", f(6)...)
		case 23:
			cs.ShowText(s)
			add("Tj", Str(shownCodes(s)))
		case 24:
			cs.ShowTextNextLine(s)
			add("'", Str(shownCodes(s)))
		case 25:
			var el []interface{}
			var want Arr
			for i, x := range op.S {
				if len(op.A) > i+2 && op.A[i+2]%3 == 0 {
					n := int(op.A[i+2] % 997)
					el = append(el, n)
					want = append(want, int64(n))
				} else if len(op.A) > i+2 && op.A[i+2]%3 == 1 {
					el = append(el, v[i%8])
					want = append(want, v[i%8])
				}
				if len(op.A) > i+2 && op.A[i+2]%7 == 2 { // a number after a number
					el = append(el, i-2, v[(i+1)%8])
					want = append(want, int64(i-2), v[(i+1)%8])
				}
				el = append(el, x)
				want = append(want, Str(shownCodes(x)))
			}
			cs.ShowTextArray(el)
			add("TJ", want)
		case 26:
			cs.ShowTextHex(fmt.Sprintf("%x", s))
			add("Tj", Str(s))
		case 27:
			cs.MoveTextPosition(v[0], v[1])
			add("TD", f(2)...)
		case 28:
			cs.SetTextRenderMode(op.I(2) & 7)
			add("Tr", int64(op.I(2)&7))
		case 29:
			cs.SetTextLeading(v[0])
			add("TL", f(1)...)
		case 30:
			cs.NextLine()
			add("T*")
		case 31:
			cs.SetCharSpacing(v[0])
			add("Tc", f(1)...)
		case 32:
			cs.SetWordSpacing(v[0])
			add("Tw", f(1)...)
		case 33:
			cs.SetTextRise(v[0])
			add("Ts", f(1)...)
		case 34, 35:
			names := sortedImg(p.imgs)
			if len(names) == 0 {
				return
			}
			n := names[abs(op.I(6))%len(names)]
			if op.I(1) == 34 {
				cs.DrawImage(escName(n))
				add("Do", Name(n))
				return
			}
			cs.DrawImageAt(escName(n), v[0], v[1], v[2], v[3])
			add("q")
			add("cm", v[2], 0.0, 0.0, v[3], v[0], v[1])
			add("Do", Name(n))
			add("Q")
		case 36:
			cs.CurveTo(v[0], v[1], v[2], v[3], v[4], v[5])
			add("c", f(6)...)
		case 37:
			cs.CurveToV(v[0], v[1], v[2], v[3])
			add("v", f(4)...)
		case 38:
			cs.CurveToY(v[0], v[1], v[2], v[3])
			add("y", f(4)...)
		case 39:
			n := op.I(2) & 3
			var want Arr
			for i := 0; i < n; i++ {
				want = append(want, v[i+1])
			}
			cs.SetLineDash(v[1:1+n], v[5])
			add("d", want, v[5])
		case 40:
			raw := rawBits[op.I(2)%len(rawBits)]
			cs.Raw(raw)
			ops, err := lexContent([]byte(raw))
			if err != nil {
				panic(err)
			}
			p.ops = append(p.ops, ops...)
		}
	})
}

var rawBits = []string{
	"0.1 0.2 0.3 0.4 k", "1 0 0 0 K\n", "3 1 (quoted) \"", "% a comment (\n0 g", "BI /W 2 /H 2 /BPC 8 /CS /G ID \xff\x00Q(\nEI", "/P <</MCID 0>> BDC", "EMC\n", "", "/Span BMC", "[<4142> -120 (C)]TJ", "1 0 0 1 10 20 cm q", "2 J 1 j 10 M", ".5 w", "+3.5 -.25 Td", "(a\\\nb\\050\\)) Tj",
}

func sortedStr(m map[string]string) []string {
	o := make([]string, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func sortedImg(m map[string]*bimg) []string {
	o := make([]string, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// escName writes a name.
func escName(s string) string {
	o := "/"
	for i := 0; i < len(s); i++ {
		if c := s[i]; c <= 32 || c > 126 || isDelim(c) || c == '#' {
			o += fmt.Sprintf("#%02X", c)
		} else {
			o += string(c)
		}
	}
	return o
}

// makeImage makes the file of an image.
func makeImage(kind, w, hh int, seed uint64) (file []byte, m *bimg) {
	r := NewRng(seed)
	if w < 1000 {
		w, hh = max(1, w%40), max(1, hh%40)
	} else { // a large one
		w, hh = max(1, (w-1000)%500), max(1, hh%500)
	}
	m = &bimg{w: w, h: hh, exact: true}
	rect := image.Rect(0, 0, w, hh)
	var b bytes.Buffer
	px := func() uint8 { return uint8(r.U64() >> 20) }
	al := func() uint8 {
		switch r.N(3) {
		case 0:
			return 255
		case 1:
			return 0
		}
		return px()
	}
	if kind < 4 {
		m.kind, m.space = "jpeg", "DeviceRGB"
		var im image.Image
		if kind == 0 {
			g := image.NewGray(rect)
			copy(g.Pix, r.Bytes(len(g.Pix)))
			im = g
			m.space = "DeviceGray"
		} else {
			g := image.NewRGBA(rect)
			copy(g.Pix, r.Bytes(len(g.Pix)))
			for i := 3; i < len(g.Pix); i += 4 {
				g.Pix[i] = 255
			}
			im = g
		}
		if err := jpeg.Encode(&b, im, &jpeg.Options{Quality: 1 + r.N(100)}); err != nil {
			panic(err)
		}
		file = b.Bytes()
		if r.P(50) {
			// an application segment that looks like a frame header
			seg := append([]byte{0xff, 0xe1, 0, 0}, "Exif\x00\xff\xc0\x00\x11\x08\x00\x01\x00\x01\x04"...)
			seg = append(seg, r.Bytes(r.N(60))...)
			seg[2], seg[3] = byte((len(seg)-2)>>8), byte(len(seg)-2)
			file = append(append(append([]byte{}, file[:2]...), seg...), file[2:]...)
		}
		if r.P(25) { // fill bytes before a marker
			if i := bytes.Index(file, []byte{0xff, []byte{0xdb, 0xc0, 0xc4}[r.N(3)]}); i >= 0 && !bytes.Contains(file[:i], []byte("Exif")) {
				file = append(append(append([]byte{}, file[:i]...), bytes.Repeat([]byte{0xff}, 1+r.N(4))...), file[i:]...)
			}
		}
		if kind == 3 {
			// four components, of which only the header matters to the writer
			if i := bytes.Index(file[2:], []byte{0xff, 0xc0, 0, 17, 8}); i >= 0 && !bytes.Contains(file[:i+2], []byte("Exif")) {
				file[i+2+9] = 4
				m.space = "DeviceCMYK"
			}
		}
		if kind == 2 && r.P(50) {
			// a frame of another process, of which only the header matters to the writer
			if i := bytes.Index(file[2:], []byte{0xff, 0xc0, 0, 17, 8}); i >= 0 && !bytes.Contains(file[:i+2], []byte("Exif")) {
				file[i+2+1] = byte(0xc1 + r.N(2))
				m.direct = true
			}
		}
		m.data = append([]byte{}, file...)
		return
	}
	m.kind = "rgb"
	rgb := func(at func(x, y int) (uint8, uint8, uint8, uint8)) {
		opaque := true
		for y := 0; y < hh; y++ {
			for x := 0; x < w; x++ {
				a, bb, c, d := at(x, y)
				m.data = append(m.data, a, bb, c)
				m.alpha = append(m.alpha, d)
				opaque = opaque && d == 255
			}
		}
		if opaque {
			m.alpha = nil
		}
	}
	var im image.Image
	m.space = "DeviceRGB"
	switch kind {
	case 4:
		g := image.NewGray(rect)
		copy(g.Pix, r.Bytes(len(g.Pix)))
		im, m.kind, m.space, m.data = g, "gray", "DeviceGray", append([]byte{}, g.Pix...)
	case 5:
		g := image.NewGray16(rect)
		copy(g.Pix, r.Bytes(len(g.Pix)))
		for i := 0; i < len(g.Pix); i += 2 {
			m.data = append(m.data, g.Pix[i])
		}
		im, m.kind, m.space = g, "gray", "DeviceGray"
	case 6, 7:
		g := image.NewNRGBA(rect)
		for i := range g.Pix {
			g.Pix[i] = px()
			if i%4 == 3 {
				g.Pix[i] = 255
				if kind == 7 {
					g.Pix[i] = al()
				}
			}
		}
		im = g
		rgb(func(x, y int) (uint8, uint8, uint8, uint8) { c := g.NRGBAAt(x, y); return c.R, c.G, c.B, c.A })
	case 8:
		n := 2 + r.N(30)
		var pal color.Palette
		for i := 0; i < n; i++ {
			pal = append(pal, color.NRGBA{px(), px(), px(), al()})
		}
		g := image.NewPaletted(rect, pal)
		for i := range g.Pix {
			g.Pix[i] = uint8(r.N(n))
		}
		im = g
		rgb(func(x, y int) (uint8, uint8, uint8, uint8) {
			c := pal[g.ColorIndexAt(x, y)].(color.NRGBA)
			return c.R, c.G, c.B, c.A
		})
	default:
		g := image.NewNRGBA64(rect)
		copy(g.Pix, r.Bytes(len(g.Pix)))
		im = g
		m.exact = false
		rgb(func(x, y int) (uint8, uint8, uint8, uint8) {
			c := g.NRGBA64At(x, y)
			return uint8(c.R >> 8), uint8(c.G >> 8), uint8(c.B >> 8), uint8(c.A >> 8)
		})
	}
	if err := png.Encode(&b, im); err != nil {
		panic(err)
	}
	return b.Bytes(), m
}

// samePixels compares samples; what has no opacity has no colour.
func (m *bimg) samePixels(got []byte) bool {
	if len(got) != len(m.data) {
		return false
	}
	for i := range got {
		d := int(got[i]) - int(m.data[i])
		if d == 0 {
			continue
		}
		if m.alpha != nil && m.kind == "rgb" {
			a := m.alpha[i/3]
			if a == 0 {
				continue
			}
			// sixteen bits were multiplied by the opacity on the way
			if !m.exact && abs(d) <= 1+255/int(a) {
				continue
			}
		}
		return false
	}
	return true
}

func (h *bhist) bookmarks(r *Rng, depth int) []types.Bookmark {
	var out []types.Bookmark
	n := 1 + r.N(3)
	for i := 0; i < n; i++ {
		b := types.Bookmark{Title: genText(r)}
		switch r.N(6) {
		case 0, 1, 2:
			b.PageNumber = 1 + r.N(max(1, len(h.done)+1))
		case 3:
			b.URI = "http://example.org/" + r.Pick("", "a(b)", "q?x=1&y=\\2", "%20")
		case 4:
			b.Destination = r.Pick("chapter 1", "(in brackets)", "/Name", "a)b", "[987654 0 R /Fit]", "<414243>")
		}
		if r.P(20) {
			b.URI = "http://two.example.org/"
		}
		if depth > 0 && r.P(40) {
			b.Children = h.bookmarks(r, depth-1)
		}
		out = append(out, b)
	}
	return out
}

// winShows is the character that a code shows in a font with WinAnsiEncoding; false if
// there is none, or one that is read as another.
func winShows(c byte) (rune, bool) {
	if c >= 0x80 && c < 0xa0 {
		r, ok := winHigh[int(c)]
		return r, ok
	}
	return rune(c), c != 127 && c != 0xa0 && c != 0xad && (c >= 32 || c == '\n' || c == '\r' || c == '\t')
}

// shownCodes are the codes that show a text in a font with WinAnsiEncoding; the bytes
// themselves where it has other characters.
func shownCodes(s string) string {
	var o []byte
	if !utf8.ValidString(s) {
		return s
	}
next:
	for _, r := range s {
		for c, x := range winHigh {
			if x == r {
				o = append(o, byte(c))
				continue next
			}
		}
		if r > 255 || r >= 128 && r < 160 {
			return s
		}
		o = append(o, byte(r))
	}
	return string(o)
}

// genText makes text for people to read.
func genText(r *Rng) string {
	switch r.N(8) {
	case 0:
		return r.Pick("(a)", "a\\b", ")(", "<<", ">>", "1 0 R", "/Name", "x endobj y", "stream", "%c", "[", "D:2020", "tab\there", "cr\rlf\nx", "\\", "(", "unbal)anced")
	case 1, 2:
		return r.Pick("“smart” – ‘quotes’", "Œuvre… 5 ‰ ™", "žluťoučký", "ÀÉÎõü", "日本語", "naïve café", "€ 10", "Ω≈ç√", "🙂 emoji", "Zażółć", "þÿ", "\u2028sep", "é(é)\\é", "\u0128\u280d\u0a0d", "ÿ")
	case 3:
		b := []rune{}
		for n := 1 + r.N(12); n > 0; n-- {
			c := rune(0x20 + r.N(0x2000))
			if c > 126 && c < 0xa1 {
				c = '*'
			}
			b = append(b, c)
		}
		return string(b)
	}
	n := 1 + r.N(25)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.N(95))
	}
	return string(b)
}

// pdfText reads a text string.
func pdfText(s string) string {
	if strings.HasPrefix(s, "\xfe\xff") {
		var u []uint16
		for i := 2; i+1 < len(s); i += 2 {
			u = append(u, uint16(s[i])<<8|uint16(s[i+1]))
		}
		return string(utf16.Decode(u))
	}
	if strings.HasPrefix(s, "\xef\xbb\xbf") {
		return s[3:]
	}
	o := []rune{}
	for i := 0; i < len(s); i++ {
		o = append(o, rune(s[i]))
	}
	return string(o)
}

var metaKeys = []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer"}

func (h *bhist) setMeta(op Op) {
	r := NewRng(uint64(op.I(0)))
	m := &types.DocumentMetadata{Custom: map[string]string{}}
	fields := map[string]string{}
	want := map[string]string{}
	dates := map[string][2]time.Time{}
	dst := map[string]*string{"Title": &m.Title, "Author": &m.Author, "Subject": &m.Subject, "Keywords": &m.Keywords, "Creator": &m.Creator, "Producer": &m.Producer}
	for _, k := range metaKeys {
		if r.P(50) {
			t := genText(r)
			*dst[k] = t
			fields[[]string{k, strings.ToLower(k), strings.ToUpper(k)}[r.N(3)]] = t
			want[k] = t
		}
	}
	for i := r.N(4); i > 0; i-- {
		k := r.Pick("Department", "My Key", "Ключ", "a/b", "k#1", "a{b}", "{", "x}y", "[1]<2>", "(x)", "Trapped2", "ISBN", "/Slash")
		t := genText(r)
		m.Custom[k] = t
		fields[k] = t
		want[strings.TrimPrefix(k, "/")] = t
	}
	date := func(name string, p *string) {
		at := time.Unix(int64(r.N(2_000_000_000)), 0).In(time.FixedZone("", (r.N(48)-24)*1800))
		var lo, hi time.Time
		switch r.N(7) {
		case 0:
			*p, lo, hi = at.Format(time.RFC3339), at, at
		case 1:
			at = at.UTC()
			*p, lo, hi = at.Format("2006-01-02T15:04:05"), at, at
		case 2:
			at = at.UTC()
			*p, lo, hi = at.Format("2006-01-02 15:04:05"), at, at
		case 3:
			at = at.UTC().Truncate(24 * time.Hour)
			*p, lo, hi = at.Format("2006-01-02"), at, at
		case 4:
			*p = "D:" + at.UTC().Format("20060102150405") + "Z"
			want[name] = *p
			return
		case 5:
			if name == "ModDate" {
				*p = "yesterday"
			} else {
				return
			}
		default:
			if name != "ModDate" {
				return
			}
		}
		dates[name] = [2]time.Time{lo, hi} // zero: the time of the call
	}
	date("CreationDate", &m.CreationDate)
	date("ModDate", &m.ModDate)
	if m.CreationDate != "" {
		fields[r.Pick("CreationDate", "creation_date", "creationdate")] = m.CreationDate
	}
	if m.ModDate != "" {
		fields[r.Pick("ModDate", "mod_date", "MODDATE")] = m.ModDate
	}
	before := h.tick()
	ok := h.c.Call("SetMetadata", func() {
		switch r.N(3) {
		case 0:
			h.b.Writer().SetMetadataFields(fields)
		case 1:
			h.b.Writer().SetMetadata(write.NewMetadataFromFields(fields))
		default:
			h.b.Writer().SetMetadata(m)
		}
	})
	if !ok {
		return
	}
	after := h.tick()
	lo, hi := before, after
	for _, j := range h.c.sc.Jumps {
		_ = j
		lo, hi = h.seen[0], h.seen[1]
		if t := time.Unix(0, h.c.sc.ClockNs); t.Before(lo) {
			lo = t
		}
		// the clock may have jumped there and back within the call
		lo = lo.Add(-400 * 24 * time.Hour)
		hi = hi.Add(400 * 24 * time.Hour)
		break
	}
	if _, ok := dates["ModDate"]; !ok && want["ModDate"] == "" {
		dates["ModDate"] = [2]time.Time{}
	}
	for k, d := range dates {
		if d[0].IsZero() {
			dates[k] = [2]time.Time{lo.Add(-time.Second), hi.Add(time.Second)}
		}
	}
	h.meta, h.dates = want, dates
}

// parseDate reads D:YYYYMMDDHHmmSSOHH'mm strictly.
func parseDate(s string) (time.Time, error) {
	if len(s) < 22 || s[:2] != "D:" {
		return time.Time{}, fmt.Errorf("bad date %q", s)
	}
	s = strings.TrimSuffix(s, "'")
	if s[16] != '+' && s[16] != '-' || s[19] != '\'' || len(s) != 22 {
		return time.Time{}, fmt.Errorf("bad date %q", s)
	}
	return time.Parse("20060102150405-0700", s[2:19]+s[20:])
}

func (h *bhist) watermark(p *bpage, op Op) {
	r := NewRng(uint64(op.I(1)))
	o := write.DefaultWatermarkOptions()
	o.Text = genASCII(r)
	if r.P(30) {
		o.FontName = stdFonts[r.N(len(stdFonts))]
	}
	if r.P(10) {
		o.FontName = ""
	}
	if r.P(30) {
		o.FontSize = float64(r.N(100))
	}
	if r.P(30) {
		o.Angle = float64(r.N(720) - 360)
	}
	if r.P(30) {
		o.Opacity = float64(r.N(101)) / 100
	}
	if r.P(30) {
		o.X, o.Y = float64(r.N(500)), float64(r.N(700))
	}
	if r.P(20) {
		o.Color = nil
	} else if r.P(30) {
		o.Color = &write.Color{R: float64(r.N(11)) / 10, G: float64(r.N(11)) / 10, B: float64(r.N(11)) / 10}
	}
	wantErr := false
	img := ""
	switch r.N(8) {
	case 0:
		o.Text = ""
		wantErr = true
	case 1:
		o.ImageName = "NoSuch"
		wantErr = true
	case 2, 3:
		if names := sortedImg(p.imgs); len(names) > 0 {
			img = names[r.N(len(names))]
			o.ImageName = escName(img)
			if r.P(30) && plain(img) {
				o.ImageName = img
			}
			if r.P(30) {
				o.Text = ""
			}
		}
	}
	simple := r.P(15) && img == "" && !wantErr
	size, angle := float64(r.N(50)), float64(r.N(90))
	var err error
	if !h.c.Call("AddWatermark", func() {
		if simple {
			err = p.pb.AddTextWatermark(o.Text, size, angle)
		} else {
			err = p.pb.AddWatermark(o)
		}
	}) {
		return
	}
	if (err != nil) != wantErr {
		h.c.Fail("watermark-error", "AddWatermark(%+v) returned %v", *o, err)
		return
	}
	if err != nil {
		return
	}
	if simple {
		text := o.Text
		o = write.DefaultWatermarkOptions()
		o.Text = text
		if size > 0 {
			o.FontSize = size
		}
		if angle != 0 {
			o.Angle = angle
		}
	}
	col := o.Color
	if col == nil {
		col = &write.Color{R: .5, G: .5, B: .5}
	}
	k := 1.0
	if o.Opacity < 1 {
		k = o.Opacity
	}
	if o.FontSize == 0 {
		o.FontSize = 48
	}
	if o.FontName == "" {
		o.FontName = "Helvetica-Bold"
	}
	add := func(name string, args ...Val) { p.ops = append(p.ops, cop{name, args}) }
	add("q")
	add("rg", col.R*k, col.G*k, col.B*k)
	x, y := o.X, o.Y
	if x == 0 && y == 0 {
		x, y = p.w/2, p.h/2
	}
	add("cm", 1.0, 0.0, 0.0, 1.0, x, y)
	if o.Angle != 0 {
		s, c := math.Sincos(o.Angle * math.Pi / 180)
		add("cm", c, s, -s, c, 0.0, 0.0)
	}
	if img != "" {
		add("cm", 1.0, 0.0, 0.0, 1.0, -p.w/4, -p.h/4)
		add("cm", p.w/2, 0.0, 0.0, p.h/2, 0.0, 0.0)
		add("Do", Name(img))
		add("Q")
		return
	}
	// the font is one of the page's now
	var name string
	h.c.Call("AddStandardFont", func() { name = p.pb.AddStandardFont(o.FontName) })
	h.newFont(p, name, o.FontName)
	add("BT")
	add("Tf", Name(strings.TrimPrefix(name, "/")), o.FontSize)
	add("Td", -float64(len(o.Text))*o.FontSize*0.6/2, -o.FontSize/2)
	add("Tj", Str(shownCodes(o.Text)))
	add("ET")
	add("Q")
}

func (h *bhist) newFont(p *bpage, name, base string) {
	n := strings.TrimPrefix(name, "/")
	if p.efonts[n] != nil {
		h.c.Fail("font-name", "AddStandardFont(%s) returned %s, which is the name of an embedded font on this page", base, name)
	}
	if old, ok := p.fonts[n]; ok && old != base {
		h.c.Fail("font-name", "AddStandardFont(%s) returned %s, which is the name of %s on this page", base, name, old)
	}
	for k, b := range p.fonts {
		if b == base && k != n {
			// a second name for the same font is no fault, but the first one stays
			_ = k
		}
	}
	p.fonts[n] = base
}

func genASCII(r *Rng) string {
	n := 1 + r.N(12)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.N(95))
	}
	return string(b)
}

func (h *bhist) slot(i int) *bpage {
	if len(h.open) == 0 {
		return nil
	}
	return h.open[i%len(h.open)]
}

func (h *bhist) step(op Op) {
	c := h.c
	switch op.K {
	case "page":
		w, hh := fx(op.A[0]), fx(op.A[1])
		p := &bpage{w: w, h: hh, fonts: map[string]string{}, imgs: map[string]*bimg{}}
		if c.Call("AddPage", func() { p.pb = h.b.AddPage(write.PageSize{Width: w, Height: hh}) }) {
			h.open = append(h.open, p)
		}
	case "font":
		if p := h.slot(op.I(0)); p != nil {
			f := pageFonts[op.I(1)%len(pageFonts)]
			if op.I(1)%len(pageFonts) >= len(stdFonts) {
				p.odd = true // its text is not compared with what extraction returns
			}
			var n string
			if c.Call("AddStandardFont", func() { n = p.pb.AddStandardFont(f) }) {
				h.newFont(p, n, f)
			}
		}
	case "img":
		file, m := makeImage(op.I(0), op.I(1), op.I(2), uint64(op.I(3)))
		var err error
		if !c.Call("AddImage", func() {
			if m.kind == "jpeg" && (op.I(4) != 0 || m.direct || m.space == "DeviceCMYK") {
				m.info, err = h.b.Writer().AddJPEGImage(file, op.Str(0))
			} else {
				m.info, err = h.b.Writer().AddImage(file, op.Str(0))
			}
		}) {
			return
		}
		if err != nil {
			c.Fail("image-refused", "AddImage refuses a %s of %d x %d (kind %d): %v", m.kind, m.w, m.h, op.I(0), err)
			return
		}
		if m.info.Width != m.w || m.info.Height != m.h || strings.TrimPrefix(m.info.ColorSpace, "/") != m.space {
			c.Fail("image-info", "AddImage describes a %s of %d x %d, %s as %+v", m.kind, m.w, m.h, m.space, *m.info)
		}
		h.imgs = append(h.imgs, m)
	case "useimg":
		if p := h.slot(op.I(0)); p != nil && len(h.imgs) > 0 {
			m := h.imgs[op.I(1)%len(h.imgs)]
			var n string
			if c.Call("PageBuilder.AddImage", func() { n = p.pb.AddImage(m.info) }) {
				n = nameText(strings.TrimPrefix(n, "/"))
				if old := p.imgs[n]; old != nil && old != m {
					c.Fail("image-name", "AddImage returned /%s for a second image of the page", n)
				}
				p.imgs[n] = m
			}
		}
	case "c":
		if p := h.slot(op.I(0)); p != nil {
			h.content(p, op)
		}
	case "wm":
		if p := h.slot(op.I(0)); p != nil {
			h.watermark(p, op)
		}
	case "fin":
		if len(h.open) > 0 {
			i := op.I(0) % len(h.open)
			p := h.open[i]
			h.open = append(h.open[:i:i], h.open[i+1:]...)
			if c.Call("FinalizePage", func() { h.b.FinalizePage(p.pb) }) {
				h.done = append(h.done, p)
			}
		}
	case "marks":
		if len(h.done) == 0 {
			return
		}
		m := h.bookmarks(NewRng(uint64(op.I(0))), 3)
		var err error
		if c.Call("SetBookmarks", func() { err = h.b.SetBookmarks(m) }) {
			if err != nil {
				c.Fail("bookmarks-error", "SetBookmarks: %v", err)
			}
			h.marks, h.mpage = m, len(h.done)
		}
	case "catalog":
		n := h.b.PagesObjNum()
		if n == 0 {
			return
		}
		r := NewRng(uint64(op.I(0)))
		d := Dict{"Type": Name("Catalog"), "Pages": Ref{n, 0}}
		for i := r.N(5); i > 0; i-- {
			k := r.Pick("ViewerPreferences", "MarkInfo", "PageMode", "Lang", "PieceInfo", "Names", "OutlinesX", "NOutlines", "AA", "PageLabels")
			d[k] = genVal(r, 3, []int{n})
			switch {
			case d[k] == nil:
				d[k] = Str(r.Pick("/Outlines 9 0 R", ">>", "<<", "(/Outlines 1 0 R)", ">> /Outlines 3 0 R"))
			case r.P(30):
				d[k] = Dict{r.Pick("Outlines", "K", "Outlines"): []Val{Ref{n, 0}, Dict{"Outlines": Ref{n, 0}}, Str("/Outlines 2 0 R >>"), int64(3)}[r.N(4)], "HideMenubar": true}
			}
		}
		if r.P(30) {
			d["Outlines"] = Ref{n, 0} // replaced by SetBookmarks
		}
		c.Call("SetRoot", func() {
			h.b.Writer().SetRoot(h.b.Writer().AddObject(emit(r, d)))
		})
		h.cat = d
	case "meta":
		h.setMeta(op)
	case "xref":
		h.xref = op.I(0) != 0
		h.b.Writer().UseXRefStream(h.xref)
	case "objstm":
		h.ostm = op.I(0) != 0
		h.b.Writer().UseObjectStream(h.ostm)
	case "encrypt":
		if h.enc {
			return
		}
		var err error
		if !c.Call("SetupEncryptionWithPasswords", func() {
			_, err = h.b.Writer().SetupEncryptionWithPasswords([]byte(op.Str(0)), []byte(op.Str(1)), -4, true)
		}) {
			return
		}
		if err != nil {
			if !c.randomFailed() {
				c.Fail("encrypt-setup", "%v", err)
			}
			return
		}
		h.enc, h.pass = true, []byte(op.Str(0))
	case "efont", "chars", "useefont", "show":
		h.fontStep(op)
	case "bytes":
		h.tick()
		var out []byte
		var err error
		if !c.Call("Bytes", func() { out, err = h.b.Bytes() }) {
			return
		}
		if err != nil {
			if h.enc && c.randomFailed() {
				c.Count("write_refused", 1)
				return
			}
			c.Fail("write-error", "Bytes: %v", err)
			return
		}
		c.Sig(out)
		h.verify(append([]byte(nil), out...))
	default:
		panic("bad op " + op.K)
	}
}

func (h *bhist) fail(class, f string, a ...interface{}) {
	h.c.Fail(class, "%s\n(%d pages, xref stream %v, object streams %v, encrypted %v)", fmt.Sprintf(f, a...), len(h.done), h.xref, h.ostm, h.enc)
}

func (h *bhist) verify(out []byte) {
	c := h.c
	if dbgOut != nil {
		dbgOut(out)
	}
	f, err := ReadFile(out)
	if err != nil {
		h.fail("unreadable", "an independent reader cannot read the file: %v\n%q", err, clip(out, 600))
		return
	}
	var pdf *parse.PDF
	if !c.Call("Open", func() { pdf, err = parse.OpenWithOptions(out, parse.ParseOptions{Password: h.pass}) }) {
		return
	}
	if err != nil {
		h.fail("open", "Open fails on the builder's output: %v", err)
		return
	}
	if h.enc != pdf.IsEncrypted() {
		h.fail("encrypt", "IsEncrypted is %v", pdf.IsEncrypted())
		return
	}
	var bad error
	encN := -1
	if h.enc {
		e, _ := f.Trailer["Encrypt"].(Ref)
		encN = e.N
		key := pdf.Encryption().EncryptKey
		dec := func(n int, b []byte) []byte {
			d, err := refDec(key, "AESV2", n, 0, b)
			if err != nil && bad == nil {
				bad = fmt.Errorf("object %d: %v", n, err)
			}
			return d
		}
		f.Dec = func(n, g int, b []byte, stream bool) []byte { return dec(n, b) }
		if err := f.LoadObjStms(); err == nil {
			for n, v := range f.Objs {
				if n == encN || f.InStm[n] != 0 {
					continue
				}
				if s, ok := v.(*Stm); ok {
					if s.D["Type"] != Name("XRef") {
						f.Objs[n] = &Stm{D: mapStrs(s.D, func(x string) string { return string(dec(n, []byte(x))) }).(Dict), Raw: dec(n, s.Raw)}
					}
					continue
				}
				f.Objs[n] = mapStrs(v, func(x string) string { return string(dec(n, []byte(x))) })
			}
			f.Dec = nil
		} else {
			bad = err
		}
	} else {
		bad = f.LoadObjStms()
	}
	if bad != nil {
		h.fail("unreadable", "the file does not decrypt or has bad object streams: %v", bad)
		return
	}
	pages, err := f.Pages()
	if err != nil {
		h.fail("tree", "the page tree is broken: %v\n%q", err, clip(out, 600))
		return
	}
	if len(pages) != len(h.done) {
		h.fail("pages", "the file has %d pages, %d were finalized", len(pages), len(h.done))
		return
	}
	for i, n := range pages {
		h.checkPage(f, i, f.D(Ref{n, 0}), h.done[i])
		if c.Failed() {
			return
		}
	}
	h.checkInfo(f)
	h.checkOutline(f, pages)
	if c.Failed() {
		return
	}
	h.library(out, pages)
	if len(h.done) > 0 {
		c.res.Nontrivial = true
	}
	nops := 0
	for _, p := range h.done {
		nops += bucket(len(p.ops))
	}
	c.Shape(h.xref, h.ostm, h.enc, len(h.done), nops, len(h.marks), len(h.meta), len(h.imgs))
}

func (h *bhist) checkPage(f *RFile, i int, d Dict, p *bpage) {
	box, _ := f.Get(d["MediaBox"]).(Arr)
	if len(box) != 4 || num(box[0]) != 0 || num(box[1]) != 0 || !nearTo(num(box[2]), p.w, 1e-9) || !nearTo(num(box[3]), p.h, 1e-9) {
		h.fail("media-box", "page %d has MediaBox %s, want 0 0 %v %v", i+1, showVal(box), p.w, p.h)
		return
	}
	cr, ok := d["Contents"].(Ref)
	if !ok {
		h.fail("contents", "page %d has Contents %s", i+1, showVal(d["Contents"]))
		return
	}
	data, err := f.Decode(cr.N)
	if err != nil {
		h.fail("contents", "the content of page %d: %v", i+1, err)
		return
	}
	ops, err := lexContent(data)
	if err != nil {
		h.fail("contents", "the content of page %d cannot be read: %v\n%.300q", i+1, err, data)
		return
	}
	if t := sameOps(ops, p.ops); t != "" {
		h.fail("contents", "page %d: %s", i+1, t)
		return
	}
	res := f.D(d["Resources"])
	fonts := f.D(res["Font"])
	if len(fonts) != len(p.fonts)+len(p.efonts) {
		h.fail("fonts", "page %d has the fonts %s, want %v", i+1, showVal(fonts), p.fonts)
		return
	}
	for n, base := range p.fonts {
		fd := f.D(fonts[n])
		if fd["BaseFont"] != Name(base) || fd["Type"] != Name("Font") || fd["Subtype"] != Name("Type1") {
			h.fail("fonts", "page %d: /%s is %s, want %s", i+1, n, showVal(fd), base)
			return
		}
		if own := base == "Symbol" || base == "ZapfDingbats"; own && fd["Encoding"] != nil || !own && fd["Encoding"] != Name("WinAnsiEncoding") {
			h.fail("fonts", "page %d: the codes of /%s, %s, stand for %s", i+1, n, base, showVal(fd["Encoding"]))
			return
		}
	}
	for n, t := range p.efonts {
		h.checkFont(f, fmt.Sprintf("page %d: /%s", i+1, n), fonts[n], t)
	}
	xo := f.D(res["XObject"])
	if len(xo) != len(p.imgs) {
		h.fail("images", "page %d has the XObjects %s, want %v", i+1, showVal(xo), sortedImg(p.imgs))
		return
	}
	for n, m := range p.imgs {
		r, _ := xo[n].(Ref)
		s, ok := f.Objs[r.N].(*Stm)
		if !ok {
			h.fail("images", "page %d: /%s leads to %s", i+1, n, showVal(f.Objs[r.N]))
			return
		}
		if s.D["Subtype"] != Name("Image") || f.Get(s.D["Width"]) != int64(m.w) || f.Get(s.D["Height"]) != int64(m.h) || s.D["ColorSpace"] != Name(m.space) || s.D["BitsPerComponent"] != int64(8) {
			h.fail("images", "page %d: /%s, a %s of %d x %d, is %s", i+1, n, m.kind, m.w, m.h, showVal(s.D))
			return
		}
		if m.kind == "jpeg" {
			if s.D["Filter"] != Name("DCTDecode") || !bytes.Equal(s.Raw, m.data) {
				h.fail("images", "page %d: the data of the JPEG /%s is not the file that was added (%d bytes, want %d), %s", i+1, n, len(s.Raw), len(m.data), showVal(s.D))
			}
			continue
		}
		px, err := f.Decode(r.N)
		if err != nil || !m.samePixels(px) {
			h.fail("images", "page %d: the samples of /%s differ (%v): %.60x, want %.60x", i+1, n, err, px, m.data)
			return
		}
		mr, has := s.D["SMask"].(Ref)
		if !has {
			if m.alpha != nil {
				h.fail("image-mask", "page %d: /%s lost its opacity", i+1, n)
			}
			continue
		}
		md := f.D(mr)
		mask, err := f.Decode(mr.N)
		if err != nil || md["ColorSpace"] != Name("DeviceGray") || md["Width"] != int64(m.w) || md["Height"] != int64(m.h) || len(mask) != m.w*m.h {
			h.fail("image-mask", "page %d: the mask of /%s is %s (%d bytes, %v)", i+1, n, showVal(md), len(mask), err)
			return
		}
		for k, a := range mask {
			w := byte(255)
			if m.alpha != nil {
				w = m.alpha[k]
			}
			if a != w {
				h.fail("image-mask", "page %d: opacity of pixel %d of /%s is %d, want %d", i+1, k, n, a, w)
				return
			}
		}
	}
}

func (h *bhist) checkInfo(f *RFile) {
	if h.meta == nil {
		return
	}
	info := f.D(f.Trailer["Info"])
	if info == nil {
		h.fail("info", "there is no Info dictionary: %s", showVal(f.Trailer))
		return
	}
	for _, k := range sortedKeys(info) {
		s, ok := info[k].(Str)
		if !ok {
			h.fail("info", "Info /%s is %s", k, showVal(info[k]))
			return
		}
		if d, ok := h.dates[k]; ok {
			t, err := parseDate(string(s))
			if err != nil || t.Before(d[0]) || t.After(d[1]) {
				h.fail("info-date", "Info /%s is %q (%v), want a time from %v to %v", k, s, err, d[0], d[1])
				return
			}
			continue
		}
		w, ok := h.meta[k]
		if !ok {
			h.fail("info", "Info has /%s, which was not set", k)
			return
		}
		if pdfText(string(s)) != w {
			h.fail("info", "Info /%s is %q, want %q", k, pdfText(string(s)), w)
			return
		}
	}
	for k := range h.meta {
		if info[k] == nil {
			h.fail("info", "Info has no /%s: %s", k, showVal(info))
			return
		}
	}
	for k := range h.dates {
		if info[k] == nil {
			h.fail("info", "Info has no /%s: %s", k, showVal(info))
			return
		}
	}
}

func (h *bhist) checkOutline(f *RFile, pages []int) {
	cat := f.D(f.Trailer["Root"])
	if h.cat != nil {
		if !same(without(cat, "Outlines"), without(h.cat, "Outlines")) {
			h.fail("catalog", "the caller's catalog %s became %s", showVal(h.cat), showVal(cat))
			return
		}
		if h.marks == nil {
			if !same(cat["Outlines"], h.cat["Outlines"]) {
				h.fail("catalog", "the caller's catalog %s became %s", showVal(h.cat), showVal(cat))
			}
			return
		}
	}
	if h.marks == nil {
		if cat["Outlines"] != nil {
			h.fail("outline", "the file has an outline: %s", showVal(cat))
		}
		return
	}
	root, ok := cat["Outlines"].(Ref)
	if !ok {
		h.fail("outline", "the catalog has no outline: %s", showVal(cat))
		return
	}
	bad := func(s string, a ...interface{}) int {
		h.fail("outline", s, a...)
		return 0
	}
	seen := map[int]bool{}
	var level func(parent Ref, want []types.Bookmark, path string) int
	level = func(parent Ref, want []types.Bookmark, path string) int {
		d := f.D(parent)
		at, _ := d["First"].(Ref)
		prev := Ref{}
		total := 0
		for i, b := range want {
			where := fmt.Sprintf("%s/%d", path, i)
			it := f.D(at)
			if it == nil || seen[at.N] {
				return bad("item %s is missing or met twice", where)
			}
			seen[at.N] = true
			if it["Parent"] != parent {
				return bad("item %s has Parent %s, want %s", where, showVal(it["Parent"]), showVal(parent))
			}
			if pr, _ := it["Prev"].(Ref); pr != prev {
				return bad("item %s has Prev %s, want %v", where, showVal(it["Prev"]), prev)
			}
			s, _ := it["Title"].(Str)
			if pdfText(string(s)) != b.Title {
				return bad("item %s has the title %q, want %q", where, pdfText(string(s)), b.Title)
			}
			if b.PageNumber >= 1 && b.PageNumber <= h.mpage {
				a, _ := f.Get(it["Dest"]).(Arr)
				if len(a) < 2 || a[0] != (Ref{pages[b.PageNumber-1], 0}) {
					return bad("item %s leads to %s, want page %d, object %d", where, showVal(it["Dest"]), b.PageNumber, pages[b.PageNumber-1])
				}
			} else if b.PageNumber == 0 && b.Destination != "" {
				var w Val = Str(b.Destination)
				if strings.ContainsAny(b.Destination[:1], "[(</") {
					w, _ = parseVal([]byte(b.Destination))
				}
				if !same(it["Dest"], w) {
					return bad("item %s leads to %s, want %q", where, showVal(it["Dest"]), b.Destination)
				}
			} else if it["Dest"] != nil {
				return bad("item %s leads to %s, want nothing", where, showVal(it["Dest"]))
			}
			act := f.D(it["A"])
			if b.URI != "" && (act["S"] != Name("URI") || act["URI"] != Str(b.URI)) || b.URI == "" && act != nil {
				return bad("item %s has the action %s, want URI %q", where, showVal(act), b.URI)
			}
			n := 0
			if len(b.Children) > 0 {
				n = level(at, b.Children, where)
				if h.c.Failed() {
					return 0
				}
			} else if it["First"] != nil || it["Last"] != nil {
				return bad("item %s has children", where)
			}
			total += 1 + n
			if i == len(want)-1 {
				if it["Next"] != nil {
					return bad("item %s has Next %s", where, showVal(it["Next"]))
				}
				if d["Last"] != at {
					return bad("%s has Last %s, want %s", path, showVal(d["Last"]), showVal(at))
				}
			}
			prev = at
			at, _ = it["Next"].(Ref)
		}
		if d["Count"] != int64(total) {
			return bad("%s has Count %s, want %d", path, showVal(d["Count"]), total)
		}
		return total
	}
	level(root, h.marks, "outline")
}

func (h *bhist) library(out []byte, pages []int) {
	c := h.c
	var doc *types.ContentDocument
	var err error
	if !c.Call("ExtractContent", func() { doc, err = extract.ExtractContent(out, h.pass, false) }) {
		return
	}
	if err != nil {
		h.fail("extract", "ExtractContent: %v", err)
		return
	}
	if len(doc.Pages) != len(h.done) || doc.Metadata == nil || doc.Metadata.PageCount != len(h.done) {
		h.fail("extract-pages", "ExtractContent returns %d pages (PageCount %v), want %d", len(doc.Pages), doc.Metadata, len(h.done))
		return
	}
	if doc.Metadata.Encrypted != h.enc {
		h.fail("extract-meta", "Encrypted is %v", doc.Metadata.Encrypted)
	}
	for i, p := range h.done {
		g := &doc.Pages[i]
		if g.PageNumber != i+1 || !nearTo(g.Width, p.w, 1e-9) || !nearTo(g.Height, p.h, 1e-9) {
			h.fail("extract-size", "page %d is extracted as number %d, %v x %v, want %v x %v", i+1, g.PageNumber, g.Width, g.Height, p.w, p.h)
			return
		}
		if !p.odd {
			noFont := false // text without a font shows nothing
			want := interpret(roundOps(p.ops), func(f, s string) string {
				if p.fonts[f] == "" && p.efonts[f] == nil && strings.IndexFunc(s, func(r rune) bool { return r > 126 }) >= 0 {
					noFont = true
				}
				var o []rune
				for i := 0; i < len(s); i++ {
					r, _ := winShows(s[i])
					o = append(o, r)
				}
				return string(o)
			})
			if class, t := diffPage(g, want, 1e-6); class != "" && !noFont {
				h.fail("extract-"+class, "page %d: %s", i+1, t)
				return
			}
		}
		if len(p.fonts)+len(p.imgs) > 0 && g.Resources == nil {
			h.fail("extract-resources", "page %d has no resources", i+1)
			return
		}
		for n, base := range p.fonts {
			if x := g.Resources.Fonts[n]; strings.TrimPrefix(x.Name, "/") != base || strings.TrimPrefix(x.ID, "/") != n {
				h.fail("extract-fonts", "page %d: font /%s is %+v, want %s", i+1, n, x, base)
				return
			}
		}
		for n, t := range p.efonts {
			want := "TrueType"
			if bytes.HasPrefix(t.data, []byte("OTTO")) {
				want = "Type1"
			}
			if x := g.Resources.Fonts[n]; !t.damaged && (subsetTag.ReplaceAllString(nameText(strings.TrimPrefix(x.Name, "/")), "") != t.name() || strings.TrimPrefix(x.Subtype, "/") != want || !x.Embedded) {
				h.fail("extract-fonts", "page %d: font /%s is %+v, want %q", i+1, n, x, t.name())
				return
			}
		}
		for n, m := range p.imgs {
			k := strings.TrimPrefix(escName(n), "/")
			x, ok := g.Resources.Images[n]
			if !ok {
				x, ok = g.Resources.Images[k] // as it is written
			}
			if !ok || x.Width != m.w || x.Height != m.h {
				h.fail("extract-images", "page %d: image /%s is %+v, want %d x %d", i+1, k, x, m.w, m.h)
				return
			}
		}
	}
	// metadata
	md := doc.Metadata
	got := map[string]string{"Title": md.Title, "Author": md.Author, "Subject": md.Subject, "Keywords": md.Keywords, "Creator": md.Creator, "Producer": md.Producer}
	for k, v := range md.Custom {
		got[k] = v
	}
	for k, v := range h.meta {
		if k == "CreationDate" || k == "ModDate" {
			continue
		}
		if got[k] != v {
			h.fail("extract-meta", "the extracted %s is %q, want %q", k, got[k], v)
			return
		}
	}
	for k, v := range got {
		if v != "" && h.meta[k] != v {
			h.fail("extract-meta", "the extracted %s is %q, want %q", k, v, h.meta[k])
			return
		}
	}
	// outline
	var cmp func(got, want []types.Bookmark, path string)
	cmp = func(got, want []types.Bookmark, path string) {
		if len(got) != len(want) {
			h.fail("extract-outline", "%s has %d extracted items, want %d", path, len(got), len(want))
			return
		}
		for i, b := range want {
			pn := b.PageNumber
			if pn > h.mpage {
				pn = 0
			}
			if got[i].Title != b.Title || got[i].URI != b.URI || got[i].PageNumber != pn {
				h.fail("extract-outline", "item %s/%d is extracted as %+v, want %+v", path, i, got[i], b)
				return
			}
			cmp(got[i].Children, b.Children, fmt.Sprintf("%s/%d", path, i))
			if h.c.Failed() {
				return
			}
		}
	}
	cmp(doc.Bookmarks, h.marks, "outline")
	// images
	var want []*bimg
	var names []string
	seen := map[*bimg]bool{}
	for _, p := range h.done {
		for _, n := range sortedImg(p.imgs) {
			if m := p.imgs[n]; !seen[m] {
				seen[m] = true
				want = append(want, m)
				names = append(names, escName(n))
			}
		}
	}
	var imgs []types.Image
	if !c.Call("ExtractAllImages", func() { imgs, err = extract.ExtractAllImages(out, h.pass, false) }) {
		return
	}
	if err != nil || len(imgs) != len(want) {
		h.fail("extract-images", "ExtractAllImages returns %d images, want %d (%v)", len(imgs), len(want), err)
		return
	}
	used := map[int]bool{}
	for i, m := range want {
		found := -1
		for k, g := range imgs {
			ok := g.Width == m.w && g.Height == m.h && strings.TrimPrefix(g.ColorSpace, "/") == m.space && g.BitsPerComponent == 8
			if m.kind == "jpeg" {
				ok = ok && g.Format == "jpeg" && bytes.Equal(g.Data, m.data)
			} else {
				ok = ok && m.samePixels(g.Data)
			}
			if ok && !used[k] {
				found = k
				break
			}
		}
		if found < 0 {
			h.fail("extract-images", "the %s %s of %d x %d is not among the extracted images (%d)", m.kind, names[i], m.w, m.h, len(imgs))
			return
		}
		used[found] = true
	}
}

func execBuild(c *Ctx) {
	c.limit = 400_000_000
	c.Begin()
	defer c.End()
	h := &bhist{c: c}
	if !c.Call("NewSimplePDFBuilder", func() { h.b = write.NewSimplePDFBuilder() }) {
		return
	}
	for _, op := range c.sc.Ops {
		h.step(op)
		if c.Failed() {
			return
		}
	}
}

func genBuild(r *Rng, sc *Scenario, i int) {
	add := func(op Op) { sc.Ops = append(sc.Ops, op) }
	open, imgs, fin := 0, 0, 0
	nums := func(op *Op, n int) {
		for ; n > 0; n-- {
			v := int64(r.N(1000)) * 1_000_000
			switch r.N(6) {
			case 0:
				v = int64(r.N(2_000_000)) - 1_000_000
			case 1:
				v = -v
			case 2:
				v += int64(r.N(1_000_000))
			case 3:
				v = int64(r.N(3)) * 500_000
			}
			op.A = append(op.A, v)
		}
	}
	if r.P(25) {
		sc.ZoneSec = (r.N(52) - 26) * 1800
	}
	if r.P(20) {
		for k := 1 + r.N(3); k > 0; k-- {
			sc.Jumps = append(sc.Jumps, rt.Jump{Step: int64(r.N(200000)), Ns: (int64(r.N(600)) - 300) * 86_400_000_000_000})
		}
	}
	if r.P(40) {
		add(Op{K: "xref", A: []int64{1}})
	}
	if r.P(30) {
		add(Op{K: "objstm", A: []int64{1}})
	}
	enc := r.P(30)
	if r.P(2) { // a document without pages
		if r.P(30) {
			add(Op{K: "meta", A: []int64{int64(r.N(1 << 30))}})
		}
		add(Op{K: "bytes"})
	}
	n := 10 + r.N(60)
	if r.P(8) {
		n += r.N(300)
	}
	if r.P(10) && enc {
		for k := 1 + r.N(2); k > 0; k-- {
			sc.RandFail = append(sc.RandFail, r.N(40))
		}
	}
	page := func() {
		op := Op{K: "page"}
		switch r.N(4) {
		case 0:
			op.A = []int64{612_000_000, 792_000_000}
		case 1:
			op.A = []int64{int64(1+r.N(3000)) * 1_000_000, int64(1+r.N(3000)) * 1_000_000}
		default:
			op.A = []int64{int64(1 + r.N(2_000_000_000)), int64(1 + r.N(2_000_000_000))}
		}
		add(op)
		open++
	}
	page()
	for j := 0; j < n; j++ {
		slot := int64(r.N(4))
		switch k := r.N(40); {
		case k < 2 && open < 4:
			page()
		case k < 5:
			f := r.N(len(stdFonts))
			if r.P(4) {
				f = r.N(len(pageFonts))
			}
			add(Op{K: "font", A: []int64{slot, int64(f)}})
		case k == 5:
			add(Op{K: "img", A: []int64{int64(r.N(10)), int64(r.N(40)), int64(r.N(40)), int64(r.N(1 << 30)), int64(r.N(2))}, S: []string{r.Pick("", "", "/Im1", "Im1", "Im2", "Logo", "my logo", "a/b", "x#y", "é", "Im1_2", "(p)")}})
			if op := &sc.Ops[len(sc.Ops)-1]; r.P(4) || op.A[1] < 4 && r.P(20) {
				op.A[1], op.A[2] = int64(1001+r.N(499)), int64(1+r.N(499))
				if r.P(60) {
					op.A[1] = int64(1001 + r.N(60))
				}
			}
			imgs++
		case k < 8 && imgs > 0:
			add(Op{K: "useimg", A: []int64{slot, int64(r.N(imgs))}})
		case k == 8:
			add(Op{K: "wm", A: []int64{slot, int64(r.N(1 << 30))}})
		case k < 11 && open > 0:
			add(Op{K: "fin", A: []int64{slot}})
			open--
			fin++
		case k == 11 && fin > 0:
			add(Op{K: "marks", A: []int64{int64(r.N(1 << 30))}})
		case k == 12:
			add(Op{K: "meta", A: []int64{int64(r.N(1 << 30))}})
		case k == 13 && fin > 0 && r.P(50):
			add(Op{K: "bytes"})
		case k == 14 && enc && r.P(50):
			add(Op{K: "encrypt", S: []string{r.Pick("", "user", "pässwörd"), r.Pick("", "owner")}})
			enc = false
		case k == 16 && fin > 0 && r.P(30):
			add(Op{K: "catalog", A: []int64{int64(r.N(1 << 30))}})
		case k == 15 && r.P(30):
			add(Op{K: r.Pick("xref", "objstm"), A: []int64{int64(r.N(2))}})
		default:
			kind := r.N(41)
			op := Op{K: "c", A: []int64{slot, int64(kind)}}
			switch kind {
			case 23, 24, 26:
				op.S = []string{genShown(r)}
			case 25:
				for e := r.N(5); e > 0; e-- {
					op.S = append(op.S, genShown(r))
				}
			case 28, 39, 40:
				op.A = append(op.A, int64(r.N(100)))
			}
			nums(&op, 7)
			add(op)
		}
	}
	if enc {
		add(Op{K: "encrypt", S: []string{r.Pick("", "user", "pässwörd"), r.Pick("", "owner")}})
	}
	for ; open > 0; open-- {
		add(Op{K: "fin", A: []int64{int64(r.N(4))}})
	}
	if r.P(40) {
		add(Op{K: "marks", A: []int64{int64(r.N(1 << 30))}})
	}
	if r.P(40) {
		add(Op{K: "meta", A: []int64{int64(r.N(1 << 30))}})
	}
	add(Op{K: "bytes"})
	if r.P(30) {
		add(Op{K: "bytes"})
	}
}

// genShown makes text to show on a page.
func genShown(r *Rng) string {
	switch r.N(8) {
	case 0:
		return r.Pick("(", ")", "\\", "a(b)c", "(a) Tj ET", "line\nbreak", "cr\r", "tab\t", "\\n", "%x", "<41>", "]", "")
	case 1:
		if r.P(30) {
			return string(r.Bytes(1 + r.N(8)))
		}
	case 2:
		return r.Pick("“smart” – ‘quotes’", "Œuvre… 5 ‰ ™", "ŽŠžšŸ", "ÀÉÎõü(é)", "naïve café", "€ 10", "ÿþ", "Ω is none", "†‡•‹›", "ƒ˜ˆ„")
	case 3:
		b := []rune{}
		for n := 1 + r.N(10); n > 0; n-- {
			if r.P(40) {
				b = append(b, winHigh[128+r.N(32)])
			} else {
				b = append(b, rune(32+r.N(224)))
			}
		}
		return string(b)
	}
	return genASCII(r)
}

func init() {
	register(&Prop{
		ID: "C09", Level: "exploration",
		Gen: genBuild, Exec: execBuild,
		Quick: 6000, Thorough: 300000,
		Rule: "one evaluation is one simulated history of builder calls; it counts as non-trivial when at least one document with a page was written and read back",
		Real: []string{"core/write (page builder, content streams, images, outlines, metadata, watermarks, encryption)", "content/extract", "core/parse", "core/encrypt"},
		Stub: []string{"map iteration order", "time.Now and the time zone", "crypto/rand"},
	})
}
