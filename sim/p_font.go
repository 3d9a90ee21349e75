package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"regexp"
	"sort"
	"strings"
	"unicode"
	"unicode/utf16"

	"github.com/benedoc-inc/pdfer/resources/font"
)

// C16: text in embedded fonts.

// tfont is a generated TrueType or OpenType font and what it says.
type tfont struct {
	data                  []byte
	otto                  bool
	upem, ascent, descent int
	capH, xH              int
	os2                   bool
	ulPos, ulThick        int
	italic                float64
	fixed                 bool
	family, full, ps      string
	glyphs                int
	cmap                  map[rune]int
	adv                   []int
	damaged               bool
	f                     *font.Font
	subset                []rune
}

func (t *tfont) name() string {
	for _, s := range []string{t.ps, t.full, t.family} {
		if s != "" {
			return s
		}
	}
	return ""
}

func utf16be(s string) string {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return string(b)
}

type be struct{ bytes.Buffer }

func (b *be) u16(vs ...int) {
	for _, v := range vs {
		b.WriteByte(byte(v >> 8))
		b.WriteByte(byte(v))
	}
}
func (b *be) u32(vs ...int) {
	for _, v := range vs {
		b.u16(v>>16&0xffff, v&0xffff)
	}
}

func makeFont(seed uint64) *tfont {
	r := NewRng(seed)
	t := &tfont{cmap: map[rune]int{}}
	t.otto = r.P(15)
	t.upem = []int{1000, 2048, 1024, 256, 16, 16384, 1000 + r.N(2000)}[r.N(7)]
	t.ascent, t.descent = t.upem*(60+r.N(60))/100, -t.upem*r.N(40)/100
	t.ulPos, t.ulThick = -r.N(200), r.N(100)
	t.fixed = r.P(20)
	if r.P(30) {
		t.italic = float64(r.N(4000)-2000) / 64
	}
	names := []string{"Test", "My Font", "Ünïcode Sans", "名前", "A/B#C", "(Paren) Bold", "Emoji😀", "Plain-Regular", "x", "50%", "a\\b"}
	pick := func(pct int) string {
		if r.P(pct) {
			return names[r.N(len(names))]
		}
		return ""
	}
	t.family, t.full, t.ps = pick(80), pick(80), pick(80)
	// characters
	t.glyphs = 2 + r.N(300)
	some := func(c rune) {
		t.cmap[c] = 1 + r.N(t.glyphs-1)
	}
	switch r.N(4) {
	case 0: // in order
		g := 1
		for c := rune(32); c < 127; c++ {
			if g < t.glyphs {
				t.cmap[c] = g
				g++
			}
		}
	case 1:
		for c := rune(32); c < 127; c++ {
			some(c)
		}
	default:
		for c := rune(32); c < 256; c++ {
			if r.P(60) && (c < 127 || c > 160) {
				some(c)
			}
		}
	}
	for _, c := range sortedRunes(winHigh) {
		if r.P(40) {
			some(c)
		}
	}
	for n := r.N(20); n > 0; n-- {
		some(rune(0x100 + r.N(0xd000)))
	}
	if r.P(40) { // several characters of one glyph
		for n := r.N(6); n > 0; n-- {
			t.cmap[rune(33+r.N(90))] = 1
		}
	}
	wide := r.P(30)
	if wide {
		for n := 1 + r.N(5); n > 0; n-- {
			some(rune(0x1f600 + r.N(64)))
		}
	}
	for i := 0; i < t.glyphs; i++ {
		t.adv = append(t.adv, []int{t.upem / 2, t.upem, r.N(2*t.upem + 1), 0}[r.N(4)])
	}
	metrics := t.glyphs
	if r.P(50) {
		metrics = 1 + r.N(t.glyphs)
		for i := metrics; i < t.glyphs; i++ {
			t.adv[i] = t.adv[metrics-1]
		}
	}
	// tables
	tables := map[string][]byte{}
	{
		var b be
		b.u32(0x10000, 0x10000, 0, 0x5F0F3CF5)
		b.u16(0, t.upem)
		b.u32(r.N(1<<30), r.N(1<<30), r.N(1<<30), r.N(1<<30))
		b.u16(0, -200&0xffff, t.upem, t.upem, 0, 8, 2, r.N(2), 0)
		tables["head"] = b.Bytes()
	}
	{
		var b be
		b.u32(0x10000)
		b.u16(t.glyphs)
		if !t.otto {
			b.Write(make([]byte, 26))
		}
		tables["maxp"] = b.Bytes()
	}
	{
		var b be
		b.u32(0x10000)
		b.u16(t.ascent, t.descent&0xffff, 0, 2*t.upem)
		b.Write(make([]byte, 22))
		b.u16(metrics)
		tables["hhea"] = b.Bytes()
	}
	{
		var b be
		for i := 0; i < t.glyphs; i++ {
			if i < metrics {
				b.u16(t.adv[i])
			}
			b.u16(r.N(1000) & 0xffff)
		}
		tables["hmtx"] = b.Bytes()
	}
	{
		var b be
		b.u32([]int{0x30000, 0x20000, 0x10000}[r.N(3)], int(math.Round(t.italic*65536)))
		b.u16(t.ulPos&0xffff, t.ulThick)
		if t.fixed {
			b.u32(1 + r.N(3))
		} else {
			b.u32(0)
		}
		b.Write(make([]byte, 16+2*r.N(20)))
		tables["post"] = b.Bytes()
	}
	if r.P(70) {
		var b be
		v := r.N(5)
		b.u16(v)
		for b.Len() < 78 {
			b.u16(r.N(2000))
		}
		if v >= 2 {
			b.u32(r.N(1<<30), r.N(1<<30))
			t.os2, t.xH, t.capH = true, r.N(t.upem), r.N(t.upem)
			b.u16(t.xH, t.capH, 0, 32, 2)
		} else if v == 1 {
			b.u32(r.N(1<<30), r.N(1<<30))
		}
		tables["OS/2"] = b.Bytes()
	}
	tables["name"] = t.names(r)
	tables["cmap"] = t.cmapTable(r, wide)
	for _, x := range []string{"glyf", "loca", "cvt ", "GSUB", "CFF ", "fpgm"} {
		if r.P(50) {
			tables[x] = r.Bytes(r.N(300))
		}
	}
	// the file
	var tags []string
	for k := range tables {
		tags = append(tags, k)
	}
	sort.Strings(tags)
	order := r.Perm(len(tags))
	off := map[string]int{}
	pos := 12 + 16*len(tags)
	var body []byte
	for _, i := range order {
		off[tags[i]] = pos + len(body)
		body = append(body, tables[tags[i]]...)
		for len(body)%4 != 0 {
			body = append(body, 0)
		}
	}
	var b be
	if t.otto {
		b.WriteString("OTTO")
	} else {
		b.u32(0x10000)
	}
	b.u16(len(tags), 128, 3, 64)
	for _, k := range tags {
		b.WriteString(k)
		b.u32(r.N(1<<30), off[k], len(tables[k]))
	}
	b.Write(body)
	t.data = append([]byte(nil), b.Bytes()...)
	return t
}

func sortedRunes(m map[int]rune) []rune {
	var o []rune
	for _, c := range m {
		o = append(o, c)
	}
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

// names makes the name table: each name as a Unicode string, with decoys for other platforms
// and of other kinds.
func (t *tfont) names(r *Rng) []byte {
	type rec struct {
		plat, enc, lang, id int
		s                   string
	}
	var recs []rec
	for _, id := range []int{1, 4, 6} {
		s := map[int]string{1: t.family, 4: t.full, 6: t.ps}[id]
		if s == "" {
			continue
		}
		if r.P(30) {
			recs = append(recs, rec{1, 0, 0, id, "Mac Decoy"})
		}
		p := []int{3, 3, 0}[r.N(3)]
		recs = append(recs, rec{p, map[int]int{3: 1, 0: 3}[p], map[int]int{3: 0x409}[p], id, utf16be(s)})
	}
	if r.P(60) {
		recs = append(recs, rec{3, 1, 0x409, 2, utf16be("Regular")}, rec{3, 1, 0x409, 5, utf16be("Version 1")})
	}
	sort.Slice(recs, func(i, j int) bool {
		a, b := recs[i], recs[j]
		if a.plat != b.plat {
			return a.plat < b.plat
		}
		return a.id < b.id
	})
	var b be
	pad := r.N(4) * 2
	b.u16(0, len(recs), 6+12*len(recs)+pad)
	var text []byte
	for _, x := range recs {
		o := len(text)
		if k := bytes.Index(text, []byte(x.s)); k >= 0 && r.P(50) {
			o = k
		} else {
			text = append(text, x.s...)
		}
		b.u16(x.plat, x.enc, x.lang, x.id, len(x.s), o)
	}
	b.Write(make([]byte, pad))
	b.Write(text)
	return b.Bytes()
}

func (t *tfont) cmapTable(r *Rng, wide bool) []byte {
	full, bmp := map[rune]int{}, map[rune]int{}
	decoy := map[rune]int{}
	for c, g := range t.cmap {
		full[c] = g
		if c < 0xffff {
			bmp[c] = g
		}
		if c < 256 {
			decoy[c] = g%(t.glyphs-1) + 1
		}
	}
	type sub struct {
		plat, enc int
		data      []byte
	}
	f0 := func() []byte {
		var b be
		b.u16(0, 262, 0)
		for c := 0; c < 256; c++ {
			b.WriteByte(byte(decoy[rune(c)]))
		}
		return b.Bytes()
	}
	var subs []sub
	if r.P(40) {
		subs = append(subs, sub{1, 0, f0()})
	}
	switch {
	case wide && r.P(50):
		subs = append(subs, sub{3, 1, format4(r, bmp)}, sub{3, 10, format12(r, full)})
	case wide && r.P(50):
		subs = append(subs, sub{3, 10, format12(r, full)})
	case wide:
		subs = append(subs, sub{0, 4, format12(r, full)})
	case r.P(70):
		subs = append(subs, sub{3, 1, format4(r, bmp)})
		if r.P(30) {
			subs = append(subs, sub{0, 3, format4(r, bmp)})
		}
	default:
		subs = append(subs, sub{0, 3, format4(r, bmp)})
	}
	sort.SliceStable(subs, func(i, j int) bool { return subs[i].plat*100+subs[i].enc < subs[j].plat*100+subs[j].enc })
	var b be
	b.u16(0, len(subs))
	off := 4 + 8*len(subs)
	for _, s := range subs {
		b.u16(s.plat, s.enc)
		b.u32(off)
		off += len(s.data)
	}
	for _, s := range subs {
		b.Write(s.data)
	}
	return b.Bytes()
}

func sortedCodes(m map[rune]int) []rune {
	var cs []rune
	for c := range m {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	return cs
}

func format4(r *Rng, m map[rune]int) []byte {
	type seg struct {
		lo, hi rune
		delta  int
		arr    []int // nil: by delta alone
	}
	var segs []seg
	cs := sortedCodes(m)
	for i := 0; i < len(cs); {
		j := i + 1
		if r.P(50) { // glyphs in a row
			for j < len(cs) && cs[j] == cs[j-1]+1 && m[cs[j]] == m[cs[j-1]]+1 {
				j++
			}
			segs = append(segs, seg{cs[i], cs[j-1], m[cs[i]] - int(cs[i]), nil})
		} else { // any glyphs, with holes
			gap := rune(1 + r.N(4))
			for j < len(cs) && cs[j]-cs[j-1] <= gap && j-i < 40 {
				j++
			}
			s := seg{lo: cs[i], hi: cs[j-1]}
			if r.P(40) {
				s.delta = r.N(200) - 100
			}
			for c := s.lo; c <= s.hi; c++ {
				g := m[c]
				if g != 0 {
					g = (g - s.delta) & 0xffff
					if g == 0 { // would mean no glyph
						s.delta++
						s.arr = nil
						c = s.lo - 1
						continue
					}
				}
				s.arr = append(s.arr, g)
			}
			segs = append(segs, s)
		}
		i = j
	}
	segs = append(segs, seg{0xffff, 0xffff, 1, nil})
	n := len(segs)
	var end, start, delta, rng, arr be
	for i, s := range segs {
		end.u16(int(s.hi))
		start.u16(int(s.lo))
		delta.u16(s.delta & 0xffff)
		if s.arr == nil {
			rng.u16(0)
			continue
		}
		rng.u16(2*(n-i) + arr.Len())
		arr.u16(s.arr...)
	}
	var b be
	b.u16(4, 16+8*n+arr.Len(), 0, 2*n, 0, 0, 0)
	b.Write(end.Bytes())
	b.u16(0)
	b.Write(start.Bytes())
	b.Write(delta.Bytes())
	b.Write(rng.Bytes())
	b.Write(arr.Bytes())
	return b.Bytes()
}

func format12(r *Rng, m map[rune]int) []byte {
	cs := sortedCodes(m)
	var g be
	n := 0
	for i := 0; i < len(cs); n++ {
		j := i + 1
		for j < len(cs) && cs[j] == cs[j-1]+1 && m[cs[j]] == m[cs[j-1]]+1 && r.P(90) {
			j++
		}
		g.u32(int(cs[i]), int(cs[j-1]), m[cs[i]])
		i = j
	}
	var b be
	b.u16(12, 0)
	b.u32(16+g.Len(), 0, n)
	b.Write(g.Bytes())
	return b.Bytes()
}

// damageFont changes the file.
func damageFont(r *Rng, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.N(3); n > 0 && len(b) > 0; n-- {
		i := r.N(len(b))
		if r.P(30) { // the directory
			i = r.N(min(len(b), 12+16*12))
		}
		switch r.N(5) {
		case 0:
			b = b[:i]
		case 1:
			b[i] ^= 1 << r.N(8)
		case 2:
			b[i] = []byte{0, 0xff, 0x7f, 0x80, 1}[r.N(5)]
		case 3:
			if i+4 <= len(b) {
				var x be
				x.u32([]int{0, 0xffffffff, 0xffff, 0x7fffffff, 0x10ffff, 0xffff0000}[r.N(6)])
				copy(b[i:], x.Bytes())
			}
		default:
			for j := i; j < len(b) && j < i+r.N(40); j++ {
				b[j] = byte(r.U64())
			}
		}
	}
	return b
}

// slowReader gives the data in pieces, and may fail.
type slowReader struct {
	data []byte
	pos  int
	step int
	fail int // position, or -1
	late bool
}

var errFontDisk = errors.New("simulated read error")

func (s *slowReader) Read(p []byte) (int, error) {
	if s.fail >= 0 && s.pos >= s.fail {
		return 0, errFontDisk
	}
	n := min(len(p), s.step, len(s.data)-s.pos)
	if s.fail >= 0 {
		n = min(n, s.fail-s.pos)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos == len(s.data) && (s.late || n == 0) {
		return n, io.EOF
	}
	return n, nil
}

func (h *bhist) fontStep(op Op) {
	c := h.c
	switch op.K {
	case "efont":
		t := makeFont(uint64(op.I(0)))
		if op.I(1) != 0 {
			t.data = damageFont(NewRng(uint64(op.I(1))), t.data)
			t.damaged = true
			c.Count("fault:font:damaged", 1)
		}
		data := append([]byte(nil), t.data...)
		if op.I(2) != 0 { // from a file
			r := &slowReader{data: data, step: 1 + op.I(2)%700, fail: -1, late: op.I(2)&1 != 0}
			if op.I(3) != 0 {
				r.fail = op.I(3) % max(1, len(data))
				c.Count("fault:font:read_error", 1)
			}
			var got []byte
			var err error
			if !c.Call("font.Read", func() { got, err = font.Read(r) }) {
				return
			}
			if r.fail >= 0 {
				if err == nil {
					h.fail("font-read", "font.Read returns %d of %d bytes and no error when reading fails at %d", len(got), len(data), r.fail)
				}
				return
			}
			if err != nil || !bytes.Equal(got, data) {
				h.fail("font-read", "font.Read returns %d of %d bytes, %v", len(got), len(data), err)
				return
			}
			data = got
		}
		var err error
		if !c.Call("NewFont", func() { t.f, err = font.NewFont("Embedded", data) }) {
			return
		}
		if err != nil {
			if !t.damaged {
				h.fail("font-refused", "NewFont refuses a font: %v", err)
			}
			return
		}
		h.checkTTF(t)
		h.efonts = append(h.efonts, t)
	case "chars":
		if len(h.efonts) == 0 {
			return
		}
		t := h.efonts[op.I(0)%len(h.efonts)]
		add := func(x rune) {
			for _, o := range t.subset {
				if o == x {
					return
				}
			}
			t.subset = append(t.subset, x)
		}
		c.Call("AddString", func() {
			if op.I(1) == 0 {
				for _, x := range op.Str(0) {
					if unicode.IsPrint(x) || x == ' ' {
						add(x)
					}
				}
				t.f.AddString(op.Str(0))
			} else {
				for _, x := range op.Str(0) {
					add(x)
					t.f.AddRune(x)
				}
			}
		})
		if string(t.f.Subset) != string(t.subset) {
			h.fail("font-subset", "the characters of the font are %q, want %q", string(t.f.Subset), string(t.subset))
		}
		h.checkSubset(t)
	case "useefont":
		p := h.slot(op.I(0))
		if p == nil || len(h.efonts) == 0 {
			return
		}
		t := h.efonts[op.I(1)%len(h.efonts)]
		var n string
		var err error
		if !c.Call("AddEmbeddedFont", func() { n, err = p.pb.AddEmbeddedFont(t.f) }) {
			return
		}
		if err != nil {
			if !t.damaged {
				h.fail("font-refused", "AddEmbeddedFont: %v", err)
			}
			return
		}
		n = strings.TrimPrefix(n, "/")
		if old := p.efonts[n]; old != nil && old != t || p.fonts[n] != "" {
			h.fail("font-name", "AddEmbeddedFont returned /%s, which is the name of another font on this page", n)
		}
		if p.efonts == nil {
			p.efonts = map[string]*tfont{}
		}
		p.efonts[n] = t
	case "show":
		p := h.slot(op.I(0))
		if p == nil {
			return
		}
		var names []string
		for n := range p.efonts {
			names = append(names, n)
		}
		for n := range p.fonts {
			names = append(names, n)
		}
		if len(names) == 0 {
			return
		}
		sort.Strings(names)
		n := names[op.I(1)%len(names)]
		text := op.Str(0)
		if t := p.efonts[n]; t != nil {
			// the characters that the font has and a code shows
			var o []rune
			var all []rune
			for _, x := range shownOrder {
				if t.cmap[x] != 0 {
					all = append(all, x)
				}
			}
			if len(all) > 0 {
				for _, x := range text {
					o = append(o, all[int(x)%len(all)])
				}
			}
			text = string(o)
			if t.damaged {
				p.odd = true
			}
		}
		for _, x := range []byte(shownCodes(text)) {
			if _, ok := winShows(x); !ok {
				p.odd = true
			}
		}
		add := func(name string, args ...Val) { p.ops = append(p.ops, cop{name, args}) }
		size, x, y := fx(op.A[2]), fx(op.A[3]), fx(op.A[4])
		cs := p.pb.Content()
		c.Call("ContentStream", func() {
			cs.BeginText().SetFont("/"+n, size).SetTextPosition(x, y).ShowText(text).EndText()
		})
		add("BT")
		add("Tf", Name(n), size)
		add("Td", x, y)
		add("Tj", Str(shownCodes(text)))
		add("ET")
		c.Count("texts", 1)
	}
}

// shownOrder are the characters that codes show.
var shownOrder = func() []rune {
	var o []rune
	for i := 32; i < 256; i++ {
		if x, ok := winShows(byte(i)); ok {
			o = append(o, x)
		}
	}
	return o
}()

func (h *bhist) checkTTF(t *tfont) {
	var got *font.TTF
	var err error
	if !h.c.Call("ParseTTF", func() { got, err = font.ParseTTF(t.data) }) || t.damaged {
		return
	}
	if err != nil {
		h.fail("font-parse", "ParseTTF: %v", err)
		return
	}
	want := fmt.Sprint(t.glyphs, t.upem, t.ascent, t.descent, t.ulPos, t.ulThick, t.fixed, t.family, t.full, t.ps, t.name())
	have := fmt.Sprint(got.NumGlyphs, got.UnitsPerEm, got.Ascent, got.Descent, got.UnderlinePosition, got.UnderlineThickness, got.IsFixedPitch, got.FamilyName, got.FullName, got.PostScriptName, got.FontName)
	if have != want || !nearTo(float64(got.ItalicAngle), t.italic, 1e-3) || t.os2 && (int(got.CapHeight) != t.capH || int(got.XHeight) != t.xH) {
		h.fail("font-parse", "ParseTTF: %s, angle %v, heights %d %d; want %s, angle %v, heights %d %d", have, got.ItalicAngle, got.CapHeight, got.XHeight, want, t.italic, t.capH, t.xH)
	}
}

func (h *bhist) checkSubset(t *tfont) {
	var gl []uint16
	var ws []int
	var err, err2 error
	if !h.c.Call("GetSubsetGlyphs", func() {
		gl, err = t.f.GetSubsetGlyphs()
		ws, err2 = t.f.GetWidths()
	}) || t.damaged {
		return
	}
	if err != nil || err2 != nil {
		h.fail("font-subset", "GetSubsetGlyphs: %v, GetWidths: %v", err, err2)
		return
	}
	set := map[int]bool{0: true}
	for _, x := range t.subset {
		if g := t.cmap[x]; g != 0 {
			set[g] = true
		}
	}
	var want []int
	for g := range set {
		want = append(want, g)
	}
	sort.Ints(want)
	var adv []int
	for _, g := range want {
		adv = append(adv, t.adv[g])
	}
	if fmt.Sprint(gl) != fmt.Sprint(want) || fmt.Sprint(ws) != fmt.Sprint(adv) {
		h.fail("font-subset", "the characters %q are glyphs %v of widths %v, want %v of %v", string(t.subset), gl, ws, want, adv)
	}
}

var subsetTag = regexp.MustCompile(`^[A-Z]{6}\+`)

// checkFont compares a font of a page with the font that was embedded.
func (h *bhist) checkFont(f *RFile, where string, v Val, t *tfont) {
	d := f.D(v)
	bad := func(s string, a ...interface{}) {
		h.fail("embedded-font", "%s, of %q (%d units per em, OpenType %v): %s\n%s", where, t.name(), t.upem, t.otto, fmt.Sprintf(s, a...), showVal(d))
	}
	sub := Name("TrueType")
	file := "FontFile2"
	if bytes.HasPrefix(t.data, []byte("OTTO")) {
		sub, file = "Type1", "FontFile3"
	}
	if d["Type"] != Name("Font") || d["Subtype"] != sub {
		bad("is no font, or of another kind than %s", sub)
		return
	}
	desc := f.D(d["FontDescriptor"])
	if desc["Type"] != Name("FontDescriptor") || desc["FontName"] != d["BaseFont"] {
		bad("FontDescriptor is %s", showVal(desc))
		return
	}
	base, _ := d["BaseFont"].(Name)
	ref, _ := desc[file].(Ref)
	data, err := f.Decode(ref.N)
	if err != nil || !bytes.Equal(data, t.data) {
		bad("%s holds %d bytes (%v), the font has %d", file, len(data), err, len(t.data))
		return
	}
	stm, _ := f.Objs[ref.N].(*Stm)
	if file == "FontFile2" && f.Get(stm.D["Length1"]) != int64(len(data)) || file == "FontFile3" && stm.D["Subtype"] != Name("OpenType") {
		bad("%s has the dictionary %s", file, showVal(stm.D))
		return
	}
	if t.damaged {
		return
	}
	if subsetTag.ReplaceAllString(string(base), "") != t.name() {
		bad("BaseFont is %q", string(base))
		return
	}
	k := 1000 / float64(t.upem)
	near := func(key string, want float64, tol float64) bool {
		if !nearTo(num(f.Get(desc[key])), want, tol) {
			bad("%s is %s, want %v", key, showVal(desc[key]), want)
			return false
		}
		return true
	}
	if !near("Ascent", float64(t.ascent)*k, 1) || !near("Descent", float64(t.descent)*k, 1) || !near("ItalicAngle", t.italic, 1e-2) || t.os2 && !near("CapHeight", float64(t.capH)*k, 1) {
		return
	}
	if fam, _ := desc["FontFamily"].(Str); pdfText(string(fam)) != t.family {
		bad("FontFamily is %q, want %q", pdfText(string(fam)), t.family)
		return
	}
	flags, _ := desc["Flags"].(int64)
	if (flags&1 != 0) != t.fixed || (flags&64 != 0) != (t.italic != 0) || flags&4 != 0 && flags&32 != 0 {
		bad("Flags is %d; fixed pitch %v, angle %v", flags, t.fixed, t.italic)
		return
	}
	// widths and characters of the codes
	if f.Get(d["Encoding"]) != Name("WinAnsiEncoding") {
		bad("Encoding is %s", showVal(d["Encoding"]))
		return
	}
	first, last := num(f.Get(d["FirstChar"])), num(f.Get(d["LastChar"]))
	widths, _ := f.Get(d["Widths"]).(Arr)
	if len(widths) != int(last-first)+1 {
		bad("has %d widths for the codes %v to %v", len(widths), first, last)
		return
	}
	uni := map[string]string{}
	if d["ToUnicode"] != nil {
		ref, _ := d["ToUnicode"].(Ref)
		data, err := f.Decode(ref.N)
		if err != nil {
			bad("ToUnicode: %v", err)
			return
		}
		uni, err = readCMap(data)
		if err != nil {
			bad("ToUnicode: %v\n%.300q", err, data)
			return
		}
	}
	for i := 32; i < 256; i++ {
		x, ok := winShows(byte(i))
		g := t.cmap[x]
		if !ok || g == 0 {
			continue
		}
		w := -1.0
		if i >= int(first) && i <= int(last) {
			w = num(f.Get(widths[i-int(first)]))
		}
		if !nearTo(w, float64(t.adv[g])*k, 1) {
			bad("the width of %q (code %d, glyph %d) is %v, want %.1f", string(x), i, g, w, float64(t.adv[g])*k)
			return
		}
		if u, ok := uni[string(rune(i))]; ok && u != string(x) {
			bad("ToUnicode gives %q for the code %d, which shows %q", u, i, string(x))
			return
		} else if !ok && d["ToUnicode"] != nil {
			bad("ToUnicode does not have the code %d, which shows %q", i, string(x))
			return
		}
	}
}

// readCMap reads a ToUnicode map of single-byte codes.
func readCMap(data []byte) (map[string]string, error) {
	o := map[string]string{}
	ws := strings.Fields(string(data))
	hexs := func(s string) (string, error) {
		v, err := parseVal([]byte(s))
		x, ok := v.(Str)
		if err != nil || !ok {
			return "", fmt.Errorf("%q is no string", s)
		}
		return string(x), nil
	}
	for i := 1; i < len(ws); i++ {
		if ws[i] == "beginbfrange" {
			return nil, fmt.Errorf("unexpected range")
		}
		if ws[i] != "beginbfchar" {
			continue
		}
		n := 0
		fmt.Sscan(ws[i-1], &n)
		if n < 1 || n > 100 || i+2*n+1 >= len(ws) || ws[i+2*n+1] != "endbfchar" {
			return nil, fmt.Errorf("bfchar section of %s entries", ws[i-1])
		}
		for j := 0; j < n; j++ {
			a, e1 := hexs(ws[i+1+2*j])
			b, e2 := hexs(ws[i+2+2*j])
			if e1 != nil || e2 != nil || len(a) != 1 || len(b)%2 != 0 {
				return nil, fmt.Errorf("entry %s %s", ws[i+1+2*j], ws[i+2+2*j])
			}
			var u []uint16
			for k := 0; k < len(b); k += 2 {
				u = append(u, uint16(b[k])<<8|uint16(b[k+1]))
			}
			if _, twice := o[string(rune(a[0]))]; twice {
				return nil, fmt.Errorf("code %s twice", ws[i+1+2*j])
			}
			o[string(rune(a[0]))] = string(utf16.Decode(u))
		}
	}
	return o, nil
}

func genFonts(r *Rng, sc *Scenario, i int) {
	add := func(k string, s string, a ...int64) {
		op := Op{K: k, A: a}
		if s != "" {
			op.S = []string{s}
		}
		sc.Ops = append(sc.Ops, op)
	}
	page := func() {
		add("page", "", int64(1+r.N(3000))*1_000_000, int64(1+r.N(3000))*1_000_000)
	}
	if r.P(40) {
		add("xref", "", 1)
	}
	if r.P(30) {
		add("objstm", "", 1)
	}
	efont := func() {
		var damage, read, fail int64
		if r.P(30) {
			damage = int64(1 + r.N(1<<40))
		}
		if r.P(30) {
			read = int64(1 + r.N(1<<20))
			if r.P(30) {
				fail = int64(1 + r.N(1<<20))
			}
		}
		add("efont", "", int64(r.N(1<<40)), damage, read, fail)
	}
	page()
	efont()
	for n := 5 + r.N(25); n > 0; n-- {
		slot, f := int64(r.N(3)), int64(r.N(4))
		switch r.N(9) {
		case 0:
			efont()
		case 1:
			page()
		case 2:
			add("chars", r.Pick("Hello, World!", "The quick brown fox", "Ünïcödé", "日本語", "\t\n x", "aaa", "é€™“”", "😀😁😂🙀😃😄😿", "😀 smile 😆😇😈😉😊😋😌😍😎😏😐😑😒😓😔😕😖"), f, int64(r.N(2)))
		case 3, 4:
			add("useefont", "", slot, f)
		case 5:
			add("font", "", slot, int64(r.N(len(stdFonts))))
			for k := r.N(10); k > 4; k-- {
				add("font", "", slot, int64(r.N(len(stdFonts))))
			}
		case 6:
			if r.P(40) {
				add("fin", "", slot)
			} else if r.P(30) {
				add("bytes", "")
			}
		default:
			text := genShown(r)
			add("show", text, slot, int64(r.N(6)), int64(1+r.N(40))*500_000, int64(r.N(600))*1_000_000, int64(r.N(600_000_000)))
		}
	}
	if r.P(25) {
		sc.Ops = append(sc.Ops, Op{K: "encrypt", S: []string{r.Pick("", "user"), r.Pick("", "owner")}})
		if r.P(10) {
			sc.RandFail = append(sc.RandFail, r.N(20))
		}
	}
	for n := 0; n < 6; n++ {
		add("fin", "", int64(r.N(3)))
	}
	add("bytes", "")
	if r.P(30) {
		add("bytes", "")
	}
}

func init() {
	register(&Prop{
		ID: "C16", Level: "exploration",
		Gen: genFonts, Exec: execBuild,
		Quick: 6000, Thorough: 300000,
		Rule: "one evaluation is one simulated history of a document built with generated fonts (damaged ones and failing readers included), written, and read back by an independent reader and by the library's extraction; it counts as non-trivial when at least one document with a page was written and read back",
		Real: []string{"resources/font", "core/write (page builder, content streams, writer, encryption)", "content/extract", "core/parse"},
		Stub: []string{"the font files (generated)", "the reader they come from", "map iteration order", "crypto/rand"},
	})
}
