package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/types"
)

// C13: a comparison reports what differs, all of it and nothing else.

// cdoc is one of the two documents. Every op says in which of them it counts.
type cdoc struct {
	pages  []cpage
	info   map[string]string
	marks  []cmark
	fields map[string]string
	names  []string // of fields, in order
	xfa    bool     // the form is an XFA form
}

// cmark is an item of the outline: its depth, page and view, or a URI.
type cmark struct {
	title             string
	depth, page, view int
}

type cpage struct {
	w, h, rot int
	items     []Op
}

func cdocOf(ops []Op, bit int) *cdoc {
	d := &cdoc{info: map[string]string{}, fields: map[string]string{}}
	for _, op := range ops {
		if op.I(0)&bit == 0 {
			continue
		}
		switch op.K {
		case "page":
			d.pages = append(d.pages, cpage{w: max(1, op.I(1)), h: max(1, op.I(2)), rot: op.I(3)})
		case "text", "rect", "line", "img", "annot":
			if n := len(d.pages); n > 0 {
				d.pages[n-1].items = append(d.pages[n-1].items, op)
			}
		case "info":
			d.info[op.Str(0)] = op.Str(1)
		case "mark":
			m := cmark{op.Str(0), op.I(1), max(0, op.I(2)), max(0, op.I(3)) % 11}
			if n := len(d.marks); n == 0 {
				m.depth = 0
			} else {
				m.depth = min(max(0, m.depth), d.marks[n-1].depth+1)
			}
			d.marks = append(d.marks, m)
		case "xfa":
			d.xfa = true
		case "field":
			if _, ok := d.fields[op.Str(0)]; !ok {
				d.names = append(d.names, op.Str(0))
			}
			d.fields[op.Str(0)] = op.Str(1)
		}
	}
	if len(d.pages) == 0 {
		d.pages = []cpage{{w: 100, h: 100}}
	}
	return d
}

func hundredths(n int) string {
	s := fmt.Sprintf("%.2f", float64(n)/100)
	s = strings.TrimRight(s, "0")
	return strings.TrimSuffix(s, ".")
}

// cimage is an image: images come in families, whose members differ in little: in one
// sample, at the beginning, in the middle or at the end, in the size of the same samples,
// in having no data, in their colour space, or in their filter.
func cimage(id int) (w, h int, filter, space string, data []byte) {
	family, member := id/5, id%5
	space = "DeviceGray"
	if family == 4 {
		w, h, data = 2, 2, []byte("abcdefghijkl")
		switch member {
		case 0:
			data = nil
		case 1:
			space = "DeviceRGB"
		case 2:
			filter = "DCTDecode"
		case 3:
			w, data = 3, nil
		}
		return
	}
	w, h = []int{2, 3, 7, 61}[family%4], []int{2, 4, 5, 50}[family%4]
	data = NewRng(uint64(family)*977 + 3).Bytes(w * h)
	switch member {
	case 1:
		data[len(data)/2] ^= 1
	case 2:
		data[len(data)-1] ^= 0x80
	case 3:
		data[0] ^= 0x10
	case 4:
		if w, h = h, w; w == h {
			data[1] ^= 0xff
		}
	}
	if family%3 != 1 {
		filter = "FlateDecode"
	}
	return
}

// images are the names that a page gives to images.
func (p *cpage) images() map[string]int {
	m := map[string]int{}
	for _, op := range p.items {
		if op.K == "img" {
			n := fmt.Sprintf("Im%d", op.I(1))
			if _, ok := m[n]; !ok {
				m[n] = op.I(2)
			}
		}
	}
	return m
}

var cfonts = []string{"Helvetica", "Courier", "Times-Roman", "Helvetica-Bold"}
var cannots = []string{"Text", "Square", "Circle", "Link"}

// write puts the document's objects; r decides the layout.
func (d *cdoc) write(b *docBuilder, r *Rng, catalog int) {
	inStm := func() bool { return r.P(60) }
	var spare []int
	for _, n := range r.Perm(10 + r.N(20)) {
		spare = append(spare, b.next+n)
	}
	b.next += len(spare)
	alloc := func() int {
		if len(spare) > 0 {
			n := spare[0]
			spare = spare[1:]
			return n
		}
		b.next++
		return b.next - 1
	}
	add := func(v Val) Ref {
		n := alloc()
		b.put(n, v, inStm())
		return Ref{n, 0}
	}
	cat := Dict{"Type": Name("Catalog")}
	pagesN := alloc()
	cat["Pages"] = Ref{pagesN, 0}
	fonts := map[int]Ref{}
	font := func(i int) Ref {
		if _, ok := fonts[i]; !ok || r.P(20) {
			fonts[i] = add(Dict{"Type": Name("Font"), "Subtype": Name("Type1"), "BaseFont": Name(cfonts[i]), "Encoding": Name("WinAnsiEncoding")})
		}
		return fonts[i]
	}
	imgs := map[int]Ref{}
	image := func(id int) Ref {
		if _, ok := imgs[id]; !ok || r.P(20) {
			w, h, filter, space, data := cimage(id)
			v := Dict{"Type": Name("XObject"), "Subtype": Name("Image"), "Width": int64(w), "Height": int64(h), "BitsPerComponent": int64(8), "ColorSpace": Name(space)}
			if filter != "" {
				v["Filter"] = Name(filter)
			}
			if filter == "FlateDecode" {
				data = deflate(data)
			}
			n := alloc()
			b.stream(n, v, data, r.P(20))
			imgs[id] = Ref{n, 0}
		}
		return imgs[id]
	}
	var kids Arr
	for _, p := range d.pages {
		pg := Dict{"Type": Name("Page"), "Parent": Ref{pagesN, 0}, "MediaBox": Arr{int64(0), int64(0), int64(p.w), int64(p.h)}}
		if p.rot != 0 {
			pg["Rotate"] = int64(p.rot)
		}
		fd, xd := Dict{}, Dict{}
		for n, id := range p.images() {
			_ = id
			xd[n] = nil
		}
		for _, n := range sortedKeys(xd) {
			xd[n] = image(p.images()[n])
		}
		var content strings.Builder
		var annots Arr
		for _, op := range p.items {
			x := func(i int) string { return hundredths(op.I(i)) }
			switch op.K {
			case "text":
				f := op.I(1) & 3
				fn := fmt.Sprintf("F%d", f)
				if fd[fn] == nil {
					fd[fn] = font(f)
				}
				fmt.Fprintf(&content, "BT /%s %s Tf %s %s Td (%s) Tj ET\n", respell(r, fn), x(2), x(3), x(4), contentString(op.Str(0)))
			case "rect":
				fmt.Fprintf(&content, "%s %s %s %s re %s\n", x(1), x(2), x(3), x(4), []string{"f", "S", "B"}[op.I(5)%3])
			case "line":
				fmt.Fprintf(&content, "%s %s m %s %s l S\n", x(1), x(2), x(3), x(4))
			case "img":
				fmt.Fprintf(&content, "q 30 0 0 20 %s %s cm /%s Do Q\n", x(3), x(4), respell(r, fmt.Sprintf("Im%d", op.I(1))))
			case "annot":
				a := Dict{"Type": Name("Annot"), "Subtype": Name(cannots[op.I(1)&3]), "Rect": Arr{Real(x(2)), Real(x(3)), Real(hundredths(op.I(2) + op.I(4))), Real(hundredths(op.I(3) + op.I(5)))}}
				if r.P(70) {
					annots = append(annots, add(a))
				} else {
					annots = append(annots, a)
				}
			}
		}
		if len(fd)+len(xd) > 0 {
			var res Val = Dict{"Font": fd, "XObject": xd}
			if r.P(50) {
				res = add(res)
			}
			pg["Resources"] = res
		}
		if annots != nil {
			var v Val = annots
			if r.P(40) {
				v = add(v)
			}
			pg["Annots"] = v
		}
		// the content in one or several streams
		s := content.String()
		var parts Arr
		cut := len(s)
		if k := strings.Index(s, "\n"); k >= 0 && r.P(40) {
			cut = k
		}
		for _, part := range []string{s[:cut], s[cut:]} {
			if part == "" {
				continue
			}
			n := alloc()
			v := Dict{}
			data := []byte(part)
			if r.P(60) {
				v["Filter"] = Name("FlateDecode")
				data = deflate(data)
			}
			b.stream(n, v, data, r.P(20))
			parts = append(parts, Ref{n, 0})
		}
		if len(parts) == 1 && r.P(70) {
			pg["Contents"] = parts[0]
		} else if len(parts) > 0 {
			pg["Contents"] = parts
		}
		kids = append(kids, add(pg))
	}
	b.put(pagesN, Dict{"Type": Name("Pages"), "Kids": kids, "Count": int64(len(kids))}, inStm())
	if len(d.marks) > 0 {
		on := alloc()
		nums := make([]int, len(d.marks))
		items := make([]Dict, len(d.marks))
		for i, m := range d.marks {
			nums[i] = alloc()
			items[i] = Dict{"Title": Str(m.title), "Parent": Ref{on, 0}}
			page := kids[m.page%len(kids)]
			to := []Val{Arr{page, Name("Fit")}, Arr{page, Name("FitH"), int64(100)}, Arr{page, Name("FitH"), int64(101)}, Arr{page, Name("XYZ"), int64(10), int64(700), int64(0)},
				Arr{page, Name("XYZ"), int64(10), int64(700), nil}, Arr{page, Name("XYZ"), int64(11), int64(700), int64(0)}, Str("chapter (1)"), Str("chapter (2)"), Name("Chapter 1")}
			switch {
			case m.view >= len(to):
				items[i]["A"] = b.direct(r, Dict{"S": Name("URI"), "URI": Str(fmt.Sprintf("http://example.org/%d", m.view))}, add)
			case r.P(30):
				items[i]["A"] = b.direct(r, Dict{"S": Name("GoTo"), "D": to[m.view]}, add)
			default:
				items[i]["Dest"] = b.direct(r, to[m.view], add)
			}
		}
		top := Dict{"Type": Name("Outlines")}
		var open []int // the items above the next one
		last := map[int]int{}
		for i, m := range d.marks {
			open = open[:m.depth]
			parent, pn := top, on
			if m.depth > 0 {
				parent, pn = items[open[m.depth-1]], nums[open[m.depth-1]]
			}
			items[i]["Parent"] = Ref{pn, 0}
			if l, ok := last[pn]; ok {
				items[l]["Next"], items[i]["Prev"] = Ref{nums[i], 0}, Ref{nums[l], 0}
			} else {
				parent["First"] = Ref{nums[i], 0}
			}
			last[pn] = i
			parent["Last"] = Ref{nums[i], 0}
			open = append(open, i)
		}
		for i := range items {
			b.put(nums[i], items[i], inStm())
		}
		b.put(on, top, inStm())
		cat["Outlines"] = Ref{on, 0}
	}
	if d.xfa {
		stream := func(s string) Ref {
			n := alloc()
			v := Dict{}
			data := []byte(s)
			if r.P(60) {
				v["Filter"] = Name("FlateDecode")
				data = deflate(data)
			}
			b.stream(n, v, data, r.P(20))
			return Ref{n, 0}
		}
		var tmpl, data strings.Builder
		var order []string
		groups := map[string]string{}
		for _, n := range d.names {
			g, leaf, ok := strings.Cut(n, ".")
			if !ok {
				g, leaf = "", n
			} else if groups[g] == "" {
				order = append(order, g)
			}
			fmt.Fprintf(&tmpl, "<field name=\"%s\"/>", leaf)
			groups[g] += fmt.Sprintf("<field name=\"%s\"><value>%s</value></field>%s", leaf, xmlText(r, latin1(d.fields[n])), r.Pick("", "\n"))
		}
		data.WriteString(groups[""])
		for _, g := range order {
			fmt.Fprintf(&data, "<%s>%s</%s>", g, groups[g], g)
		}
		x := Arr{Str("template"), stream("<template><subform>" + tmpl.String() + "</subform></template>")}
		if len(d.names) > 0 || r.P(50) {
			x = append(x, Str("datasets"), stream("<xfa:datasets><xfa:data>"+data.String()+"</xfa:data></xfa:datasets>"))
		}
		cat["AcroForm"] = b.direct(r, Dict{"Fields": Arr{}, "XFA": x}, add)
	} else if len(d.names) > 0 {
		var roots Arr
		groups := map[string]int{}
		kidsOf := map[string]Arr{}
		var order []string
		for _, n := range d.names {
			f := Dict{"FT": Name("Tx"), "V": Str(d.fields[n])}
			g, leaf, ok := strings.Cut(n, ".")
			if !ok {
				f["T"] = Str(n)
				roots = append(roots, add(f))
				continue
			}
			f["T"] = Str(leaf)
			if groups[g] == 0 {
				groups[g] = alloc()
				order = append(order, g)
				roots = append(roots, Ref{groups[g], 0})
			}
			f["Parent"] = Ref{groups[g], 0}
			kidsOf[g] = append(kidsOf[g], add(f))
		}
		for _, g := range order {
			b.put(groups[g], Dict{"T": Str(g), "Kids": kidsOf[g]}, inStm())
		}
		var form Val = Dict{"Fields": roots}
		if r.P(60) {
			form = add(form)
		}
		cat["AcroForm"] = form
	}
	b.info = 0
	if len(d.info) > 0 {
		in := Dict{}
		for k, v := range d.info {
			in[k] = Str(v)
		}
		b.info = alloc()
		b.put(b.info, in, inStm())
	}
	b.put(catalog, cat, inStm())
	b.root = catalog
}

// direct is v or a reference to it.
func (b *docBuilder) direct(r *Rng, v Val, add func(Val) Ref) Val {
	if r.P(30) {
		return add(v)
	}
	return v
}

// latin1 is the text of its bytes.
func latin1(s string) string {
	var o []rune
	for i := 0; i < len(s); i++ {
		o = append(o, rune(s[i]))
	}
	return string(o)
}

// values are those of the form's fields.
func (d *cdoc) values() map[string]string {
	if !d.xfa {
		return d.fields
	}
	m := map[string]string{}
	for n, v := range d.fields {
		m[n] = fmt.Sprint(typed(strings.TrimSpace(latin1(v))))
	}
	return m
}

func (d *cdoc) form() string {
	switch {
	case d.xfa:
		return "xfa"
	case len(d.names) > 0:
		return "acroform"
	}
	return ""
}

func escapePlain(s string) string {
	return strings.NewReplacer("\\", "\\\\", "(", "\\(", ")", "\\)").Replace(s)
}

// compareDocs lays both documents out.
func compareDocs(sc *Scenario) (a, b *cdoc, da, db, pa, pb []byte) {
	a, b = cdocOf(sc.Ops, 1), cdocOf(sc.Ops, 2)
	start := func(seed, enc, ver int64) (*docBuilder, []byte) {
		d := newDocBuilder()
		d.ver = []string{"1.5", "1.7"}[ver&1]
		d.next = 3
		var pass []byte
		if enc != 0 {
			r := NewRng(uint64(seed) + 99)
			v := []int{1, 2, 4}[enc%3]
			pass = []byte("pw" + fmt.Sprint(enc))
			e := newRefEnc(v, map[int]int{1: 2, 2: 3, 4: 4}[v], map[int]int{1: 5, 2: 16, 4: 16}[v], pass, []byte("owner"), -4, true, r.Bytes(16), NewRng(uint64(seed)))
			d.encN = 2
			d.enc, d.id = e, e.ID
			d.put(2, e.dict(), false)
		} else if seed%3 != 0 {
			d.id = NewRng(uint64(seed)).Bytes(16)
		}
		return d, pass
	}
	x, pa := start(sc.P["seedA"], sc.P["encA"], sc.P["verA"])
	a.write(x, NewRng(uint64(sc.P["seedA"])+1), 1)
	x.commit(sc.P["seedA"], sc.P["strA"] != 0)
	da = append([]byte(nil), x.b...)
	if sc.P["update"] != 0 {
		b.write(x, NewRng(uint64(sc.P["seedB"])+2), 1)
		x.commit(sc.P["seedB"], sc.P["strB"] != 0)
		return a, b, da, x.b, pa, pa
	}
	y, pb := start(sc.P["seedB"], sc.P["encB"], sc.P["verB"])
	b.write(y, NewRng(uint64(sc.P["seedB"])+2), 1)
	y.commit(sc.P["seedB"], sc.P["strB"] != 0)
	return a, b, da, y.b, pa, pb
}

// same decides whether both documents were described alike.
func sameCdocs(ops []Op) bool {
	side := func(bit int) string {
		d := cdocOf(ops, bit)
		var s strings.Builder
		for _, p := range d.pages {
			fmt.Fprint(&s, "page", p.w, p.h, p.rot)
			for _, it := range p.items {
				fmt.Fprintf(&s, "%s%v%q", it.K, it.A[1:], it.S)
			}
		}
		for _, n := range d.names {
			fmt.Fprintf(&s, "f%q%q", n, d.fields[n])
		}
		var ks []string
		for k, v := range d.info {
			ks = append(ks, fmt.Sprintf("%q=%q", k, v))
		}
		sort.Strings(ks)
		fmt.Fprintf(&s, "%q%v%q", ks, d.xfa, d.outline())
		return s.String()
	}
	return side(1) == side(2)
}

// outline is the outline of the document: titles and pages.
func (d *cdoc) outline() string {
	var o []string
	for _, m := range d.marks {
		page := m.page%len(d.pages) + 1
		if m.view > 5 { // a name, or a URI
			page = 0
		}
		o = append(o, fmt.Sprintf("%d %q %d %d", m.depth, m.title, page, m.view))
	}
	return strings.Join(o, "\n")
}

type chist struct {
	c      *Ctx
	o      compare.CompareOptions
	tol    float64
	at     string
	d1, d2 *types.ContentDocument
	m1, m2 *cdoc
}

func (h *chist) fail(class, f string, a ...interface{}) {
	h.c.Fail(class, "%s: %s", h.at, fmt.Sprintf(f, a...))
}

func (h *chist) norm(s string) string {
	if h.o.IgnoreCase {
		b := []byte(s)
		for i, c := range b {
			if c >= 'A' && c <= 'Z' {
				b[i] = c + 32
			}
		}
		s = string(b)
	}
	if h.o.IgnoreWhitespace {
		s = strings.NewReplacer(" ", "", "\t", "", "\n", "", "\r", "").Replace(s)
	}
	return s
}

func near2(x1, y1, x2, y2, tol float64) bool {
	d := func(a, b float64) bool { return a-b < tol && b-a < tol }
	return d(x1, x2) && d(y1, y2)
}

// equal: nothing to report about the two.
func (h *chist) equal(a, b types.TextElement) bool {
	return h.norm(a.Text) == h.norm(b.Text) && near2(a.X, a.Y, b.X, b.Y, h.tol) && a.FontName == b.FontName && a.FontSize-b.FontSize < 0.1 && b.FontSize-a.FontSize < 0.1
}

// silent: the two may go unreported.
func (h *chist) silent(a, b types.TextElement) bool {
	if h.equal(a, b) {
		return true
	}
	x, y := h.norm(a.Text), h.norm(b.Text)
	if h.o.TextGranularity == compare.GranularityWord || h.o.TextGranularity == compare.GranularityChar {
		// these look at the text and its place
		if x == y && near2(a.X, a.Y, b.X, b.Y, h.tol) {
			return true
		}
	}
	if h.o.DiffSensitivity == compare.SensitivityRelaxed {
		return float64(editDistance(x, y)) <= 0.1*float64(max(len(x), len(y))) || hamming(x, y) <= 0.1*float64(max(len(x), len(y)))
	}
	return false
}

func hamming(a, b string) float64 {
	n := 0
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			n++
		}
	}
	return float64(n + max(len(a), len(b)) - min(len(a), len(b)))
}

func editDistance(a, b string) int {
	row := make([]int, len(b)+1)
	for j := range row {
		row[j] = j
	}
	for i := 1; i <= len(a); i++ {
		prev := row[0]
		row[0] = i
		for j := 1; j <= len(b); j++ {
			cur := row[j]
			c := prev
			if a[i-1] != b[j-1] {
				c++
			}
			row[j] = min(c, row[j]+1, row[j-1]+1)
			prev = cur
		}
	}
	return row[len(b)]
}

// pairUp finds whether xs and ys can be paired completely by ok.
func pairUp(n, m int, ok func(i, j int) bool) bool {
	if n != m {
		return false
	}
	to := make([]int, m)
	for j := range to {
		to[j] = -1
	}
	var try func(i int, seen []bool) bool
	try = func(i int, seen []bool) bool {
		for j := 0; j < m; j++ {
			if !seen[j] && ok(i, j) {
				seen[j] = true
				if to[j] < 0 || try(to[j], seen) {
					to[j] = i
					return true
				}
			}
		}
		return false
	}
	for i := 0; i < n; i++ {
		if !try(i, make([]bool, m)) {
			return false
		}
	}
	return true
}

// without takes what was reported out of all.
func takeOut[T any](all []T, parts ...[]T) (rest []T, missing string) {
	count := map[string]int{}
	for _, p := range parts {
		for _, x := range p {
			count[show(x)]++
		}
	}
	for _, x := range all {
		k := show(x)
		if count[k] > 0 {
			count[k]--
			continue
		}
		rest = append(rest, x)
	}
	for _, p := range parts {
		for _, x := range p {
			if count[show(x)] > 0 {
				return rest, show(x)
			}
		}
	}
	return rest, ""
}

func (h *chist) text(p1, p2 *types.Page, d *compare.TextDiff) {
	if d == nil {
		d = &compare.TextDiff{}
	} else if len(d.Added)+len(d.Removed)+len(d.Modified) == 0 {
		h.fail("text", "a text difference without any")
	}
	var olds, news []types.TextElement
	for _, m := range d.Modified {
		olds, news = append(olds, m.Old), append(news, m.New)
		if h.equal(m.Old, m.New) {
			h.fail("text-excess", "%q at %v,%v is reported as modified to %q at %v,%v", m.Old.Text, m.Old.X, m.Old.Y, m.New.Text, m.New.X, m.New.Y)
		}
	}
	rest1, miss := takeOut(p1.Text, d.Removed, olds)
	if miss != "" {
		h.fail("text-invented", "reported as removed or modified, more often than the page has it: %s", miss)
		return
	}
	rest2, miss := takeOut(p2.Text, d.Added, news)
	if miss != "" {
		h.fail("text-invented", "reported as added or modified, more often than the page has it: %s", miss)
		return
	}
	if !pairUp(len(rest1), len(rest2), func(i, j int) bool { return h.silent(rest1[i], rest2[j]) }) {
		h.fail("text-missed", "not reported, but not equal either: %s and %s", texts(rest1), texts(rest2))
	}
	for _, a := range d.Removed {
		for _, b := range d.Added {
			if h.equal(a, b) {
				h.fail("text-excess", "%q at %v,%v is reported as removed and as added", a.Text, a.X, a.Y)
			}
		}
	}
	if h.o.DiffSensitivity != compare.SensitivityRelaxed && (h.o.TextGranularity == "" || h.o.TextGranularity == compare.GranularityElement) && h.transitive(p1, p2) {
		// classes of equal elements: what one side has more of is reported, and nothing else
		all := append(append([]types.TextElement(nil), p1.Text...), p2.Text...)
		n1, n2 := make([]int, len(all)), make([]int, len(all))
		for i, x := range all {
			for j := range all {
				if h.equal(x, all[j]) {
					if i < len(p1.Text) {
						n1[j]++
					} else {
						n2[j]++
					}
					break
				}
			}
		}
		w1, w2 := 0, 0
		for j := range all {
			w1 += max(0, n1[j]-n2[j])
			w2 += max(0, n2[j]-n1[j])
		}
		if g1, g2 := len(d.Removed)+len(d.Modified), len(d.Added)+len(d.Modified); g1 != w1 || g2 != w2 {
			h.fail("text-count", "%d texts of the first and %d of the second are reported, want %d and %d: %s / %s", g1, g2, w1, w2, texts(p1.Text), texts(p2.Text))
		}
	}
}

func texts(ts []types.TextElement) string {
	var o []string
	for _, t := range ts {
		o = append(o, fmt.Sprintf("%q at %g,%g %s %g", t.Text, t.X, t.Y, t.FontName, t.FontSize))
	}
	return strings.Join(o, ", ")
}

func (h *chist) transitive(p1, p2 *types.Page) bool {
	all := append(append([]types.TextElement(nil), p1.Text...), p2.Text...)
	for i := range all {
		for j := range all {
			if h.equal(all[i], all[j]) {
				for k := range all {
					if h.equal(all[j], all[k]) && !h.equal(all[i], all[k]) {
						return false
					}
				}
			}
		}
	}
	return true
}

func boxKey(t string, r *types.Rectangle) string {
	if r == nil {
		return t
	}
	return fmt.Sprintf("%s %.1f %.1f %.1f %.1f", t, r.LowerX, r.LowerY, r.UpperX, r.UpperY)
}

// multiset differences: what is in a and not in b
func less(a, b []string) []string {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	var o []string
	for _, x := range a {
		if n[x] > 0 {
			n[x]--
		} else {
			o = append(o, x)
		}
	}
	sort.Strings(o)
	return o
}

func keys[T any](l []T, f func(T) string) []string {
	var o []string
	for _, x := range l {
		o = append(o, f(x))
	}
	return o
}

func (h *chist) sets(what string, k1, k2, added, removed []string) {
	sort.Strings(added)
	sort.Strings(removed)
	if w := less(k2, k1); fmt.Sprint(added) != fmt.Sprint(w) {
		h.fail(what, "added %v, want %v", added, w)
	}
	if w := less(k1, k2); fmt.Sprint(removed) != fmt.Sprint(w) {
		h.fail(what, "removed %v, want %v", removed, w)
	}
}

func (h *chist) images(p1, p2 *types.Page, m1, m2 *cpage, d *compare.ImageDiff) {
	if d == nil {
		d = &compare.ImageDiff{}
	} else if len(d.Added)+len(d.Removed)+len(d.Modified)+len(d.Moved) == 0 {
		h.fail("images", "an image difference without any")
	}
	n1, n2 := m1.images(), m2.images()
	id := func(n map[string]int, r types.ImageRef) int { return n[strings.TrimPrefix(r.ImageID, "/")] }
	place := func(a, b types.ImageRef) bool { return a.ImageID == b.ImageID && near2(a.X, a.Y, b.X, b.Y, 1) }
	var olds, news, olds2, news2 []types.ImageRef
	for _, m := range d.Modified {
		olds, news = append(olds, m.Old), append(news, m.New)
		if !place(m.Old, m.New) || id(n1, m.Old) == id(n2, m.New) {
			h.fail("image-excess", "%s (image %d) is reported as modified to %s (image %d)", m.Old.ImageID, id(n1, m.Old), m.New.ImageID, id(n2, m.New))
		}
		if m.OldImage == nil || m.NewImage == nil || !bytes.Equal(m.OldImage.Data, imageData(id(n1, m.Old))) || !bytes.Equal(m.NewImage.Data, imageData(id(n2, m.New))) {
			h.fail("image-data", "%s modified: the images given are not those of the pages", m.Old.ImageID)
		}
	}
	for _, m := range d.Moved {
		olds2, news2 = append(olds2, m.Old), append(news2, m.New)
		if place(m.Old, m.New) || id(n1, m.Old) != id(n2, m.New) {
			h.fail("image-excess", "%s (image %d) is reported as moved to %s (image %d)", m.Old.ImageID, id(n1, m.Old), m.New.ImageID, id(n2, m.New))
		}
	}
	rest1, miss := takeOut(p1.Images, d.Removed, olds, olds2)
	if miss != "" {
		h.fail("image-invented", "reported more often than the page has it: %s", miss)
		return
	}
	rest2, miss := takeOut(p2.Images, d.Added, news, news2)
	if miss != "" {
		h.fail("image-invented", "reported more often than the page has it: %s", miss)
		return
	}
	if !pairUp(len(rest1), len(rest2), func(i, j int) bool {
		return place(rest1[i], rest2[j]) && id(n1, rest1[i]) == id(n2, rest2[j])
	}) {
		h.fail("image-missed", "not reported, but not equal either: %v and %v", rest1, rest2)
	}
	for _, a := range d.Removed {
		for _, b := range d.Added {
			if place(a, b) || id(n1, a) == id(n2, b) && len(imageData(id(n1, a))) > 0 {
				h.fail("image-excess", "%s is reported as removed and %s as added", a.ImageID, b.ImageID)
			}
		}
	}
}

func imageData(id int) []byte { _, _, _, _, d := cimage(id); return d }

func (h *chist) page(n int, pd *compare.PageDifference) {
	p1, p2 := &h.d1.Pages[n], &h.d2.Pages[n]
	m1, m2 := &h.m1.pages[n], &h.m2.pages[n]
	if pd == nil {
		pd = &compare.PageDifference{PageNumber: n + 1}
	}
	h.text(p1, p2, pd.TextDiff)
	g := pd.GraphicDiff
	if g == nil {
		g = &compare.GraphicDiff{}
	}
	gk := func(x types.Graphic) string { return boxKey(string(x.Type), x.BoundingBox) }
	h.sets("graphics", keys(p1.Graphics, gk), keys(p2.Graphics, gk), keys(g.Added, gk), keys(g.Removed, gk))
	a := pd.AnnotationDiff
	if a == nil {
		a = &compare.AnnotationDiff{}
	}
	ak := func(x types.Annotation) string { return boxKey(string(x.Type), x.Rect) }
	h.sets("annotations", keys(p1.Annotations, ak), keys(p2.Annotations, ak), keys(a.Added, ak), keys(a.Removed, ak))
	h.images(p1, p2, m1, m2, pd.ImageDiff)
	want := map[compare.DifferenceType]int{}
	if m1.w != m2.w || m1.h != m2.h {
		want[compare.DifferenceTypePageContent]++
	}
	if (m1.rot%360+360)%360 != (m2.rot%360+360)%360 {
		want[compare.DifferenceTypePageContent]++
	}
	set := func(t compare.DifferenceType, there bool) {
		if there {
			want[t]++
		}
	}
	set(compare.DifferenceTypeText, pd.TextDiff != nil)
	set(compare.DifferenceTypeGraphic, pd.GraphicDiff != nil)
	set(compare.DifferenceTypeAnnotation, pd.AnnotationDiff != nil)
	set(compare.DifferenceTypeImage, pd.ImageDiff != nil)
	got := map[compare.DifferenceType]int{}
	for _, d := range pd.Differences {
		got[d.Type]++
		if !strings.Contains(d.Location, fmt.Sprint(n+1)) {
			h.fail("location", "a difference of page %d is said to be at %q", n+1, d.Location)
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		h.fail("page", "page %d: kinds of differences %v, want %v", n+1, got, want)
	}
}

func (h *chist) meta(d *compare.MetadataDifference) int {
	a, b := h.d1.Metadata, h.d2.Metadata
	want := map[string][2]interface{}{}
	add := func(n string, x, y interface{}) {
		if x != y {
			want[n] = [2]interface{}{x, y}
		}
	}
	if !h.o.IgnoreMetadata {
		add("Title", a.Title, b.Title)
		add("Author", a.Author, b.Author)
		add("Subject", a.Subject, b.Subject)
		add("Keywords", a.Keywords, b.Keywords)
		add("Creator", a.Creator, b.Creator)
		if !h.o.IgnoreProducer {
			add("Producer", a.Producer, b.Producer)
		}
		if !h.o.IgnoreDates {
			add("CreationDate", a.CreationDate, b.CreationDate)
			add("ModDate", a.ModDate, b.ModDate)
		}
		add("PDFVersion", a.PDFVersion, b.PDFVersion)
		add("PageCount", a.PageCount, b.PageCount)
		add("Encrypted", a.Encrypted, b.Encrypted)
	}
	got := map[string][2]interface{}{}
	if d != nil {
		for n, f := range map[string]*compare.FieldDiff{"Title": d.Title, "Author": d.Author, "Subject": d.Subject, "Keywords": d.Keywords, "Creator": d.Creator, "Producer": d.Producer, "CreationDate": d.CreationDate, "ModDate": d.ModDate, "PDFVersion": d.PDFVersion, "PageCount": d.PageCount, "Encrypted": d.Encrypted} {
			if f != nil {
				got[n] = [2]interface{}{f.OldValue, f.NewValue}
			}
		}
	}
	if show(got) != show(want) || (d != nil) != (len(want) > 0) {
		h.fail("metadata", "metadata differences %s, want %s", show(got), show(want))
	}
	return b2i(len(want) > 0)
}

func (h *chist) formDiff(d *compare.FormDiff) int {
	var add, rem, mod []string
	f1, f2 := h.m1.values(), h.m2.values()
	k1, k2 := h.m1.form(), h.m2.form()
	kinds := k1 != "" && k2 != "" && k1 != k2
	for _, n := range sortedMap(f2) {
		if _, ok := f1[n]; !ok || kinds {
			add = append(add, fmt.Sprintf("%s=%v>%s", n, nil, f2[n]))
		}
	}
	for _, n := range sortedMap(f1) {
		v, ok := f2[n]
		if !ok || kinds {
			rem = append(rem, fmt.Sprintf("%s=%s>%v", n, f1[n], nil))
		} else if v != f1[n] {
			mod = append(mod, fmt.Sprintf("%s=%s>%s", n, f1[n], v))
		}
	}
	f := func(x compare.FormFieldChange) string {
		return fmt.Sprintf("%s=%v>%v", x.FieldName, x.OldValue, x.NewValue)
	}
	if d == nil {
		d = &compare.FormDiff{}
	}
	g1, g2, g3 := keys(d.Added, f), keys(d.Removed, f), keys(d.Modified, f)
	sort.Strings(g1)
	sort.Strings(g2)
	sort.Strings(g3)
	sort.Strings(add)
	sort.Strings(rem)
	sort.Strings(mod)
	if fmt.Sprintf("%q%q%q", g1, g2, g3) != fmt.Sprintf("%q%q%q", add, rem, mod) || kinds != (d.FormType != nil) || kinds && fmt.Sprintf("%v %v", d.FormType.OldValue, d.FormType.NewValue) != k1+" "+k2 {
		h.fail("form", "form differences: added %q, removed %q, modified %q, want %q, %q, %q", g1, g2, g3, add, rem, mod)
	}
	return b2i(kinds || len(add)+len(rem)+len(mod) > 0)
}

func sortedMap(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// result checks all of a result and returns whether the documents are identical.
func (h *chist) result(res *compare.ComparisonResult) {
	total := h.meta(res.MetadataDiff)
	if res.Summary.MetadataChanged != (res.MetadataDiff != nil) || res.Summary.StructureChanged != (res.StructureDiff != nil) || res.Summary.PagesChanged != (len(res.PageDiffs) > 0) || res.Summary.ContentChanged != (len(res.PageDiffs) > 0 || res.FormDiff != nil) {
		h.fail("summary", "the summary %+v is not that of the result", res.Summary)
	}
	n1, n2 := len(h.m1.pages), len(h.m2.pages)
	if (res.StructureDiff != nil) != (n1 != n2) {
		h.fail("structure", "structure difference %v for %d and %d pages", res.StructureDiff, n1, n2)
	}
	if res.StructureDiff != nil {
		total++
		if f := res.StructureDiff.PageCountDiff; f == nil || fmt.Sprint(f.OldValue, f.NewValue) != fmt.Sprint(n1, n2) {
			h.fail("structure", "page count difference %v, want %d and %d", f, n1, n2)
		}
	}
	byPage := map[int]*compare.PageDifference{}
	last := 0
	for i := range res.PageDiffs {
		pd := &res.PageDiffs[i]
		if pd.PageNumber <= last || pd.PageNumber > max(n1, n2) {
			h.fail("page", "page differences out of order or of no page: %d after %d", pd.PageNumber, last)
			return
		}
		last = pd.PageNumber
		byPage[last] = pd
		total += len(pd.Differences)
		if len(pd.Differences) == 0 {
			h.fail("page", "page %d is listed without differences", last)
		}
	}
	for n := 0; n < max(n1, n2); n++ {
		pd := byPage[n+1]
		if n < min(n1, n2) {
			h.page(n, pd)
			continue
		}
		want := "removed"
		if n1 < n2 {
			want = "added"
		}
		if pd == nil || len(pd.Differences) != 1 || pd.Differences[0].Category != want {
			h.fail("page", "page %d is not reported as %s: %s", n+1, want, show(pd))
		}
	}
	marks := 0
	for _, d := range res.Differences {
		switch d.Type {
		case compare.DifferenceTypeBookmark:
			marks++
			total++
		case compare.DifferenceTypeForm:
			total++
			if res.FormDiff == nil {
				h.fail("form", "a form difference without its details")
			}
		default:
			h.fail("kind", "an unexpected difference %+v", d)
		}
	}
	if want := b2i(h.m1.outline() != h.m2.outline()); marks != want {
		h.fail("bookmarks", "%d bookmark differences, want %d", marks, want)
	}
	h.formDiff(res.FormDiff)
	if res.Summary.TotalDifferences != total {
		h.fail("total", "the total is %d, the differences are %d", res.Summary.TotalDifferences, total)
	}
	if res.Identical != (total == 0) {
		h.fail("identical", "identical is %v with %d differences", res.Identical, total)
	}
}

// reports checks the report in both forms.
func (h *chist) reports(res *compare.ComparisonResult, text, js string, err error) {
	if err != nil {
		h.fail("json", "the report cannot be written as JSON: %v", err)
		return
	}
	var back compare.ComparisonResult
	if err := json.Unmarshal([]byte(js), &back); err != nil || compactJSON([]byte(js)) != mustJSON(res) {
		h.fail("json", "the JSON report is not the result: %v", err)
	}
	if res.Identical {
		if !strings.Contains(text, "IDENTICAL") || strings.Contains(text, "DIFFERENT") {
			h.fail("report", "the report of identical documents is %q", text)
		}
		return
	}
	if !strings.Contains(text, "DIFFERENT") || strings.Contains(text, "IDENTICAL") {
		h.fail("report", "the report of different documents is %q", text)
	}
	if !strings.Contains(text, fmt.Sprint(res.Summary.TotalDifferences)) {
		h.fail("report", "the report does not give the total of %d: %q", res.Summary.TotalDifferences, text)
	}
	for _, pd := range res.PageDiffs {
		if !strings.Contains(text, fmt.Sprintf("Page %d", pd.PageNumber)) {
			h.fail("report", "the report does not mention page %d: %q", pd.PageNumber, text)
		}
	}
	if f := res.FormDiff; f != nil {
		for _, l := range [][]compare.FormFieldChange{f.Added, f.Removed, f.Modified} {
			for _, x := range l {
				if !strings.Contains(text, x.FieldName) {
					h.fail("report", "the report does not mention the field %q: %q", x.FieldName, text)
				}
			}
		}
	}
}

func compareOptions(sc *Scenario) compare.CompareOptions {
	o := compare.DefaultCompareOptions()
	p := sc.P
	if p["plain"] != 0 {
		o = compare.CompareOptions{}
	}
	if p["tol"] != 0 {
		o.TextTolerance = float64(p["tol"]) / 10
	}
	o.TextGranularity = []compare.TextGranularity{"", compare.GranularityElement, compare.GranularityWord, compare.GranularityChar}[p["gran"]&3]
	o.DiffSensitivity = []compare.DiffSensitivity{"", compare.SensitivityStrict, compare.SensitivityNormal, compare.SensitivityRelaxed}[p["sens"]&3]
	o.DetectMoves = p["moves"] != 0
	if p["mtol"] != 0 {
		o.MoveTolerance = float64(p["mtol"])
	}
	o.IgnoreCase = p["case"] != 0
	o.IgnoreWhitespace = p["white"] != 0
	o.IgnoreMetadata = p["nometa"] != 0
	if p["meta"] != 0 {
		o.IgnoreProducer, o.IgnoreDates = p["meta"]&1 != 0, p["meta"]&2 != 0
	}
	return o
}

func execCompare(c *Ctx) {
	sc := c.sc
	c.limit = 400_000_000
	m1, m2, a, b, pa, pb := compareDocs(sc)
	oa, ob := append([]byte(nil), a...), append([]byte(nil), b...)
	o := compareOptions(sc)
	c.Begin()
	defer c.End()
	var d1, d2 *types.ContentDocument
	var e1, e2 error
	if !c.Call("ExtractContent", func() {
		d1, e1 = extract.ExtractContent(a, pa, false)
		d2, e2 = extract.ExtractContent(b, pb, false)
	}) {
		return
	}
	if e1 != nil || e2 != nil || len(d1.Pages) != len(m1.pages) || len(d2.Pages) != len(m2.pages) || d1.Metadata == nil || d2.Metadata == nil {
		c.Fail("extract", "the documents cannot be extracted: %v, %v", e1, e2)
		return
	}
	one := func(at string, a, b, pa, pb []byte, d1, d2 *types.ContentDocument, m1, m2 *cdoc) *compare.ComparisonResult {
		var res *compare.ComparisonResult
		var err, jerr error
		var text, js string
		if !c.Call("ComparePDFs", func() {
			if sc.P["default"] != 0 {
				o = compare.DefaultCompareOptions()
				res, err = compare.ComparePDFs(a, b, pa, pb, false)
			} else {
				res, err = compare.ComparePDFsWithOptions(a, b, pa, pb, o)
			}
			if err == nil {
				text = compare.GenerateReport(res)
				js, jerr = compare.GenerateJSONReport(res)
			}
		}) {
			return nil
		}
		if err != nil || res == nil {
			c.Fail("refused", "%s: %v", at, err)
			return nil
		}
		h := &chist{c: c, o: o, tol: o.TextTolerance, at: at, d1: d1, d2: d2, m1: m1, m2: m2}
		if h.tol == 0 {
			h.tol = 5
		}
		h.result(res)
		h.reports(res, text, js, jerr)
		c.Sig(text, js)
		c.Shape(at, len(res.PageDiffs), res.Summary.TotalDifferences)
		for _, pd := range res.PageDiffs {
			if t := pd.TextDiff; t != nil {
				c.Shape(len(t.Added), len(t.Removed), len(t.Modified))
				c.Count("differences:text", 1)
			}
			c.Count("differences:graphics", b2i(pd.GraphicDiff != nil))
			c.Count("differences:images", b2i(pd.ImageDiff != nil))
			c.Count("differences:annotations", b2i(pd.AnnotationDiff != nil))
		}
		c.Count("differences:form", b2i(res.FormDiff != nil))
		c.Count("differences:metadata", b2i(res.MetadataDiff != nil))
		return res
	}
	r1 := one("first with second", a, b, pa, pb, d1, d2, m1, m2)
	if r1 == nil {
		return
	}
	r2 := one("second with first", b, a, pb, pa, d2, d1, m2, m1)
	if r2 == nil {
		return
	}
	if sameCdocs(sc.Ops) && (sc.P["encA"] != 0) == (sc.P["encB"] != 0 && sc.P["update"] == 0 || sc.P["encA"] != 0 && sc.P["update"] != 0) && (sc.P["verA"] == sc.P["verB"] || sc.P["update"] != 0 || o.IgnoreMetadata) {
		c.Count("same_documents", 1)
		if !r1.Identical || !r2.Identical {
			c.Fail("identical", "the same document in two layouts differs: %s", mustJSON(r1))
		}
	}
	if r := one("first with itself", a, a, pa, pa, d1, d1, m1, m1); r != nil && !r.Identical {
		c.Fail("itself", "a document differs from itself: %s", mustJSON(r))
	}
	if pa != nil && !c.Failed() {
		// without the password there is nothing to compare
		var err error
		c.Call("ComparePDFs", func() { _, err = compare.ComparePDFs(a, b, []byte("wrong"), pb, false) })
		if err == nil {
			c.Fail("password", "a comparison with the wrong password gave a result")
		}
		c.Call("ComparePDFs", func() { _, err = compare.ComparePDFs(b, a, pb, []byte("wrong"), false) })
		if err == nil {
			c.Fail("password", "a comparison with the wrong password gave a result")
		}
	}
	if !bytes.Equal(a, oa) || !bytes.Equal(b, ob) {
		c.Fail("input", "the caller's documents were changed")
	}
	c.res.Nontrivial = true
}

func genCompare(r *Rng, sc *Scenario, i int) {
	sc.P["seedA"], sc.P["seedB"] = int64(r.U64()>>20), int64(r.U64()>>20)
	sc.P["strA"], sc.P["strB"] = int64(r.N(2)), int64(r.N(2))
	sc.P["update"] = int64(b2i(r.P(25)))
	if r.P(20) {
		sc.P["encA"] = int64(1 + r.N(3))
		if r.P(70) {
			sc.P["encB"] = int64(1 + r.N(3))
		}
	}
	sc.P["verA"] = int64(r.N(2))
	sc.P["verB"] = sc.P["verA"]
	if r.P(10) {
		sc.P["verB"] = int64(r.N(2))
	}
	sc.P["default"] = int64(b2i(r.P(30)))
	sc.P["plain"] = int64(b2i(r.P(20)))
	sc.P["tol"] = int64(r.Pick2(0, 0, 11, 73, 291))
	sc.P["gran"] = int64(r.Pick2(0, 0, 0, 1, 2, 3))
	sc.P["sens"] = int64(r.Pick2(0, 0, 1, 2, 3))
	sc.P["moves"] = int64(r.N(2))
	sc.P["mtol"] = int64(r.Pick2(0, 0, 13, 91))
	sc.P["case"] = int64(b2i(r.P(25)))
	sc.P["white"] = int64(b2i(r.P(25)))
	sc.P["nometa"] = int64(b2i(r.P(15)))
	sc.P["meta"] = int64(r.Pick2(0, 4, 5, 6, 7))
	long := strings.Repeat("A long paragraph of a contract. ", 10)[:300]
	words := []string{"alpha", "Alpha", "ALPHA", "al pha", "al\tpha", "al\npha", "Al\r pha", "beta gamma", "beta  gamma", "betagamma", "total: 10", "total: 11", "x", "The quick brown fox jumps over the lazy dog", "The quick brown fox jumps over the lazy hog", "(a) b\\c", "caf\xe9", "a", "0", long, long[:150] + "b" + long[151:], long[:299] + "c"}
	changes := r.Pick2(0, 0, 5, 15, 40)
	k := 0
	frac := func() int { k++; return k%60 + 1 } // positions that are no whole distance apart
	grid := func(n, step int) int64 { return int64(100*step*(1+r.N(n))) + 50 }
	var item func() Op
	var lastText []Op
	item = func() Op {
		switch r.N(11) {
		case 0, 1, 2, 3, 4:
			if len(lastText) > 0 && r.P(20) {
				o := lastText[r.N(len(lastText))]
				o.A = append([]int64(nil), o.A...)
				if r.P(60) {
					o.A[4] += int64(r.Pick2(0, 220, 370, 900)) + int64(frac())
				}
				return o
			}
			o := Op{K: "text", A: []int64{3, int64(r.N(4)), int64(r.Pick2(900, 1200, 1205, 1800)), grid(4, 20) + int64(frac()), grid(6, 15) + int64(frac())}, S: []string{words[r.N(len(words))]}}
			lastText = append(lastText, o)
			return o
		case 5, 6:
			return Op{K: "rect", A: []int64{3, grid(3, 10), grid(3, 10), grid(2, 20), grid(2, 20), int64(r.N(3))}}
		case 7:
			return Op{K: "line", A: []int64{3, grid(3, 10), grid(3, 10), grid(3, 15), grid(3, 15)}}
		case 8, 9:
			return Op{K: "img", A: []int64{3, int64(r.N(3)), int64(r.N(25)), grid(3, 40), grid(3, 40)}}
		default:
			return Op{K: "annot", A: []int64{3, int64(r.N(4)), grid(3, 10), grid(3, 10), grid(2, 20), grid(2, 20)}}
		}
	}
	alter := func(o Op) Op {
		o.A = append([]int64(nil), o.A...)
		o.S = append([]string(nil), o.S...)
		switch o.K {
		case "text":
			switch r.N(9) {
			case 7, 8:
				// the same text, but for white space and case
				i := r.N(len(o.S[0]) + 1)
				o.S[0] = o.S[0][:i] + r.Pick(" ", "\n", "\t", "\r") + o.S[0][i:]
				if r.P(30) {
					o.S[0] = strings.ToUpper(o.S[0])
				}
			case 6:
				// one letter
				b := []byte(o.S[0])
				i := r.N(len(b))
				if b[i] >= 'a' && b[i] < 'z' {
					b[i]++
				}
				o.S[0] = string(b)
			case 0, 1:
				o.S[0] = words[r.N(len(words))]
			case 2:
				o.A[1] = int64(r.N(4))
			case 3:
				o.A[2] += int64(r.Pick2(5, 100))
			default:
				o.A[3+r.N(2)] += int64(r.Pick2(25, 225, 365, 650, 2025, 8025)) + int64(frac())
			}
		case "img":
			j := 1 + r.N(4)
			switch j {
			case 1:
				o.A[1] = int64(r.N(3))
			case 2:
				if r.P(60) {
					o.A[2] += int64(r.N(5)) - o.A[2]%5
				} else {
					o.A[2] = int64(r.N(25))
				}
			default:
				o.A[j] += int64(r.Pick2(50, 1500))
			}
		default:
			j := 1 + r.N(len(o.A)-1)
			if o.K == "annot" && j == 1 || o.K == "rect" && j == 5 {
				o.A[j] = int64(r.N(4))
			} else {
				o.A[j] += int64(r.Pick2(20, 100, 700))
			}
		}
		return o
	}
	emit := func(o Op, alter func(Op) Op) {
		if !r.P(changes) {
			sc.Ops = append(sc.Ops, o)
			return
		}
		with := func(o Op, m int64) Op {
			o.A = append([]int64(nil), o.A...)
			o.A[0] = m
			return o
		}
		switch r.N(4) {
		case 0:
			sc.Ops = append(sc.Ops, with(o, int64(1+r.N(2))))
		default:
			sc.Ops = append(sc.Ops, with(o, 1), with(alter(o), 2))
		}
	}
	if r.P(60) {
		for _, k := range []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate", "Extra"} {
			if r.P(60) {
				emit(Op{K: "info", A: []int64{3}, S: []string{k, words[r.N(12)]}}, func(o Op) Op { o.S = []string{o.S[0], words[r.N(12)]}; return o })
			}
		}
	}
	pages, items := 4, 10
	switch {
	case r.P(4):
		pages = 24
	case r.P(4):
		items = 60
	}
	for p := 1 + r.N(pages); p > 0; p-- {
		emit(Op{K: "page", A: []int64{3, int64(r.Pick2(612, 595, 300)), int64(r.Pick2(792, 842)), int64(r.Pick2(0, 0, 90, 270))}}, func(o Op) Op {
			o.A = append([]int64(nil), o.A...)
			if r.P(50) {
				o.A[3] = int64(r.Pick2(0, 90, 180, 360, -90))
			} else {
				o.A[1+r.N(2)] += int64(r.N(3))
			}
			return o
		})
		for n := r.N(items); n > 0; n-- {
			emit(item(), alter)
		}
	}
	if r.P(40) {
		for n := 1 + r.N(r.Pick2(3, 3, 9)); n > 0; n-- {
			emit(Op{K: "mark", A: []int64{3, int64(r.N(4)), int64(r.N(pages)), int64(r.N(11))}, S: []string{words[r.N(12)]}}, func(o Op) Op {
				o.A = append([]int64(nil), o.A...)
				switch r.N(4) {
				case 0:
					o.A[1] = int64(r.N(4))
				case 1:
					o.A[2] = int64(r.N(pages))
				case 2:
					o.A[3] = int64(r.N(11))
				default:
					o.S = []string{words[r.N(12)]}
				}
				return o
			})
		}
	}
	if r.P(45) {
		for n := 1 + r.N(5); n > 0; n-- {
			emit(Op{K: "field", A: []int64{3}, S: []string{r.Pick("name", "city", "g.a", "g.b", "h.a", "zip"), words[r.N(12)]}}, func(o Op) Op {
				if r.P(30) {
					o.S = []string{"other", o.S[1]}
				} else {
					o.S = []string{o.S[0], words[r.N(12)]}
				}
				return o
			})
		}
	}
	if r.P(30) {
		m := int64(3)
		if r.P(35) {
			m = int64(1 + r.N(2))
		}
		sc.Ops = append(sc.Ops, Op{K: "xfa", A: []int64{m}})
	}
	if sc.P["update"] != 0 {
		sc.P["encB"], sc.P["verB"] = sc.P["encA"], sc.P["verA"]
	}
}

func init() {
	register(&Prop{
		ID: "C13", Level: "exploration",
		Gen: genCompare, Exec: execCompare,
		Quick: 8000, Thorough: 400000,
		Rule: "one evaluation is one pair of generated documents, in layouts of their own or as two revisions of one file, compared in both directions and with itself under one set of options; it counts as non-trivial when the comparisons gave results",
		Real: []string{"core/compare", "content/extract", "forms", "core/parse", "core/encrypt"},
		Stub: []string{"the writer of the input documents (independent)", "map iteration order"},
	})
}

// contentString escapes a string of a page's contents, which stays in one line.
func contentString(s string) string {
	return strings.NewReplacer("\n", "\\n", "\r", "\\r").Replace(escapePlain(s))
}
