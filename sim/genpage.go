package main

import (
	"fmt"
	"sort"
	"strings"
)

// Documents with pages, written by the independent writer: nested page trees with
// inherited attributes, shared and indirect resources, annotations that lead to other
// pages, outlines, incremental changes, encryption.

type pnode struct {
	num    int
	parent *pnode
	kids   []*pnode
	leaf   bool
	attrs  Dict
	dirty  bool
	gone   bool
	inStm  bool
}

func (n *pnode) count() int {
	if n.leaf {
		return 1
	}
	c := 0
	for _, k := range n.kids {
		c += k.count()
	}
	return c
}

// pageAt stands for a reference to one of the pages until the document is written.
type pageAt struct{ i int }

type pput struct {
	n     int
	v     Val
	inStm bool
}

type pbuild struct {
	*docBuilder
	top    *pnode
	nodes  []*pnode
	pages  []*pnode
	cat    *pnode // the catalog
	free   []int
	puts   []pput
	fonts  []int
	marks  int
	pass   [2]string
	full   bool // the root node has all attributes
	images []int

	// rich pages
	rich    bool
	rfonts  []*rfont
	fontOf  map[int]int    // object of a font: its index in rfonts
	plain   map[int][]byte // data of streams before their filters
	richVal map[int]Val

	form *fform
	xfa  *xform

	xhist [][]xpacket // of each revision
	again int         // the next stream replaces this one
	aged  bool        // some numbers have had other objects, so that their generation is not 0
	muts  []int64     // damage to do to the objects of the next revision
}

func (b *pbuild) alloc() int {
	n := b.next
	if len(b.free) > 0 {
		n = b.free[0]
		b.free = b.free[1:]
	} else {
		b.next++
	}
	if b.aged && n%3 == 1 {
		b.gens[n] = 1 + n%4*n%7
	}
	return n
}

// put puts an object; in an object stream, if its generation permits.
func (b *pbuild) put(n int, v Val, inStm bool) { b.docBuilder.put(n, v, inStm && b.gens[n] == 0) }

// current gives the references in a value the generation of what they refer to.
func (b *pbuild) current(v Val) Val {
	switch x := v.(type) {
	case Ref:
		return Ref{x.N, b.gens[x.N]}
	case Arr:
		o := make(Arr, len(x))
		for i := range x {
			o[i] = b.current(x[i])
		}
		return o
	case Dict:
		o := Dict{}
		for _, k := range sortedKeys(x) {
			o[k] = b.current(x[k])
		}
		return o
	}
	return v
}

// add puts a new object.
func (b *pbuild) add(r *Rng, v Val) Ref {
	n := b.alloc()
	b.puts = append(b.puts, pput{n, v, r.P(60)})
	b.richVal[n] = v
	return Ref{n, 0}
}

// maybe makes a value indirect, sometimes.
func (b *pbuild) maybe(r *Rng, pct int, v Val) Val {
	if r.P(pct) {
		return b.add(r, v)
	}
	return v
}

func (b *pbuild) addStream(r *Rng, d Dict, data []byte) Ref {
	n := b.alloc()
	if r.P(50) {
		d["Filter"] = Name("FlateDecode")
		data = deflate(data)
	}
	b.stream(n, d, data, r.P(15))
	return Ref{n, 0}
}

var decoys = []string{
	"/Parent 9 0 R /Kids [1 0 R 2 0 R] /Count 7", "5 0 R", ">> endobj 4 0 obj << /Type /Page", "/Rotate 90", "<</Type/Pages>>", "(", "stream\nendstream", "/MediaBox [0 0 1 1]", "%%EOF", "\\", "/Contents 3 0 R",
	"/Encrypt 5 0 R /ID [(a)(b)]", "trailer\n<</Size 9/Root 9 0 R>>", "startxref\n9\n", "xref\n0 1\n", "/Type /ObjStm /N 1 /First 4", "/Type/XRef", "/XFA 3 0 R /AcroForm", "/Linearized 1",
}

func decoy(r *Rng) Str { return Str(decoys[r.N(len(decoys))]) }

func decoyDict(r *Rng) Dict {
	d := Dict{}
	for i := r.N(4); i >= 0; i-- {
		d[r.Pick("Rotate", "MediaBox", "Type", "Kids", "Parent", "Count", "Resources", "RotateX", "Pages", "Contents", "Annots")] = []Val{int64(90), Name("Page"), Arr{int64(0), int64(0), int64(9), int64(9)}, decoy(r), Dict{"Rotate": int64(270)}, Name("Rotate")}[r.N(6)]
	}
	return d
}

func (b *pbuild) resources(r *Rng) Val {
	if b.rich {
		return b.maybe(r, 50, b.richResources(r))
	}
	d := Dict{}
	fonts := Dict{}
	for i := 1 + r.N(2); i > 0; i-- {
		f := Dict{"Type": Name("Font"), "Subtype": Name("Type1"), "BaseFont": Name(r.Pick("Helvetica", "Courier", "Times-Roman"))}
		if r.P(40) {
			f["Encoding"] = b.maybe(r, 50, Dict{"Type": Name("Encoding"), "Differences": Arr{int64(65), Name("A"), Name("B")}})
		}
		var v Val = f
		if len(b.fonts) > 0 && r.P(50) {
			v = Ref{b.fonts[r.N(len(b.fonts))], 0}
		} else if r.P(80) {
			ref := b.add(r, f)
			b.fonts = append(b.fonts, ref.N)
			v = ref
		}
		fonts[fmt.Sprintf("F%d", i)] = v
	}
	d["Font"] = b.maybe(r, 30, fonts)
	if r.P(40) {
		xo := Dict{}
		if r.P(60) {
			if len(b.images) == 0 || r.P(50) {
				w, h := 1+r.N(4), 1+r.N(4)
				ref := b.addStream(r, Dict{"Type": Name("XObject"), "Subtype": Name("Image"), "Width": int64(w), "Height": int64(h), "BitsPerComponent": int64(8), "ColorSpace": Name("DeviceGray")}, r.Bytes(w*h))
				b.images = append(b.images, ref.N)
			}
			xo["Im1"] = Ref{b.images[r.N(len(b.images))], 0}
		}
		if r.P(40) {
			f := Dict{"Type": Name("XObject"), "Subtype": Name("Form"), "BBox": Arr{int64(0), int64(0), int64(9), int64(9)}}
			if r.P(50) {
				f["Resources"] = b.maybe(r, 50, Dict{"Font": fonts})
			}
			xo["Fm1"] = b.addStream(r, f, []byte("q 0 0 9 9 re f Q"))
		}
		d["XObject"] = b.maybe(r, 30, xo)
	}
	if r.P(30) {
		d["ExtGState"] = Dict{"GS1": b.maybe(r, 50, Dict{"Type": Name("ExtGState"), "CA": Real("0.5"), "Font": Arr{b.anyFont(r), int64(9)}})}
	}
	if r.P(6) {
		// many, and all that each of them has
		cs := Dict{}
		for i := 5 + r.N(14); i > 0; i-- {
			v := Val(Arr{Name("CalGray"), b.maybe(r, 30, Dict{"WhitePoint": Arr{int64(1), int64(1), int64(1)}, "Gamma": int64(i)})})
			cs[fmt.Sprintf("CS%d", i)] = b.maybe(r, 90, v)
		}
		d["ColorSpace"] = b.maybe(r, 50, cs)
	}
	if r.P(30) {
		d["ProcSet"] = b.maybe(r, 30, Arr{Name("PDF"), Name("Text")})
	}
	return b.maybe(r, 50, d)
}

func (b *pbuild) anyFont(r *Rng) Val {
	if len(b.fonts) == 0 {
		return nil
	}
	return Ref{b.fonts[r.N(len(b.fonts))], 0}
}

func box(r *Rng) Arr {
	x := func() Val {
		if r.P(30) {
			return Real(fmt.Sprintf("%d.%d", r.In(100, 900), r.N(100)))
		}
		return int64(r.In(100, 900))
	}
	var lo Val = int64(0)
	if r.P(20) {
		lo = int64(-r.N(50))
	}
	return Arr{lo, int64(0), x(), x()}
}

// inheritable gives a node some of the attributes that its pages inherit.
func (b *pbuild) inheritable(r *Rng, d Dict, pct int) {
	if r.P(pct) {
		d["Resources"] = b.resources(r)
	}
	if r.P(pct) {
		d["MediaBox"] = b.maybe(r, 20, box(r))
	}
	if r.P(pct / 2) {
		d["CropBox"] = b.maybe(r, 20, box(r))
	}
	if r.P(pct) {
		d["Rotate"] = b.maybe(r, 15, int64(r.Pick2(0, 90, 180, 270, -90, 450, 90, 360)))
	}
}

func (b *pbuild) page(r *Rng, node *pnode) {
	b.marks++
	mark := fmt.Sprintf("m%d", b.marks)
	p := &pnode{num: b.alloc(), parent: node, leaf: true, attrs: Dict{"PZMark": Name(mark)}, dirty: true, inStm: r.P(60)}
	b.inheritable(r, p.attrs, 30)
	if !b.full {
		if p.attrs["Resources"] == nil {
			p.attrs["Resources"] = b.resources(r)
		}
		if p.attrs["MediaBox"] == nil {
			p.attrs["MediaBox"] = box(r)
		}
	}
	content := func(s string) Ref {
		return b.addStream(r, Dict{}, []byte(s))
	}
	how := r.N(6)
	if b.rich {
		b.richPage(r, p)
		how = 0
	}
	switch how {
	case 0:
	case 1:
		p.attrs["Contents"] = b.maybe(r, 40, Arr{content("BT /F1 9 Tf 9 9 Td "), content("(" + mark + ") Tj ET")})
	default:
		s := "BT\n/F1 12 Tf\n72 700 Td\n(" + mark + ") Tj\nET\n"
		if r.P(30) {
			s += "% endstream endobj 5 0 R\n"
		}
		p.attrs["Contents"] = content(s)
	}
	if r.P(40) && !b.rich {
		var annots Arr
		for i := 1 + r.N(3); i > 0; i-- {
			annots = append(annots, b.annot(r, p))
		}
		p.attrs["Annots"] = b.maybe(r, 40, annots)
	}
	if r.P(30) {
		p.attrs[r.Pick("PieceInfo", "AA", "PZX")] = b.maybe(r, 30, decoyDict(r))
	}
	if r.P(20) {
		p.attrs["LastModified"] = decoy(r)
	}
	if r.P(15) {
		p.attrs["Thumb"] = b.addStream(r, Dict{"Width": int64(1), "Height": int64(1), "BitsPerComponent": int64(8), "ColorSpace": Name("DeviceGray")}, []byte("x"))
	}
	if r.P(10) {
		p.attrs["PZNext"] = pageAt{r.N(20)}
	}
	i := r.N(len(node.kids) + 1)
	if r.P(60) {
		i = len(node.kids)
	}
	node.kids = append(node.kids[:i], append([]*pnode{p}, node.kids[i:]...)...)
	b.pages = append(b.pages, p)
	for q := node; q != nil; q = q.parent {
		q.dirty = true
	}
}

func (b *pbuild) annot(r *Rng, p *pnode) Val {
	a := Dict{"Type": Name("Annot"), "Rect": Arr{int64(r.N(9)), int64(1), int64(20), int64(30)}}
	self := Ref{p.num, 0}
	switch r.N(5) {
	case 0:
		a["Subtype"] = Name("Link")
		a["Dest"] = Arr{pageAt{r.N(20)}, Name("Fit")}
	case 1:
		a["Subtype"] = Name("Link")
		a["A"] = b.maybe(r, 50, Dict{"S": Name("GoTo"), "D": b.maybe(r, 30, Arr{pageAt{r.N(20)}, Name("XYZ"), nil, int64(5), int64(0)})})
	case 2:
		a["Subtype"] = Name("Widget")
		a["FT"] = Name("Tx")
		a["P"] = self
		f := Dict{"T": decoy(r)}
		fn := b.alloc()
		n := b.alloc()
		a["Parent"] = Ref{fn, 0}
		f["Kids"] = Arr{Ref{n, 0}}
		b.puts = append(b.puts, pput{fn, f, r.P(50)}, pput{n, a, r.P(50)})
		return Ref{n, 0}
	case 3:
		a["Subtype"] = Name("Text")
		a["Contents"] = decoy(r)
		n := b.alloc()
		pop := b.add(r, Dict{"Type": Name("Annot"), "Subtype": Name("Popup"), "Rect": Arr{int64(0), int64(0), int64(1), int64(1)}, "Parent": Ref{n, 0}})
		a["Popup"] = pop
		b.puts = append(b.puts, pput{n, a, r.P(50)})
		return Ref{n, 0}
	default:
		a["Subtype"] = Name("Link")
		a["A"] = Dict{"S": Name("URI"), "URI": decoy(r)}
	}
	if r.P(30) {
		a["P"] = self
	}
	return b.maybe(r, 80, a)
}

// resolve replaces the stand-ins for pages.
func (b *pbuild) resolve(v Val) Val {
	switch x := v.(type) {
	case pageAt:
		if len(b.pages) == 0 {
			return nil
		}
		return Ref{b.pages[x.i%len(b.pages)].num, 0}
	case Arr:
		o := make(Arr, len(x))
		for i := range x {
			o[i] = b.resolve(x[i])
		}
		return o
	case Dict:
		o := Dict{}
		for _, k := range sortedKeys(x) {
			o[k] = b.resolve(x[k])
		}
		return o
	}
	return v
}

func (b *pbuild) flush(seed int64, asStream bool) {
	b.walk(b.top)
	b.flushForm()
	for _, p := range b.puts {
		b.put(p.n, b.resolve(p.v), p.inStm)
	}
	b.puts = nil
	if b.cat.dirty {
		d := without(b.cat.attrs)
		d["Type"] = Name("Catalog")
		d["Pages"] = Ref{b.top.num, 0}
		b.put(b.cat.num, b.resolve(d), b.cat.inStm)
		b.cat.dirty = false
	}
	for _, m := range b.muts {
		b.mutate(NewRng(uint64(m)))
	}
	b.muts = nil
	if b.aged {
		for _, o := range b.pend {
			o.val = b.current(o.val)
		}
	}
	b.commit(seed, asStream)
	var pk []xpacket
	if b.xfa != nil {
		pk = append(pk, b.xfa.pk...)
	} else if b.form != nil {
		if a, ok := b.form.attrs["XFA"].(Arr); ok {
			pk = []xpacket{{"template", a[1].(Ref).N, []byte("<template/>")}}
		}
	}
	b.xhist = append(b.xhist, pk)
}

func (b *pbuild) walk(n *pnode) {
	if n.dirty {
		n.dirty = false
		d := without(n.attrs)
		if n.parent != nil {
			d["Parent"] = Ref{n.parent.num, 0}
		}
		if n.leaf {
			d["Type"] = Name("Page")
		} else {
			d["Type"] = Name("Pages")
			kids := Arr{}
			for _, k := range n.kids {
				kids = append(kids, Ref{k.num, 0})
			}
			d["Kids"] = kids
			if n.inStm && n.num%3 == 0 {
				// the array has an object of its own
				kn := b.alloc()
				b.puts = append(b.puts, pput{kn, kids, true})
				d["Kids"] = Ref{kn, 0}
			}
			d["Count"] = int64(n.count())
		}
		if n.inStm && n.num%5 == 1 {
			// so have the type and the count
			for _, k := range []string{"Type", "Count"} {
				if d[k] != nil {
					kn := b.alloc()
					b.puts = append(b.puts, pput{kn, d[k], true})
					d[k] = Ref{kn, 0}
				}
			}
		}
		b.put(n.num, b.resolve(d), n.inStm)
	}
	for _, k := range n.kids {
		b.walk(k)
	}
}

// buildPages replays the operations of one document.
func buildPages(ops []Op) *pbuild {
	b := &pbuild{docBuilder: newDocBuilder(), top: &pnode{}, fontOf: map[int]int{}, plain: map[int][]byte{}, richVal: map[int]Val{}}
	b.cat = &pnode{attrs: Dict{}, dirty: true, inStm: true}
	b.top = &pnode{attrs: Dict{}, dirty: true, inStm: true}
	started := false
	start := func(op Op) {
		if started {
			return
		}
		started = true
		r := NewRng(uint64(op.I(0)) + 5)
		b.rich = op.I(2) != 0
		for _, n := range r.Perm(12 + r.N(25)) {
			b.free = append(b.free, n+1)
			b.next = max(b.next, n+2)
		}
		b.ver = r.Pick("1.4", "1.7", "2.0")
		b.junk = r.P(30)
		b.aged = r.P(20)
		b.top.num, b.cat.num = b.alloc(), b.alloc()
		b.root = b.cat.num
		b.nodes = []*pnode{b.top}
		if r.P(50) {
			b.id = r.Bytes(16)
		}
		b.full = r.P(50)
		b.inheritable(r, b.top.attrs, 40)
		if b.full {
			if b.top.attrs["Resources"] == nil {
				b.top.attrs["Resources"] = b.resources(r)
			}
			if b.top.attrs["MediaBox"] == nil {
				b.top.attrs["MediaBox"] = box(r)
			}
		}
	}
	dirtyUp := func(n *pnode) {
		for ; n != nil; n = n.parent {
			n.dirty = true
		}
	}
	pending := true
	for _, op := range ops {
		r := NewRng(uint64(op.I(1)) + 11)
		if op.K != "start" {
			start(Op{})
		}
		switch op.K {
		case "start":
			start(op)
		case "encrypt":
			if b.enc != nil || len(b.snaps) > 0 {
				continue
			}
			v := op.I(0)
			e := newRefEnc(v, map[int]int{1: 2, 2: 3, 4: 4}[v], map[int]int{1: 5, 2: op.I(3), 4: 16}[v],
				[]byte(op.Str(0)), []byte(op.Str(1)), int32(op.I(1)), op.I(2) == 0, NewRng(uint64(op.I(4))).Bytes(16), NewRng(uint64(op.I(4))))
			e.cf = op.I(6)
			b.encN = b.alloc()
			b.gens[b.encN] = 0
			b.enc, b.id = e, e.ID
			b.pass = [2]string{op.Str(0), op.Str(1)}
			b.put(b.encN, e.dict(), false)
		case "cat":
			b.catalog(r)
		case "node":
			parent := b.nodes[op.I(0)%len(b.nodes)]
			n := &pnode{num: b.alloc(), parent: parent, attrs: Dict{}, inStm: r.P(70)}
			b.inheritable(r, n.attrs, 30)
			if r.P(15) {
				n.attrs["PZNode"] = decoyDict(r)
			}
			parent.kids = append(parent.kids, n)
			b.nodes = append(b.nodes, n)
			dirtyUp(n)
			pending = true
		case "form":
			b.startForm(r)
			pending = true
		case "field":
			b.field(r, op.I(0))
			pending = true
		case "xfa":
			b.startXFA(r, op.I(0))
			pending = true
		case "mutate":
			b.muts = append(b.muts, int64(op.I(1)))
		case "xset":
			b.setPacket(r, op.I(0))
			pending = pending || b.xfa != nil
		case "fset":
			b.setField(r, op.I(0))
			pending = pending || b.form != nil
		case "page":
			b.page(r, b.nodes[op.I(0)%len(b.nodes)])
			pending = true
		case "touch":
			if len(b.pages) == 0 {
				continue
			}
			p := b.pages[op.I(0)%len(b.pages)]
			p.dirty = true
			p.attrs["PZTouched"] = int64(r.N(1000))
			if r.P(50) {
				p.attrs["Rotate"] = int64(r.Pick2(0, 90, 180, 270))
			}
			if r.P(30) {
				delete(p.attrs, "Annots")
			}
			if b.rich && r.P(60) {
				b.richPage(r, p)
			}
			pending = true
		case "drop":
			if len(b.pages) < 2 {
				continue
			}
			i := op.I(0) % len(b.pages)
			p := b.pages[i]
			b.pages = append(b.pages[:i:i], b.pages[i+1:]...)
			for k, q := range p.parent.kids {
				if q == p {
					p.parent.kids = append(p.parent.kids[:k:k], p.parent.kids[k+1:]...)
					break
				}
			}
			dirtyUp(p.parent)
			if r.P(40) {
				b.docBuilder.free(p.num)
			}
			pending = true
		case "commit":
			if len(b.pages) > 0 && pending {
				b.flush(int64(op.I(0)), op.I(1) != 0)
				pending = false
			}
		}
	}
	start(Op{})
	if len(b.pages) == 0 {
		b.page(NewRng(1), b.top)
		pending = true
	}
	if pending {
		b.flush(1, false)
	}
	return b
}

// catalog adds what a catalog and a document have besides pages.
func (b *pbuild) catalog(r *Rng) {
	if b.rich {
		b.richCatalog(r)
		return
	}
	c := b.cat.attrs
	b.cat.dirty = true
	b.cat.inStm = r.P(60)
	if r.P(50) && c["Outlines"] == nil {
		on := b.alloc()
		n := 1 + r.N(3)
		nums := make([]int, n)
		for i := range nums {
			nums[i] = b.alloc()
		}
		for i := range nums {
			d := Dict{"Title": decoy(r), "Parent": Ref{on, 0}, "Dest": Arr{pageAt{r.N(20)}, Name("Fit")}}
			if i > 0 {
				d["Prev"] = Ref{nums[i-1], 0}
			}
			if i+1 < n {
				d["Next"] = Ref{nums[i+1], 0}
			}
			b.puts = append(b.puts, pput{nums[i], d, r.P(60)})
		}
		b.puts = append(b.puts, pput{on, Dict{"Type": Name("Outlines"), "First": Ref{nums[0], 0}, "Last": Ref{nums[n-1], 0}, "Count": int64(n)}, r.P(60)})
		c["Outlines"] = Ref{on, 0}
	}
	if r.P(30) {
		c["Names"] = b.maybe(r, 50, Dict{"Dests": Dict{"Names": Arr{decoy(r), Arr{pageAt{r.N(9)}, Name("Fit")}}}})
	}
	if r.P(30) {
		c["PZX"] = decoyDict(r)
	}
	if r.P(30) {
		c["OpenAction"] = Arr{pageAt{r.N(9)}, Name("Fit")}
	}
	if r.P(30) {
		n := b.alloc()
		b.stream(n, Dict{"Type": Name("Metadata"), "Subtype": Name("XML")}, []byte("<x:xmpmeta>5 0 R</x:xmpmeta>"), false)
		c["Metadata"] = Ref{n, 0}
	}
	if r.P(60) && b.info == 0 {
		ref := b.add(r, Dict{"Title": decoy(r), "Author": Str("a\xe4"), "Custom": decoy(r)})
		b.info = ref.N
	}
}

// mpage is a page of the model: its dictionary with what it inherits.
type mpage struct {
	num int
	d   Dict
}

// pmodel is the state of a document with pages.
type pmodel struct {
	objs       map[int]Val
	root, info int
	list       []*mpage
	fresh      int
}

func (m *pmodel) get(v Val) Val {
	for i := 0; i < 20; i++ {
		r, ok := v.(Ref)
		if !ok {
			return v
		}
		v = m.objs[r.N]
	}
	return nil
}

func (m *pmodel) dict(v Val) Dict {
	switch x := m.get(v).(type) {
	case Dict:
		return x
	case *Stm:
		return x.D
	}
	return nil
}

var inheritableKeys = []string{"Resources", "MediaBox", "CropBox", "Rotate"}

// loadPages collects the pages with what they inherit.
func (m *pmodel) loadPages() {
	var walk func(r Ref, up []Dict)
	walk = func(r Ref, up []Dict) {
		d := m.dict(r)
		if m.get(d["Type"]) == Name("Page") {
			p := without(d, "Parent")
			for _, k := range inheritableKeys {
				for i := len(up) - 1; i >= 0 && p[k] == nil; i-- {
					if v := up[i][k]; v != nil {
						p[k] = v
					}
				}
			}
			m.list = append(m.list, &mpage{r.N, p})
			return
		}
		kids, _ := m.get(d["Kids"]).(Arr)
		for _, k := range kids {
			if kr, ok := k.(Ref); ok && len(up) < 50 {
				walk(kr, append(up[:len(up):len(up)], d))
			}
		}
	}
	if r, ok := m.dict(Ref{m.root, 0})["Pages"].(Ref); ok {
		walk(r, nil)
	}
}

// modelOf is the model of a document as it was after a revision.
func modelOf(d *docBuilder, s snapshot) *pmodel {
	m := &pmodel{objs: map[int]Val{}, root: s.root, info: s.info}
	for n, o := range s.live {
		if o.aux || n == d.encN {
			continue
		}
		if o.stm {
			m.objs[n] = &Stm{D: o.val.(Dict), Raw: o.data}
		} else {
			m.objs[n] = o.val
		}
		m.fresh = max(m.fresh, n)
	}
	m.fresh = max(m.fresh, s.size) + 1
	m.loadPages()
	return m
}

// canonical text of a value: references are followed, and pages are named by their
// place, so that two documents with different numbers compare equal.
type canon struct {
	m    *pmodel
	idx  map[int]int
	seen map[int]int
	b    strings.Builder
}

func newCanon(m *pmodel) *canon {
	c := &canon{m: m, idx: map[int]int{}, seen: map[int]int{}}
	for i, p := range m.list {
		if _, ok := c.idx[p.num]; !ok {
			c.idx[p.num] = i
		}
	}
	return c
}

// null reports whether a value counts as null.
func (c *canon) null(v Val) bool {
	if v == nil {
		return true
	}
	if r, ok := v.(Ref); ok {
		if _, ok := c.idx[r.N]; ok {
			return false
		}
		t := c.m.objs[r.N]
		if d, ok := t.(Dict); ok && (c.m.get(d["Type"]) == Name("Page") || c.m.get(d["Type"]) == Name("Pages")) {
			return true
		}
		return t == nil
	}
	return false
}

func (c *canon) write(v Val) {
	switch x := v.(type) {
	case Ref:
		if i, ok := c.idx[x.N]; ok {
			fmt.Fprintf(&c.b, "page#%d", i)
			return
		}
		if c.null(v) {
			c.b.WriteString("null")
			return
		}
		if i, ok := c.seen[x.N]; ok {
			fmt.Fprintf(&c.b, "@%d", i)
			return
		}
		c.seen[x.N] = len(c.seen)
		t := c.m.objs[x.N]
		if r, ok := t.(Ref); ok && r.N == x.N {
			c.b.WriteString("loop")
			return
		}
		c.b.WriteString("&")
		c.write(t)
	case Arr:
		c.b.WriteString("[")
		for _, e := range x {
			c.write(e)
			c.b.WriteString(" ")
		}
		c.b.WriteString("]")
	case Dict:
		c.b.WriteString("<<")
		for _, k := range sortedKeys(x) {
			if c.null(x[k]) {
				continue
			}
			c.b.WriteString("/" + k + " ")
			c.write(x[k])
			c.b.WriteString(" ")
		}
		c.b.WriteString(">>")
	case *Stm:
		c.write(without(x.D, "Length"))
		fmt.Fprintf(&c.b, "stream(%x)", x.Raw)
	default:
		c.b.WriteString(showVal(v))
	}
}

func (m *pmodel) rotation(p *mpage) int {
	n, _ := m.get(p.d["Rotate"]).(int64)
	return int((n%360 + 360) % 360)
}

// pageText is the canonical text of a page; references to pages count from base.
func (m *pmodel) pageText(i int) string {
	c := newCanon(m)
	p := m.list[i]
	d := without(p.d, "Rotate", "Parent")
	if n := m.rotation(p); n != 0 {
		d["Rotate"] = int64(n)
	}
	c.write(d)
	return c.b.String()
}

// catalogText is the canonical text of the catalog without its pages.
func (m *pmodel) catalogText() string {
	c := newCanon(m)
	c.write(without(m.dict(Ref{m.root, 0}), "Pages"))
	if m.info > 0 {
		c.b.WriteString(" INFO ")
		c.write(m.objs[m.info])
	}
	return c.b.String()
}

// refsIn collects the objects a value leads to.
func refsIn(v Val, f func(n int)) {
	switch x := v.(type) {
	case Ref:
		f(x.N)
	case Arr:
		for _, e := range x {
			refsIn(e, f)
		}
	case Dict:
		for _, e := range x {
			refsIn(e, f)
		}
	case *Stm:
		refsIn(x.D, f)
	}
}

func genEncrypt(r *Rng) Op {
	v := r.Pick2(1, 2, 2, 4, 4, 4)
	return Op{K: "encrypt", A: []int64{int64(v), int64(int32(r.U64())), int64(r.N(2)), int64(r.Pick2(5, 8, 10, 16)), int64(r.N(1 << 30)), 0, int64(r.N(6))}, S: []string{passwords[r.N(len(passwords))], passwords[r.N(len(passwords))]}}
}

// genPageOps makes the operations of one document with pages.
func genPageOps(r *Rng, maxPages int, encrypt bool) []Op {
	seed := func() int64 { return int64(r.U64() >> 20) }
	ops := []Op{{K: "start", A: []int64{seed()}}}
	if encrypt && r.P(25) {
		ops = append(ops, genEncrypt(r))
	}
	if r.P(60) {
		ops = append(ops, Op{K: "cat", A: []int64{0, seed()}})
	}
	nodes := r.N(5)
	if r.P(30) {
		nodes = 0
	}
	for i := 0; i < nodes; i++ {
		ops = append(ops, Op{K: "node", A: []int64{int64(r.N(i + 1)), seed()}})
	}
	for i := 1 + r.N(maxPages); i > 0; i-- {
		ops = append(ops, Op{K: "page", A: []int64{int64(r.N(9)), seed()}})
	}
	asStream := r.P(50)
	mixed := r.P(40)
	commit := func() {
		if mixed {
			asStream = r.P(50)
		}
		ops = append(ops, Op{K: "commit", A: []int64{seed(), int64(b2i(asStream))}})
	}
	commit()
	if r.P(35) {
		for k := 1 + r.N(3); k > 0; k-- {
			for i := 1 + r.N(3); i > 0; i-- {
				switch r.N(5) {
				case 0:
					ops = append(ops, Op{K: "page", A: []int64{int64(r.N(9)), seed()}})
				case 1:
					ops = append(ops, Op{K: "drop", A: []int64{int64(r.N(20)), seed()}})
				case 2:
					ops = append(ops, Op{K: "cat", A: []int64{0, seed()}})
				default:
					ops = append(ops, Op{K: "touch", A: []int64{int64(r.N(20)), seed()}})
				}
			}
			commit()
		}
	}
	return ops
}

func sortedNums(m map[int]Val) []int {
	var ns []int
	for n := range m {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	return ns
}
