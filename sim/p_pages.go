package main

import (
	"bytes"
	"fmt"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/types"
)

// C08: histories of page operations.

// splitDocs cuts the operations of a scenario into those of its documents and the rest.
func splitDocs(ops []Op) (docs [][]Op, rest []Op) {
	in := false
	for _, op := range ops {
		switch op.K {
		case "start":
			docs = append(docs, nil)
			in = true
		case "go":
			in = false
			continue
		}
		if in {
			docs[len(docs)-1] = append(docs[len(docs)-1], op)
		} else {
			rest = append(rest, op)
		}
	}
	return
}

type pdoc struct {
	data []byte
	orig []byte
	m    *pmodel
	enc  *refEnc
	encN int
	pass []byte
	dead bool // no revision survived
}

type phist struct {
	c    *Ctx
	docs []*pdoc
	cur  *pdoc
	man  *manipulate.PDFManipulator
	m    *pmodel
	what string
}

func (h *phist) fail(class, f string, a ...interface{}) {
	h.c.Fail(class, "%s: %s", h.what, fmt.Sprintf(f, a...))
}

// readOut reads a document the library wrote.
func (h *phist) readOut(out []byte, enc *refEnc, encN int) *pmodel {
	if dbgOut != nil {
		dbgOut(out)
	}
	f, err := ReadFile(out)
	if err != nil {
		h.fail("unreadable", "an independent reader cannot read the result: %v\n%q", err, clip(out, 600))
		return nil
	}
	bad := error(nil)
	ivs := map[string]string{}
	if enc != nil {
		stm, _ := enc.methods()
		f.Dec = func(n, g int, b []byte, stream bool) []byte {
			s, _ := f.Objs[n].(*Stm)
			if s != nil && enc.clear(s.D) {
				return b
			}
			if w := weakIV(ivs, stm, b); w != "" && bad == nil {
				bad = fmt.Errorf("stream %d: %s", n, w)
			}
			d, err := refDec(enc.Key, stm, n, g, b)
			if err != nil && bad == nil {
				bad = fmt.Errorf("stream %d: %v", n, err)
			}
			return d
		}
		if e, ok := f.Trailer["Encrypt"].(Ref); !ok || e.N != encN {
			h.fail("encrypt-lost", "Encrypt is %s, want %d 0 R", showVal(f.Trailer["Encrypt"]), encN)
			return nil
		}
		if d, ok := f.Objs[encN].(Dict); !ok || !same(d, enc.dict()) {
			h.fail("encrypt-lost", "the encryption dictionary is now %s", clipS(showVal(f.Objs[encN]), 300))
			return nil
		}
		id, _ := f.Trailer["ID"].(Arr)
		if len(id) == 0 || id[0] != Str(enc.ID) {
			h.fail("encrypt-lost", "the file identifier is %s", showVal(f.Trailer["ID"]))
			return nil
		}
	} else if f.Trailer["Encrypt"] != nil {
		h.fail("encrypt-invented", "the result is encrypted")
		return nil
	}
	if err := f.LoadObjStms(); err != nil {
		h.fail("unreadable", "an independent reader cannot read the object streams: %v", err)
		return nil
	}
	if _, err := f.Pages(); err != nil {
		h.fail("tree", "the page tree of the result is broken: %v\n%q", err, clip(out, 600))
		return nil
	}
	m := &pmodel{objs: map[int]Val{}}
	for n, v := range f.Objs {
		if n == encN && enc != nil {
			continue
		}
		if f.InStm[n] == 0 && enc != nil {
			_, str := enc.methods()
			v = mapStrs(v, func(s string) string {
				if w := weakIV(ivs, str, []byte(s)); w != "" && bad == nil {
					bad = fmt.Errorf("object %d: %s", n, w)
				}
				d, err := refDec(enc.Key, str, n, f.Gens[n], []byte(s))
				if err != nil && bad == nil {
					bad = fmt.Errorf("string %q in object %d: %v", s, n, err)
				}
				return string(d)
			})
		}
		if s, ok := v.(*Stm); ok {
			t := s.D["Type"]
			if t == Name("XRef") || t == Name("ObjStm") {
				if s.D["Type"] == Name("XRef") && showVal(f.Trailer) == "" {
					continue
				}
			}
			raw := s.Raw
			if f.Dec != nil {
				raw = f.Dec(n, f.Gens[n], raw, true)
			}
			v = &Stm{D: s.D, Raw: raw}
		}
		m.objs[n] = v
	}
	if bad != nil {
		h.fail("decrypt", "the result does not decrypt: %v", bad)
		return nil
	}
	if r, ok := f.Trailer["Root"].(Ref); ok {
		m.root = r.N
	}
	if r, ok := f.Trailer["Info"].(Ref); ok {
		m.info = r.N
	}
	m.loadPages()
	return m
}

// comparePages compares the pages of the result with the expected ones.
func (h *phist) comparePages(got, want *pmodel) bool {
	if len(got.list) != len(want.list) {
		h.fail("page-count", "the result has %d pages, want %d", len(got.list), len(want.list))
		return false
	}
	for i := range want.list {
		g, w := got.pageText(i), want.pageText(i)
		if g != w {
			if a, b := got.list[i].d["PZMark"], want.list[i].d["PZMark"]; a != b {
				h.fail("page-order", "page %d is %s, want %s", i+1, showVal(a), showVal(b))
			} else if a, b := got.rotation(got.list[i]), want.rotation(want.list[i]); a != b {
				h.fail("rotation", "page %d is rotated by %d, want %d", i+1, a, b)
			} else {
				h.fail("page", "page %d (%s) differs:\n got %s\nwant %s", i+1, showVal(a), around(g, w), around(w, g))
			}
			return false
		}
	}
	return true
}

// around is the part of a where it starts to differ from b.
func around(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return "..." + a[max(0, i-120):min(len(a), i+250)]
}

// libraryAgrees lets the library read the result.
func (h *phist) libraryAgrees(out, pass []byte, want *pmodel) {
	var doc *types.ContentDocument
	var err error
	if !h.c.Call("ExtractContent", func() { doc, err = extract.ExtractContent(out, pass, false) }) {
		return
	}
	if err != nil {
		h.fail("reopen", "the library cannot read the result: %v", err)
		return
	}
	if len(doc.Pages) != len(want.list) {
		h.fail("reopen", "the library sees %d pages in the result, want %d", len(doc.Pages), len(want.list))
		return
	}
	for i, p := range doc.Pages {
		if g, w := (p.Rotation%360+360)%360, want.rotation(want.list[i]); g != w {
			h.fail("reopen", "the library sees page %d rotated by %d, want %d", i+1, g, w)
			return
		}
	}
}

// checkWhole checks the result of a rebuild against the state of the document.
func (h *phist) checkWhole(out []byte, want *pmodel) *pmodel {
	got := h.readOut(out, h.cur.enc, h.cur.encN)
	if got == nil {
		return nil
	}
	if !h.comparePages(got, want) {
		return nil
	}
	if g, w := got.catalogText(), want.catalogText(); g != w {
		h.fail("catalog", "the catalog or the document information differs:\n got %s\nwant %s", around(g, w), around(w, g))
		return nil
	}
	// nothing else is lost
	tree := map[int]bool{}
	for _, p := range append(append([]*mpage{}, want.list...), got.list...) {
		tree[p.num] = true
	}
	for _, n := range sortedNums(want.objs) {
		v := want.objs[n]
		if d, ok := v.(Dict); ok && (want.get(d["Type"]) == Name("Pages") || want.get(d["Type"]) == Name("Page")) || tree[n] {
			continue
		}
		g := got.objs[n]
		if g == nil && v != nil {
			h.fail("lost", "object %d is not in the result", n)
			return nil
		}
		if s, ok := v.(*Stm); ok {
			gs, ok := g.(*Stm)
			if !ok || !bytes.Equal(gs.Raw, s.Raw) {
				h.fail("lost", "stream %d has changed", n)
				return nil
			}
			v, g = without(s.D, "Length"), without(gs.D, "Length")
		}
		if !same(zeroGen(v), g) {
			h.fail("changed", "object %d is %s, want %s", n, clipS(showVal(g), 300), clipS(showVal(v), 300))
			return nil
		}
	}
	h.libraryAgrees(out, h.cur.pass, want)
	if h.c.Failed() {
		return nil
	}
	return got
}

func zeroGen(v Val) Val {
	switch x := v.(type) {
	case Ref:
		return Ref{x.N, 0}
	case Arr:
		o := make(Arr, len(x))
		for i := range x {
			o[i] = zeroGen(x[i])
		}
		return o
	case Dict:
		o := Dict{}
		for k := range x {
			o[k] = zeroGen(x[k])
		}
		return o
	}
	return v
}

// checkPart checks a document made of pages of others.
func (h *phist) checkPart(out []byte, want *pmodel, only bool) {
	got := h.readOut(out, nil, 0)
	if got == nil || !h.comparePages(got, want) {
		return
	}
	if only {
		// nothing of the other pages goes with it
		reach := map[int]bool{}
		var walk func(n int)
		walk = func(n int) {
			if !reach[n] {
				reach[n] = true
				refsIn(got.objs[n], walk)
			}
		}
		walk(got.root)
		for _, n := range sortedNums(got.objs) {
			if !reach[n] {
				h.fail("leak", "object %d of the result belongs to none of its pages: %s", n, clipS(showVal(got.objs[n]), 200))
				return
			}
			if d, _ := got.objs[n].(Dict); d != nil && got.get(d["Type"]) == Name("Page") && !got.isPage(n) {
				h.fail("leak", "the result has page object %d, which is none of its pages: %s", n, clipS(showVal(d), 200))
				return
			}
		}
	}
	h.libraryAgrees(out, nil, want)
}

func (m *pmodel) isPage(n int) bool {
	for _, p := range m.list {
		if p.num == n {
			return true
		}
	}
	return false
}

func (m *pmodel) clone() *pmodel {
	o := *m
	o.list = nil
	for _, p := range m.list {
		o.list = append(o.list, &mpage{p.num, without(p.d)})
	}
	return &o
}

// pick is the document of the given pages (1-based).
func (m *pmodel) pick(pages []int) *pmodel {
	o := *m
	o.list = nil
	used := map[int]bool{}
	for _, i := range pages {
		p := m.list[i-1]
		n := p.num
		if used[n] {
			n = -len(o.list) - 1 // a copy of its own
		}
		used[n] = true
		o.list = append(o.list, &mpage{n, p.d})
	}
	return &o
}

// fresh reads the current document into a new manipulator.
func (h *phist) load() bool {
	var err error
	if !h.c.Call("NewPDFManipulator", func() { h.man, err = manipulate.NewPDFManipulator(h.cur.data, h.cur.pass, false) }) {
		return false
	}
	if err != nil {
		h.man = nil
		h.fail("open", "NewPDFManipulator: %v", err)
		return false
	}
	h.m = h.cur.m.clone()
	return true
}

func (h *phist) expect(err error, valid bool, call string) bool {
	if valid && err != nil {
		h.fail("refused", "%s: %v", call, err)
	} else if !valid && err == nil {
		h.fail("accepted", "%s reports success", call)
	}
	return valid
}

func (h *phist) rebuild() []byte {
	var out []byte
	var err error
	if !h.c.Call("Rebuild", func() { out, err = h.man.Rebuild() }) {
		return nil
	}
	if err != nil {
		if !h.c.randomFailed() {
			h.fail("refused", "Rebuild: %v", err)
		}
		return nil
	}
	return out
}

func (h *phist) step(op Op) {
	c := h.c
	if h.man == nil && !h.load() {
		return
	}
	n := len(h.m.list)
	pageNo := func(i int) int { // mostly valid
		switch k := op.I(i); {
		case k >= 900:
			return []int{0, -1, n + 1, n + 2, 1 << 30}[k%5]
		default:
			return k%n + 1
		}
	}
	ok := func(p int) bool { return p >= 1 && p <= n }
	var err error
	c.Count("op:"+op.K, 1)
	switch op.K {
	case "rotate":
		p, angle := pageNo(0), op.I(1)
		h.what = fmt.Sprintf("RotatePage(%d, %d)", p, angle)
		if !c.Call("RotatePage", func() { err = h.man.RotatePage(p, angle) }) {
			return
		}
		if h.expect(err, ok(p) && (angle == 90 || angle == 180 || angle == 270), h.what) {
			pg := h.m.list[p-1]
			pg.d["Rotate"] = int64((h.m.rotation(pg) + angle) % 360)
		}
	case "rotateall":
		angle := op.I(1)
		h.what = fmt.Sprintf("RotateAllPages(%d)", angle)
		if !c.Call("RotateAllPages", func() { err = h.man.RotateAllPages(angle) }) {
			return
		}
		if h.expect(err, angle == 90 || angle == 180 || angle == 270, h.what) {
			for _, pg := range h.m.list {
				pg.d["Rotate"] = int64((h.m.rotation(pg) + angle) % 360)
			}
		}
	case "delete":
		p := pageNo(0)
		h.what = fmt.Sprintf("DeletePage(%d) of %d", p, n)
		if !c.Call("DeletePage", func() { err = h.man.DeletePage(p) }) {
			return
		}
		if h.expect(err, ok(p) && n > 1, h.what) {
			h.m.list = append(h.m.list[:p-1:p-1], h.m.list[p:]...)
		}
	case "deletes":
		var ps []int
		valid := true
		set := map[int]bool{}
		for i := range op.A {
			p := pageNo(i)
			ps = append(ps, p)
			valid = valid && ok(p)
			set[p] = true
		}
		valid = valid && len(set) < n
		h.what = fmt.Sprintf("DeletePages(%v) of %d", ps, n)
		arg := append([]int(nil), ps...)
		if !c.Call("DeletePages", func() { err = h.man.DeletePages(arg) }) {
			return
		}
		if fmt.Sprint(arg) != fmt.Sprint(ps) {
			h.fail("argument", "the caller's list is now %v", arg)
		}
		if h.expect(err, valid, h.what) {
			var l []*mpage
			for i, p := range h.m.list {
				if !set[i+1] {
					l = append(l, p)
				}
			}
			h.m.list = l
		}
	case "insert":
		p := pageNo(0)
		if op.I(2) == 1 {
			p = 0
		} else if op.I(2) == 2 {
			p = n + 1
		}
		r := NewRng(uint64(op.I(1)))
		h.m.fresh++
		num := h.m.fresh
		d := Dict{"Type": Name("Page"), "PZMark": Name(fmt.Sprintf("i%d", num)), "MediaBox": box(r), "CropBox": box(r), "Rotate": int64(90 * r.N(4)), "Resources": Dict{}}
		if r.P(50) {
			d["Parent"] = Ref{r.N(50), 0}
		}
		if r.P(50) {
			d["PieceInfo"] = decoyDict(r)
		}
		if r.P(40) {
			d["Contents"] = h.m.list[r.N(n)].d["Contents"]
			if d["Contents"] == nil {
				delete(d, "Contents")
			}
		}
		h.what = fmt.Sprintf("InsertPage(%d) of %d", p, n)
		content := emit(r, d)
		arg := append([]byte(nil), content...)
		if !c.Call("InsertPage", func() { err = h.man.InsertPage(p, num, arg) }) {
			return
		}
		if !bytes.Equal(arg, content) {
			h.fail("argument", "the caller's page content was changed")
		}
		if h.expect(err, p >= 0 && p <= n+1, h.what) {
			i := p - 1
			if p == 0 {
				i = n
			}
			pg := &mpage{num, without(d, "Parent")}
			h.m.list = append(h.m.list[:i:i], append([]*mpage{pg}, h.m.list[i:]...)...)
		}
	case "rebuild":
		h.what += ", Rebuild"
		out := h.rebuild()
		if out == nil || c.Failed() {
			return
		}
		c.Sig("rebuild", len(out))
		got := h.checkWhole(out, h.m)
		if got == nil {
			return
		}
		if op.I(0)%3 == 0 && len(c.sc.RandFail) == 0 {
			// nothing was used up by the first time
			again := h.rebuild()
			if again == nil {
				return
			}
			if h.cur.enc == nil && !bytes.Equal(again, out) {
				h.fail("rebuild-differs", "a second Rebuild gives other bytes: %q and %q", clip(diffAt(out, again), 150), clip(diffAt(again, out), 150))
				return
			}
			if h.checkWhole(again, h.m) == nil {
				return
			}
		}
		if op.I(0)%2 == 0 {
			// go on with the result
			c.Count("reloads", 1)
			h.cur = &pdoc{data: out, orig: append([]byte(nil), out...), m: got, enc: h.cur.enc, encN: h.cur.encN, pass: h.cur.pass}
			for n := range got.objs {
				got.fresh = max(got.fresh, n+1)
			}
			got.fresh = max(got.fresh, h.m.fresh)
			h.docs = append(h.docs, h.cur)
			h.load()
		}
	case "extract", "split", "chunks":
		// they start from the bytes
		m := h.cur.m
		n = len(m.list)
		h.standalone(op, m, pageNo, n)
	case "merge":
		h.merge(op)
	case "switch":
		h.cur = h.docs[op.I(0)%len(h.docs)]
		h.man = nil
	case "wrong":
		if h.cur.enc == nil {
			return
		}
		h.what = "wrong password"
		pass := []byte("definitely not this one")
		c.Call("NewPDFManipulator", func() { _, err = manipulate.NewPDFManipulator(h.cur.data, pass, false) })
		h.expect(err, false, "NewPDFManipulator with a wrong password")
		c.Call("ExtractPages", func() { _, err = manipulate.ExtractPages(h.cur.data, []int{1}, pass, false) })
		h.expect(err, false, "ExtractPages with a wrong password")
	}
}

func (h *phist) standalone(op Op, m *pmodel, pageNo func(int) int, n int) {
	c := h.c
	var err error
	switch op.K {
	case "extract":
		var ps []int
		valid := len(op.A) > 0
		for i := range op.A {
			p := pageNo(i)
			if op.I(i) < 900 {
				p = op.I(i)%n + 1
			}
			ps = append(ps, p)
			valid = valid && p >= 1 && p <= n
		}
		h.what = fmt.Sprintf("ExtractPages(%v) of %d", ps, n)
		var out []byte
		if !c.Call("ExtractPages", func() { out, err = manipulate.ExtractPages(h.cur.data, ps, h.cur.pass, false) }) {
			return
		}
		if h.expect(err, valid, h.what) && err == nil {
			h.checkPart(out, m.pick(ps), true)
			if op.I(0)%4 == 0 {
				var again []byte
				c.Call("ExtractPages", func() { again, _ = manipulate.ExtractPages(h.cur.data, ps, h.cur.pass, false) })
				if !bytes.Equal(out, again) {
					h.fail("differs", "a second call gives other bytes: %q and %q", clip(diffAt(out, again), 150), clip(diffAt(again, out), 150))
				}
			}
		}
	case "split":
		var rs []manipulate.PageRange
		valid := len(op.A) > 1
		for i := 0; i+1 < len(op.A); i += 2 {
			a := op.I(i)%n + 1
			b := a + op.I(i+1)%(n-a+1)
			if op.I(i) >= 900 {
				a, b = []int{0, n + 1, 2, -1, n + 2, 1}[op.I(i)%6], []int{1, n + 1, 1, 1, n, 0}[op.I(i)%6]
				valid = false
			}
			rs = append(rs, manipulate.PageRange{Start: a, End: b})
		}
		h.what = fmt.Sprintf("SplitPDF(%v) of %d", rs, n)
		var outs [][]byte
		if !c.Call("SplitPDF", func() { outs, err = manipulate.SplitPDF(h.cur.data, rs, h.cur.pass, false) }) {
			return
		}
		if h.expect(err, valid, h.what) && err == nil {
			h.parts(outs, rs, m)
		}
	case "chunks":
		k := op.I(0)%(n+2) - b2i(op.I(0) >= 900)
		h.what = fmt.Sprintf("SplitPDFByPageCount(%d) of %d", k, n)
		var outs [][]byte
		if !c.Call("SplitPDFByPageCount", func() { outs, err = manipulate.SplitPDFByPageCount(h.cur.data, k, h.cur.pass, false) }) {
			return
		}
		if h.expect(err, k >= 1, h.what) && err == nil {
			var rs []manipulate.PageRange
			for a := 1; a <= n; a += k {
				rs = append(rs, manipulate.PageRange{Start: a, End: min(n, a+k-1)})
			}
			h.parts(outs, rs, m)
		}
	}
}

func (h *phist) parts(outs [][]byte, rs []manipulate.PageRange, m *pmodel) {
	if len(outs) != len(rs) {
		h.fail("parts", "%d documents, want %d", len(outs), len(rs))
		return
	}
	what := h.what
	for i, r := range rs {
		var ps []int
		for p := r.Start; p <= r.End; p++ {
			ps = append(ps, p)
		}
		h.what = fmt.Sprintf("%s, part %d", what, i+1)
		h.checkPart(outs[i], m.pick(ps), true)
		if h.c.Failed() {
			return
		}
	}
}

func (h *phist) merge(op Op) {
	c := h.c
	var in, pass [][]byte
	want := &pmodel{objs: map[int]Val{}}
	needed := 0
	for i := range op.A {
		d := h.docs[op.I(i)%len(h.docs)]
		in = append(in, d.data)
		pass = append(pass, d.pass)
		if len(d.pass) > 0 {
			needed = i + 1
		}
		// numbers of each document in a range of their own
		base := (i + 1) * 1_000_000
		for n, v := range d.m.objs {
			want.objs[base+n] = shift(v, base)
		}
		for _, p := range d.m.list {
			want.list = append(want.list, &mpage{base + p.num, shift(p.d, base).(Dict)})
		}
	}
	pass = pass[:needed]
	h.what = fmt.Sprintf("MergePDFs of %d", len(in))
	var out []byte
	var err error
	if !c.Call("MergePDFs", func() { out, err = manipulate.MergePDFs(in, pass, false) }) {
		return
	}
	if h.expect(err, len(in) > 0, h.what) && err == nil {
		h.checkPart(out, want, false)
		if op.I(0)%3 == 0 {
			var again []byte
			c.Call("MergePDFs", func() { again, _ = manipulate.MergePDFs(in, pass, false) })
			if !bytes.Equal(out, again) {
				h.fail("differs", "a second call gives other bytes: %q and %q", clip(diffAt(out, again), 150), clip(diffAt(again, out), 150))
			}
		}
	}
}

func shift(v Val, base int) Val {
	switch x := v.(type) {
	case Ref:
		return Ref{x.N + base, x.G}
	case Arr:
		o := make(Arr, len(x))
		for i := range x {
			o[i] = shift(x[i], base)
		}
		return o
	case Dict:
		o := Dict{}
		for k := range x {
			o[k] = shift(x[k], base)
		}
		return o
	case *Stm:
		return &Stm{D: shift(x.D, base).(Dict), Raw: x.Raw}
	}
	return v
}

func execPages(c *Ctx) {
	c.limit = 400_000_000
	ops, rest := splitDocs(c.sc.Ops)
	if len(ops) == 0 {
		return
	}
	h := &phist{c: c}
	for i, o := range ops {
		b := buildPages(o)
		d := &pdoc{data: b.b, enc: b.enc, encN: b.encN}
		s := b.snaps[len(b.snaps)-1]
		if b.enc != nil {
			d.pass = []byte(b.pass[c.sc.P["owner"]])
			if b.pass[1] == "" {
				d.pass = []byte(b.pass[0])
			}
		}
		for _, f := range c.sc.Faults {
			if f.I(2)%len(ops) == i && len(d.orig) == 0 {
				data, rev := tear(b.docBuilder, f)
				c.Count("fault:torn_append:"+f.K, 1)
				if rev == 0 {
					d.dead = true
				} else {
					s = b.snaps[rev-1]
				}
				d.data = data
			}
		}
		d.orig = append([]byte(nil), d.data...)
		d.m = modelOf(b.docBuilder, s)
		if d.dead {
			c.Begin()
			c.Call("NewPDFManipulator", func() { manipulate.NewPDFManipulator(d.data, d.pass, false) })
			c.Call("ExtractPages", func() { manipulate.ExtractPages(d.data, []int{1}, d.pass, false) })
			c.Call("MergePDFs", func() { manipulate.MergePDFs([][]byte{d.data}, [][]byte{d.pass}, false) })
			c.End()
			continue
		}
		h.docs = append(h.docs, d)
		c.Shape("doc", len(d.m.list), len(b.nodes), len(b.snaps), b.enc != nil)
	}
	if len(h.docs) == 0 {
		return
	}
	c.Begin()
	defer c.End()
	h.cur = h.docs[0]
	n := 0
	for _, op := range rest {
		h.step(op)
		c.Shape(op.K, len(op.A))
		n++
		if c.Failed() {
			return
		}
	}
	// what the history leads to
	if h.man != nil {
		h.what += ", at the end"
		if out := h.rebuild(); out != nil {
			h.checkWhole(out, h.m)
		}
	}
	for _, d := range h.docs {
		if !bytes.Equal(d.data, d.orig) {
			c.Fail("input", "the caller's document was changed")
		}
	}
	c.res.Nontrivial = n > 0
	c.Count("page_ops", n)
}

func genPages(r *Rng, sc *Scenario, i int) {
	docs := 1
	if r.P(35) {
		docs = 2 + r.N(2)
	}
	for k := 0; k < docs; k++ {
		ops := genPageOps(r, 7, true)
		if docs > 1 && ops[1].K != "encrypt" && r.P(30) {
			// documents of several owners
			e := genEncrypt(r)
			if r.P(50) {
				e.S[0] = ""
			}
			ops = append([]Op{ops[0], e}, ops[1:]...)
		}
		sc.Ops = append(sc.Ops, ops...)
	}
	sc.Ops = append(sc.Ops, Op{K: "go"})
	sc.P["owner"] = int64(r.N(2))
	pg := func() int64 {
		if r.P(10) {
			return 900 + int64(r.N(20))
		}
		return int64(r.N(50))
	}
	pgs := func(lo, hi int) []int64 {
		var a []int64
		for k := r.In(lo, hi); k > 0; k-- {
			v := int64(r.N(50))
			if r.P(4) {
				v = 900 + int64(r.N(20))
			}
			a = append(a, v)
		}
		return a
	}
	angle := func() int64 { return int64(r.Pick2(90, 180, 270, 90, 270, 180, 90, 0, 45, -90, 360)) }
	if docs > 1 && r.P(60) {
		op := Op{K: "merge"}
		for _, k := range r.Perm(docs) {
			op.A = append(op.A, int64(k+docs*r.N(3)))
		}
		sc.Ops = append(sc.Ops, op)
	}
	for k := 1 + r.N(10); k > 0; k-- {
		switch r.N(14) {
		case 0, 1, 2:
			sc.Ops = append(sc.Ops, Op{K: "rotate", A: []int64{pg(), angle()}})
		case 3:
			sc.Ops = append(sc.Ops, Op{K: "rotateall", A: []int64{0, angle()}})
		case 4, 5:
			sc.Ops = append(sc.Ops, Op{K: "delete", A: []int64{pg()}})
		case 6:
			sc.Ops = append(sc.Ops, Op{K: "deletes", A: pgs(0, 4)})
		case 7, 8:
			sc.Ops = append(sc.Ops, Op{K: "insert", A: []int64{pg(), int64(r.U64() >> 20), int64(r.N(4))}})
		case 9:
			sc.Ops = append(sc.Ops, Op{K: "rebuild", A: []int64{int64(r.N(30))}})
		case 10:
			sc.Ops = append(sc.Ops, Op{K: "extract", A: pgs(0, 5)})
		case 11:
			sc.Ops = append(sc.Ops, Op{K: r.Pick("split", "chunks"), A: pgs(0, 4)})
		case 12:
			sc.Ops = append(sc.Ops, Op{K: "merge", A: pgs(0, 3)})
		default:
			if r.P(50) {
				sc.Ops = append(sc.Ops, Op{K: "wrong"})
			} else {
				sc.Ops = append(sc.Ops, Op{K: "switch", A: []int64{int64(r.N(9))}})
			}
		}
	}
	if r.P(25) {
		f := Fault{K: r.Pick("cut", "cut", "zero", "junk"), A: []int64{int64(r.N(1001)), int64(r.U64() >> 20), int64(r.N(3))}}
		if r.P(35) {
			f.A[0] = -int64(1 + r.N(60))
		}
		sc.Faults = append(sc.Faults, f)
	}
	if r.P(8) {
		sc.RandFail = append(sc.RandFail, r.N(40))

	}
}

func init() {
	register(&Prop{
		ID: "C08", Level: "exploration",
		Gen: genPages, Exec: execPages,
		Quick: 4000, Thorough: 300000,
		Rule: "one evaluation is one simulated history of page operations over one to three generated documents, compared after every rebuild, extraction, split and merge with a reference model of the pages; it counts as non-trivial when at least one operation ran",
		Real: []string{"core/manipulate", "core/parse", "core/write", "core/encrypt", "content/extract"},
		Stub: []string{"the writer of the input documents (independent)", "the disk that loses the tail of the last append", "the random source", "map iteration order"},
	})
}
