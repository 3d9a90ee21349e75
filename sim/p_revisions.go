package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/types"
)

// C05: documents with a history of incremental updates, cut by crashes.

// buildDoc replays the document operations of a scenario.
func buildDoc(ops []Op) *docBuilder {
	d := newDocBuilder()
	for _, op := range ops {
		switch op.K {
		case "put", "stm", "free", "root":
			if op.I(0) < 1 {
				// minimised too far: numbers start at 1
				op.A = append([]int64{1}, op.A[min(1, len(op.A)):]...)
			}
		}
		switch op.K {
		case "ver":
			d.ver = op.Str(0)
		case "id":
			d.id = op.B
		case "junk":
			d.junk = true
		case "put":
			v, err := parseVal(op.B)
			if err != nil {
				panic("bad scenario: " + err.Error())
			}
			d.put(op.I(0), v, op.I(1) != 0)
		case "stm":
			v, err := parseVal(op.B)
			if err != nil {
				panic("bad scenario: " + err.Error())
			}
			d.stream(op.I(0), v.(Dict), []byte(op.Str(0)), op.I(1) != 0)
		case "free":
			if n := op.I(0); n != d.root {
				d.free(n)
			}
		case "root":
			d.root = op.I(0)
		case "info":
			d.info = op.I(0)
		case "encrypt":
			e := newRefEnc(op.I(0), map[int]int{1: 2, 2: 3, 4: 4}[op.I(0)], map[int]int{1: 5, 2: op.I(3), 4: 16}[op.I(0)],
				[]byte(op.Str(0)), []byte(op.Str(1)), int32(op.I(1)), op.I(2) == 0, NewRng(uint64(op.I(4))).Bytes(16), NewRng(uint64(op.I(4))))
			e.cf = op.I(6)
			d.enc, d.id, d.encN = e, e.ID, op.I(5)
			d.tamper(op)
			d.put(d.encN, e.dict(), false)
		case "commit":
			have := d.live[d.root] != nil
			for _, o := range d.pend {
				have = have || o.n == d.root
			}
			if !have {
				// minimised away: a catalog is needed
				if d.root == 0 {
					d.root = d.next
				}
				d.put(d.root, Dict{"Type": Name("Catalog")}, false)
			}
			d.commit(int64(op.I(0)), op.I(1) != 0)
		}
	}
	return d
}

// genRevisions makes the operations of a document with a history.
func genRevisions(r *Rng, sc *Scenario, maxRev, first int) {
	add := func(o Op) { sc.Ops = append(sc.Ops, o) }
	add(Op{K: "ver", S: []string{r.Pick("1.4", "1.5", "1.7", "2.0")}})
	if r.P(50) {
		add(Op{K: "id", B: r.Bytes(16)})
	}
	if r.P(30) {
		add(Op{K: "junk"})
	}
	next := first
	live := map[int]bool{}
	var freed []int
	alloc := func() int {
		if len(freed) > 0 && r.P(40) {
			i := r.N(len(freed))
			n := freed[i]
			freed = append(freed[:i], freed[i+1:]...)
			return n
		}
		if r.P(6) {
			next += r.N(9)
		}
		next++
		return next - 1
	}
	lives := func() []int {
		var ns []int
		for n := range live {
			ns = append(ns, n)
		}
		sort.Ints(ns)
		return ns
	}
	put := func(n int) {
		refs := lives()
		if r.P(30) {
			d := genDict(r, 2, refs)
			delete(d, "Type")
			delete(d, "Filter")
			delete(d, "DecodeParms")
			delete(d, "Length")
			data := genData(r)
			if r.P(40) {
				d["Filter"] = Name("FlateDecode")
				data = deflate(data)
				if r.P(10) {
					d["Filter"] = Arr{Name("Crypt"), Name("FlateDecode")}
				}
			} else if r.P(5) {
				d["Filter"], d["DecodeParms"] = Name("Crypt"), Dict{"Name": Name("Identity")}
			}
			add(Op{K: "stm", A: []int64{int64(n), int64(b2i(r.P(20)))}, B: emit(r, d), S: []string{string(data)}})
		} else {
			add(Op{K: "put", A: []int64{int64(n), int64(b2i(r.P(60)))}, B: emit(r, genVal(r, 3, refs))})
		}
		live[n] = true
	}
	root := alloc()
	add(Op{K: "put", A: []int64{int64(root), int64(b2i(r.P(50)))}, B: []byte("<</Type/Catalog>>")})
	add(Op{K: "root", A: []int64{int64(root)}})
	live[root] = true
	if r.P(40) {
		n := alloc()
		add(Op{K: "put", A: []int64{int64(n), int64(b2i(r.P(50)))}, B: []byte("<</Title (x)>>")})
		add(Op{K: "info", A: []int64{int64(n)}})
		live[n] = true
	}
	revs := 1 + r.N(maxRev)
	long := maxRev > 3 && r.P(4)
	if long {
		revs = 10 + r.N(60)
	}
	mixed := r.P(50)
	asStream := r.P(50)
	for k := 1; k <= revs; k++ {
		m := 1 + r.N(8)
		if long {
			m = 1 + r.N(2)
		} else if r.P(8) {
			m = 30 + r.N(300)
		}
		if k > 1 && r.P(8) {
			m = 0
		}
		for i := 0; i < m; i++ {
			ns := lives()
			switch {
			case k > 1 && r.P(40):
				put(ns[r.N(len(ns))])
			case k > 1 && r.P(25):
				n := ns[r.N(len(ns))]
				if n != root {
					add(Op{K: "free", A: []int64{int64(n)}})
					delete(live, n)
					freed = append(freed, n)
				}
			default:
				put(alloc())
			}
		}
		if mixed {
			asStream = r.P(50)
		}
		// the containers and cross-reference streams take numbers too
		add(Op{K: "commit", A: []int64{int64(r.U64() >> 20), int64(b2i(asStream))}})
		if long {
			next += 5
		} else {
			next += 500
		}
		if r.P(10) && k < revs {
			n := alloc()
			add(Op{K: "put", A: []int64{int64(n), 0}, B: []byte("<</Type/Catalog/New true>>")})
			add(Op{K: "root", A: []int64{int64(n)}})
			root = n
			live[n] = true
		}
	}
	if r.P(75) {
		f := Fault{K: r.Pick("cut", "cut", "cut", "zero", "junk"), A: []int64{int64(r.N(1001)), int64(r.U64() >> 20)}}
		if r.P(35) {
			// close to the end, where the section, the trailer and the marker are
			f.A[0] = -int64(1 + r.N(60))
		}
		sc.Faults = append(sc.Faults, f)
	}
}

// tear applies a crash during the last append: it returns what is on the disk, and
// which revision survives.
func tear(d *docBuilder, f Fault) ([]byte, int) {
	k := len(d.snaps)
	last := d.snaps[k-1]
	start := 0
	if k > 1 {
		start = d.snaps[k-2].end
	}
	n := len(d.b) - start
	var cut int
	if f.I(0) < 0 {
		cut = max(start, len(d.b)+f.I(0))
	} else {
		cut = start + n*f.I(0)/1000
	}
	data := append([]byte(nil), d.b[:cut]...)
	switch f.K {
	case "zero":
		data = append(data, make([]byte, len(d.b)-cut)...)
	case "junk":
		j := NewRng(uint64(f.I(1))).Bytes(len(d.b) - cut)
		for i := range j {
			if j[i] == '%' {
				j[i] = 'x'
			}
			if j[i] == d.b[cut+i] {
				j[i] ^= 0x80
			}
		}
		data = append(data, j...)
	}
	if cut >= last.eof {
		return data, k
	}
	return data, k - 1
}

// checkRevision checks that data is seen as the state s, the rev-th revision.
func checkRevision(c *Ctx, what string, data []byte, s snapshot, rev int, exact bool, pass []byte) {
	fail := func(class, f string, a ...interface{}) {
		c.Fail(class, "%s: %s\n(%d bytes, revision %d; the file ends in %q)", what, fmt.Sprintf(f, a...), len(data), rev, data[max(0, len(data)-300):])
	}
	for _, bp := range []bool{false, true} {
		var pdf *parse.PDF
		var err error
		in := append([]byte(nil), data...)
		if !c.Call("OpenWithOptions", func() { pdf, err = parse.OpenWithOptions(in, parse.ParseOptions{BytePerfect: bp, Password: pass}) }) {
			return
		}
		mode := map[bool]string{false: "", true: " (byte-perfect)"}[bp]
		if err != nil {
			fail("open"+mode, "Open%s: %v", mode, err)
			return
		}
		if n := pdf.RevisionCount(); n != rev {
			fail("count"+mode, "RevisionCount%s is %d", mode, n)
		}
		t := pdf.Trailer()
		if t == nil {
			fail("trailer"+mode, "no trailer%s", mode)
			return
		}
		if w := fmt.Sprintf("%d %d R", s.root, s.rg); normRef(t.RootRef) != w {
			fail("trailer"+mode, "RootRef%s is %q, want %q", mode, t.RootRef, w)
		}
		if w := fmt.Sprintf("%d %d R", s.info, infoGen(s)); s.info > 0 && normRef(t.InfoRef) != w || s.info == 0 && t.InfoRef != "" {
			fail("trailer"+mode, "InfoRef%s is %q, want object %d", mode, t.InfoRef, s.info)
		}
		if t.Size != s.size {
			fail("trailer"+mode, "Size%s is %d, want %d", mode, t.Size, s.size)
		}
		var ns []int
		for n := range s.live {
			ns = append(ns, n)
		}
		sort.Ints(ns)
		var objs []int
		c.Call("Objects", func() { objs = pdf.Objects() })
		objs = append([]int(nil), objs...)
		sort.Ints(objs)
		if fmt.Sprint(objs) != fmt.Sprint(ns) || pdf.ObjectCount() != len(ns) {
			fail("objects"+mode, "Objects%s is %v (count %d), want %v", mode, objs, pdf.ObjectCount(), ns)
		}
		for n := range s.gone {
			if pdf.HasObject(n) {
				fail("freed"+mode, "object %d was deleted and HasObject%s is true", n, mode)
			}
			o, err := getObj(c, pdf, n)
			if err != nil && !types.IsNotFound(err) {
				fail("freed"+mode, "object %d was deleted, and GetObject%s says %v", n, mode, err)
			}
			if err == nil {
				fail("freed"+mode, "object %d was deleted and GetObject%s returns %q", n, mode, clip(o, 100))
			}
		}
		for _, n := range ns {
			o := s.live[n]
			if !pdf.HasObject(n) {
				continue
			}
			b, err := getObj(c, pdf, n)
			if err != nil {
				fail("get"+mode, "GetObject%s(%d): %v", mode, n, err)
				continue
			}
			cmpObj(o, b, "GetObject"+mode, fail)
			if bp && o.inStm == 0 {
				ro, err := pdf.GetRawObject(n)
				if err != nil {
					fail("raw", "GetRawObject(%d): %v", n, err)
				} else if o.end > 0 && !bytes.Equal(ro.RawBytes, data[o.off:o.end]) {
					fail("raw", "GetRawObject(%d) is %q, the file has %q", n, clip(ro.RawBytes, 200), clip(data[o.off:o.end], 200))
				} else if ro.Number != n || ro.Generation != o.g {
					fail("raw", "GetRawObject(%d) says %d %d, want generation %d", n, ro.Number, ro.Generation, o.g)
				}
			}
			if c.Failed() {
				return
			}
		}
		if bp {
			var b []byte
			c.Call("Bytes", func() { b = pdf.Bytes() })
			if !bytes.Equal(b, data) {
				fail("bytes", "Bytes() differs from the input")
			}
		}
		if !bytes.Equal(in, data) {
			fail("input", "reading changed the caller's bytes")
		}
		if c.Failed() {
			return
		}
	}
	if pass == nil {
		// the functions on bytes agree
		for n, o := range s.live {
			if n%3 == rev%3 {
				var b []byte
				var err error
				if !c.Call("parse.GetObject", func() { b, err = parse.GetObject(data, n, nil, false) }) {
					return
				}
				if err != nil {
					fail("get-bytes", "parse.GetObject(%d): %v", n, err)
				} else {
					cmpObj(o, b, "parse.GetObject", fail)
				}
			}
		}
	}
}

// checkDocument checks the document model: every revision with what it added.
func checkDocument(c *Ctx, d *docBuilder, k int) {
	data := d.b[:d.snaps[k-1].end]
	fail := func(f string, a ...interface{}) {
		c.Fail("model", "document model: %s\n(%d bytes, %d revisions)", fmt.Sprintf(f, a...), len(data), k)
	}
	in := append([]byte(nil), data...)
	var doc *parse.PDFDocument
	var err error
	if !c.Call("ParsePDFDocument", func() { doc, err = parse.ParsePDFDocument(in) }) {
		return
	}
	if err != nil {
		fail("%v", err)
		return
	}
	if !bytes.Equal(doc.Bytes(), data) {
		fail("Bytes differs from the input")
	}
	if doc.RevisionCount() != k || len(doc.Revisions) != k || parse.CountRevisions(in) != k {
		fail("%d revisions", len(doc.Revisions))
		return
	}
	if v := fmt.Sprintf("%d.%d", doc.Header.MajorVersion, doc.Header.MinorVersion); v != d.ver || doc.Header.Version != d.ver || !bytes.HasPrefix(data, doc.Header.RawBytes) {
		fail("version %q (%s), want %q", doc.Header.Version, v, d.ver)
	}
	if doc.LatestRevision() != doc.Revisions[k-1] {
		fail("LatestRevision is another one")
	}
	ends := parse.GetRevisionBoundaries(in)
	latest := map[int]*dobj{}
	begin := 0
	for i, s := range d.snaps[:k] {
		rev := doc.Revisions[i]
		at := fmt.Sprintf("revision %d", i+1)
		end := s.end
		for end < len(data) && (data[end] == '\r' || data[end] == '\n') {
			end++
		}
		if rev.Number != i+1 || rev.StartXRef != int64(s.off) || rev.EOFOffset != int64(s.eof-5) || rev.EndOffset != int64(end) || len(ends) != k || ends[i] != s.eof {
			fail("%s: number %d, startxref %d, %%%%EOF at %d, end %d, boundaries %v; want %d, %d, %d, %d", at, rev.Number, rev.StartXRef, rev.EOFOffset, rev.EndOffset, ends, i+1, s.off, s.eof-5, end)
			return
		}
		if rev.XRef == nil || rev.Trailer == nil {
			fail("%s has no cross-reference section or no trailer", at)
			return
		}
		if (rev.XRef.Type == parse.XRefTypeStream) != s.stm || rev.XRef.Offset != int64(s.off) || !bytes.HasPrefix(data[s.off:], rev.XRef.Bytes()) || len(rev.XRef.Bytes()) == 0 {
			fail("%s: the section is of type %v, at %d, with bytes %q", at, rev.XRef.Type, rev.XRef.Offset, clip(rev.XRef.Bytes(), 100))
		}
		if len(rev.XRef.Entries) != len(s.ent) {
			fail("%s: the section has %d entries, want %d", at, len(rev.XRef.Entries), len(s.ent))
			return
		}
		first := s.off
		want := map[int]*dobj{}
		for _, e := range rev.XRef.Entries {
			w, ok := s.ent[e.ObjectNum]
			switch {
			case !ok, (w.typ != 0) != e.InUse, (w.typ == 2) != e.InObjectStream,
				w.typ == 1 && (e.Offset != int64(w.a) || e.Generation != w.b),
				w.typ == 0 && !s.stm && (e.Offset != int64(w.a) || e.Generation != w.b),
				w.typ == 2 && (e.StreamObjNum != w.a || e.IndexInStream != w.b):
				fail("%s: entry %+v, want %+v (%v)", at, e, w, ok)
				return
			}
			if w.typ == 1 && w.a >= begin {
				want[e.ObjectNum] = s.live[e.ObjectNum]
				first = min(first, w.a)
			}
		}
		if t := rev.Trailer; t.Size != s.size || normRef(t.Root) != fmt.Sprintf("%d %d R", s.root, s.rg) || s.info > 0 && normRef(t.Info) != fmt.Sprintf("%d %d R", s.info, infoGen(s)) || s.info == 0 && t.Info != "" || t.Prev != int64(s.prev) || t.Encrypt != "" {
			fail("%s: the trailer is %+v, want size %d, root %d %d R, info %d, prev %d", at, *t, s.size, s.root, s.rg, s.info, s.prev)
		}
		if !bytes.Contains(data[s.off:end], rev.Trailer.Bytes()) || len(rev.Trailer.Bytes()) == 0 {
			fail("%s: the bytes of the trailer are %q", at, clip(rev.Trailer.Bytes(), 200))
		}
		if len(rev.Objects) != len(want) {
			fail("%s has %d objects, want %d", at, len(rev.Objects), len(want))
			return
		}
		for _, n := range sortedDobjs(want) {
			o, ro := want[n], rev.Objects[n]
			latest[n] = o
			if ro == nil {
				fail("%s: object %d is missing", at, n)
				return
			}
			if doc.GetObjectInRevision(n, i+1) != ro {
				fail("GetObjectInRevision(%d, %d) is another object", n, i+1)
			}
			if o.end > 0 && (!bytes.Equal(ro.Bytes(), data[o.off:o.end]) || ro.EndOffset != int64(o.end)) || ro.Offset != int64(o.off) || ro.Number != n || ro.Generation != o.g || ro.IsStream != o.stm {
				fail("%s: object %d is %d %d at %d-%d, stream %v, %q", at, n, ro.Number, ro.Generation, ro.Offset, ro.EndOffset, ro.IsStream, clip(ro.Bytes(), 200))
				return
			}
			if o.stm && (!bytes.Equal(ro.StreamRaw, o.data) || !bytes.Equal(ro.RawBytes[ro.StreamStart:ro.StreamEnd], o.data)) {
				fail("%s: stream %d has data %q, want %q", at, n, clip(ro.StreamRaw, 200), clip(o.data, 200))
			}
			if o.stm {
				v, err := parseVal(ro.DictRaw)
				if dict, ok := v.(Dict); err != nil || !ok || !o.aux && !same(without(dict, "Length"), o.val) || !bytes.Equal(ro.DictRaw, ro.RawBytes[ro.DictStart:ro.DictEnd]) {
					fail("%s: stream %d has dictionary %q", at, n, clip(ro.DictRaw, 200))
				}
			}
			cmpObj(o, ro.Content(), "Content", func(class, f string, a ...interface{}) { fail("%s: %s", at, fmt.Sprintf(f, a...)) })
			if c.Failed() {
				return
			}
		}
		if b := rev.RevisionBytes(doc); !bytes.Equal(b, data[first:end]) {
			fail("%s: RevisionBytes has %d bytes, want %d from %d on", at, len(b), end-first, first)
		}
		begin = end
	}
	if doc.GetObjectInRevision(1, 0) != nil || doc.GetObjectInRevision(1, k+1) != nil {
		fail("revisions that are not there have objects")
	}
	all := doc.AllObjects()
	if len(all) != len(latest) || doc.ObjectCount() != len(latest) {
		fail("%d objects (count %d), want %d", len(all), doc.ObjectCount(), len(latest))
		return
	}
	for _, n := range sortedDobjs(latest) {
		if o := all[n]; o == nil || o != doc.GetObject(n) || o.Offset != int64(latest[n].off) {
			fail("object %d is not its latest version", n)
		}
	}
	if !bytes.Equal(in, data) {
		fail("reading changed the caller's bytes")
	}
	c.Count("document_models", 1)
}

func sortedDobjs(m map[int]*dobj) []int {
	var ns []int
	for n := range m {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	return ns
}

func infoGen(s snapshot) int {
	if o := s.live[s.info]; o != nil {
		return o.g
	}
	return 0
}

func getObj(c *Ctx, pdf *parse.PDF, n int) (b []byte, err error) {
	if !c.Call("GetObject", func() { b, err = pdf.GetObject(n) }) {
		return nil, fmt.Errorf("no return")
	}
	return
}

func normRef(s string) string {
	v, err := parseVal([]byte(s))
	if err != nil {
		return s
	}
	return showVal(v)
}

func cmpObj(o *dobj, b []byte, who string, fail func(string, string, ...interface{})) {
	if o.aux {
		return
	}
	v, err := parseObj(b)
	if err != nil {
		fail("value", "%s(%d) returned %q: %v", who, o.n, clip(b, 300), err)
		return
	}
	if !o.stm {
		if !same(v, o.val) {
			fail("value", "%s(%d) is %s, want %s", who, o.n, clipS(showVal(v), 300), clipS(showVal(o.val), 300))
		}
		return
	}
	s, ok := v.(*Stm)
	if !ok {
		fail("value", "%s(%d) is %s, want a stream", who, o.n, clipS(showVal(v), 300))
		return
	}
	if !same(without(s.D, "Length"), o.val) {
		fail("value", "%s(%d) has dictionary %s, want %s", who, o.n, clipS(showVal(without(s.D, "Length")), 300), clipS(showVal(o.val), 300))
	}
	if !bytes.Equal(s.Raw, o.data) {
		fail("data", "%s(%d) has data %q, want %q", who, o.n, clip(s.Raw, 200), clip(o.data, 200))
	}
}

func execRevisions(c *Ctx) {
	c.limit = 400_000_000
	d := buildDoc(c.sc.Ops)
	if len(d.snaps) == 0 {
		return
	}
	c.Begin()
	defer c.End()
	k := len(d.snaps)
	for i, s := range d.snaps {
		end := s.end
		for end < len(d.b) && (d.b[end] == '\r' || d.b[end] == '\n') {
			end++
		}
		var got []byte
		var err error
		if !c.Call("ExtractRevision", func() { got, err = parse.ExtractRevision(d.b, i+1) }) {
			return
		}
		if err != nil || !bytes.Equal(got, d.b[:end]) {
			c.Fail("extract", "ExtractRevision(%d) of %d: %v, %d bytes, want the first %d\n%q", i+1, k, err, len(got), end, d.b[max(0, s.eof-60):end])
			return
		}
		// a reader at the time of this revision; the latest state and one of the others
		if i == k-1 || i == int(c.sc.Seed%uint64(k)) {
			checkRevision(c, fmt.Sprintf("revision %d of %d", i+1, k), d.b[:s.end], s, i+1, true, nil)
			if c.Failed() {
				return
			}
		}
	}
	checkDocument(c, d, k)
	if c.Failed() {
		return
	}
	var err error
	c.Call("ExtractRevision", func() { _, err = parse.ExtractRevision(d.b, k+1) })
	if err == nil {
		c.Fail("extract", "ExtractRevision(%d) of %d revisions is not an error", k+1, k)
	}
	c.Call("ExtractRevision", func() { _, err = parse.ExtractRevision(d.b, 0) })
	if err == nil {
		c.Fail("extract", "ExtractRevision(0) is not an error")
	}
	for _, f := range c.sc.Faults {
		data, rev := tear(d, f)
		c.Count("fault:torn_append:"+f.K, 1)
		if rev == 0 {
			// nothing durable: any answer but an abnormal end
			c.Call("Open", func() { parse.Open(data) })
			continue
		}
		checkRevision(c, fmt.Sprintf("crash (%s) while revision %d was appended, revision %d survives", f.K, k, rev), data, d.snaps[rev-1], rev, false, nil)
		c.Shape("torn", f.K, rev == k, f.I(0)/50)
	}
	c.Shape(k, bucket(len(d.b)), len(d.live)/3, len(d.gone)/3)
	c.res.Nontrivial = k > 1 || len(c.sc.Faults) > 0
	c.Count("revisions", k)
}

func init() {
	register(&Prop{
		ID: "C05", Level: "exploration",
		Gen:   func(r *Rng, sc *Scenario, i int) { genRevisions(r, sc, 5, 1) },
		Exec:  execRevisions,
		Quick: 4000, Thorough: 300000,
		Rule: "one evaluation is one simulated history of incremental updates by an independent writer, read back at two of its revisions and after a crash during the last append; it counts as non-trivial when there are two or more revisions or a crash",
		Real: []string{"core/parse (standard, byte-perfect, incremental, object and cross-reference streams)"},
		Stub: []string{"the writer of the document (independent)", "the disk that loses the tail of the append", "map iteration order"},
	})
}
