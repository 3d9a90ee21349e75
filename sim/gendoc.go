package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// An independent writer of PDF files with any number of revisions, in many of the
// spellings the format allows.  The history of operations is the model.

// dobj is the state of one object number.
type dobj struct {
	n, g   int
	val    Val // value, or the dictionary of a stream without Length
	stm    bool
	data   []byte // stored stream data before encryption
	aux    bool   // container or cross-reference stream
	inStm  int    // container, 0 if direct
	idx    int
	rev    int
	off    int
	end    int
	pseudo bool // listed but not to be compared
}

type snapshot struct {
	live map[int]*dobj
	gone map[int]bool
	root int
	rg   int
	info int
	size int
	end  int
	eof  int // just after %%EOF
	off  int // of the cross-reference section
	prev int
	stm  bool           // the section is a stream
	ent  map[int]rentry // what the section lists
}

type docBuilder struct {
	b     []byte
	live  map[int]*dobj
	gens  map[int]int
	gone  map[int]bool
	pend  []*dobj
	frees []int
	prev  int
	next  int
	root  int
	info  int
	enc   *refEnc
	encN  int
	id    []byte
	ver   string
	snaps []snapshot
	junk  bool // the trailer may hold junk entries
}

func newDocBuilder() *docBuilder {
	return &docBuilder{live: map[int]*dobj{}, gens: map[int]int{}, gone: map[int]bool{}, next: 1, ver: "1.7"}
}

func (d *docBuilder) put(n int, v Val, inStm bool) {
	o := &dobj{n: n, g: d.gens[n], val: v}
	if inStm {
		o.inStm = -1
	}
	d.pend = append(d.pend, o)
	if n >= d.next {
		d.next = n + 1
	}
}

func (d *docBuilder) stream(n int, dict Dict, data []byte, indirect bool) {
	o := &dobj{n: n, g: d.gens[n], val: without(dict, "Length"), stm: true, data: data}
	if indirect {
		o.idx = -1
	}
	d.pend = append(d.pend, o)
	if n >= d.next {
		d.next = n + 1
	}
}

func (d *docBuilder) free(n int) { d.frees = append(d.frees, n) }

func (d *docBuilder) encVal(v Val, n, g int) Val {
	if d.enc == nil || n == d.encN {
		return v
	}
	return mapStrs(v, func(s string) string { return string(d.enc.encStr(n, g, []byte(s))) })
}

var eols = []string{"\n", "\r\n", "\r"}

func (r *Rng) gap() string {
	switch r.N(8) {
	case 0:
		return "\r\n"
	case 1:
		return "  "
	case 2:
		return "\t"
	case 3:
		return "\r"
	case 4:
		return " \n"
	default:
		return r.Pick("\n", " ")
	}
}

// object writes an indirect object at the end of the file.
func (d *docBuilder) object(r *Rng, o *dobj, extra Dict) {
	if r.P(6) {
		d.b = append(d.b, "% a comment with endobj and 5 0 obj in it"+r.Pick("\n", "\r\n")...)
	}
	o.off = len(d.b)
	d.b = append(d.b, fmt.Sprintf("%d%s%d%sobj", o.n, r.Pick(" ", " ", "  "), o.g, r.Pick(" ", " ", "  "))...)
	if o.stm {
		dict := d.encVal(o.val, o.n, o.g).(Dict)
		raw := o.data
		if d.enc != nil && !d.enc.clear(dict) {
			raw = d.enc.encStm(o.n, o.g, raw)
		}
		dict = without(dict)
		for k, v := range extra {
			dict[k] = v
		}
		if dict["Length"] == nil {
			dict["Length"] = int64(len(raw))
		}
		d.b = append(d.b, r.Pick("", "\n", " ", "\r\n")...)
		d.b = append(d.b, emit(r, dict)...)
		d.b = append(d.b, r.Pick("", "\n", " ", "\r\n")...)
		d.b = append(d.b, "stream"+r.Pick("\n", "\n", "\r\n")...)
		d.b = append(d.b, raw...)
		if _, ind := dict["Length"].(Ref); ind {
			d.b = append(d.b, r.Pick("\n", "\r\n")...)
		} else {
			d.b = append(d.b, r.Pick("\n", "\r\n", "\n", "")...)
		}
		d.b = append(d.b, "endstream"+r.gap()+"endobj"...)
	} else {
		d.spell(r, d.encVal(o.val, o.n, o.g))
		d.b = append(d.b, "endobj"...)
	}
	o.end = len(d.b)
	d.b = append(d.b, r.Pick("\n", "\n", "\r\n", "\n\n", " ", "\r")...)
	o.rev = len(d.snaps) + 1
}

// spell writes a value with the white space it needs around it.
func (d *docBuilder) spell(r *Rng, v Val) {
	t := emit(r, v)
	if isDelim(t[0]) && r.P(40) {
		d.b = append(d.b, t...)
	} else {
		d.b = append(append(d.b, r.gap()...), t...)
	}
	if !isDelim(t[len(t)-1]) || t[0] == '/' || r.P(60) {
		d.b = append(d.b, r.gap()...)
	}
}

func lengthSafe(b []byte) bool {
	return !bytes.Contains(b, []byte("endstream")) && !bytes.HasSuffix(b, []byte("\n")) && !bytes.HasSuffix(b, []byte("\r"))
}

// commit writes a revision: the pending objects, a cross-reference section, a trailer.
func (d *docBuilder) commit(seed int64, asStream bool) {
	r := NewRng(uint64(seed))
	if len(d.b) == 0 {
		d.b = append(d.b, "%PDF-"+d.ver+r.Pick("\n", "\r\n", "\r")...)
		if r.P(80) {
			d.b = append(d.b, "%\xe2\xe3\xcf\xd3"+r.Pick("\n", "\r\n", "\r")...)
		}
	} else if n := len(d.b); d.b[n-1] != '\n' && d.b[n-1] != '\r' {
		d.b = append(d.b, '\n')
	}
	rev := len(d.snaps) + 1
	changed := map[int]*dobj{}
	var order []int
	for _, o := range d.pend {
		if changed[o.n] == nil {
			order = append(order, o.n)
		}
		changed[o.n] = o
	}
	freed := map[int]bool{}
	for _, n := range d.frees {
		if changed[n] == nil && d.live[n] != nil {
			freed[n] = true
		}
	}
	d.pend, d.frees = nil, nil
	alloc := func() int { n := d.next; d.next++; return n }
	var direct, packed []*dobj
	for _, n := range order {
		o := changed[n]
		if o.inStm != 0 && asStream && !o.stm && o.g == 0 && o.n != d.encN {
			packed = append(packed, o)
		} else {
			o.inStm = 0
			direct = append(direct, o)
		}
	}
	// indirect lengths get an object of their own
	var lens []*dobj
	extra := map[int]Dict{}
	for _, o := range direct {
		if o.stm && o.idx == -1 {
			o.idx = 0
			if d.enc == nil && lengthSafe(o.data) {
				l := &dobj{n: alloc(), val: int64(len(o.data)), rev: rev}
				lens = append(lens, l)
				extra[o.n] = Dict{"Length": Ref{l.n, 0}}
			}
		}
	}
	direct = append(direct, lens...)
	// containers
	for len(packed) > 0 {
		k := 1 + r.N(len(packed))
		if r.P(50) {
			k = len(packed)
		}
		grp := packed[:k]
		packed = packed[k:]
		c := &dobj{n: alloc(), stm: true, aux: true}
		var body []byte
		offs := make([]int, k)
		// the objects need not be in the order of the header
		for _, i := range r.Perm(k) {
			offs[i] = len(body)
			t := emit(r, grp[i].val)
			body = append(append(body, t...), r.Pick(" ", "\n", "\r\n", "  ")...)
			grp[i].inStm, grp[i].idx, grp[i].rev = c.n, i, rev
		}
		var head []byte
		for i, o := range grp {
			head = append(head, fmt.Sprintf("%d%s%d%s", o.n, r.Pick(" ", "  ", "\n"), offs[i], r.Pick(" ", "\n", "\r\n"))...)
		}
		if r.P(30) {
			head = append(head, r.Pick(" ", "\n", "   ")...)
		}
		dict := Dict{"Type": Name("ObjStm"), "N": int64(k), "First": int64(len(head))}
		c.val, c.data = d.filter(r, dict, append(head, body...), 1)
		direct = append(direct, c)
		for _, o := range grp {
			changed[o.n] = o
		}
	}
	for _, i := range r.Perm(len(direct)) {
		o := direct[i]
		d.object(r, o, extra[o.n])
	}
	for _, o := range direct {
		changed[o.n] = o
	}
	for n := range changed {
		d.live[n] = changed[n]
		delete(d.gone, n)
	}
	for n := range freed {
		d.gens[n] = d.live[n].g + 1
		delete(d.live, n)
		d.gone[n] = true
	}
	for n := range changed {
		d.gens[n] = changed[n].g
	}
	var self *dobj
	if asStream {
		self = &dobj{n: alloc(), stm: true, aux: true, rev: rev}
	}
	off := len(d.b)
	trailer := Dict{"Size": int64(d.next), "Root": Ref{d.root, d.live[d.root].g}}
	if d.info > 0 && d.live[d.info] != nil {
		trailer["Info"] = Ref{d.info, d.live[d.info].g}
	}
	if d.prev > 0 {
		trailer["Prev"] = int64(d.prev)
	}
	if d.id != nil {
		trailer["ID"] = Arr{Str(d.id), Str(d.id)}
	}
	if d.encN > 0 {
		trailer["Encrypt"] = Ref{d.encN, 0}
	}
	if d.junk && r.P(40) {
		trailer[r.Pick("Custom", "RootX", "Sizes", "Note")] = []Val{Str("/Root 99 0 R /Prev 7"), Dict{"Size": int64(3), "Root": Ref{77, 0}, "Prev": int64(9)}, Arr{int64(1), Name("Root")}, Name("Size")}[r.N(4)]
	}
	// the entries
	ent := map[int]rentry{}
	list := func(o *dobj) {
		if o.inStm > 0 {
			ent[o.n] = rentry{2, o.inStm, o.idx}
		} else {
			ent[o.n] = rentry{1, o.off, o.g}
		}
	}
	for _, o := range changed {
		list(o)
	}
	for n := range freed {
		ent[n] = rentry{0, 0, d.gens[n]}
	}
	full := rev == 1 || r.P(10)
	if !asStream && rev > 1 && full {
		// a table cannot list objects in object streams
		for _, o := range d.live {
			if o.inStm > 0 {
				full = false
			}
		}
	}
	if full {
		for _, o := range d.live {
			list(o)
		}
		for n := range d.gone {
			ent[n] = rentry{0, 0, d.gens[n]}
		}
	}
	if rev == 1 || full || r.P(50) {
		ent[0] = rentry{0, 0, 65535}
	}
	if asStream && r.P(75) {
		self.off = off
		ent[self.n] = rentry{1, off, 0}
		d.live[self.n] = self
	}
	fill := full && r.P(60)
	if fill {
		for n := 0; n < d.next; n++ {
			if _, ok := ent[n]; !ok {
				ent[n] = rentry{0, 0, d.gens[n]}
			}
		}
		if _, ok := ent[0]; ok {
			ent[0] = rentry{0, 0, 65535}
		}
	}
	var nums []int
	for n := range ent {
		nums = append(nums, n)
	}
	sort.Ints(nums)
	if r.P(60) {
		// the free entries lead to the next one each
		next := 0
		for i := len(nums) - 1; i >= 0; i-- {
			if e := ent[nums[i]]; e.typ == 0 {
				e.a = next
				ent[nums[i]] = e
				next = nums[i]
			}
		}
	}
	// subsections
	var subs [][2]int
	for i := 0; i < len(nums); {
		j := i + 1
		for j < len(nums) && nums[j] == nums[j-1]+1 && !(r.P(5) && !fill) {
			j++
		}
		subs = append(subs, [2]int{nums[i], j - i})
		i = j
	}
	if len(subs) > 1 && r.P(20) && !asStream {
		for i, j := range r.Perm(len(subs)) {
			subs[i], subs[j] = subs[j], subs[i]
		}
	}
	if asStream {
		d.xrefStream(r, self, ent, subs, trailer, fill && len(subs) == 1 && nums[0] == 0 && nums[len(nums)-1] == d.next-1)
	} else {
		eol := r.Pick("\n", "\n", "\r\n", "\r")
		d.b = append(d.b, "xref"+eol...)
		pad := map[string]string{"\n": " \n", "\r\n": "\r\n", "\r": " \r"}[eol]
		for _, s := range subs {
			d.b = append(d.b, fmt.Sprintf("%d %d%s", s[0], s[1], r.Pick(eol, eol, " "+eol))...)
			for n := s[0]; n < s[0]+s[1]; n++ {
				e := ent[n]
				k := "n"
				if e.typ == 0 {
					k = "f"
				}
				d.b = append(d.b, fmt.Sprintf("%010d %05d %s%s", e.a, e.b, k, pad)...)
			}
		}
		d.b = append(d.b, "trailer"+r.Pick("\n", " ", "", "\r\n")...)
		d.b = append(d.b, emit(r, trailer)...)
		d.b = append(d.b, r.Pick("\n", "\r\n", "\r")...)
	}
	e := r.Pick("\n", "\r\n", "\r", "\n")
	d.b = append(d.b, fmt.Sprintf("startxref%s%d%s%%%%EOF", e, off, e)...)
	eof := len(d.b)
	d.b = append(d.b, r.Pick("\n", "\r\n", "", "\n\n", "\r")...)
	prev := d.prev
	d.prev = off
	s := snapshot{off: off, prev: prev, stm: asStream, ent: ent, live: map[int]*dobj{}, gone: map[int]bool{}, root: d.root, rg: d.live[d.root].g, info: d.info, size: d.next, end: len(d.b), eof: eof}
	if d.info > 0 && d.live[d.info] == nil {
		s.info = 0
	}
	for n, o := range d.live {
		c := *o
		s.live[n] = &c
	}
	for n := range d.gone {
		s.gone[n] = true
	}
	d.snaps = append(d.snaps, s)
}

// filter encodes the data of a structure stream in one of the ways.
func (d *docBuilder) filter(r *Rng, dict Dict, data []byte, cols int) (Dict, []byte) {
	dict = without(dict)
	switch r.N(6) {
	case 0:
		return dict, data
	case 1:
		dict["Filter"] = Name("ASCIIHexDecode")
		return dict, []byte(strings.TrimSuffix(fmt.Sprintf("%x", data), "0") + ">")
	case 2:
		dict["Filter"] = Arr{Name("ASCIIHexDecode"), Name("FlateDecode")}
		return dict, []byte(fmt.Sprintf("%X>", deflate(data)))
	case 3:
		if cols > 1 {
			dict["Filter"] = Name("FlateDecode")
			dict["DecodeParms"] = Dict{"Predictor": int64(10 + r.N(6)), "Columns": int64(cols)}
			return dict, deflate(toPNG(r, data, cols))
		}
	}
	dict["Filter"] = Name("FlateDecode")
	if r.P(20) {
		dict["Filter"] = Arr{Name("FlateDecode")}
	}
	return dict, deflate(data)
}

// toPNG applies a random row filter to every row.
func toPNG(r *Rng, data []byte, cols int) []byte {
	var out []byte
	prev := make([]byte, cols)
	for p := 0; p+cols <= len(data); p += cols {
		cur := data[p : p+cols]
		t := byte(r.N(5))
		if r.P(40) {
			t = 2
		}
		out = append(out, t)
		for i := range cur {
			var a, b, c byte
			if i > 0 {
				a, c = cur[i-1], prev[i-1]
			}
			b = prev[i]
			var p byte
			switch t {
			case 1:
				p = a
			case 2:
				p = b
			case 3:
				p = byte((int(a) + int(b)) / 2)
			case 4:
				e := int(a) + int(b) - int(c)
				pa, pb, pc := abs(e-int(a)), abs(e-int(b)), abs(e-int(c))
				p = c
				if pa <= pb && pa <= pc {
					p = a
				} else if pb <= pc {
					p = b
				}
			}
			out = append(out, cur[i]-p)
		}
		prev = cur
	}
	return out
}

func (d *docBuilder) xrefStream(r *Rng, self *dobj, ent map[int]rentry, subs [][2]int, trailer Dict, noIndex bool) {
	max := [3]int{}
	all1 := true
	for _, e := range ent {
		v := [3]int{e.typ, e.a, e.b}
		if e.typ != 1 {
			all1 = false
		}
		for i := range v {
			if v[i] > max[i] {
				max[i] = v[i]
			}
		}
	}
	var w [3]int
	for i := range w {
		for x := max[i]; x > 0; x >>= 8 {
			w[i]++
		}
	}
	if w[0] == 0 {
		w[0] = 1
	}
	if all1 && r.P(30) {
		w[0] = 0
	} else if r.P(5) {
		w[0] = 2
	}
	if w[1] == 0 {
		w[1] = 1
	}
	if r.P(40) {
		w[1] += r.N(3)
	}
	if r.P(60) && w[2] < 2 {
		w[2] = 2
	}
	var data []byte
	idx := Arr{}
	for _, s := range subs {
		idx = append(idx, int64(s[0]), int64(s[1]))
		for n := s[0]; n < s[0]+s[1]; n++ {
			e := ent[n]
			for i, v := range [3]int{e.typ, e.a, e.b} {
				for k := w[i] - 1; k >= 0; k-- {
					if k < 8 {
						data = append(data, byte(uint64(v)>>(8*k)))
					} else {
						data = append(data, 0)
					}
				}
			}
		}
	}
	dict := without(trailer)
	dict["Type"] = Name("XRef")
	dict["W"] = Arr{int64(w[0]), int64(w[1]), int64(w[2])}
	if !noIndex || r.P(50) {
		dict["Index"] = idx
	}
	dd, raw := d.filter(r, dict, data, w[0]+w[1]+w[2])
	self.val, self.data = dd, raw
	enc := d.enc
	d.enc = nil
	// no comment may come before the object: startxref points at it
	d.b = append(d.b, strconv.Itoa(self.n)+" 0 obj"+r.Pick("\n", " ", "")...)
	dd["Length"] = int64(len(raw))
	d.b = append(d.b, emit(r, dd)...)
	d.b = append(d.b, r.Pick("\n", "", "\r\n")+"stream"+r.Pick("\n", "\r\n")...)
	d.b = append(d.b, raw...)
	d.b = append(d.b, r.Pick("\n", "\r\n", "")+"endstream"+r.gap()+"endobj"+r.Pick("\n", "\r\n")...)
	d.enc = enc
}
