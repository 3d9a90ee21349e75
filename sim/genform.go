package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Forms in generated documents: hierarchies of fields of any depth, with what they
// inherit, in any spelling and any place of the file.

type ffield struct {
	num    int
	parent *ffield
	kids   []*ffield
	wids   []int // widgets that are objects of their own
	group  bool
	attrs  Dict
	ft     string
	dirty  bool
	inStm  bool
}

type fform struct {
	num   int // 0 if it is part of the catalog
	attrs Dict
	tops  []*ffield
	all   []*ffield
	arrN  int // object of the array of fields
	dirty bool
	inStm bool
}

// formText spells a text.
func formText(r *Rng, s string) Str {
	ascii := true
	latin := true
	for _, c := range s {
		ascii = ascii && c < 128
		latin = latin && c < 256
	}
	switch {
	case ascii && r.P(75):
		return Str(s)
	case latin && !ascii && r.P(40):
		var b []byte
		for _, c := range s {
			b = append(b, byte(c))
		}
		if refText(string(b)) == s {
			return Str(b)
		}
	case r.P(15):
		return Str("\xef\xbb\xbf" + s)
	}
	b := []byte("\xfe\xff")
	for _, c := range s {
		if c > 0xffff {
			c -= 0x10000
			h, l := 0xd800+c>>10, 0xdc00+c&0x3ff
			b = append(b, byte(h>>8), byte(h), byte(l>>8), byte(l))
			continue
		}
		b = append(b, byte(c>>8), byte(c))
	}
	return Str(b)
}

var formWords = []string{"name", "Name", "addr", "T", "V", "zip (code)", "a/V", "größe", "日本", "Ω", "x y", "back\\slash", "Kids", "1 0 R", "😀", "tail)", "(", "a]b", "<<x>>"}

var formValues = []string{"", "John", "Jane Doe", "(", "x)", "a\\", "line\nbreak", "cr\rhere", "tab\t", "Ünïcode", "日本語", "😀 smile", "1 0 R", "/Name", ">>", "[x]", "endobj", "%%EOF", "% not a comment", "Off", "Yes", "true", "ÿþ", "100", "3.50", "2500000", "0.00001", " lead", "trail ", "null", "\x00nul", "€uro", "a\u2028b"}

func formWord(r *Rng) string { return formWords[r.N(len(formWords))] }

func formValue(r *Rng) string {
	s := formValues[r.N(len(formValues))]
	if r.P(30) {
		s += formValues[r.N(len(formValues))]
	}
	if r.P(4) {
		s = strings.Repeat(s+"long ", 1+r.N(300))
	}
	return s
}

var stateNames = []string{"Yes", "On", "1", "Choice 1", "a/b", "Größe", "Oui", "X#Y", "(s)"}

// value makes the value a field may have.
func (b *pbuild) fieldValue(r *Rng, f *ffield) Val {
	switch f.ft {
	case "Btn":
		if r.P(40) {
			return Name("Off")
		}
		return Name(stateNames[r.N(len(stateNames))])
	case "Sig":
		return b.maybe(r, 60, Dict{"Type": Name("Sig"), "Filter": Name("Adobe.PPKLite"), "Contents": Str(r.Bytes(8)), "Name": decoy(r), "V": Str("inner")})
	case "Ch":
		if r.P(25) {
			var a Arr
			for k := r.N(4); k > 0; k-- {
				a = append(a, b.maybe(r, 15, formText(r, formValue(r))))
			}
			return b.maybe(r, 20, a)
		}
	}
	return b.maybe(r, 20, formText(r, formValue(r)))
}

// appearance makes the appearances of a widget.
func (b *pbuild) appearance(r *Rng, d Dict, ft string) {
	form := func() Val {
		return b.addStream(r, Dict{"Type": Name("XObject"), "Subtype": Name("Form"), "BBox": Arr{int64(0), int64(0), int64(9), int64(9)}}, []byte("q /Tx BMC EMC Q"))
	}
	if ft != "Btn" {
		if r.P(50) {
			d["AP"] = b.maybe(r, 20, Dict{"N": form()})
		}
		return
	}
	switch r.N(5) {
	case 0:
		return
	case 1:
		d["AP"] = Dict{"N": form()}
		return
	}
	on := stateNames[r.N(len(stateNames))]
	n := Dict{on: form()}
	if r.P(60) {
		n["Off"] = form()
	}
	if r.P(20) {
		n[stateNames[r.N(len(stateNames))]] = form()
	}
	ap := Dict{"N": b.maybe(r, 25, n)}
	if r.P(40) {
		ap["D"] = Dict{"Down": form()}
	}
	d["AP"] = b.maybe(r, 25, ap)
	if r.P(70) {
		d["AS"] = Name(r.Pick("Off", on))
	}
}

func (b *pbuild) widget(r *Rng, d Dict, ft string) {
	d["Subtype"] = Name("Widget")
	if r.P(60) {
		d["Type"] = Name("Annot")
	}
	d["Rect"] = b.maybe(r, 10, box(r))
	if r.P(50) {
		d["P"] = pageAt{r.N(20)}
	}
	if r.P(40) {
		d["F"] = int64(4)
	}
	if r.P(30) {
		d["MK"] = b.maybe(r, 30, Dict{"CA": Str(r.Pick("4", "8", "/V (x)")), "BC": Arr{Real("0.5")}})
	}
	b.appearance(r, d, ft)
}

// onPage puts a widget on one of the pages there are.
func (b *pbuild) onPage(r *Rng, n int) {
	if len(b.pages) == 0 || r.P(20) {
		return
	}
	p := b.pages[r.N(len(b.pages))]
	switch a := p.attrs["Annots"].(type) {
	case nil:
		p.attrs["Annots"] = Arr{Ref{n, 0}}
	case Arr:
		p.attrs["Annots"] = append(a[:len(a):len(a)], Ref{n, 0})
	default:
		return
	}
	p.dirty = true
}

func (b *pbuild) startForm(r *Rng) {
	if b.form != nil {
		return
	}
	b.form = &fform{attrs: Dict{}, dirty: true, inStm: r.P(60)}
	if r.P(70) {
		b.form.num = b.alloc()
	}
	if r.P(20) {
		b.form.arrN = b.alloc()
	}
	a := b.form.attrs
	if r.P(50) {
		a["NeedAppearances"] = b.maybe(r, 20, r.P(60))
	}
	if r.P(40) {
		a["DA"] = b.maybe(r, 20, Str("/Helv 0 Tf 0 g"))
	}
	if r.P(25) {
		a["Q"] = int64(r.N(3))
	}
	if r.P(30) {
		a["DR"] = b.maybe(r, 50, Dict{"Font": Dict{"Helv": b.add(r, Dict{"Type": Name("Font"), "Subtype": Name("Type1"), "BaseFont": Name("Helvetica")})}})
	}
	if r.P(20) {
		a["SigFlags"] = int64(3)
	}
	if r.P(10) {
		a["XFA"] = Arr{Str("template"), b.addStream(r, Dict{}, []byte("<template/>"))}
	}
	if r.P(20) {
		a["PZX"] = Dict{"Fields": Arr{Ref{1, 0}}, "XFA": decoy(r)}
	}
	if r.P(20) {
		a["CO"] = Arr{}
	}
	b.cat.dirty = true
}

// field adds a field.
func (b *pbuild) field(r *Rng, at int) {
	b.startForm(r)
	fm := b.form
	f := &ffield{num: b.alloc(), attrs: Dict{}, dirty: true, inStm: r.P(60)}
	var groups []*ffield
	for _, g := range fm.all {
		if g.group {
			groups = append(groups, g)
		}
	}
	sib := &fm.tops
	if at > 0 && len(groups) > 0 {
		f.parent = groups[at%len(groups)]
		if r.P(15) {
			// a group of a group of a group
			f.parent = groups[len(groups)-1]
		}
		sib = &f.parent.kids
		f.ft = f.parent.ft
	}
	if r.P(3) {
		// many levels of groups
		for i := 2 + r.N(60); i > 0; i-- {
			g := &ffield{num: b.alloc(), attrs: Dict{"T": formText(r, fmt.Sprintf("g%d", len(*sib)))}, dirty: true, inStm: r.P(60), group: true, parent: f.parent, ft: f.ft}
			if r.P(10) {
				g.attrs["Ff"] = int64(r.N(4))
			}
			if g.parent != nil {
				g.parent.dirty = true
			} else if fm.num == 0 {
				b.cat.dirty = true
			}
			*sib = append(*sib, g)
			fm.all = append(fm.all, g)
			f.parent, sib = g, &g.kids
		}
		fm.dirty = true
	}
	a := f.attrs
	a["T"] = b.maybe(r, 12, formText(r, fmt.Sprintf("%s%d", formWord(r), len(*sib))))
	f.group = r.P(35)
	if f.ft == "" && (!f.group || r.P(25)) || f.ft != "" && r.P(30) {
		f.ft = r.Pick("Tx", "Tx", "Tx", "Btn", "Btn", "Ch", "Ch", "Sig")
		a["FT"] = b.maybe(r, 10, Name(f.ft))
	}
	if r.P(35) {
		a["TU"] = b.maybe(r, 10, formText(r, formWord(r)+" label"))
	}
	if r.P(20) {
		a["TM"] = formText(r, formWord(r))
	}
	if r.P(45) {
		ff := r.N(4)
		for _, bit := range []int{0x1000, 0x2000, 0x4000, 0x8000, 0x10000, 0x20000, 0x200000} {
			if r.P(12) {
				ff |= bit
			}
		}
		if f.ft == "Btn" && r.P(40) {
			ff |= 0x8000
		}
		a["Ff"] = b.maybe(r, 12, int64(ff))
	}
	if f.ft != "" {
		if r.P(55) && (!f.group || r.P(25)) {
			a["V"] = b.fieldValue(r, f)
		}
		if r.P(25) && f.ft != "Sig" {
			a["DV"] = b.fieldValue(r, f)
		}
	}
	if r.P(5) {
		a["V"] = nil
	}
	if f.ft == "Tx" && r.P(40) || f.group && r.P(10) {
		a["MaxLen"] = b.maybe(r, 12, int64(1+r.N(40)))
	}
	if r.P(20) {
		a["DA"] = b.maybe(r, 12, Str("/Helv 12 Tf 0 0 1 rg"))
	}
	if r.P(15) {
		a["Q"] = int64(r.N(3))
	}
	if f.ft == "Ch" && !f.group && r.P(85) {
		var opts Arr
		for k := 1 + r.N(4); k > 0; k-- {
			o := formText(r, formValue(r))
			if r.P(35) {
				opts = append(opts, b.maybe(r, 15, Arr{b.maybe(r, 10, o), formText(r, formValue(r))}))
			} else {
				opts = append(opts, b.maybe(r, 10, o))
			}
		}
		if a["V"] == nil && r.P(60) {
			// one that is selected
			v := opts[r.N(len(opts))]
			if _, ok := v.(Str); ok {
				a["V"] = v
			}
		}
		a["Opt"] = b.maybe(r, 25, opts)
		if r.P(30) {
			var i Arr
			for k := range opts {
				if r.P(40) {
					i = append(i, int64(k))
				}
			}
			a["I"] = i
		}
		if r.P(20) {
			a["TI"] = int64(r.N(3))
		}
	}
	if f.ft == "Btn" && r.P(30) {
		opts := Arr{formText(r, formWord(r)), formText(r, formWord(r))}
		for k := r.N(3); k > 0; k-- {
			opts = append(opts, formText(r, stateNames[r.N(len(stateNames))]))
		}
		a["Opt"] = opts
	}
	if r.P(20) {
		a[r.Pick("AA", "PZX", "Lock", "A")] = b.maybe(r, 40, Dict{"V": Str("no"), "T": Str("no"), "FT": Name("Ch"), "Kids": Arr{Ref{f.num, 0}}, "K": Dict{"S": Name("JavaScript"), "JS": Str("/V (x) >> endobj")}})
	}
	if r.P(8) {
		a[r.Pick("VX", "TX", "FTX", "FfX", "KidsX", "V2", "OptX")] = Str("/V (no)")
	}
	if !f.group {
		switch r.N(4) {
		case 0: // the field is its own widget
			b.widget(r, a, f.ft)
			b.onPage(r, f.num)
		case 1, 2:
			if f.ft == "Btn" || r.P(40) {
				for k := 1 + r.N(3); k > 0; k-- {
					n := b.alloc()
					d := Dict{"Parent": Ref{f.num, 0}}
					b.widget(r, d, f.ft)
					b.puts = append(b.puts, pput{n, d, r.P(60)})
					f.wids = append(f.wids, n)
					b.onPage(r, n)
				}
			} else {
				b.widget(r, a, f.ft)
				b.onPage(r, f.num)
			}
		}
	}
	*sib = append(*sib, f)
	fm.all = append(fm.all, f)
	if f.parent != nil {
		f.parent.dirty = true
	}
	fm.dirty = true
	if fm.num == 0 && f.parent == nil {
		b.cat.dirty = true
	}
}

// setField changes a field in a later revision.
func (b *pbuild) setField(r *Rng, at int) {
	if b.form == nil || len(b.form.all) == 0 {
		return
	}
	f := b.form.all[at%len(b.form.all)]
	f.dirty = true
	f.inStm = r.P(60)
	switch r.N(5) {
	case 0:
		f.attrs["TU"] = formText(r, formWord(r))
	case 1:
		f.attrs["Ff"] = int64(r.N(4))
	case 2:
		delete(f.attrs, "V")
	default:
		if f.ft != "" && !f.group {
			f.attrs["V"] = b.fieldValue(r, f)
		}
	}
}

// flushForm writes what has changed.
func (b *pbuild) flushForm() {
	fm := b.form
	if fm == nil {
		return
	}
	refs := func(fs []*ffield) Arr {
		a := Arr{}
		for _, f := range fs {
			a = append(a, Ref{f.num, 0})
		}
		return a
	}
	for _, f := range fm.all {
		if !f.dirty {
			continue
		}
		f.dirty = false
		d := without(f.attrs)
		if f.parent != nil {
			d["Parent"] = Ref{f.parent.num, 0}
		}
		var kids Arr
		for _, n := range f.wids {
			kids = append(kids, Ref{n, 0})
		}
		kids = append(kids, refs(f.kids)...)
		if len(kids) > 0 || f.group {
			d["Kids"] = kids
			if f.num%4 == 0 {
				n := b.alloc()
				b.puts = append(b.puts, pput{n, kids, true})
				d["Kids"] = Ref{n, 0}
			}
		}
		b.puts = append(b.puts, pput{f.num, d, f.inStm})
	}
	if fm.dirty {
		d := without(fm.attrs)
		d["Fields"] = refs(fm.tops)
		if b.xfa != nil {
			d["XFA"] = b.xfaArray(NewRng(uint64(len(b.b)) + 3))
		}
		if fm.arrN > 0 {
			b.puts = append(b.puts, pput{fm.arrN, refs(fm.tops), fm.inStm})
			d["Fields"] = Ref{fm.arrN, 0}
		}
		if fm.num > 0 {
			b.puts = append(b.puts, pput{fm.num, d, fm.inStm})
			b.cat.attrs["AcroForm"] = Ref{fm.num, 0}
		} else {
			b.cat.attrs["AcroForm"] = d
			b.cat.dirty = true
		}
		fm.dirty = false
	}
}

// rfield is a field as the specification reads it.
type rfield struct {
	num, gen          int
	parent            *rfield
	kids              []*rfield
	t, tu, tm, ft, da string
	ff, q, maxLen, ti int
	v, dv             interface{}
	opt               []interface{}
	sel               []int
	rect              []float64
	named             bool
}

func (f *rfield) full() string {
	if f.parent == nil {
		return f.t
	}
	if !f.named {
		return f.parent.full()
	}
	if p := f.parent.full(); p != "" {
		return p + "." + f.t
	}
	return f.t
}

func (f *rfield) terminal() bool {
	if !f.named && f.parent != nil {
		return false
	}
	for _, k := range f.kids {
		if k.named {
			return false
		}
	}
	return true
}

type rform struct {
	tops []*rfield
	all  []*rfield // parents first
	need bool
	xfa  bool
	sigs []int
}

// refForm reads the form of a document; nil if it has none.
func refForm(m *pmodel) *rform {
	d := m.dict(m.dict(Ref{m.root, 0})["AcroForm"])
	if d == nil {
		return nil
	}
	o := &rform{}
	o.need, _ = m.get(d["NeedAppearances"]).(bool)
	o.xfa = m.get(d["XFA"]) != nil
	str := func(v Val) string {
		s, _ := m.get(v).(Str)
		return refText(string(s))
	}
	var val func(v Val) interface{}
	val = func(v Val) interface{} {
		switch x := m.get(v).(type) {
		case Str:
			return refText(string(x))
		case Name:
			return string(x)
		case Arr:
			a := []interface{}{}
			for _, e := range x {
				a = append(a, val(e))
			}
			return a
		}
		return nil
	}
	integer := func(v Val, old int) int {
		if n, ok := m.get(v).(int64); ok {
			return int(n)
		}
		return old
	}
	root := &rfield{da: str(d["DA"]), q: integer(d["Q"], 0)}
	var read func(v Val, up *rfield, top bool) []*rfield
	read = func(v Val, up *rfield, top bool) []*rfield {
		var fs []*rfield
		kids, _ := m.get(v).(Arr)
		for _, k := range kids {
			ref, ok := k.(Ref)
			d, isDict := m.get(k).(Dict)
			if !ok || !isDict {
				continue
			}
			f := &rfield{num: ref.N, gen: ref.G, t: str(d["T"]), tu: str(d["TU"]), tm: str(d["TM"]), ft: up.ft, da: up.da, ff: integer(d["Ff"], up.ff), q: integer(d["Q"], up.q), maxLen: integer(d["MaxLen"], up.maxLen), ti: integer(d["TI"], 0), v: up.v, dv: up.dv}
			if !top {
				f.parent = up
			}
			f.named = d["T"] != nil
			if n, ok := m.get(d["FT"]).(Name); ok {
				f.ft = string(n)
			}
			if x := m.get(d["V"]); x != nil {
				f.v = val(x)
			}
			if x := m.get(d["DV"]); x != nil {
				f.dv = val(x)
			}
			if m.get(d["DA"]) != nil {
				f.da = str(d["DA"])
			}
			if a, ok := val(d["Opt"]).([]interface{}); ok {
				f.opt = a
			} else if f.ft == "Btn" {
				f.opt = up.opt
			}
			if a, ok := m.get(d["I"]).(Arr); ok {
				for _, e := range a {
					f.sel = append(f.sel, integer(e, 0))
				}
			}
			if a, ok := m.get(d["Rect"]).(Arr); ok {
				for _, e := range a {
					switch x := m.get(e).(type) {
					case int64:
						f.rect = append(f.rect, float64(x))
					case Real:
						n, _ := strconv.ParseFloat(string(x), 64)
						f.rect = append(f.rect, n)
					}
				}
			}
			fs = append(fs, f)
			o.all = append(o.all, f)
			f.kids = read(d["Kids"], f, false)
		}
		return fs
	}
	o.tops = read(d["Fields"], root, true)
	for _, f := range o.all {
		if f.ft == "Sig" && f.terminal() {
			o.sigs = append(o.sigs, f.num)
		}
	}
	return o
}

func (o *rform) find(name string) *rfield {
	for _, f := range o.all {
		if f.full() == name {
			return f
		}
	}
	for _, f := range o.all {
		if f.t == name {
			return f
		}
	}
	return nil
}
