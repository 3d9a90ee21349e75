package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
)

// C12: histories of reading, filling and rebuilding XFA forms.

type xhist struct {
	*phist
	pks         map[*pdoc][]xpacket
	user, owner string
}

func (h *xhist) packet(name string) *xpacket {
	for i, p := range h.pks[h.cur] {
		if p.name == name {
			return &h.pks[h.cur][i]
		}
	}
	return nil
}

// refTemplate is the schema a template stands for.
func refTemplate(data []byte) (*types.FormSchema, error) {
	top, err := readXML(data)
	if err != nil {
		return nil, err
	}
	s := &types.FormSchema{}
	types1 := map[string]types.ResponseType{}
	for t, names := range map[types.ResponseType]string{
		types.ResponseTypeText: "text textfield", types.ResponseTypeTextarea: "textarea textedit", types.ResponseTypeRadio: "radio radiobutton",
		types.ResponseTypeCheckbox: "checkbox checkbutton", types.ResponseTypeSelect: "select choice choicelist dropdown listbox",
		types.ResponseTypeNumber: "numeric decimal integer float", types.ResponseTypeDate: "date datefield", types.ResponseTypeEmail: "email emailfield",
		types.ResponseTypeButton: "button", types.ResponseTypeSignature: "signature signaturefield"} {
		for _, n := range strings.Fields(names) {
			types1[n] = t
		}
	}
	top.walk(func(x *xel) bool {
		switch x.name {
		case "template":
			s.Metadata.Title, _ = x.attr("title")
		case "field":
			q := types.Question{PageNumber: 1, Properties: map[string]interface{}{}}
			q.Name, _ = x.attr("name")
			q.ID = refID(q.Name, fmt.Sprintf("field_%d", len(s.Questions)+1))
			t, _ := x.attr("type")
			q.Type = types1[strings.ToLower(t)]
			if q.Type == "" {
				q.Type = types.ResponseTypeText
			}
			req, _ := x.attr("required")
			switch strings.ToLower(strings.TrimSpace(req)) {
			case "1", "true", "yes", "required":
				q.Required = true
			}
			acc, _ := x.attr("access")
			q.ReadOnly, q.Hidden = acc == "readOnly", acc == "hidden"
			for _, k := range []string{"x", "y", "w", "h"} {
				if v, ok := x.attr(k); ok {
					q.Properties[k] = v
					if n, ok := xfaNumber(strings.TrimSpace(v)); ok {
						q.Properties[k] = n
					}
				}
			}
			if v, ok := x.attr("page"); ok {
				if n, err := strconv.Atoi(v); err == nil {
					q.PageNumber = n
				}
			}
			trim := func(e *xel) string {
				if e == nil {
					return ""
				}
				return strings.TrimSpace(e.text())
			}
			if e := x.child("bind"); e != nil {
				if m, _ := e.attr("match"); m == "none" {
					q.Required = false
				}
			}
			q.Label = trim(x.child("label"))
			q.Description = trim(x.child("desc", "description"))
			if v := trim(x.child("value")); v != "" {
				q.Default = v
			}
			if it := x.child("items"); it != nil {
				it.walk(func(e *xel) bool {
					v := strings.TrimSpace(e.text())
					q.Options = append(q.Options, types.Option{Value: v, Label: v})
					return false
				})
			}
			if v := x.child("validate"); v != nil {
				q.Validation = &types.ValidationRules{Pattern: trim(v.child("pattern"))}
				q.Validation.CustomScript, _ = v.attr("scriptTest")
				q.Validation.ErrorMessage, _ = v.attr("messageText")
			}
			for _, k := range x.kids {
				e, ok := k.(*xel)
				if !ok || e.name != "event" {
					continue
				}
				rule := types.Rule{ID: fmt.Sprintf("rule_%d", len(s.Rules)+1), Source: q.Name, Type: types.RuleTypeCalculate}
				act, _ := e.attr("activity")
				switch strings.ToLower(act) {
				case "initialize", "enter":
					rule.Type = types.RuleTypeSetValue
				case "validate":
					rule.Type = types.RuleTypeValidate
				}
				if c := trim(e.child("script")); c != "" {
					rule.Actions = []types.Action{{Type: types.ActionTypeExecute, Script: c, Expression: c}}
				}
				s.Rules = append(s.Rules, rule)
			}
			s.Questions = append(s.Questions, q)
			return false
		}
		return true
	})
	return s, nil
}

func showQuestion(q types.Question) string {
	var v string
	if q.Validation != nil {
		v = fmt.Sprintf("%q", []string{q.Validation.Pattern, q.Validation.CustomScript, q.Validation.ErrorMessage})
	}
	var ps []string
	for k, p := range q.Properties {
		ps = append(ps, fmt.Sprintf("%s=%T(%v)", k, p, p))
	}
	sort.Strings(ps)
	var os []string
	for _, o := range q.Options {
		os = append(os, fmt.Sprintf("%q (%q, %v)", o.Value, o.Label, o.Selected))
	}
	return fmt.Sprintf("id %s name %q label %q desc %q type %s req %v ro %v hidden %v page %d default %s options %v props %v validation %s", q.ID, q.Name, q.Label, q.Description, q.Type, q.Required, q.ReadOnly, q.Hidden, q.PageNumber, showAny(q.Default), os, ps, v)
}

// refID is a name as an identifier.
func refID(name, none string) string {
	id := ""
	for _, c := range name {
		switch {
		case c < 128 && (c == '_' || unicode.IsLetter(c) || unicode.IsDigit(c)):
			id += string(c)
		case c == ' ' || c == '-':
			id += "_"
		}
	}
	if id == "" {
		return none
	}
	if id[0] >= '0' && id[0] <= '9' {
		return "field_" + id
	}
	return id
}

func (h *xhist) compareTemplate(s *types.FormSchema, want *types.FormSchema) {
	if s == nil {
		h.fail("schema", "no schema")
		return
	}
	if s.Metadata.Title != want.Metadata.Title {
		h.fail("schema-title", "title %q, want %q", s.Metadata.Title, want.Metadata.Title)
		return
	}
	if len(s.Questions) != len(want.Questions) {
		h.fail("schema", "%d questions for %d fields", len(s.Questions), len(want.Questions))
		return
	}
	for i, q := range want.Questions {
		if g, w := showQuestion(s.Questions[i]), showQuestion(q); g != w {
			h.fail("schema-question", "question %d is\n %s, want\n %s", i, clipS(g, 500), clipS(w, 500))
			return
		}
	}
	show := func(rs []types.Rule) (out []string) {
		for _, r := range rs {
			t := fmt.Sprintf("%s: %s of %q", r.ID, r.Type, r.Source)
			for _, a := range r.Actions {
				t += fmt.Sprintf(" %s %q %q", a.Type, a.Script, a.Expression)
			}
			out = append(out, t)
		}
		return
	}
	if g, w := show(s.Rules), show(want.Rules); !reflect.DeepEqual(g, w) {
		h.fail("schema-rules", "rules %s, want %s", clipS(fmt.Sprintf("%q", g), 500), clipS(fmt.Sprintf("%q", w), 500))
	}
}

// groupText is the canonical text of values and groups.
func groupText(b *strings.Builder, name string, fields map[string]interface{}, groups []types.XFAFieldGroup) {
	var names []string
	for n := range fields {
		names = append(names, n)
	}
	sort.Strings(names)
	fmt.Fprintf(b, "%q{", name)
	for _, n := range names {
		v := plainText(fields[n])
		if _, ok := fields[n].(string); ok {
			v = "s:" + v
		}
		fmt.Fprintf(b, "%q=%q ", n, v)
	}
	for _, g := range groups {
		groupText(b, g.Name, g.Fields, g.Groups)
	}
	b.WriteString("}")
}

func dataText(d *types.XFADatasets) string {
	if d == nil {
		return "nothing"
	}
	var b strings.Builder
	groupText(&b, "", d.Fields, d.Groups)
	return b.String()
}

// refDatasets are the values in a datasets packet.
func refDatasets(data []byte) (*types.XFADatasets, error) {
	top, err := readXML(data)
	if err != nil {
		return nil, err
	}
	d := &types.XFADatasets{Fields: map[string]interface{}{}}
	var section *xel
	top.walk(func(x *xel) bool {
		if x.name == "data" && section == nil {
			section = x
		}
		return section == nil
	})
	if section == nil {
		for _, f := range dataFields(top) {
			n, _ := f.attr("name")
			d.Fields[n] = fieldValueOf(f)
		}
		return d, nil
	}
	var read func(e *xel, fields map[string]interface{}) []types.XFAFieldGroup
	read = func(e *xel, fields map[string]interface{}) (gs []types.XFAFieldGroup) {
		for _, k := range e.kids {
			x, ok := k.(*xel)
			if !ok {
				continue
			}
			if x.name == "field" {
				n, _ := x.attr("name")
				fields[n] = fieldValueOf(x)
				continue
			}
			g := types.XFAFieldGroup{Name: x.name, Fields: map[string]interface{}{}}
			g.Groups = read(x, g.Fields)
			gs = append(gs, g)
		}
		return
	}
	d.Groups = read(section, d.Fields)
	return d, nil
}

func fieldValueOf(f *xel) interface{} {
	v := f.child("value")
	if v == nil {
		return ""
	}
	return typed(strings.TrimSpace(v.text()))
}

// encryption of the current document, as the library has it.
func (h *xhist) encryption() (*types.PDFEncryption, bool) {
	var pdf *parse.PDF
	var err error
	if !h.c.Call("Open", func() {
		pdf, err = parse.OpenWithOptions(h.cur.data, parse.ParseOptions{Password: h.cur.pass})
	}) {
		return nil, false
	}
	if err != nil {
		h.fail("open", "%v", err)
		return nil, false
	}
	return pdf.Encryption(), true
}

func streamsOf(s *xfa.XFAStreams) map[string]*xfa.XFAStreamInfo {
	return map[string]*xfa.XFAStreamInfo{"template": s.Template, "datasets": s.Datasets, "config": s.Config, "localeSet": s.LocaleSet, "connectionSet": s.ConnectionSet, "stylesheet": s.Stylesheet, "xmp": s.XMP, "signature": s.Signature, "sourceSet": s.SourceSet}
}

var streamNames = append([]string{"template", "datasets"}, packetNames...)

// extract reads the packets with the library and compares them.
func (h *xhist) extract(enc *types.PDFEncryption) *xfa.XFAStreams {
	var s *xfa.XFAStreams
	var err error
	if !h.c.Call("ExtractAllXFAStreams", func() { s, err = xfa.ExtractAllXFAStreams(h.cur.data, enc, false) }) {
		return nil
	}
	if len(h.pks[h.cur]) == 0 {
		if err == nil {
			h.fail("invented", "XFA streams are found in a document that has none")
		}
		return nil
	}
	if err != nil {
		h.fail("refused", "ExtractAllXFAStreams: %v", err)
		return nil
	}
	m := streamsOf(s)
	for _, n := range streamNames {
		g, w := m[n], h.packet(n)
		switch {
		case (g == nil) != (w == nil):
			h.fail("packet", "packet %s: found %v, want %v", n, g != nil, w != nil)
		case g == nil:
		case g.ObjectNumber != w.num:
			h.fail("packet", "packet %s is object %d, want %d", n, g.ObjectNumber, w.num)
		case !bytes.Equal(g.Data, w.data):
			h.fail("packet", "packet %s differs: %q, want %q", n, clip(diffAt(g.Data, w.data), 200), clip(diffAt(w.data, g.Data), 200))
		case g.Compressed != (h.cur.m.dict(Ref{w.num, 0})["Filter"] != nil):
			h.fail("packet", "packet %s: compressed %v", n, g.Compressed)
		}
		if h.c.Failed() {
			return nil
		}
	}
	h.c.Count("packets_read", len(h.pks[h.cur]))
	return s
}

func (h *xhist) read(op Op) {
	c := h.c
	h.what = "read XFA"
	enc, ok := h.encryption()
	if !ok {
		return
	}
	s := h.extract(enc)
	if c.Failed() {
		return
	}
	data, pass := h.cur.data, h.cur.pass
	ds, tp := h.packet("datasets"), h.packet("template")
	var err error
	var raw []byte
	var num int
	if !c.Call("FindXFADatasetsStream", func() { raw, num, err = xfa.FindXFADatasetsStream(data, enc, false) }) {
		return
	}
	if (err == nil) != (ds != nil) || ds != nil && (num != ds.num || !bytes.Equal(raw, ds.data)) {
		h.fail("datasets", "FindXFADatasetsStream: object %d, %d bytes, %v", num, len(raw), err)
		return
	}
	var schema *types.FormSchema
	var sets *types.XFADatasets
	if !c.Call("ExtractXFA", func() { schema, sets, err = forms.ExtractXFA(data, pass, false) }) {
		return
	}
	if s == nil {
		h.expect(err, false, "forms.ExtractXFA of a document without XFA")
		if refForm(h.cur.m) == nil || len(refForm(h.cur.m).tops) == 0 {
			var f forms.Form
			if !c.Call("forms.Extract", func() { f, err = forms.Extract(data, pass, false) }) {
				return
			}
			h.expect(err, false, fmt.Sprintf("forms.Extract of a document without forms (%v)", f))
		}
		return
	}
	if err != nil {
		h.fail("refused", "forms.ExtractXFA: %v", err)
		return
	}
	var wantS *types.FormSchema
	if tp != nil {
		if wantS, err = refTemplate(tp.data); err != nil {
			h.fail("xml", "the template is not XML any more: %v", err)
			return
		}
		c.Count("questions", len(wantS.Questions))
		h.compareTemplate(schema, wantS)
		if c.Failed() {
			return
		}
		h.roundTemplate(schema)
	} else if schema != nil {
		h.fail("schema", "a schema without a template")
	}
	var wantD *types.XFADatasets
	if ds != nil {
		if wantD, err = refDatasets(ds.data); err != nil {
			h.fail("xml", "the datasets are not XML any more: %v", err)
			return
		}
		if g, w := dataText(sets), dataText(wantD); g != w {
			h.fail("values", "the values are\n %s, want\n %s", around(g, w), around(w, g))
			return
		}
		h.roundDatasets(sets)
	} else if sets != nil {
		h.fail("values", "values without datasets")
	}
	if c.Failed() {
		return
	}
	// the common interface
	isX := tp != nil && len(tp.data) > 0
	if o := refForm(h.cur.m); o != nil && len(o.tops) > 0 {
		return // it counts as the other kind
	}
	var kind forms.FormType
	if !c.Call("forms.Detect", func() { kind, err = forms.Detect(data, pass, false) }) {
		return
	}
	if (err == nil) != isX || isX && kind != forms.FormTypeXFA {
		h.fail("detect", "forms.Detect: %q %v", kind, err)
		return
	}
	var f forms.Form
	if !c.Call("forms.Extract", func() { f, err = forms.Extract(data, pass, false) }) {
		return
	}
	if (err == nil) != isX {
		h.fail("extract", "forms.Extract: %v", err)
		return
	}
	if !isX {
		return
	}
	h.what = "read XFA through forms.Form"
	h.compareTemplate(f.Schema(), wantS)
	if wantD == nil {
		wantD = &types.XFADatasets{}
	}
	all := map[string]interface{}{}
	qualified(all, "", wantD.Fields, wantD.Groups)
	h.compareDataMap(f.GetValues(), all)
}

// qualified are values with the names of their groups.
func qualified(to map[string]interface{}, at string, fields map[string]interface{}, groups []types.XFAFieldGroup) {
	for n, v := range fields {
		if _, ok := to[at+n]; !ok {
			to[at+n] = v
		}
	}
	for i, g := range groups {
		before := 0
		for _, x := range groups[:i] {
			before += b2i(x.Name == g.Name)
		}
		name := g.Name
		if before > 0 {
			name += fmt.Sprintf("[%d]", before)
		}
		qualified(to, at+name+".", g.Fields, g.Groups)
	}
}

func (h *xhist) compareDataMap(got, want map[string]interface{}) {
	var a, b strings.Builder
	groupText(&a, "", got, nil)
	groupText(&b, "", want, nil)
	if a.String() != b.String() {
		h.fail("values", "the values are\n %s, want\n %s", around(a.String(), b.String()), around(b.String(), a.String()))
	}
}

// roundTemplate: a schema that is written as a template reads the same.
func (h *xhist) roundTemplate(s *types.FormSchema) {
	c := h.c
	var x, y string
	var err error
	keep := fmt.Sprintf("%+v", s.Questions)
	if !c.Call("FormToXFA", func() { x, err = xfa.FormToXFA(s, false) }) {
		return
	}
	if err != nil {
		h.fail("round", "FormToXFA: %v", err)
		return
	}
	if fmt.Sprintf("%+v", s.Questions) != keep {
		h.fail("argument", "FormToXFA changes the schema")
		return
	}
	c.Call("FormToXFA", func() { y, err = xfa.FormToXFA(s, false) })
	if x != y {
		h.fail("differs", "FormToXFA gives two texts")
		return
	}
	var again *types.FormSchema
	if !c.Call("ParseXFAForm", func() { again, err = xfa.ParseXFAForm(x, false) }) {
		return
	}
	if err != nil {
		h.fail("round", "the template made of the schema is not read: %v", err)
		return
	}
	want := *s
	want.Rules = again.Rules // they have no place there
	h.what = "FormToXFA and back"
	h.compareTemplate(again, &want)
}

func (h *xhist) roundDatasets(d *types.XFADatasets) {
	c := h.c
	var x, y string
	var err error
	if !c.Call("DatasetsToXFA", func() { x, err = xfa.DatasetsToXFA(d, false) }) {
		return
	}
	if err != nil {
		h.fail("round", "DatasetsToXFA: %v", err)
		return
	}
	c.Call("DatasetsToXFA", func() { y, err = xfa.DatasetsToXFA(d, false) })
	if x != y {
		h.fail("differs", "DatasetsToXFA gives two texts")
		return
	}
	var again *types.XFADatasets
	if !c.Call("ParseXFADatasets", func() { again, err = xfa.ParseXFADatasets(x, false) }) {
		return
	}
	// 1 and 0 are how true and false are written, too
	bits := strings.NewReplacer("=\"true\" ", "=\"1\" ", "=\"false\" ", "=\"0\" ")
	if g, w := bits.Replace(dataText(again)), bits.Replace(dataText(d)); err != nil || g != w {
		h.fail("round", "datasets that are written read\n %s, want\n %s (%v)", around(g, w), around(w, g), err)
	}
}

// fillTree sets the values in the tree of the datasets: the first field of each name.
func fillTree(top *xel, fd types.FormData) int {
	done := map[string]bool{}
	for _, f := range dataFields(top) {
		n, ok := f.attr("name")
		v, want := fd[n]
		if !ok || !want || done[n] {
			continue
		}
		done[n] = true
		t := xmlValid(plainText(v))
		e := f.child("value")
		if e == nil {
			e = &xel{name: "value"}
			f.kids = append(f.kids, e)
		}
		e.kids = nil
		e.addText(t)
	}
	return len(done)
}

// sameXML compares two trees.
func sameXML(a, b []byte) string {
	x, err := readXML(a)
	if err != nil {
		return fmt.Sprintf("%v in %q", err, clip(a, 300))
	}
	y, err := readXML(b)
	if err != nil {
		return err.Error()
	}
	return sameTree(x, y)
}

func sameTree(x, y *xel) string {
	if g, w := x.String(), y.String(); g != w {
		return fmt.Sprintf("\n %s, want\n %s", around(g, w), around(w, g))
	}
	return ""
}

// changed makes the model of the result, in which streams have new data, and checks it.
func (h *xhist) changed(out []byte, changes map[string]func(got []byte) string) bool {
	got := h.readOut(out, h.cur.enc, h.cur.encN)
	if got == nil {
		return false
	}
	want := h.cur.m.copyObjs()
	pks := append([]xpacket(nil), h.pks[h.cur]...)
	for i := range pks {
		p := &pks[i]
		check := changes[p.name]
		if check == nil {
			continue
		}
		g, ok := got.objs[p.num].(*Stm)
		if !ok {
			h.fail("lost", "packet %s (object %d) is %s", p.name, p.num, showVal(got.objs[p.num]))
			return false
		}
		data, err := decodeStm(g.D, g.Raw)
		if err != nil {
			h.fail("undecodable", "packet %s (object %d) does not decode: %v", p.name, p.num, err)
			return false
		}
		if t := check(data); t != "" {
			h.fail("packet", "packet %s is %s", p.name, t)
			return false
		}
		drop := []string{"Filter", "DecodeParms", "Length"}
		if w := without(want.dict(Ref{p.num, 0}), drop...); !same(zeroGen(w), without(g.D, drop...)) {
			h.fail("changed", "the dictionary of packet %s is now %s, want %s", p.name, showVal(g.D), showVal(w))
			return false
		}
		want.objs[p.num] = g
		p.data = data
	}
	got = h.checkWhole(out, want)
	if got == nil {
		return false
	}
	h.next(out, got)
	h.pks[h.cur] = pks
	return true
}

func (h *xhist) fill(op Op) {
	c := h.c
	r := NewRng(uint64(op.I(0)))
	h.what = "fill XFA"
	enc, ok := h.encryption()
	if !ok {
		return
	}
	fd := types.FormData{}
	ds := h.packet("datasets")
	var top *xel
	if ds != nil {
		var err error
		if top, err = readXML(ds.data); err != nil {
			h.fail("xml", "%v", err)
			return
		}
		fs := dataFields(top)
		if r.P(20) {
			fs = nil // any
			top.walk(func(x *xel) bool {
				if x.name == "field" {
					fs = append(fs, x)
				}
				return true
			})
		}
		for k := op.I(2) % 5; k > 0 && len(fs) > 0; k-- {
			n, _ := fs[r.N(len(fs))].attr("name")
			fd[n] = xfaAny(r)
		}
	}
	if r.P(25) {
		fd[r.Pick("no such field", "decoy", "x", "")] = "unknown"
	}
	keep := showData(fd)
	how := op.I(1) % 2
	if o := refForm(h.cur.m); o != nil && len(o.tops) > 0 {
		how = 0
	}
	if tp := h.packet("template"); tp == nil || len(tp.data) == 0 {
		how = 0
	}
	name := []string{"UpdateXFAInPDF", "forms.Form.Fill"}[how]
	h.what = fmt.Sprintf("%s(%s)", name, keep)
	data, pass := h.cur.data, h.cur.pass
	var out []byte
	var err error
	fillIt := func() {
		if how == 0 {
			out, err = xfa.UpdateXFAInPDF(data, fd, enc, false)
			return
		}
		var f forms.Form
		f, err = forms.Extract(data, pass, false)
		if err == nil {
			if op.I(0)%3 == 0 {
				pass = nil // it knows it
			}
			out, err = f.Fill(data, fd, pass, false)
		}
	}
	if !c.Call(name, fillIt) {
		return
	}
	if showData(fd) != keep {
		h.fail("argument", "the form data is now %s", showData(fd))
		return
	}
	if ds == nil {
		h.expect(err, false, "filling a form without datasets")
		return
	}
	if err != nil {
		if !c.randomFailed() {
			h.fail("refused", "%v", err)
		}
		return
	}
	n := fillTree(top, fd)
	c.Count("values_filled", n)
	first := out
	if !h.changed(out, map[string]func([]byte) string{"datasets": func(got []byte) string {
		g, err := readXML(got)
		if err != nil {
			return fmt.Sprintf("%v in %q", err, clip(got, 300))
		}
		return sameTree(g, top)
	}}) {
		return
	}
	if len(c.sc.RandFail) == 0 && h.cur.enc == nil && op.I(2)%3 == 0 {
		c.Call(name, fillIt)
		if !bytes.Equal(out, first) {
			h.fail("differs", "filling the same again gives other bytes: %q and %q", clip(diffAt(first, out), 150), clip(diffAt(out, first), 150))
		}
	}
}

func xfaAny(r *Rng) interface{} {
	switch r.N(12) {
	case 0:
		return r.N(2000) - 500
	case 1:
		return float64(r.N(100000)) / 64
	case 2:
		return r.P(50)
	case 3:
		return nil
	case 4:
		return formValue(r)
	}
	return xfaValue(r)
}

// text: the same on the XML alone.
func (h *xhist) text(op Op) {
	c := h.c
	r := NewRng(uint64(op.I(0)))
	src := genDatasets(r, true)
	top, err := readXML(src)
	if err != nil {
		h.fail("xml", "%v", err)
		return
	}
	fd := types.FormData{}
	top.walk(func(x *xel) bool {
		if n, _ := x.attr("name"); x.name == "field" && r.P(40) {
			fd[n] = xfaAny(r) // also those outside of the data
		}
		return true
	})
	h.what = fmt.Sprintf("UpdateXFAValues(%s)", showData(fd))
	var out string
	if !c.Call("UpdateXFAValues", func() { out, err = xfa.UpdateXFAValues(string(src), fd, false) }) {
		return
	}
	if err != nil {
		h.fail("refused", "%v", err)
		return
	}
	if len(fd) == 0 && out != string(src) {
		h.fail("touched", "nothing is filled and the text has changed")
		return
	}
	fillTree(top, fd)
	g, err := readXML([]byte(out))
	if err != nil {
		h.fail("packet", "the result is not XML: %v in %q", err, clipS(out, 400))
		return
	}
	if t := sameTree(g, top); t != "" {
		h.fail("packet", "the result is %s", t)
	}
}

// fieldList: the fields of a plain list of fields.
func (h *xhist) fieldList(op Op) {
	c := h.c
	r := NewRng(uint64(op.I(0)))
	src := genFieldList(r)
	top, err := readXML(src)
	if err != nil {
		h.fail("xml", "%v", err)
		return
	}
	h.what = "ParseXFAFields"
	var got []types.FormField
	if !c.Call("ParseXFAFields", func() { got, err = parse.ParseXFAFields(string(src), false) }) {
		return
	}
	if err != nil {
		h.fail("refused", "%v", err)
		return
	}
	var want []types.FormField
	kinds := map[string]string{}
	for _, k := range []string{"text textfield", "textarea textedit", "radio radiobutton", "checkbox checkbutton", "select choice dropdown", "number numeric decimal integer", "date datefield", "email emailfield", "button", "signature signaturefield"} {
		ns := strings.Fields(k)
		for _, n := range ns {
			kinds[n] = ns[0]
		}
	}
	delete(kinds, "number")
	top.walk(func(x *xel) bool {
		if x.name != "field" {
			return true
		}
		none := fmt.Sprintf("field_%d", len(want)+1)
		f := types.FormField{ID: none, Name: none, Type: "text", Properties: map[string]interface{}{}}
		n, ok := x.attr("name")
		if e := x.child("name"); e != nil {
			n, ok = strings.TrimSpace(e.text()), true
		}
		if ok && n != "" {
			f.Name, f.ID = n, refID(n, "field")
		}
		f.FullName = f.Name
		if t, ok := x.attr("type"); ok && kinds[strings.ToLower(t)] != "" {
			f.Type = kinds[strings.ToLower(t)]
		}
		switch v, _ := x.attr("required"); strings.ToLower(v) {
		case "1", "true", "required":
			f.Required = true
		}
		acc, _ := x.attr("access")
		f.ReadOnly = acc == "readOnly"
		for _, k := range []string{"x", "y", "w", "h"} {
			if v, ok := x.attr(k); ok {
				f.Properties[k] = v
			}
		}
		if e := x.child("value"); e != nil && e.text() != "" {
			f.DefaultValue = strings.TrimSpace(e.text())
		}
		if e := x.child("label"); e != nil && e.text() != "" {
			f.Properties["label"] = strings.TrimSpace(e.text())
		}
		want = append(want, f)
		return false
	})
	if len(got) != len(want) {
		h.fail("fields", "%d of %d fields", len(got), len(want))
		return
	}
	for i := range want {
		if g, w := fmt.Sprintf("%#v", got[i]), fmt.Sprintf("%#v", want[i]); g != w {
			h.fail("fields", "field %d is\n %s, want\n %s", i, around(g, w), around(w, g))
			return
		}
	}
	c.Count("fields_listed", len(want))
}

// made: a schema and values of the caller's own, written and read again.
func (h *xhist) made(op Op) {
	c := h.c
	r := NewRng(uint64(op.I(0)))
	text := func() string {
		if r.P(30) {
			return ""
		}
		return strings.TrimSpace(xfaValue(r))
	}
	s := &types.FormSchema{}
	s.Metadata.Title = text()
	kinds := []types.ResponseType{types.ResponseTypeText, types.ResponseTypeTextarea, types.ResponseTypeRadio, types.ResponseTypeCheckbox, types.ResponseTypeSelect,
		types.ResponseTypeNumber, types.ResponseTypeDate, types.ResponseTypeEmail, types.ResponseTypeButton, types.ResponseTypeSignature}
	for k := r.N(6); k >= 0; k-- {
		q := types.Question{Name: xfaWords[r.N(len(xfaWords))] + r.Pick("", "1", "x"), Label: text(), Description: text(), Type: kinds[r.N(len(kinds))],
			Required: r.P(40), ReadOnly: r.P(25), Hidden: r.P(25), PageNumber: r.Pick2(r.N(4), r.N(4), 255+r.N(3), r.N(100000))}
		if r.P(60) {
			q.Default = xfaAny(r)
		}
		for n := r.N(5) - 1; n > 0; n-- {
			v := strings.TrimSpace(xfaValue(r))
			l := v
			if r.P(25) {
				l = text() // which has no place there
			}
			q.Options = append(q.Options, types.Option{Value: v, Label: l})
		}
		if r.P(40) {
			q.Properties = map[string]interface{}{}
			for _, k := range []string{"x", "y", "w", "h"} {
				switch r.N(4) {
				case 0:
					q.Properties[k] = float64(r.N(9000)-900) / 16
				case 1:
					q.Properties[k] = r.N(300)
				case 2:
					q.Properties[k] = fmt.Sprintf("%dmm", r.N(200))
				}
			}
		}
		if r.P(40) {
			q.Validation = &types.ValidationRules{Pattern: text(), CustomScript: text(), ErrorMessage: text()}
		}
		s.Questions = append(s.Questions, q)
		if r.P(20) {
			s.Rules = append(s.Rules, types.Rule{ID: "r", Source: q.Name, Type: types.RuleTypeCalculate, Actions: []types.Action{{Type: types.ActionTypeExecute, Script: text()}}})
		}
	}
	var x string
	var err error
	h.what = "FormToXFA of a schema of the caller's"
	if !c.Call("FormToXFA", func() { x, err = xfa.FormToXFA(s, false) }) {
		return
	}
	if err != nil {
		h.fail("round", "%v", err)
		return
	}
	var again *types.FormSchema
	if !c.Call("ParseXFAForm", func() { again, err = xfa.ParseXFAForm(x, false) }) {
		return
	}
	if err != nil {
		h.fail("round", "it is not read: %v", err)
		return
	}
	want := &types.FormSchema{Metadata: s.Metadata, Rules: again.Rules}
	for _, q := range s.Questions {
		q.ID = refID(q.Name, fmt.Sprintf("field_%d", len(want.Questions)+1))
		q.Hidden = q.Hidden && !q.ReadOnly
		if q.PageNumber == 0 {
			q.PageNumber = 1
		}
		if t := strings.TrimSpace(xmlValid(plainText(q.Default))); t == "" {
			q.Default = nil
		} else {
			q.Default = t
		}
		ps := map[string]interface{}{}
		for _, k := range []string{"x", "y", "w", "h"} {
			switch v := q.Properties[k].(type) {
			case int:
				ps[k] = float64(v)
			case nil:
			default:
				ps[k] = v
			}
		}
		q.Properties = ps
		q.Options = append([]types.Option(nil), q.Options...)
		for i := range q.Options {
			q.Options[i].Label = q.Options[i].Value
		}
		want.Questions = append(want.Questions, q)
	}
	h.compareTemplate(again, want)
	if c.Failed() {
		return
	}

	var group func(depth int) (map[string]interface{}, []types.XFAFieldGroup)
	group = func(depth int) (fs map[string]interface{}, gs []types.XFAFieldGroup) {
		fs = map[string]interface{}{}
		for n := r.N(4); n > 0; n-- {
			fs[xfaWords[r.N(len(xfaWords))]+r.Pick("", "1", "x")] = xfaAny(r)
		}
		for n := r.N(3); n > 0 && depth < 4; n-- {
			g := types.XFAFieldGroup{Name: xfaGroups[r.N(len(xfaGroups))]}
			g.Fields, g.Groups = group(depth + 1)
			gs = append(gs, g)
		}
		return
	}
	d := &types.XFADatasets{}
	d.Fields, d.Groups = group(0)
	h.what = "DatasetsToXFA of values of the caller's"
	if !c.Call("DatasetsToXFA", func() { x, err = xfa.DatasetsToXFA(d, false) }) {
		return
	}
	if err != nil {
		h.fail("round", "%v", err)
		return
	}
	var back *types.XFADatasets
	if !c.Call("ParseXFADatasets", func() { back, err = xfa.ParseXFADatasets(x, false) }) {
		return
	}
	var read func(fs map[string]interface{}, gs []types.XFAFieldGroup) (map[string]interface{}, []types.XFAFieldGroup)
	read = func(fs map[string]interface{}, gs []types.XFAFieldGroup) (map[string]interface{}, []types.XFAFieldGroup) {
		out := map[string]interface{}{}
		for k := range fs {
			out[k] = typed(strings.TrimSpace(xmlValid(plainText(fs[k]))))
		}
		var og []types.XFAFieldGroup
		for _, g := range gs {
			ng := types.XFAFieldGroup{Name: g.Name}
			ng.Fields, ng.Groups = read(g.Fields, g.Groups)
			og = append(og, ng)
		}
		return out, og
	}
	w := &types.XFADatasets{}
	w.Fields, w.Groups = read(d.Fields, d.Groups)
	if g, w := dataText(back), dataText(w); err != nil || g != w {
		h.fail("round", "they read\n %s, want\n %s (%v)", around(g, w), around(w, g), err)
	}
}

// rebuildXFA rebuilds the document with packets of which some are new.
func (h *xhist) rebuildXFA(op Op) {
	c := h.c
	h.what = "RebuildPDFFromXFAStreams"
	enc, ok := h.encryption()
	if !ok {
		return
	}
	s := h.extract(enc)
	if s == nil || c.Failed() {
		return
	}
	r := NewRng(uint64(op.I(0)))
	m := streamsOf(s)
	changes := map[string]func([]byte) string{}
	for _, n := range streamNames {
		p := m[n]
		if p == nil {
			continue
		}
		if r.P(40) {
			if d := genPacket(r, n); len(d) > 0 {
				p.Data = d
			}
		}
		want := append([]byte(nil), p.Data...)
		if len(want) > 0 {
			changes[n] = func(got []byte) string {
				if !bytes.Equal(got, want) {
					return fmt.Sprintf("%q, want %q", clip(diffAt(got, want), 200), clip(diffAt(want, got), 200))
				}
				return ""
			}
		}
	}
	if r.P(15) && s.Template != nil {
		s.Template = nil // and stays as it is
		delete(changes, "template")
	}
	var out []byte
	var err error
	if !c.Call(h.what, func() { out, err = xfa.RebuildPDFFromXFAStreams(h.cur.data, s, enc, false) }) {
		return
	}
	if err != nil {
		if !c.randomFailed() {
			h.fail("refused", "%v", err)
		}
		return
	}
	h.changed(out, changes)
}

// alone makes a document of the packets only.
func (h *xhist) alone() {
	c := h.c
	h.what = "BuildPDFFromXFAStreams"
	enc, ok := h.encryption()
	if !ok {
		return
	}
	s := h.extract(enc)
	if s == nil || c.Failed() {
		return
	}
	var out []byte
	var err error
	if !c.Call(h.what, func() { out, err = xfa.BuildPDFFromXFAStreams(s, false) }) {
		return
	}
	if err != nil {
		h.fail("refused", "%v", err)
		return
	}
	f, err := ReadFile(out)
	if err == nil {
		err = f.LoadObjStms()
	}
	if err != nil {
		h.fail("unreadable", "an independent reader cannot read the result: %v", err)
		return
	}
	got := map[string]string{}
	a, _ := f.Get(f.D(f.D(f.Trailer["Root"])["AcroForm"])["XFA"]).(Arr)
	for i := 0; i+1 < len(a); i += 2 {
		n, _ := a[i].(Str)
		ref, _ := a[i+1].(Ref)
		d, err := f.Decode(ref.N)
		if err != nil {
			h.fail("undecodable", "packet %s: %v", n, err)
			return
		}
		got[string(n)] = string(d)
	}
	want := map[string]string{}
	for n, p := range streamsOf(s) {
		if p != nil && len(p.Data) > 0 {
			want[n] = string(p.Data)
		}
	}
	if !reflect.DeepEqual(got, want) {
		h.fail("packet", "the result has the packets %s, want %s", clipS(fmt.Sprintf("%q", got), 500), clipS(fmt.Sprintf("%q", want), 500))
		return
	}
	if len(want) == 0 {
		return
	}
	var again *xfa.XFAStreams
	if !c.Call("ExtractAllXFAStreams", func() { again, err = xfa.ExtractAllXFAStreams(out, nil, false) }) {
		return
	}
	if err != nil {
		h.fail("reopen", "%v", err)
		return
	}
	for n, p := range streamsOf(again) {
		if (p != nil) != (want[n] != "") || p != nil && string(p.Data) != want[n] {
			h.fail("reopen", "the library reads another packet %s", n)
		}
	}
}

// replaceStream replaces the data of one stream.
func (h *xhist) replaceStream(op Op) {
	c := h.c
	if h.cur.enc != nil {
		return
	}
	h.what = "ReplaceStreamInPDF"
	r := NewRng(uint64(op.I(0)))
	var nums []int
	for _, n := range sortedNums(h.cur.m.objs) {
		if _, ok := h.cur.m.objs[n].(*Stm); ok {
			nums = append(nums, n)
		}
	}
	for _, p := range h.pks[h.cur] {
		nums = append(nums, p.num, p.num)
	}
	if len(nums) == 0 {
		return
	}
	n := nums[r.N(len(nums))]
	s, ok := h.cur.m.objs[n].(*Stm)
	if !ok {
		return
	}
	pks := append([]xpacket(nil), h.pks[h.cur]...)
	raw := r.Bytes(r.N(60))
	if r.P(30) {
		raw = append(raw, "\nendstream\nendobj"...)
	}
	is := false
	for i := range pks {
		if pks[i].num != n {
			continue
		}
		is = true
		if d, ok := s.D["Filter"]; ok && (d != Name("FlateDecode") || s.D["DecodeParms"] != nil) {
			return
		}
		pks[i].data = genPacket(r, pks[i].name)
		raw = pks[i].data
		if s.D["Filter"] != nil {
			var err error
			if !c.Call("CompressStream", func() { raw, err = xfa.CompressStream(pks[i].data) }) || err != nil {
				h.fail("refused", "CompressStream: %v", err)
				return
			}
			var back []byte
			if !c.Call("DecompressStream", func() { back, _, err = xfa.DecompressStream(raw) }) {
				return
			}
			if err != nil || !bytes.Equal(back, pks[i].data) {
				h.fail("round", "DecompressStream gives %q %v, want %q", clip(back, 200), err, clip(pks[i].data, 200))
				return
			}
		}
	}
	if !is && s.D["Type"] != nil && s.D["Type"] != Name("XObject") {
		return
	}
	keep := append([]byte(nil), raw...)
	var out []byte
	var err error
	if !c.Call(h.what, func() { out, err = xfa.ReplaceStreamInPDF(h.cur.data, n, raw, false) }) {
		return
	}
	if !bytes.Equal(raw, keep) {
		h.fail("argument", "the caller's stream is changed")
		return
	}
	if err != nil {
		h.fail("refused", "%v", err)
		return
	}
	want := h.cur.m.copyObjs()
	want.objs[n] = &Stm{D: s.D, Raw: keep}
	got := h.checkWhole(out, want)
	if got == nil {
		return
	}
	h.next(out, got)
	h.pks[h.cur] = pks
	if !c.Call(h.what, func() { _, err = xfa.ReplaceStreamInPDF(h.cur.data, 1<<20, raw, false) }) {
		return
	}
	h.expect(err, false, "replacing a stream that is not there")
}

func (h *xhist) wrong() {
	if h.cur.enc == nil {
		return
	}
	c := h.c
	h.what = "wrong password"
	pass := []byte("definitely not this one")
	var err error
	var kind forms.FormType
	c.Call("ExtractXFA", func() { _, _, err = forms.ExtractXFA(h.cur.data, pass, false) })
	h.expect(err, false, "ExtractXFA with a wrong password")
	c.Call("forms.Extract", func() { _, err = forms.Extract(h.cur.data, pass, false) })
	h.expect(err, false, "forms.Extract with a wrong password")
	c.Call("forms.Detect", func() { kind, err = forms.Detect(h.cur.data, pass, false) })
	h.expect(err, false, fmt.Sprintf("forms.Detect (%s) with a wrong password", kind))
}

// spoiled: the same document with one more revision, in which a packet does not decode.
func (h *xhist) spoiled(op Op) {
	c := h.c
	r := NewRng(uint64(op.I(0)))
	d := h.cur
	pks := h.pks[d]
	if d.enc != nil || len(pks) == 0 || len(c.sc.Faults) > 0 {
		return
	}
	f, err := ReadFile(d.data)
	if err != nil {
		return
	}
	root, ok := f.Trailer["Root"].(Ref)
	if !ok {
		return
	}
	pk := pks[r.N(len(pks))]
	if pk.num == 0 {
		return
	}
	prev := bytes.LastIndex(d.data, []byte("startxref")) + 9
	prevOff := strings.Fields(string(d.data[prev:]))[0]
	body, filter := "this is not compressed at all", "FlateDecode"
	switch r.N(4) {
	case 0:
		body, filter = "68 65 6c zz>", "ASCIIHexDecode"
	case 1:
		body, filter = "87cURD]zz~{}", "NoSuchDecode"
	case 2:
		body = "\x78\x9c\xff\xff\xff\xff"
	}
	out := append([]byte(nil), d.data...)
	out = append(out, '\n')
	off := len(out)
	out = append(out, fmt.Sprintf("%d %d obj\n<</Length %d/Filter/%s>>stream\n%s\nendstream\nendobj\n", pk.num, f.Gens[pk.num], len(body), filter, body)...)
	x := len(out)
	out = append(out, fmt.Sprintf("xref\n%d 1\n%010d %05d n\r\ntrailer\n<</Size %d/Root %d %d R/Prev %s>>\nstartxref\n%d\n%%%%EOF\n", pk.num, off, f.Gens[pk.num], f.Trailer["Size"], root.N, root.G, prevOff, x)...)
	h.what = fmt.Sprintf("packet %s (object %d) does not decode (%s)", pk.name, pk.num, filter)
	c.Count("packets_spoiled", 1)
	keep := append([]byte(nil), out...)
	c.Call("ExtractAllXFAStreams", func() { _, err = xfa.ExtractAllXFAStreams(out, nil, false) })
	h.expect(err, false, "ExtractAllXFAStreams")
	c.Call("ExtractXFA", func() { _, _, err = forms.ExtractXFA(out, nil, false) })
	h.expect(err, false, "forms.ExtractXFA")
	if pk.name == "datasets" {
		c.Call("UpdateXFAInPDF", func() { _, err = xfa.UpdateXFAInPDF(out, types.FormData{"x": "y"}, nil, false) })
		h.expect(err, false, "UpdateXFAInPDF")
		c.Call("FindXFADatasetsStream", func() { _, _, err = xfa.FindXFADatasetsStream(out, nil, false) })
		h.expect(err, false, "FindXFADatasetsStream")
	}
	if !bytes.Equal(out, keep) {
		h.fail("argument", "the document has changed")
	}
}

func execXFA(c *Ctx) {
	c.limit = 400_000_000
	ops, rest := splitDocs(c.sc.Ops)
	if len(ops) == 0 {
		return
	}
	b := buildPages(ops[0])
	h := &xhist{phist: &phist{c: c}, pks: map[*pdoc][]xpacket{}}
	d, rev := docOf(c, b)
	c.Begin()
	defer c.End()
	if d.dead {
		fd := types.FormData{"x": "y"}
		c.Call("ExtractAllXFAStreams", func() { xfa.ExtractAllXFAStreams(d.data, nil, false) })
		c.Call("UpdateXFAInPDF", func() { xfa.UpdateXFAInPDF(d.data, fd, nil, false) })
		c.Call("forms.Extract", func() { forms.Extract(d.data, d.pass, false) })
		c.Call("ReplaceStreamInPDF", func() { xfa.ReplaceStreamInPDF(d.data, 1, []byte("x"), false) })
		return
	}
	h.docs = []*pdoc{d}
	h.cur = d
	h.pks[d] = b.xhist[rev-1]
	c.Shape("xfa", len(h.pks[d]), len(b.snaps), rev, b.enc != nil)
	n := 0
	for _, op := range rest {
		c.Count("op:"+op.K, 1)
		switch op.K {
		case "read":
			h.read(op)
		case "fill":
			h.fill(op)
		case "text":
			h.text(op)
		case "made":
			h.made(op)
		case "fields":
			h.fieldList(op)
		case "rebuild":
			h.rebuildXFA(op)
		case "alone":
			h.alone()
		case "replace":
			h.replaceStream(op)
		case "wrong":
			h.wrong()
		case "spoiled":
			h.spoiled(op)
		case "settings":
			h.settings()
		case "edit":
			h.edit(op)
		case "first":
			h.cur = h.docs[op.I(0)%len(h.docs)]
		}
		n++
		c.Shape(op.K, op.I(1)%2)
		if c.Failed() {
			return
		}
	}
	for _, d := range h.docs {
		if !bytes.Equal(d.data, d.orig) {
			c.Fail("input", "the caller's document was changed")
		}
	}
	c.res.Nontrivial = n > 0
}

// docOf is the document of a run, with its tail torn if there is such a fault; rev is
// the number of the revision that survives.
func docOf(c *Ctx, b *pbuild) (d *pdoc, rev int) {
	d = &pdoc{data: b.b, enc: b.enc, encN: b.encN}
	rev = len(b.snaps)
	if b.enc != nil {
		d.pass = []byte(b.pass[c.sc.P["owner"]])
		if b.pass[1] == "" {
			d.pass = []byte(b.pass[0])
		}
	}
	for _, f := range c.sc.Faults {
		d.data, rev = tear(b.docBuilder, f)
		c.Count("fault:torn_append:"+f.K, 1)
		break
	}
	d.orig = append([]byte(nil), d.data...)
	if d.dead = rev == 0; !d.dead {
		d.m = modelOf(b.docBuilder, b.snaps[rev-1])
	}
	return d, rev
}

func genXFA(r *Rng, sc *Scenario, i int) {
	seed := func() int64 { return int64(r.U64() >> 20) }
	var ops []Op
	commits := 0
	for _, op := range genPageOps(r, 3, true) {
		if op.K == "commit" {
			if commits == 0 && r.P(15) {
				for k := 1 + r.N(2); k > 0; k-- {
					ops = append(ops, Op{K: "field", A: []int64{int64(r.N(6)), seed()}})
				}
			}
			if commits == 0 && r.P(94) {
				ops = append(ops, Op{K: "xfa", A: []int64{int64(r.N(12)), seed()}})
			} else {
				for k := r.N(3); k > 0; k-- {
					ops = append(ops, Op{K: r.Pick("xset", "xset", "xfa"), A: []int64{int64(r.N(9)), seed()}})
				}
			}
			commits++
		}
		ops = append(ops, op)
	}
	if r.P(30) {
		for k := 1 + r.N(3); k > 0; k-- {
			ops = append(ops, Op{K: "xset", A: []int64{int64(r.N(9)), seed()}})
		}
		ops = append(ops, Op{K: "commit", A: []int64{seed(), int64(r.N(2))}})
	}
	sc.Ops = append(append(sc.Ops, ops...), Op{K: "go"})
	sc.P["owner"] = int64(r.N(2))
	read := func() { sc.Ops = append(sc.Ops, Op{K: "read", A: []int64{seed()}}) }
	if r.P(60) {
		read()
	}
	for k := 1 + r.N(5); k > 0; k-- {
		switch r.N(12) {
		case 0, 1, 2, 3, 4:
			sc.Ops = append(sc.Ops, Op{K: "fill", A: []int64{seed(), int64(r.N(2)), int64(r.N(6))}})
			if r.P(60) {
				read()
			}
		case 5, 6:
			sc.Ops = append(sc.Ops, Op{K: "rebuild", A: []int64{seed()}})
			if r.P(50) {
				read()
			}
		case 7:
			sc.Ops = append(sc.Ops, Op{K: "alone"})
		case 8:
			sc.Ops = append(sc.Ops, Op{K: "replace", A: []int64{seed()}})
		case 9:
			sc.Ops = append(sc.Ops, Op{K: r.Pick("wrong", "text", "made", "spoiled", "spoiled"), A: []int64{seed()}})
		case 10:
			sc.Ops = append(sc.Ops, Op{K: "first", A: []int64{int64(r.N(4))}})
		default:
			sc.Ops = append(sc.Ops, Op{K: r.Pick("text", "made", "fields"), A: []int64{seed()}})
		}
	}
	if r.P(25) {
		f := Fault{K: r.Pick("cut", "cut", "zero", "junk"), A: []int64{int64(r.N(1001)), seed(), int64(r.N(3))}}
		if r.P(35) {
			f.A[0] = -int64(1 + r.N(60))
		}
		sc.Faults = append(sc.Faults, f)
	}
	if r.P(8) {
		sc.RandFail = append(sc.RandFail, r.N(40))
	}
}

func init() {
	register(&Prop{
		ID: "C12", Level: "exploration",
		Gen: genXFA, Exec: execXFA,
		Quick: 6000, Thorough: 300000,
		Rule: "one evaluation is one simulated history of reading, filling and rebuilding the XFA form of a generated document, compared after every step with a reference reading of its packets and with a model of the rest of the document; it counts as non-trivial when at least one step ran",
		Real: []string{"forms", "forms/xfa", "core/write (XFABuilder)", "core/manipulate", "core/parse", "core/encrypt"},
		Stub: []string{"the writer of the input documents (independent)", "the disk that loses the tail of the last append", "the random source", "map iteration order"},
	})
}
