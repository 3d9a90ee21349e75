package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
)

// C11: histories of reading, filling and flattening forms.

func showAny(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "none"
	case []interface{}:
		var s []string
		for _, e := range x {
			s = append(s, showAny(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	case []string:
		return fmt.Sprintf("%q", x)
	case string:
		return clipS(strconv.Quote(x), 200)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

// compareTree compares the fields the library has read with the reference.
func (h *phist) compareTree(got []*acroform.Field, want []*rfield, gotUp *acroform.Field, path string) bool {
	if len(got) != len(want) {
		h.fail("fields", "%s has %d fields, want %d", path, len(got), len(want))
		return false
	}
	for i, w := range want {
		g := got[i]
		at := fmt.Sprintf("field %d (object %d, %q)", i, w.num, w.full())
		diff := func(what string, a, b interface{}) bool {
			h.fail("field-"+what, "%s: %s is %s, want %s", at, what, showAny(a), showAny(b))
			return false
		}
		if g.ObjectNum != w.num || g.Generation != w.gen {
			return diff("object", g.ObjectNum, w.num)
		}
		if g.Parent != gotUp {
			return diff("parent", g.Parent, gotUp)
		}
		for _, c := range []struct {
			what string
			a, b interface{}
		}{{"T", g.T, w.t}, {"TU", g.TU, w.tu}, {"TM", g.TM, w.tm}, {"FT", g.FT, w.ft}, {"DA", g.DA, w.da}, {"Ff", g.Ff, w.ff}, {"Q", g.Q, w.q}, {"MaxLen", g.MaxLen, w.maxLen}, {"TI", g.TI, w.ti}, {"name", g.GetFullName(), w.full()}, {"V", g.V, w.v}, {"DV", g.DV, w.dv}} {
			if !reflect.DeepEqual(c.a, c.b) {
				return diff(c.what, c.a, c.b)
			}
		}
		if len(g.Opt)+len(w.opt) > 0 && !reflect.DeepEqual(g.Opt, w.opt) {
			return diff("Opt", g.Opt, w.opt)
		}
		if fmt.Sprint(g.I) != fmt.Sprint(w.sel) {
			return diff("I", fmt.Sprint(g.I), fmt.Sprint(w.sel))
		}
		if fmt.Sprint(g.Rect) != fmt.Sprint(w.rect) {
			return diff("Rect", fmt.Sprint(g.Rect), fmt.Sprint(w.rect))
		}
		if !h.compareTree(g.Kids, w.kids, g, at) {
			return false
		}
	}
	return true
}

func (o *rform) values() map[string]interface{} {
	m := map[string]interface{}{}
	for _, f := range o.all {
		if n := f.full(); n != "" && f.v != nil && f.terminal() {
			if _, ok := m[n]; !ok {
				m[n] = f.v
			}
		}
	}
	return m
}

func (h *phist) compareValues(got, want map[string]interface{}) {
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if g, ok := got[n]; !ok || !reflect.DeepEqual(g, want[n]) {
			h.fail("value", "the value of %q is %s, want %s", n, showAny(g), showAny(want[n]))
			return
		}
	}
	if len(got) != len(want) {
		h.fail("value", "%d values, want %d", len(got), len(want))
	}
}

func (h *phist) compareSchema(s *types.FormSchema, o *rform) {
	var want []*rfield
	for _, f := range o.all {
		if f.terminal() {
			want = append(want, f)
		}
	}
	if len(s.Questions) != len(want) {
		h.fail("schema", "%d questions for %d fields", len(s.Questions), len(want))
		return
	}
	for i, f := range want {
		q := s.Questions[i]
		kind := map[string]types.ResponseType{"Tx": types.ResponseTypeText, "Ch": types.ResponseTypeSelect, "Sig": types.ResponseTypeSignature, "": types.ResponseTypeUnknown}[f.ft]
		if f.ft == "Btn" {
			switch {
			case f.ff&(1<<16) != 0:
				kind = types.ResponseTypeButton
			case f.ff&(1<<15) != 0:
				kind = types.ResponseTypeRadio
			default:
				kind = types.ResponseTypeCheckbox
			}
		}
		maxLen := 0
		if q.Validation != nil && q.Validation.MaxLength != nil {
			maxLen = *q.Validation.MaxLength
		}
		for _, c := range []struct {
			what string
			a, b interface{}
		}{{"ID", q.ID, fmt.Sprintf("field_%d", f.num)}, {"Name", q.Name, f.full()}, {"Label", q.Label, f.tu}, {"Type", string(q.Type), string(kind)}, {"Required", q.Required, f.ff&2 != 0}, {"ReadOnly", q.ReadOnly, f.ff&1 != 0}, {"Default", q.Default, f.dv}, {"MaxLength", maxLen, f.maxLen}, {"Options", len(q.Options), len(f.opt)}} {
			if !reflect.DeepEqual(c.a, c.b) {
				h.fail("schema-"+c.what, "question %d (object %d, %q): %s is %s, want %s", i, f.num, f.full(), c.what, showAny(c.a), showAny(c.b))
				return
			}
		}
		for k, opt := range f.opt {
			v, l := optOf(opt)
			g := q.Options[k]
			if g.Value != v || g.Label != l {
				h.fail("schema-option", "question %q: option %d is %q (%q), want %q (%q)", f.full(), k, g.Value, g.Label, v, l)
				return
			}
			if sel := f.selected(k, v); f.ft == "Ch" && g.Selected != sel {
				h.fail("schema-selected", "question %q: selected is %v for option %d (%q), want %v", f.full(), g.Selected, k, v, sel)
				return
			}
		}
		if len(f.rect) == 4 {
			if x, _ := q.Properties["x"].(float64); x != f.rect[0] {
				h.fail("schema-rect", "question %q: x is %v, want %v", f.full(), q.Properties["x"], f.rect[0])
			} else if w, _ := q.Properties["width"].(float64); w != f.rect[2]-f.rect[0] {
				h.fail("schema-rect", "question %q: width is %v, want %v", f.full(), q.Properties["width"], f.rect[2]-f.rect[0])
			}
		}
	}
}

func optOf(opt interface{}) (v, l string) {
	if p, ok := opt.([]interface{}); ok && len(p) == 2 {
		v, _ = p[0].(string)
		l, _ = p[1].(string)
		return
	}
	v, _ = opt.(string)
	return v, v
}

func (f *rfield) selected(k int, v string) bool {
	switch x := f.v.(type) {
	case string:
		return x == v
	case []interface{}:
		for _, e := range x {
			if e == v {
				return true
			}
		}
		return false
	}
	for _, s := range f.sel {
		if s == k {
			return true
		}
	}
	return false
}

// formCheck is what validation has to report: a name and what is wrong with it.
func (o *rform) validate(data map[string]interface{}) []string {
	var names, out []string
	for n := range data {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := o.find(n)
		if f == nil {
			out = append(out, "unknown "+n)
			continue
		}
		if !f.valid(data[n]) {
			out = append(out, "bad "+f.full())
		}
	}
	for _, f := range o.all {
		if _, ok := data[f.full()]; !ok && f.terminal() && f.ff&2 != 0 {
			out = append(out, "missing "+f.full())
		}
	}
	return out
}

func (f *rfield) valid(v interface{}) bool {
	if f.ff&2 != 0 && (v == nil || v == "") {
		return false
	}
	if v == nil {
		return true
	}
	switch f.ft {
	case "Tx":
		return f.maxLen <= 0 || utf8.RuneCountInString(textOf(v)) <= f.maxLen
	case "Btn":
		if f.ff&(1<<15) == 0 || f.ff&(1<<16) != 0 || len(f.opt) == 0 {
			return true
		}
		for _, opt := range f.opt {
			if o, _ := optOf(opt); o == fmt.Sprintf("%v", v) {
				return true
			}
		}
		return false
	case "Ch":
		if len(f.opt) == 0 {
			return true
		}
		vs := []interface{}{v}
		switch x := v.(type) {
		case []string:
			vs = nil
			for _, e := range x {
				vs = append(vs, e)
			}
		case []interface{}:
			vs = x
		}
		for _, v := range vs {
			ok := false
			for _, opt := range f.opt {
				o, _ := optOf(opt)
				ok = ok || o == textOf(v)
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

func (h *phist) formRead(op Op) {
	c := h.c
	m := h.cur.m
	o := refForm(m)
	h.what = "read"
	var af *acroform.AcroForm
	var err error
	data, pass := h.cur.data, h.cur.pass
	r := NewRng(uint64(op.I(0)))
	switch op.I(1) % 3 {
	case 0:
		if !c.Call("ExtractAcroForm", func() { af, err = acroform.ExtractAcroForm(data, pass, false) }) {
			return
		}
	case 1:
		if !c.Call("forms.ExtractAcroForm", func() { af, err = forms.ExtractAcroForm(data, pass, false) }) {
			return
		}
	case 2:
		var pdf *parse.PDF
		if !c.Call("Open", func() { pdf, err = parse.OpenWithOptions(data, parse.ParseOptions{Password: pass}) }) {
			return
		}
		if err != nil {
			h.fail("open", "%v", err)
			return
		}
		if !c.Call("ParseAcroForm", func() { af, err = acroform.ParseAcroForm(data, pdf.Encryption(), false) }) {
			return
		}
	}
	if o == nil {
		if err == nil {
			h.fail("invented", "a form is found in a document that has none")
			return
		}
		if !errors.Is(err, types.ErrNoForms) && m.dict(Ref{m.root, 0})["AcroForm"] == nil {
			h.fail("error", "the error about a document without a form is %v", err)
			return
		}
		c.Call("Detect", func() { _, err = forms.Detect(data, pass, false) })
		if err == nil && !bytes.Contains(data, []byte("/XFA")) {
			h.fail("invented", "a form is detected in a document that has none")
		}
		return
	}
	if err != nil {
		h.fail("refused", "the form is not read: %v", err)
		return
	}
	c.Count("form_reads", 1)
	c.Count("fields_read", len(o.all))
	if af.NeedAppearances != o.need || af.XFA != o.xfa || fmt.Sprint(af.SignatureFields) != fmt.Sprint(o.sigs) {
		h.fail("form", "NeedAppearances %v, XFA %v, signatures %v, want %v, %v, %v", af.NeedAppearances, af.XFA, af.SignatureFields, o.need, o.xfa, o.sigs)
		return
	}
	if !h.compareTree(af.Fields, o.tops, nil, "the form") {
		return
	}
	var vals map[string]interface{}
	if !c.Call("GetFieldValues", func() { vals = af.GetFieldValues() }) {
		return
	}
	h.compareValues(vals, o.values())
	if c.Failed() {
		return
	}
	// every name, full or partial
	for _, f := range o.all {
		for _, n := range []string{f.full(), f.t, f.t + "?"} {
			var g *acroform.Field
			if !c.Call("FindFieldByName", func() { g = af.FindFieldByName(n) }) {
				return
			}
			w := o.find(n)
			if (g == nil) != (w == nil) || g != nil && g.ObjectNum != w.num {
				h.fail("find", "FindFieldByName(%q) is %s, want %s", n, fieldAt(g), rfieldAt(w))
				return
			}
		}
	}
	var s *types.FormSchema
	if !c.Call("ToFormSchema", func() {
		if op.I(1)%2 == 0 {
			s = af.ToFormSchema()
		} else {
			s, err = acroform.ExtractFormSchema(data, pass, false)
		}
	}) {
		return
	}
	if err != nil {
		h.fail("schema", "%v", err)
		return
	}
	h.compareSchema(s, o)
	if c.Failed() {
		return
	}
	// validation
	fd := types.FormData{}
	for k := r.N(6); k > 0 && len(o.all) > 0; k-- {
		f := o.all[r.N(len(o.all))]
		n := f.full()
		if r.P(25) {
			n = f.t
		}
		if w := o.find(n); w == nil {
			continue
		}
		fd[n] = h.anyValue(r, o.find(n), true)
	}
	if r.P(30) {
		fd["no such field"] = "x"
	}
	keep := fmt.Sprintf("%#v", fd)
	var errs []error
	if !c.Call("ValidateFormData", func() { errs = acroform.ValidateFormData(af, fd) }) {
		return
	}
	if fmt.Sprintf("%#v", fd) != keep {
		h.fail("argument", "validation changes the data")
		return
	}
	got := errNames(errs)
	if want := o.validate(fd); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		h.fail("validation", "of %s: %q, want %q", clipS(keep, 300), got, want)
		return
	}
	if !c.Call("ValidateFormSchema", func() { errs = acroform.ValidateFormSchema(s, fd) }) {
		return
	}
	if got, want := errNames(errs), o.validateSchema(fd); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		h.fail("validation", "of %s with the schema: %q, want %q", clipS(keep, 300), got, want)
		return
	}
	errs = acroform.ValidateFormData(af, fd)
	if r.P(40) {
		h.ownRules(r)
	}
	if c.Failed() {
		return
	}
	// the common interface
	var f forms.Form
	if !c.Call("forms.Extract", func() { f, err = forms.Extract(data, pass, false) }) {
		return
	}
	if len(o.tops) == 0 {
		return
	}
	if err != nil || f.Type() != forms.FormTypeAcroForm {
		h.fail("extract", "forms.Extract: %v", err)
		return
	}
	var kind forms.FormType
	if !c.Call("forms.Detect", func() { kind, err = forms.Detect(data, pass, false) }) {
		return
	}
	if err != nil || kind != forms.FormTypeAcroForm {
		h.fail("extract", "forms.Detect: %q %v", kind, err)
		return
	}
	h.what = "read through forms.Form"
	h.compareValues(f.GetValues(), o.values())
	h.compareSchema(f.Schema(), o)
	if n := len(f.Validate(fd)); n != len(errs) {
		h.fail("validation", "%d errors, %d before", n, len(errs))
	}
}

func errNames(errs []error) (got []string) {
	for _, e := range errs {
		if ve, ok := e.(*acroform.ValidationError); ok {
			kind := "bad "
			if strings.Contains(ve.Message, "missing") {
				kind = "missing "
			}
			got = append(got, kind+ve.FieldName)
			continue
		}
		s := e.Error()
		i, j := strings.IndexByte(s, '\''), strings.LastIndexByte(s, '\'')
		if i < 0 || i == j {
			got = append(got, s)
			continue
		}
		got = append(got, "unknown "+s[i+1:j])
	}
	return got
}

// ownRules validates data with a schema of the caller's own, whose questions have rules
// of every kind.
func (h *phist) ownRules(r *Rng) {
	type ask struct {
		min, max *int
		low, up  *float64
		match    func(string) bool
		message  string
		required bool
	}
	s := &types.FormSchema{}
	asks := map[string]ask{}
	fd := types.FormData{}
	texts := map[string]string{}
	names := []string{"a", "b.c", "d", "e", "\u00e9 f"}
	digits := func(t string) bool { return t != "" && strings.Trim(t, "0123456789") == "" }
	for _, n := range names[:1+r.N(5)] {
		q := types.Question{ID: n, Name: n, Type: types.ResponseTypeText, Required: r.P(30)}
		a := ask{required: q.Required}
		number := r.P(40)
		if number {
			q.Type = types.ResponseTypeNumber
		} else if r.P(20) {
			q.Type = types.ResponseTypeTextarea
		}
		v := &types.ValidationRules{}
		if r.P(40) {
			k := r.N(6)
			v.MinLength, a.min = &k, &k
		}
		if r.P(40) {
			k := r.N(8)
			v.MaxLength, a.max = &k, &k
		}
		// of values that are not numbers, the bounds say nothing
		if r.P(50) {
			k := float64(r.N(80))/4 - 10
			v.MinValue = &k
			if number {
				a.low = &k
			}
		}
		if r.P(50) {
			k := float64(r.N(80))/4 - 5
			v.MaxValue = &k
			if number {
				a.up = &k
			}
		}
		switch r.N(5) {
		case 0:
			v.Pattern, a.match = "^[0-9]+$", digits
		case 1:
			v.Pattern, a.match = "ab", func(t string) bool { return strings.Contains(t, "ab") }
		case 2:
			v.Pattern, a.match = "^.{2}$", func(t string) bool { return utf8.RuneCountInString(t) == 2 }
		}
		if r.P(40) {
			v.ErrorMessage = "not this"
			a.message = v.ErrorMessage
		}
		if r.P(85) {
			q.Validation = v
		} else {
			a = ask{required: q.Required}
		}
		s.Questions = append(s.Questions, q)
		asks[n] = a
		if r.P(80) {
			k := r.N(60) - 20
			x := float64(k) / 4
			switch r.N(4) {
			case 0:
				fd[n], texts[n] = k/4, fmt.Sprint(k/4)
			case 1:
				fd[n], texts[n] = x, strconv.FormatFloat(x, 'f', -1, 64)
			case 2:
				texts[n] = strconv.FormatFloat(x, 'f', r.N(4), 64)
				fd[n] = texts[n]
			default:
				texts[n] = r.Pick("", "a", "ab", "cab", "\u00e9\u4e2d", "12", "0", "007", "abcdefgh", "a b", "\U0001F600ab")
				if number {
					texts[n] = r.Pick("12", "0", "-3.5", "7", "1e1", "9.75")
				}
				fd[n] = texts[n]
			}
		}
	}
	if r.P(20) {
		fd["other"] = "x"
	}
	var want []string
	bad := func(a ask, t string) bool {
		n := utf8.RuneCountInString(t)
		x, _ := strconv.ParseFloat(t, 64)
		return a.min != nil && n < *a.min || a.max != nil && n > *a.max || a.match != nil && !a.match(t) || a.low != nil && x < *a.low || a.up != nil && x > *a.up
	}
	var given []string
	for n := range fd {
		given = append(given, n)
	}
	sort.Strings(given)
	for _, n := range given {
		if a, ok := asks[n]; !ok {
			want = append(want, "unknown "+n)
		} else if bad(a, texts[n]) {
			want = append(want, "bad "+n)
		}
	}
	for _, q := range s.Questions {
		if _, ok := fd[q.Name]; !ok && q.Required {
			want = append(want, "missing "+q.Name)
		}
	}
	keep := mustJSON(s) + fmt.Sprintf("%#v", fd)
	var errs []error
	if !h.c.Call("ValidateFormSchema", func() { errs = acroform.ValidateFormSchema(s, fd) }) {
		return
	}
	if got := errNames(errs); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		h.fail("validation", "of %s by rules of its own: %q, want %q", clipS(keep, 2000), got, want)
		return
	}
	if mustJSON(s)+fmt.Sprintf("%#v", fd) != keep {
		h.fail("argument", "validation changes the schema or the data")
		return
	}
	for _, e := range errs {
		ve, ok := e.(*acroform.ValidationError)
		if !ok {
			continue
		}
		// a value that breaks the pattern and nothing else
		a, t := asks[ve.FieldName], texts[ve.FieldName]
		b := a
		b.match = nil
		if _, ok := fd[ve.FieldName]; ok && a.message != "" && !bad(b, t) && ve.Message != a.message {
			h.fail("validation", "the message for %q is %q, want %q", ve.FieldName, ve.Message, a.message)
			return
		}
	}
	h.c.Count("own_rules", 1)
}

// validateSchema is what validation with the schema has to report.
func (o *rform) validateSchema(data map[string]interface{}) []string {
	var names, out []string
	for n := range data {
		names = append(names, n)
	}
	sort.Strings(names)
	by := map[string]*rfield{}
	for _, f := range o.all {
		if f.terminal() {
			by[f.full()] = f
		}
	}
	for _, n := range names {
		f := by[n]
		if f == nil {
			out = append(out, "unknown "+n)
		} else if f.maxLen > 0 && data[n] != nil && utf8.RuneCountInString(textOf(data[n])) > f.maxLen {
			out = append(out, "bad "+n)
		}
	}
	for _, f := range o.all {
		if _, ok := data[f.full()]; !ok && f.terminal() && f.ff&2 != 0 {
			out = append(out, "missing "+f.full())
		}
	}
	return out
}

func fieldAt(f *acroform.Field) string {
	if f == nil {
		return "nothing"
	}
	return fmt.Sprintf("object %d", f.ObjectNum)
}

func rfieldAt(f *rfield) string {
	if f == nil {
		return "nothing"
	}
	return fmt.Sprintf("object %d", f.num)
}

func anyFloat(r *Rng) float64 {
	x := float64(r.N(100000)) / 64
	switch r.N(8) {
	case 0:
		x *= 1e18
	case 1:
		x /= 1 << 24
	case 2:
		x = float64(r.N(9)+1) * 1e6
	case 3:
		x = -x
	}
	return x
}

// anyValue makes a value to fill a field with.
func (h *phist) anyValue(r *Rng, f *rfield, all bool) interface{} {
	if f != nil && f.ft == "Btn" {
		switch r.N(6) {
		case 0, 1:
			return r.P(70)
		case 2:
			if all {
				return nil
			}
		case 3:
			return "Off"
		}
		if s := h.onStates(f); len(s) > 0 && r.P(60) {
			return s[r.N(len(s))]
		}
		return stateNames[r.N(len(stateNames))]
	}
	switch r.N(12) {
	case 0:
		return r.N(2000) - 500
	case 1:
		return anyFloat(r)
	case 2:
		return r.P(50)
	case 3:
		if all {
			return nil
		}
	case 4, 5:
		if f != nil && f.ft == "Ch" {
			var s []string
			for k := r.N(4); k > 0; k-- {
				s = append(s, h.choice(r, f))
			}
			if r.P(50) {
				return s
			}
			a := []interface{}{}
			for _, e := range s {
				a = append(a, e)
			}
			if all && r.P(20) {
				a = append(a, r.N(9))
			}
			return a
		}
	}
	if f != nil && f.ft == "Btn" && len(f.opt) > 0 && r.P(50) {
		return h.choice(r, f)
	}
	if f != nil && f.ft == "Ch" {
		v := h.choice(r, f)
		if x, err := strconv.ParseFloat(v, 64); err == nil && textOf(x) == v && r.P(50) {
			return x
		}
		return v
	}
	return formValue(r)
}

func (h *phist) choice(r *Rng, f *rfield) string {
	if len(f.opt) > 0 && r.P(75) {
		v, _ := optOf(f.opt[r.N(len(f.opt))])
		return v
	}
	return formValue(r)
}

// stateNames of a widget: the keys of the appearances it has, if they are several.
func (m *pmodel) states(n int) []string {
	ap := m.dict(m.dict(Ref{n, 0})["AP"])
	d, ok := m.get(ap["N"]).(Dict)
	if !ok {
		return nil
	}
	return sortedKeys(d)
}

func (f *rfield) widgets() []int {
	ns := []int{f.num}
	for _, k := range f.kids {
		if !k.named {
			ns = append(ns, k.num)
		}
	}
	return ns
}

func (h *phist) onStates(f *rfield) []string {
	var out []string
	for _, n := range f.widgets() {
		for _, s := range h.cur.m.states(n) {
			if s != "Off" {
				out = append(out, s)
			}
		}
	}
	return out
}

func textOf(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	return fmt.Sprint(v)
}

// expectFill gives the model the value, in the spelling that the result has for it.
func (h *phist) expectFill(want, got *pmodel, f *rfield, v interface{}) bool {
	d := without(want.dict(Ref{f.num, 0}))
	g := got.dict(Ref{f.num, 0})
	want.objs[f.num] = d
	gv := g["V"]
	wrong := func(w interface{}) bool {
		h.fail("not-filled", "%q (object %d) is filled with %s: its value is %s, want %s", f.full(), f.num, showAny(v), clipS(showVal(gv), 200), showAny(w))
		return false
	}
	if f.ft != "Btn" {
		text := func(v Val, w string) bool {
			s, ok := v.(Str)
			return ok && refText(string(s)) == w
		}
		var items []interface{}
		switch x := v.(type) {
		case nil:
			if gv != nil {
				return wrong(nil)
			}
			delete(d, "V")
			return true
		case []string:
			for _, e := range x {
				items = append(items, e)
			}
		case []interface{}:
			items = x
		default:
			if !text(gv, textOf(v)) {
				return wrong(textOf(v))
			}
			d["V"] = gv
			return true
		}
		a, ok := gv.(Arr)
		if !ok || len(a) != len(items) {
			return wrong(items)
		}
		for i := range a {
			if !text(a[i], textOf(items[i])) {
				return wrong(items)
			}
		}
		d["V"] = gv
		return true
	}
	state := ""
	switch x := v.(type) {
	case nil:
		state = "Off"
	case bool:
		state = "Off"
		if x {
			ok := false
			on := h.onStates(f)
			for _, s := range on {
				ok = ok || gv == Name(s)
			}
			if len(on) == 0 {
				ok = gv == Name("Yes")
			}
			if !ok {
				return wrong(on)
			}
			state = string(gv.(Name))
		}
	default:
		state = textOf(v)
	}
	if gv != Name(state) {
		return wrong(state)
	}
	d["V"] = gv
	for _, n := range f.widgets() {
		states := want.states(n)
		if len(states) == 0 {
			continue
		}
		as := "Off"
		for _, s := range states {
			if s == state {
				as = s
			}
		}
		wd := without(want.dict(Ref{n, 0}))
		wd["AS"] = Name(as)
		want.objs[n] = wd
	}
	return true
}

// next makes the result of a change the current document.
func (h *phist) next(out []byte, got *pmodel) {
	for n := range got.objs {
		got.fresh = max(got.fresh, n+1)
	}
	h.cur = &pdoc{data: out, orig: append([]byte(nil), out...), m: got, enc: h.cur.enc, encN: h.cur.encN, pass: h.cur.pass}
	h.docs = append(h.docs, h.cur)
}

func (m *pmodel) copyObjs() *pmodel {
	o := m.clone()
	o.objs = map[int]Val{}
	for n, v := range m.objs {
		o.objs[n] = v
	}
	return o
}

func (h *phist) formFill(op Op) {
	c := h.c
	m := h.cur.m
	o := refForm(m)
	r := NewRng(uint64(op.I(0)))
	fd := types.FormData{}
	filled := map[*rfield]interface{}{}
	single := op.I(1)%7 == 6
	n := op.I(2) % 6
	if single {
		n = 1
	}
	if o != nil && len(o.all) > 0 {
		for k := 0; k < n; k++ {
			f := o.all[r.N(len(o.all))]
			name := f.full()
			if r.P(20) {
				name = f.t
			}
			if f = o.find(name); f == nil || name == "" {
				continue
			}
			if _, ok := filled[f]; ok {
				continue // the order of the two would matter
			}
			v := h.anyValue(r, f, true)
			fd[name] = v
			filled[f] = v
		}
	}
	if r.P(25) {
		fd[r.Pick("no such field", "a.b.c", "T", "(")] = "unknown"
	}
	for n := range fd {
		if o == nil {
			continue
		}
		if f := o.find(n); f != nil {
			if _, ok := filled[f]; !ok {
				delete(fd, n)
			}
		}
	}
	if single && len(filled) != 1 {
		return
	}
	var out []byte
	var err error
	data, pass := h.cur.data, h.cur.pass
	keep := showData(fd)
	names := []string{"FillFormFieldsWithStreams", "FillFormFields", "FillForm", "ExtractAndFill", "FillFormFromSchema", "forms.Form.Fill", "FillFieldValue"}
	name := names[op.I(1)%7]
	h.what = fmt.Sprintf("%s(%s)", name, keep)
	c.Count("fill:"+name, 1)
	stop := !c.Call(name, func() {
		switch op.I(1) % 7 {
		case 0:
			out, err = acroform.FillFormFieldsWithStreams(data, fd, pass, false)
		case 1:
			out, err = acroform.FillFormFields(data, fd, pass, false)
		case 2:
			out, err = acroform.FillForm(data, fd, pass, false)
		case 3:
			// it validates what it gets
			out, err = acroform.ExtractAndFill(data, fd, pass, false)
		case 4:
			var s *types.FormSchema
			s, err = acroform.ExtractFormSchema(data, pass, false)
			if err == nil {
				out, err = acroform.FillFormFromSchema(data, s, fd, pass, false)
			}
		case 5:
			var f forms.Form
			f, err = forms.Extract(data, pass, false)
			if err == nil {
				out, err = f.Fill(data, fd, pass, false)
			}
		case 6:
			var af *acroform.AcroForm
			var pdf *parse.PDF
			pdf, err = parse.OpenWithOptions(data, parse.ParseOptions{Password: pass})
			if err != nil {
				return
			}
			af, err = acroform.ParseAcroForm(data, pdf.Encryption(), false)
			if err != nil {
				return
			}
			for _, n := range sortedNames(fd) {
				v := fd[n]
				if af.FindFieldByName(n) == nil {
					continue
				}
				out, err = acroform.FillFieldValue(data, af.FindFieldByName(n), v, pdf.Encryption(), false)
			}
		}
	})
	if stop {
		return
	}
	if showData(fd) != keep {
		h.fail("argument", "the form data is now %s", showData(fd))
		return
	}
	if o == nil || op.I(1)%7 == 5 && len(o.tops) == 0 {
		if err == nil && !(op.I(1)%7 == 5 && bytes.Contains(data, []byte("/XFA"))) {
			h.fail("accepted", "a document without a form is filled")
		}
		return
	}
	if err != nil {
		if !c.randomFailed() {
			h.fail("refused", "%v", err)
		}
		return
	}
	if len(filled) == 0 {
		if !bytes.Equal(out, data) {
			h.fail("touched", "nothing is filled and the document has changed")
		}
		if len(out) > 0 && &out[0] == &data[0] {
			h.fail("aliased", "the result shares the memory of the input")
		}
		return
	}
	got := h.readOut(out, h.cur.enc, h.cur.encN)
	if got == nil {
		return
	}
	want := m.copyObjs()
	for _, f := range o.all {
		if v, ok := filled[f]; ok {
			c.Count("fields_filled:"+f.ft, 1)
			if !h.expectFill(want, got, f, v) {
				return
			}
		}
	}
	got = h.checkWhole(out, want)
	if got == nil {
		return
	}
	c.Sig("fill", len(out))
	if op.I(2)%3 == 0 && len(c.sc.RandFail) == 0 && h.cur.enc == nil {
		var again []byte
		c.Call("FillFormFieldsWithStreams", func() { again, _ = acroform.FillFormFieldsWithStreams(data, fd, pass, false) })
		if !bytes.Equal(out, again) {
			h.fail("differs", "filling the same again gives other bytes: %q and %q", clip(diffAt(out, again), 150), clip(diffAt(again, out), 150))
			return
		}
	}
	h.next(out, got)
}

func sortedNames(fd types.FormData) []string {
	var ns []string
	for n := range fd {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func showData(fd types.FormData) string {
	var ns []string
	for n, v := range fd {
		ns = append(ns, fmt.Sprintf("%q: %s", n, showAny(v)))
	}
	sort.Strings(ns)
	return "{" + strings.Join(ns, ", ") + "}"
}

func (h *phist) formFlatten() {
	c := h.c
	m := h.cur.m
	h.what = "FlattenForm"
	var out []byte
	var err error
	if !c.Call("FlattenForm", func() { out, err = acroform.FlattenForm(h.cur.data, h.cur.pass, false) }) {
		return
	}
	if refForm(m) == nil {
		if err == nil {
			h.fail("accepted", "a document without a form is flattened")
		}
		return
	}
	if err != nil {
		if !c.randomFailed() {
			h.fail("refused", "%v", err)
		}
		return
	}
	c.Count("flattened", 1)
	want := m.copyObjs()
	want.objs[m.root] = without(want.dict(Ref{m.root, 0}), "AcroForm")
	if got := h.checkWhole(out, want); got != nil {
		h.next(out, got)
	}
}

// formReplace replaces the object of a field.
func (h *phist) formReplace(op Op) {
	c := h.c
	m := h.cur.m
	o := refForm(m)
	if o == nil || len(o.all) == 0 {
		return
	}
	r := NewRng(uint64(op.I(0)))
	want := m.copyObjs()
	fields := map[int]Val{}
	k := 1
	if op.I(1)%2 == 1 {
		k = 1 + r.N(3)
	}
	for ; k > 0; k-- {
		f := o.all[r.N(len(o.all))]
		d := without(m.dict(Ref{f.num, 0}))
		d["TU"] = formText(r, formValue(r))
		d["PZNew"] = decoyDict(r)
		fields[f.num] = d
	}
	var pdf *parse.PDF
	var err error
	if !c.Call("Open", func() { pdf, err = parse.OpenWithOptions(h.cur.data, parse.ParseOptions{Password: h.cur.pass}) }) {
		return
	}
	if err != nil {
		h.fail("open", "%v", err)
		return
	}
	var ups []acroform.StreamObjectUpdate
	for i, n := range sortedNums(fields) {
		ups = append(ups, acroform.StreamObjectUpdate{ObjNum: n, Index: i, NewContent: emit(r, fields[n])})
		want.objs[n] = fields[n]
	}
	keep := fmt.Sprintf("%q", ups)
	var out []byte
	h.what = "ReplaceFieldObject"
	if op.I(1)%2 == 0 {
		if !c.Call(h.what, func() {
			out, err = acroform.ReplaceFieldObject(h.cur.data, ups[0].ObjNum, 0, ups[0].NewContent, pdf.Encryption(), false)
		}) {
			return
		}
	} else {
		h.what = "RebuildObjectStream"
		if !c.Call(h.what, func() {
			out, err = acroform.RebuildObjectStream(h.cur.data, 1, ups, pdf.Encryption(), false)
		}) {
			return
		}
	}
	if fmt.Sprintf("%q", ups) != keep {
		h.fail("argument", "the caller's contents are changed")
		return
	}
	if err != nil {
		if !c.randomFailed() {
			h.fail("refused", "%v", err)
		}
		return
	}
	if got := h.checkWhole(out, want); got != nil {
		h.next(out, got)
	}
	if !c.Call(h.what, func() {
		_, err = acroform.ReplaceFieldObject(h.cur.data, 1<<20, 0, []byte("<<>>"), pdf.Encryption(), false)
	}) {
		return
	}
	h.expect(err, false, "replacing an object that is not there")
}

func (h *phist) formWrong() {
	if h.cur.enc == nil {
		return
	}
	c := h.c
	h.what = "wrong password"
	pass := []byte("definitely not this one")
	var err error
	c.Call("ExtractAcroForm", func() { _, err = acroform.ExtractAcroForm(h.cur.data, pass, false) })
	h.expect(err, false, "ExtractAcroForm with a wrong password")
	c.Call("FillForm", func() { _, err = acroform.FillForm(h.cur.data, types.FormData{"x": "y"}, pass, false) })
	h.expect(err, false, "FillForm with a wrong password")
	c.Call("FlattenForm", func() { _, err = acroform.FlattenForm(h.cur.data, pass, false) })
	h.expect(err, false, "FlattenForm with a wrong password")
	c.Call("ExtractFormSchema", func() { _, err = acroform.ExtractFormSchema(h.cur.data, pass, false) })
	h.expect(err, false, "ExtractFormSchema with a wrong password")
}

func execForm(c *Ctx) {
	c.limit = 400_000_000
	ops, rest := splitDocs(c.sc.Ops)
	if len(ops) == 0 {
		return
	}
	h := &phist{c: c}
	if seed := c.sc.P["create"]; seed != 0 {
		c.Begin()
		defer c.End()
		if h.create(NewRng(uint64(seed))) {
			h.formSteps(rest)
		}
		return
	}
	b := buildPages(ops[0])
	d := &pdoc{data: b.b, enc: b.enc, encN: b.encN}
	s := b.snaps[len(b.snaps)-1]
	if b.enc != nil {
		d.pass = []byte(b.pass[c.sc.P["owner"]])
		if b.pass[1] == "" {
			d.pass = []byte(b.pass[0])
		}
	}
	dead := false
	for _, f := range c.sc.Faults {
		data, rev := tear(b.docBuilder, f)
		c.Count("fault:torn_append:"+f.K, 1)
		if rev == 0 {
			dead = true
		} else {
			s = b.snaps[rev-1]
		}
		d.data = data
		break
	}
	d.orig = append([]byte(nil), d.data...)
	d.m = modelOf(b.docBuilder, s)
	c.Begin()
	defer c.End()
	if dead {
		fd := types.FormData{"x": "y"}
		c.Call("ExtractAcroForm", func() { acroform.ExtractAcroForm(d.data, d.pass, false) })
		c.Call("FillForm", func() { acroform.FillForm(d.data, fd, d.pass, false) })
		c.Call("FlattenForm", func() { acroform.FlattenForm(d.data, d.pass, false) })
		c.Call("forms.Extract", func() { forms.Extract(d.data, d.pass, false) })
		return
	}
	h.docs = []*pdoc{d}
	h.cur = d
	if o := refForm(d.m); o != nil {
		c.Shape("form", len(o.all), len(o.tops), len(b.snaps), b.enc != nil)
		c.Count("fields", len(o.all))
	}
	h.formSteps(rest)
}

func (h *phist) formSteps(rest []Op) {
	c := h.c
	n := 0
	for _, op := range rest {
		c.Count("op:"+op.K, 1)
		switch op.K {
		case "read":
			h.formRead(op)
		case "fill":
			h.formFill(op)
		case "flatten":
			h.formFlatten()
		case "replace":
			h.formReplace(op)
		case "wrong":
			h.formWrong()
		case "first":
			h.cur = h.docs[op.I(0)%len(h.docs)]
		case "rebuild":
			// page operations keep the form
			h.man = nil
			if !h.load() {
				return
			}
			h.what = "Rebuild"
			if out := h.rebuild(); out != nil {
				if got := h.checkWhole(out, h.m); got != nil {
					h.next(out, got)
				}
			}
		}
		n++
		c.Shape(op.K, op.I(1)%7)
		if c.Failed() {
			return
		}
	}
	for _, d := range h.docs {
		if !bytes.Equal(d.data, d.orig) {
			c.Fail("input", "the caller's document was changed")
		}
	}
	c.res.Nontrivial = n > 0
}

// facts is something done to a field that has been created: an action or an appearance.
type facts struct {
	op, kind, event, text string
	w, h                  float64
	bad                   bool
}

var mouseEvents = map[string]Name{"onClick": "U", "onMouseUp": "U", "onMouseDown": "D", "onEnter": "E", "onExit": "X"}

func genFormAct(r *Rng) facts {
	a := facts{op: r.Pick("action", "mouse", "appearance", "appearance"), text: formValue(r), w: float64(1+r.N(9000)) / 32, h: float64(1+r.N(3000)) / 32}
	switch a.op {
	case "action":
		a.kind = r.Pick("JavaScript", "URI", "GoTo", "SubmitForm", "ResetForm", "JavaScript", "URI", "GoTo", "Nothing")
		if a.kind == "GoTo" {
			a.text = r.Pick("[3 0 R /Fit]", "(there)", "/There", "")
		}
		a.bad = a.kind == "Nothing" || a.kind == "GoTo" && a.text == ""
	case "mouse":
		a.kind = r.Pick("JavaScript", "URI", "JavaScript", "URI", "JavaScript", "URI", "ResetForm")
		a.event = r.Pick("onClick", "onMouseUp", "onMouseDown", "onEnter", "onExit", "onMouseDown", "onEnter", "onExit", "onSomething")
		a.bad = a.kind == "ResetForm" || mouseEvents[a.event] == ""
	default:
		a.kind = r.Pick("on", "off", "text", "button")
		a.event = r.Pick("F1", "Helvetica", "Helv", "Courier-Bold", "Times-Roman")
	}
	return a
}

func (a facts) action() *acroform.Action {
	return &acroform.Action{Type: acroform.ActionType(a.kind), URI: a.text, JavaScript: a.text, Destination: a.text}
}

// is compares an action in a file with the described one.
func (a facts) is(m *pmodel, v Val) bool {
	d := m.dict(v)
	text := func(v Val) bool {
		s, ok := m.get(v).(Str)
		return ok && refText(string(s)) == a.text
	}
	if d["Type"] != Name("Action") || d["S"] != Name(a.kind) {
		return false
	}
	switch a.kind {
	case "JavaScript":
		return len(d) == 3 && text(d["JS"])
	case "URI":
		return len(d) == 3 && text(d["URI"])
	case "GoTo":
		return len(d) == 3 && same(d["D"], map[string]Val{"[": Arr{Ref{3, 0}, Name("Fit")}, "(": Str("there"), "/": Name("There")}[a.text[:1]])
	case "SubmitForm":
		return len(d) == 3 && same(d["F"], Dict{"F": Str("submit.pdf"), "FS": Name("URL")})
	}
	return len(d) == 2
}

// checkActs compares the actions and the appearance of a field with what was done to it.
func (h *phist) checkActs(m *pmodel, at int, acts []facts) bool {
	d := m.dict(Ref{at, 0})
	var main, ap *facts
	mouse := map[Name]*facts{}
	for i := range acts {
		switch a := &acts[i]; {
		case a.bad:
		case a.op == "action":
			main = a
		case a.op == "mouse":
			mouse[mouseEvents[a.event]] = a
		default:
			ap = a
		}
	}
	if (main == nil) != (d["A"] == nil) || main != nil && !main.is(m, d["A"]) {
		h.fail("created-action", "the action of field %d is %s, done was %+v", at, showVal(d["A"]), acts)
		return false
	}
	aa := m.dict(d["AA"])
	ok := len(aa) == len(mouse) && (d["AA"] == nil) == (len(mouse) == 0)
	for _, k := range []Name{"U", "D", "E", "X"} {
		if a := mouse[k]; ok && a != nil {
			ok = a.is(m, aa[string(k)])
		}
	}
	if !ok {
		h.fail("created-action", "the additional actions of field %d are %s, done was %+v", num, showVal(d["AA"]), acts)
		return false
	}
	if ap == nil {
		if d["AP"] != nil {
			h.fail("created-appearance", "field %d has an appearance: %s", at, showVal(d["AP"]))
		}
		return d["AP"] == nil
	}
	bad := func(f string, args ...interface{}) bool {
		h.fail("created-appearance", "the appearance %+v of field %d: %s", *ap, at, fmt.Sprintf(f, args...))
		return false
	}
	n := m.dict(d["AP"])["N"]
	st, _ := m.get(n).(*Stm)
	if st == nil || len(m.dict(d["AP"])) != 1 {
		return bad("is %s", showVal(d["AP"]))
	}
	data, err := decodeStm(st.D, st.Raw)
	if err != nil {
		return bad("%v", err)
	}
	ops, err := lexContent(data)
	if err != nil {
		return bad("%v in %q", err, data)
	}
	box, _ := st.D["BBox"].(Arr)
	if st.D["Subtype"] != Name("Form") || len(box) != 4 || !near(num64(box, 0), 0) || !near(num64(box, 1), 0) || !near(num64(box, 2), ap.w) || !near(num64(box, 3), ap.h) {
		return bad("is %s", showVal(st.D))
	}
	fonts := m.dict(m.dict(st.D["Resources"])["Font"])
	depth, inText, painted := 0, false, 0
	var shown []string
	var font Dict
	for _, o := range ops {
		switch o.Op {
		case "q":
			depth++
		case "Q":
			depth--
		case "BT":
			inText = true
		case "ET":
			inText = false
		case "Tf":
			if len(o.Args) == 2 {
				name, _ := o.Args[0].(Name)
				font = m.dict(fonts[string(name)])
			}
		case "Tj":
			s, _ := o.Args[0].(Str)
			if !inText || font["Type"] != Name("Font") {
				return bad("text outside of BT and ET, or in no font: %q", data)
			}
			shown = append(shown, string(s))
		case "S", "s", "B", "f":
			painted++
		case "re":
			if len(o.Args) != 4 || !nearTo(num(o.Args[2]), ap.w, 0.0051) || !nearTo(num(o.Args[3]), ap.h, 0.0051) {
				return bad("the box is %v", o.Args)
			}
		}
		if depth < 0 {
			return bad("Q without q: %q", data)
		}
	}
	if depth != 0 || inText {
		return bad("q without Q, or BT without ET: %q", data)
	}
	want := []string{shownCodes(ap.text)}
	if ap.kind == "on" || ap.kind == "off" {
		want = nil
	}
	if fmt.Sprintf("%q", shown) != fmt.Sprintf("%q", want) {
		return bad("shows %q, want %q", shown, want)
	}
	if ap.kind != "text" && painted == 0 {
		return bad("paints nothing: %q", data)
	}
	lines := 0
	for _, o := range ops {
		if o.Op == "l" {
			lines++
		}
	}
	if (lines >= 2) != (ap.kind == "on") {
		return bad("has %d lines: %q", lines, data)
	}
	h.c.Count("appearances", 1)
	return true
}

func num64(a Arr, i int) float64 { return num(a[i]) }

// create makes a document with a form of the library's own, and checks what is in it.
func (h *phist) create(r *Rng) bool {
	c := h.c
	h.what = "create"
	type spec struct {
		kind, name string
		acts       []facts
		rect       []float64
		v, dv      interface{}
		req, ro    bool
		maxLen     int
		opts       []string
	}
	var specs []spec
	val := func(kind string, opts []string) interface{} {
		switch {
		case kind == "Button" || r.P(35):
			return nil
		case kind == "Checkbox" || kind == "RadioButton":
			if r.P(50) {
				return r.P(50)
			}
			return stateNames[r.N(len(stateNames))]
		case len(opts) > 0 && r.P(70):
			return opts[r.N(len(opts))]
		case r.P(15):
			return r.N(1000) - 300
		case r.P(15):
			return anyFloat(r)
		case r.P(10):
			return r.P(50)
		}
		return formValue(r)
	}
	for k := r.N(8); k > 0; k-- {
		s := spec{kind: r.Pick("TextField", "TextField", "Checkbox", "RadioButton", "ChoiceField", "Button"), name: fmt.Sprintf("%s%d", formWord(r), len(specs))}
		for i := 0; i < 4; i++ {
			s.rect = append(s.rect, float64(r.N(80000))/100)
		}
		if s.kind == "ChoiceField" {
			for i := r.N(4); i > 0; i-- {
				s.opts = append(s.opts, formValue(r))
			}
		}
		s.v, s.dv = val(s.kind, s.opts), val(s.kind, s.opts)
		s.req, s.ro = r.P(30), r.P(30)
		if s.kind == "TextField" && r.P(40) {
			s.maxLen = 1 + r.N(60)
		}
		if r.P(25) {
			s.name += r.Pick("/AP<</N 1 0 R>>", "/A ", "/AA <</U 3 0 R>>", ">>", "/AP", "<<", "/AA ")
		}
		for i := r.N(4); i > 0; i-- {
			s.acts = append(s.acts, genFormAct(r))
		}
		specs = append(specs, s)
	}
	pages := 1 + r.N(3)
	var cat Dict // the caller's own catalog
	if r.P(40) {
		cat = Dict{"Type": Name("Catalog")}
		for i := r.N(4); i > 0; i-- {
			k := r.Pick("ViewerPreferences", "MarkInfo", "PageMode", "Lang", "PieceInfo", "Names", "AcroFormX", "AA", "PageLabels")
			cat[k] = []Val{Str(r.Pick("/AcroForm 9 0 R", ">>", "<<", ">> /AcroForm 3 0 R")), Dict{"AcroForm": Dict{"Fields": Arr{}}}, Arr{Name("AcroForm"), int64(1), Name("R")}, Name("AcroForm"), genVal(r, 3, nil)}[r.N(5)]
			if cat[k] == nil {
				cat[k] = Name("AcroForm")
			}
		}
		if r.P(15) {
			cat["AcroForm"] = Dict{"Fields": Arr{}}
		}
	}
	var out []byte
	var err error
	if !c.Call("create", func() {
		b := write.NewSimplePDFBuilder()
		for i := 0; i < pages; i++ {
			p := b.AddPage(write.PageSizeLetter)
			f := p.AddStandardFont("Helvetica")
			p.Content().BeginText().SetFont(f, 12).SetTextPosition(72, 700).ShowText(fmt.Sprintf("page %d", i)).EndText()
			b.FinalizePage(p)
		}
		w := b.Writer()
		var fb interface {
			AddTextField(name string, rect []float64, page int) *acroform.FieldDef
			AddCheckbox(name string, rect []float64, page int) *acroform.FieldDef
			AddRadioButton(name string, rect []float64, page int) *acroform.FieldDef
			AddChoiceField(name string, rect []float64, page int, options []string) *acroform.FieldDef
			AddButton(name string, rect []float64, page int) *acroform.FieldDef
		} = acroform.NewFieldBuilder(w)
		if cat == nil {
			fb = acroform.NewFormBuilder(b)
		}
		for _, s := range specs {
			var d *acroform.FieldDef
			switch s.kind {
			case "TextField":
				d = fb.AddTextField(s.name, s.rect, 0)
			case "Checkbox":
				d = fb.AddCheckbox(s.name, s.rect, 0)
			case "RadioButton":
				d = fb.AddRadioButton(s.name, s.rect, 0)
			case "ChoiceField":
				d = fb.AddChoiceField(s.name, s.rect, 0, s.opts)
			case "Button":
				d = fb.AddButton(s.name, s.rect, 0)
			}
			if s.v != nil {
				d.SetValue(s.v)
			}
			if s.dv != nil {
				d.SetDefault(s.dv)
			}
			if r.P(50) {
				d.SetRequired(!s.req).SetReadOnly(!s.ro)
			}
			d.SetRequired(s.req).SetReadOnly(s.ro).SetMaxLength(s.maxLen)
		}
		n := 0
		if f, ok := fb.(*acroform.FormBuilder); ok {
			n, err = f.BuildForm()
		} else {
			n, err = fb.(*acroform.FieldBuilder).Build()
		}
		if err != nil {
			return
		}
		if cat != nil {
			cat["Pages"] = Ref{b.PagesObjNum(), 0}
			root := w.AddObject(emit(r, cat))
			w.SetRoot(root)
			if err = acroform.AddAcroFormToCatalog(w, root, n); err != nil {
				return
			}
			if cat["AcroForm"] == nil {
				cat["AcroForm"] = Ref{n, 0}
			}
			bad := w.AddObject([]byte("[1 2 3]"))
			if acroform.AddAcroFormToCatalog(w, bad, n) == nil || acroform.AddAcroFormToCatalog(w, bad+100, n) == nil {
				h.fail("created", "no error about a catalog that is none")
			}
		}
		for i, s := range specs {
			for _, a := range s.acts {
				num, e := n-len(specs)+i, error(nil)
				switch a.op {
				case "action":
					e = acroform.AddActionToField(num, a.action(), w)
				case "mouse":
					e = acroform.AddMouseAction(num, a.event, a.action(), w)
				case "appearance":
					ab := acroform.NewAppearanceBuilder(w)
					ap := 0
					switch a.kind {
					case "on", "off":
						ap, e = ab.CreateCheckboxAppearance(a.kind == "on", a.w, a.h)
					case "text":
						ap, e = ab.CreateTextAppearance(a.text, a.w, a.h, 10, a.event)
					default:
						ap, e = ab.CreateButtonAppearance(a.text, a.w, a.h, 10)
					}
					if e == nil {
						e = acroform.AddAppearanceToField(num, ap, w)
					}
				}
				if (e != nil) != a.bad {
					h.fail("created", "%s %s %s: %v", a.op, a.kind, a.event, e)
				}
			}
		}
		if err == nil {
			out, err = b.Bytes()
		}
	}) {
		return false
	}
	if !h.expect(err, len(specs) > 0, "a form") || err != nil {
		return false
	}
	h.cur = &pdoc{data: out, orig: append([]byte(nil), out...)}
	m := h.readOut(out, nil, 0)
	if m == nil {
		return false
	}
	h.cur.m = m
	h.docs = []*pdoc{h.cur}
	if len(m.list) != pages {
		h.fail("page-count", "%d pages, want %d", len(m.list), pages)
		return false
	}
	if cat != nil {
		if got := m.dict(Ref{m.root, 0}); !same(got, cat) {
			h.fail("created", "the catalog is %s, want %s", showVal(got), showVal(cat))
			return false
		}
		if _, ok := cat["AcroForm"].(Dict); ok {
			return false // the form that was there has stayed
		}
	}
	o := refForm(m)
	if o == nil || len(o.all) != len(specs) {
		h.fail("created", "the form has not the %d fields", len(specs))
		return false
	}
	for i, s := range specs {
		f := o.all[i]
		ft := map[string]string{"TextField": "Tx", "ChoiceField": "Ch"}[s.kind]
		flags := b2i(s.ro) + 2*b2i(s.req)
		if ft == "" {
			ft = "Btn"
			flags += map[string]int{"Button": 1 << 16, "RadioButton": 1 << 15}[s.kind]
		}
		value := func(v interface{}) interface{} {
			switch x := v.(type) {
			case nil:
				return nil
			case bool:
				if ft == "Btn" {
					if x {
						return "Yes"
					}
					return "Off"
				}
			}
			return textOf(v)
		}
		if v := m.get(m.dict(Ref{f.num, 0})["V"]); v != nil {
			if _, ok := v.(Name); ok != (ft == "Btn") {
				h.fail("created", "the value of %s %q is %s", s.kind, s.name, showVal(v))
			}
		}
		if !h.checkActs(m, f.num, s.acts) {
			return false
		}
		var opts []interface{}
		for _, e := range s.opts {
			opts = append(opts, e)
		}
		for _, c := range []struct {
			what string
			a, b interface{}
		}{{"T", f.t, s.name}, {"FT", f.ft, ft}, {"Ff", f.ff, flags}, {"MaxLen", f.maxLen, s.maxLen}, {"V", f.v, value(s.v)}, {"DV", f.dv, value(s.dv)}, {"Opt", fmt.Sprintf("%q", f.opt), fmt.Sprintf("%q", opts)}, {"Rect", fmt.Sprintf("%.2f", f.rect), fmt.Sprintf("%.2f", s.rect)}} {
			if !reflect.DeepEqual(c.a, c.b) {
				h.fail("created", "%s of the %s %q is %s, want %s", c.what, s.kind, s.name, showAny(c.a), showAny(c.b))
				return false
			}
		}
	}
	c.Count("created", 1)
	return !c.Failed()
}

func genForm(r *Rng, sc *Scenario, i int) {
	seed := func() int64 { return int64(r.U64() >> 20) }
	base := genPageOps(r, 3, true)
	var ops []Op
	commits := 0
	for _, op := range base {
		if op.K == "commit" {
			if commits == 0 && r.P(92) {
				if r.P(50) {
					ops = append(ops, Op{K: "form", A: []int64{0, seed()}})
				}
				for k := 1 + r.N(9); k > 0; k-- {
					ops = append(ops, Op{K: "field", A: []int64{int64(r.N(6)), seed()}})
				}
			} else {
				for k := r.N(4); k > 0; k-- {
					ops = append(ops, Op{K: r.Pick("field", "fset", "fset"), A: []int64{int64(r.N(9)), seed()}})
				}
			}
			commits++
		}
		ops = append(ops, op)
	}
	if r.P(30) {
		for k := 1 + r.N(3); k > 0; k-- {
			ops = append(ops, Op{K: r.Pick("field", "fset", "fset"), A: []int64{int64(r.N(9)), seed()}})
		}
		ops = append(ops, Op{K: "commit", A: []int64{seed(), int64(r.N(2))}})
	}
	sc.Ops = append(append(sc.Ops, ops...), Op{K: "go"})
	sc.P["owner"] = int64(r.N(2))
	if r.P(12) {
		sc.P["create"] = seed()
		sc.Ops = []Op{{K: "start"}, {K: "go"}}
	}
	if r.P(50) {
		sc.Ops = append(sc.Ops, Op{K: "read", A: []int64{seed(), int64(r.N(6))}})
	}
	for k := 1 + r.N(5); k > 0; k-- {
		switch r.N(12) {
		case 0, 1, 2, 3, 4, 5:
			sc.Ops = append(sc.Ops, Op{K: "fill", A: []int64{seed(), int64(r.N(7)), int64(r.N(6))}})
			if r.P(60) {
				sc.Ops = append(sc.Ops, Op{K: "read", A: []int64{seed(), int64(r.N(6))}})
			}
		case 6:
			sc.Ops = append(sc.Ops, Op{K: "flatten"})
			sc.Ops = append(sc.Ops, Op{K: "read", A: []int64{seed(), int64(r.N(6))}})
		case 7:
			sc.Ops = append(sc.Ops, Op{K: "replace", A: []int64{seed(), int64(r.N(2))}})
		case 8:
			sc.Ops = append(sc.Ops, Op{K: "wrong"})
		case 9:
			sc.Ops = append(sc.Ops, Op{K: "first", A: []int64{int64(r.N(4))}})
		case 10:
			sc.Ops = append(sc.Ops, Op{K: "rebuild"})
		default:
			sc.Ops = append(sc.Ops, Op{K: "read", A: []int64{seed(), int64(r.N(6))}})
		}
	}
	if r.P(25) {
		f := Fault{K: r.Pick("cut", "cut", "zero", "junk"), A: []int64{int64(r.N(1001)), seed(), int64(r.N(3))}}
		if r.P(35) {
			f.A[0] = -int64(1 + r.N(60))
		}
		sc.Faults = append(sc.Faults, f)
	}
	if r.P(8) {
		sc.RandFail = append(sc.RandFail, r.N(40))
	}
}

func init() {
	register(&Prop{
		ID: "C11", Level: "exploration",
		Gen: genForm, Exec: execForm,
		Quick: 6000, Thorough: 300000,
		Rule: "one evaluation is one simulated history of reading, filling and flattening the form of a generated document, compared after every step with a reference model of the form and of the rest of the document; it counts as non-trivial when at least one step ran",
		Real: []string{"forms", "forms/acroform", "core/manipulate", "core/parse", "core/write", "core/encrypt"},
		Stub: []string{"the writer of the input documents (independent)", "the disk that loses the tail of the last append", "the random source", "map iteration order"},
	})
}
