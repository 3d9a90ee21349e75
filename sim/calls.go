package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/resources/font"
	"github.com/benedoc-inc/pdfer/types"
)

// The table of what a user can do with a document, for the properties that hold
// for every operation (C04, C06, C07).

// dump writes a value so that equal values, and only those, give equal text.
// Maps are written in key order: what the caller sees of a map has no order.
type dump struct {
	b    bytes.Buffer
	seen map[uintptr]int
}

func show(vs ...interface{}) string {
	d := &dump{seen: map[uintptr]int{}}
	for _, v := range vs {
		if err, ok := v.(error); ok {
			// the fact that it failed is the result; its wording is for people
			fmt.Fprintf(&d.b, "error(%T);", err)
			continue
		}
		d.val(reflect.ValueOf(v), 0)
		d.b.WriteByte(';')
	}
	return d.b.String()
}

var timeType = reflect.TypeOf(time.Time{})

func (d *dump) val(v reflect.Value, depth int) {
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	if depth > 200 {
		d.b.WriteString("deep")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if n, ok := d.seen[v.Pointer()]; ok {
			fmt.Fprintf(&d.b, "&%d", n)
			return
		}
		d.seen[v.Pointer()] = len(d.seen)
		d.b.WriteByte('&')
		d.val(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if err, ok := v.Interface().(error); ok {
			fmt.Fprintf(&d.b, "error(%T)", err)
			return
		}
		d.val(v.Elem(), depth+1)
	case reflect.Struct:
		t := v.Type()
		if t == timeType {
			d.b.WriteString("time")
			return
		}
		d.b.WriteString(t.Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			d.b.WriteString(t.Field(i).Name + ":")
			d.val(v.Field(i), depth+1)
			d.b.WriteByte(' ')
		}
		d.b.WriteByte('}')
	case reflect.Map:
		var keys []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprintf("%#v", k.Interface())
			keys = append(keys, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(keys)
		d.b.WriteString("map[")
		for _, k := range keys {
			d.b.WriteString(k + "=")
			d.val(m[k], depth+1)
			d.b.WriteByte(' ')
		}
		d.b.WriteByte(']')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			if len(b) > 400 {
				h := fnv.New64a()
				h.Write(b)
				fmt.Fprintf(&d.b, "bytes(%d,%x)", len(b), h.Sum64())
			} else {
				fmt.Fprintf(&d.b, "%q", b)
			}
			return
		}
		d.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i), depth+1)
			d.b.WriteByte(' ')
		}
		d.b.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(&d.b, "%q", v.String())
	case reflect.Func, reflect.Chan:
		d.b.WriteString("func")
	default:
		fmt.Fprintf(&d.b, "%v", v)
	}
}

// callIn is what the calls of the table work on.
type callIn struct {
	doc, other  []byte
	pass, opass []byte
	verbose     bool
	seed        uint64
	xml         string // an XFA packet
	pages       int
	sealed      bool // a document is encrypted
	// what several threads share, when they do
	pdf  *parse.PDF
	form *acroform.AcroForm
	data types.FormData
	uenc *types.PDFEncryption
}

func (in *callIn) rng() *Rng { return NewRng(in.seed + 77) }

// pageNums are some page numbers, most of them there.
func (in *callIn) pageNums(r *Rng) []int {
	var ns []int
	for k := 1 + r.N(3); k > 0; k-- {
		ns = append(ns, 1+r.N(in.pages))
	}
	if r.P(10) {
		ns = append(ns, r.Pick2(0, -1, in.pages+1, 1<<30))
	}
	return ns
}

func (in *callIn) enc() *types.PDFEncryption {
	if in.uenc != nil {
		return in.uenc
	}
	_, e, err := encrypt.DecryptPDF(in.doc, in.pass, false)
	if err != nil {
		return nil
	}
	return e
}

// formData is data for the form: a value for most of what it has.
func (in *callIn) formData(r *Rng) types.FormData {
	if in.data != nil {
		return in.data
	}
	out := types.FormData{}
	put := func(n string) {
		switch r.N(8) {
		case 0:
			out[n] = true
		case 1:
			out[n] = 12.5
		case 2:
			out[n] = ""
		case 3:
			out[n] = r.N(100)
		default:
			out[n] = formWords[r.N(len(formWords))]
		}
	}
	if f, err := acroform.ExtractAcroForm(in.doc, in.pass, false); err == nil && f != nil {
		var ns []string
		for n := range f.GetFieldValues() {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if r.P(70) {
				put(n)
			}
		}
	}
	if s, _, err := forms.ExtractXFA(in.doc, in.pass, false); err == nil && s != nil {
		for _, q := range s.Questions {
			if r.P(70) {
				put(q.Name)
			}
		}
	}
	if r.P(20) {
		put("no such field")
	}
	return out
}

type apiCall struct {
	name string
	f    func(in *callIn) string
}

// apiCalls are in a fixed order; scenarios name them by their names.
var apiCalls []apiCall

func call(name string, f func(in *callIn) string) { apiCalls = append(apiCalls, apiCall{name, f}) }

func callNamed(n string) *apiCall {
	for i := range apiCalls {
		if apiCalls[i].name == n {
			return &apiCalls[i]
		}
	}
	return nil
}

func init() {
	call("parse.Open", func(in *callIn) string {
		p, err := parse.OpenWithOptions(in.doc, parse.ParseOptions{Password: in.pass, Verbose: in.verbose})
		if err != nil {
			return show(err)
		}
		var s strings.Builder
		s.WriteString(show(p.Version(), p.ObjectCount(), p.Objects(), p.RevisionCount(), p.IsEncrypted(), p.Trailer(), p.HasObject(1), p.HasObject(-1), p.HasObject(1<<30)))
		for i, n := range p.Objects() {
			if i == 300 {
				break
			}
			b, err := p.GetObject(n)
			s.WriteString(show(n, b, err))
			if raw, err := p.GetRawObject(n); err == nil && raw != nil {
				s.WriteString(show(raw))
			}
			if d, data, ok := parse.SplitStream(b); ok {
				x, err := p.DecodeStream(string(d), data)
				s.WriteString(show(x, err))
			}
		}
		refs, err := p.XFAStreamRefs()
		s.WriteString(show(refs, err))
		return s.String()
	})
	call("parse.PDF", func(in *callIn) string {
		p := in.pdf
		if p == nil {
			var err error
			if p, err = parse.OpenWithOptions(in.doc, parse.ParseOptions{Password: in.pass}); err != nil {
				return show(err)
			}
		}
		var s strings.Builder
		ns := p.Objects()
		s.WriteString(show(p.Version(), p.ObjectCount(), p.RevisionCount(), p.IsEncrypted(), p.Trailer(), len(p.Bytes())))
		r := in.rng()
		for k := 0; k < 25 && len(ns) > 0; k++ {
			n := ns[r.N(len(ns))]
			b, err := p.GetObject(n)
			s.WriteString(show(n, p.HasObject(n), b, err))
			if d, data, ok := parse.SplitStream(b); ok {
				x, err := p.DecodeStream(string(d), data)
				s.WriteString(show(x, err))
			}
		}
		refs, err := p.XFAStreamRefs()
		s.WriteString(show(refs, err))
		pages, err := extract.ExtractPages(in.doc, p, false)
		s.WriteString(show(pages, err))
		m, err := extract.ExtractMetadata(in.doc, p, false)
		s.WriteString(show(m, err))
		x, err := extract.ExtractBookmarks(in.doc, p, false)
		s.WriteString(show(x, err))
		return s.String()
	})
	call("acroform.AcroForm", func(in *callIn) string {
		f := in.form
		if f == nil {
			var err error
			if f, err = acroform.ExtractAcroForm(in.doc, in.pass, false); err != nil || f == nil {
				return show(f, err)
			}
		}
		vs := f.GetFieldValues()
		s := show(vs, f.ToFormSchema())
		for _, n := range anyKeys(vs) {
			x := f.FindFieldByName(n)
			if x == nil {
				s += "none;"
				continue
			}
			s += show(x.GetFullName(), x.ToQuestion())
		}
		es := acroform.ValidateFormData(f, in.formData(in.rng()))
		return s + show(len(es))
	})
	call("parse.Open/bytes", func(in *callIn) string {
		w := types.NewWarningCollector(true)
		p, err := parse.OpenWithOptions(in.doc, parse.ParseOptions{Password: in.pass, Verbose: in.verbose, BytePerfect: true, Warnings: w})
		if err != nil {
			return show(err)
		}
		return show(p.ObjectCount(), p.Document(), p.Bytes())
	})
	call("parse.GetObject", func(in *callIn) string {
		e := in.enc()
		var s strings.Builder
		r := in.rng()
		for k := 0; k < 8; k++ {
			n := 1 + r.N(30)
			b, err := parse.GetObject(in.doc, n, e, in.verbose)
			s.WriteString(show(n, b, err))
			l, err := parse.FindObjectLocation(in.doc, n, in.verbose)
			s.WriteString(show(l, err))
			o, err := parse.FindObjectByNumber(in.doc, n, e, in.verbose)
			s.WriteString(show(o, err))
		}
		return s.String()
	})
	call("parse.DecodeFilter", func(in *callIn) string {
		r := in.rng()
		var s strings.Builder
		for k := 0; k < 12; k++ {
			// some of the document, or runs, encoded and then damaged
			var b []byte
			if n := len(in.doc); n > 0 {
				i := r.N(n)
				b = append(b, in.doc[i:min(n, i+r.N(r.Pick2(8, 60, 600)))]...)
			}
			if r.P(40) {
				b = append(b, bytes.Repeat([]byte{byte(r.N(256))}, r.N(300))...)
			}
			f := r.Pick("/FlateDecode", "/ASCIIHexDecode", "/ASCII85Decode", "/RunLengthDecode", "/LZWDecode", "/DCTDecode", "/Crypt", "/Nonsense", "")
			switch f {
			case "/FlateDecode":
				b = deflate(b)
			case "/ASCIIHexDecode":
				b = parse.EncodeASCIIHex(b)
			case "/ASCII85Decode":
				b = parse.EncodeASCII85(b)
			case "/RunLengthDecode":
				b = parse.EncodeRunLength(b)
			}
			switch r.N(5) {
			case 0:
			case 1:
				// cut where it may matter most
				b = b[:max(0, len(b)-1-r.N(3))]
			case 2:
				b = b[:r.N(len(b)+1)]
			default:
				b = damageText(r, b)
			}
			d, err := parse.DecodeFilter(b, f)
			s.WriteString(show(f, d, err))
			if r.P(30) {
				parms := showVal(Dict{"Predictor": int64(r.Pick2(1, 2, 10, 11, 12, 13, 14, 15, 16, 3)), "Columns": badInts[r.N(len(badInts))], "Colors": badInts[r.N(8)], "BitsPerComponent": badInts[r.N(8)]})
				d, err = parse.DecodePredictor(d, parms)
				s.WriteString(show(parms, d, err))
			}
		}
		return s.String()
	})
	call("parse.ParsePDFDocument", func(in *callIn) string {
		d, err := parse.ParsePDFDocument(in.doc)
		if err != nil {
			return show(err)
		}
		var s strings.Builder
		s.WriteString(show(d.Header, d.Bytes(), d.ObjectCount(), d.RevisionCount()))
		for i, rv := range d.Revisions {
			if i == 20 {
				break
			}
			s.WriteString(show(rv, rv.RevisionBytes(d)))
		}
		for n := 0; n < 12; n++ {
			s.WriteString(show(d.GetObject(n), d.GetObjectInRevision(n, 1)))
		}
		return s.String()
	})
	call("parse.revisions", func(in *callIn) string {
		var s strings.Builder
		n := parse.CountRevisions(in.doc)
		s.WriteString(show(n, parse.FindAllEOFMarkers(in.doc), parse.GetRevisionBoundaries(in.doc)))
		for k := 0; k < n+2 && k < 8; k++ {
			b, err := parse.ExtractRevision(in.doc, k)
			s.WriteString(show(b, err))
		}
		return s.String()
	})
	call("parse.xref", func(in *callIn) string {
		var s strings.Builder
		t, err := parse.ParsePDFTrailer(in.doc)
		s.WriteString(show(t, err))
		at := int64(in.rng().N(len(in.doc) + 20))
		if t != nil && in.seed%3 != 0 {
			at = t.StartXRef
		}
		for _, f := range []func([]byte, int64) (map[int]int64, error){parse.ParseCrossReferenceTable, parse.ParseTraditionalXRefTable, parse.ParseXRefStream} {
			m, err := f(in.doc, at)
			s.WriteString(show(m, err))
		}
		x, err := parse.ParseXRefStreamFull(in.doc, at, in.verbose)
		s.WriteString(show(x, err))
		y, err := parse.ParseXRefDataRaw(in.doc, at)
		s.WriteString(show(y, err))
		z, err := parse.ParseTrailerDataRaw(in.doc, at, len(in.doc))
		s.WriteString(show(z, err))
		o, err := parse.ParseRawObjectAt(in.doc, at)
		s.WriteString(show(o, err))
		h, err := parse.ParsePDFHeader(in.doc)
		s.WriteString(show(h, err))
		return s.String()
	})
	call("encrypt.DecryptPDF", func(in *callIn) string {
		b, e, err := encrypt.DecryptPDF(in.doc, in.pass, in.verbose)
		s := show(b, e, err, encrypt.ExtractFileID(in.doc, in.verbose))
		d, err := encrypt.ParseEncryptionDictionary(in.doc, in.verbose)
		return s + show(d, err)
	})
	call("encrypt.DecryptPDF/wrong password", func(in *callIn) string {
		b, e, err := encrypt.DecryptPDF(in.doc, []byte("not the password"), in.verbose)
		return show(b, e, err)
	})
	call("extract.ExtractContent", func(in *callIn) string {
		d, err := extract.ExtractContent(in.doc, in.pass, in.verbose)
		return show(d, err)
	})
	call("extract.ExtractContentToJSON", func(in *callIn) string {
		d, err := extract.ExtractContentToJSON(in.doc, in.pass, in.verbose)
		return show(d, err)
	})
	call("extract.parts", func(in *callIn) string {
		p, err := parse.OpenWithOptions(in.doc, parse.ParseOptions{Password: in.pass})
		if err != nil {
			return show(err)
		}
		a, err := extract.ExtractPages(in.doc, p, in.verbose)
		s := show(a, err)
		b, err := extract.ExtractMetadata(in.doc, p, in.verbose)
		s += show(b, err)
		m, err := extract.ExtractBookmarks(in.doc, p, in.verbose)
		return s + show(m, err)
	})
	call("extract.ExtractAllImages", func(in *callIn) string {
		d, err := extract.ExtractAllImages(in.doc, in.pass, in.verbose)
		return show(d, err)
	})
	call("extract.ExtractToDirectory", func(in *callIn) string {
		d, err := extract.ExtractToDirectory(in.doc, in.pass, "/out/x", in.verbose)
		return show(d, err)
	})
	call("manipulate.ExtractPages", func(in *callIn) string {
		b, err := manipulate.ExtractPages(in.doc, in.pageNums(in.rng()), in.pass, in.verbose)
		return show(b, err)
	})
	call("manipulate.SplitPDF", func(in *callIn) string {
		r := in.rng()
		a := 1 + r.N(in.pages)
		ranges := []manipulate.PageRange{{Start: a, End: a + r.N(in.pages-a+1)}, {Start: 1, End: 1}}
		b, err := manipulate.SplitPDF(in.doc, ranges, in.pass, in.verbose)
		return show(b, err)
	})
	call("manipulate.SplitPDFByPageCount", func(in *callIn) string {
		b, err := manipulate.SplitPDFByPageCount(in.doc, 1+in.rng().N(3), in.pass, in.verbose)
		return show(b, err)
	})
	call("manipulate.MergePDFs", func(in *callIn) string {
		b, err := manipulate.MergePDFs([][]byte{in.doc, in.other}, [][]byte{in.pass, in.opass}, in.verbose)
		return show(b, err)
	})
	call("manipulate.PDFManipulator", func(in *callIn) string {
		m, err := manipulate.NewPDFManipulator(in.doc, in.pass, in.verbose)
		if err != nil {
			return show(err)
		}
		r := in.rng()
		var s strings.Builder
		for k := r.N(5); k > 0; k-- {
			switch r.N(5) {
			case 0:
				s.WriteString(show(m.RotatePage(1+r.N(in.pages), r.Pick2(90, 180, 270, -90, 45))))
			case 1:
				s.WriteString(show(m.RotateAllPages(90)))
			case 2:
				s.WriteString(show(m.DeletePage(1 + r.N(in.pages))))
			case 3:
				s.WriteString(show(m.InsertPage(1+r.N(in.pages+1), 5000, []byte("<</Type/Page/MediaBox[0 0 10 10]>>"))))
			default:
				b, ok := m.Object(1 + r.N(20))
				s.WriteString(show(b, ok))
			}
		}
		b, err := m.Rebuild()
		s.WriteString(show(b, err))
		return s.String()
	})
	for _, g := range []struct {
		n string
		f func(o *compare.CompareOptions)
	}{
		{"compare.ComparePDFs", func(o *compare.CompareOptions) {}},
		{"compare.ComparePDFs/word", func(o *compare.CompareOptions) {
			o.TextGranularity, o.DetectMoves = compare.GranularityWord, true
			o.IgnoreProducer, o.IgnoreDates = false, false
		}},
		{"compare.ComparePDFs/char", func(o *compare.CompareOptions) {
			o.TextGranularity, o.IgnoreCase, o.IgnoreWhitespace = compare.GranularityChar, true, true
		}},
	} {
		g := g
		call(g.n, func(in *callIn) string {
			o := compare.DefaultCompareOptions()
			g.f(&o)
			o.Verbose = in.verbose
			d, err := compare.ComparePDFsWithOptions(in.doc, in.other, in.pass, in.opass, o)
			if err != nil {
				return show(err)
			}
			s := show(d, compare.GenerateReport(d))
			j, err := compare.GenerateJSONReport(d)
			return s + show(j, err)
		})
	}
	call("acroform.ExtractAcroForm", func(in *callIn) string {
		f, err := acroform.ExtractAcroForm(in.doc, in.pass, in.verbose)
		if err != nil || f == nil {
			return show(f, err)
		}
		s := show(f, f.GetFieldValues(), f.ToFormSchema())
		for _, x := range f.Fields {
			s += show(x.GetFullName(), f.FindFieldByName(x.GetFullName()) != nil, x.ToQuestion())
		}
		return s
	})
	call("acroform.FillFormFields", func(in *callIn) string {
		b, err := acroform.FillFormFields(in.doc, in.formData(in.rng()), in.pass, in.verbose)
		return show(b, err)
	})
	call("acroform.FillFormFieldsWithStreams", func(in *callIn) string {
		b, err := acroform.FillFormFieldsWithStreams(in.doc, in.formData(in.rng()), in.pass, in.verbose)
		return show(b, err)
	})
	call("acroform.FlattenForm", func(in *callIn) string {
		b, err := acroform.FlattenForm(in.doc, in.pass, in.verbose)
		return show(b, err)
	})
	call("acroform.validate", func(in *callIn) string {
		f, err := acroform.ExtractAcroForm(in.doc, in.pass, in.verbose)
		if err != nil || f == nil {
			return show(f, err)
		}
		d := in.formData(in.rng())
		errText := func(es []error) []string {
			var o []string
			for _, e := range es {
				o = append(o, e.Error())
			}
			return o
		}
		return show(errText(acroform.ValidateFormData(f, d)), errText(acroform.ValidateFormSchema(f.ToFormSchema(), d)))
	})
	call("forms.Extract", func(in *callIn) string {
		t, err := forms.Detect(in.doc, in.pass, in.verbose)
		s := show(t, err)
		f, err := forms.Extract(in.doc, in.pass, in.verbose)
		if err != nil || f == nil {
			return s + show(err)
		}
		d := in.formData(in.rng())
		s += show(f.Type(), f.Schema(), f.GetValues(), len(f.Validate(d)))
		b, err := f.Fill(in.doc, d, in.pass, in.verbose)
		return s + show(b, err)
	})
	call("xfa.ExtractAllXFAStreams", func(in *callIn) string {
		x, err := xfa.ExtractAllXFAStreams(in.doc, in.enc(), in.verbose)
		s := show(x, err)
		b, n, err := xfa.FindXFADatasetsStream(in.doc, in.enc(), in.verbose)
		return s + show(b, n, err)
	})
	call("xfa.UpdateXFAInPDF", func(in *callIn) string {
		b, err := xfa.UpdateXFAInPDF(in.doc, in.formData(in.rng()), in.enc(), in.verbose)
		return show(b, err)
	})
	call("xfa.RebuildPDFFromXFAStreams", func(in *callIn) string {
		e := in.enc()
		x, err := xfa.ExtractAllXFAStreams(in.doc, e, in.verbose)
		if err != nil || x == nil {
			return show(err)
		}
		b, err := xfa.RebuildPDFFromXFAStreams(in.doc, x, e, in.verbose)
		s := show(b, err)
		b, err = xfa.BuildPDFFromXFAStreams(x, in.verbose)
		return s + show(b, err)
	})
	call("xfa.translate", func(in *callIn) string {
		s := ""
		add := func(vs ...interface{}) { s += show(vs...) }
		if f, err := xfa.ParseXFAForm(in.xml, in.verbose); err != nil {
			add(err)
		} else {
			x, err := xfa.FormToXFA(f, in.verbose)
			add(f, x, err)
		}
		if f, err := xfa.ParseXFADatasets(in.xml, in.verbose); err != nil {
			add(err)
		} else {
			x, err := xfa.DatasetsToXFA(f, in.verbose)
			add(f, x, err)
		}
		if f, err := xfa.ParseXFAConfig(in.xml, in.verbose); err != nil {
			add(err)
		} else {
			x, err := xfa.ConfigToXFA(f, in.verbose)
			add(f, x, err)
		}
		if f, err := xfa.ParseXFALocaleSet(in.xml, in.verbose); err != nil {
			add(err)
		} else {
			x, err := xfa.LocaleSetToXFA(f, in.verbose)
			add(f, x, err)
		}
		if f, err := xfa.ParseXFAConnectionSet(in.xml, in.verbose); err != nil {
			add(err)
		} else {
			x, err := xfa.ConnectionSetToXFA(f, in.verbose)
			add(f, x, err)
		}
		if f, err := xfa.ParseXFAStylesheet(in.xml, in.verbose); err != nil {
			add(err)
		} else {
			x, err := xfa.StylesheetToXFA(f, in.verbose)
			add(f, x, err)
		}
		fs, err := parse.ParseXFAFields(in.xml, in.verbose)
		add(fs, err)
		x, err := xfa.UpdateXFAValues(in.xml, types.FormData{"a": "1", "b": "2"}, in.verbose)
		add(x, err)
		x, err = xfa.UpdateXFAFieldValues(in.xml, types.FormData{"a": "1", "b": "2"}, in.verbose)
		add(x, err)
		return s
	})
	call("write.build", func(in *callIn) string {
		// a document made from what is in the document at hand
		b := write.NewSimplePDFBuilder()
		d, err := extract.ExtractContent(in.doc, in.pass, false)
		if err != nil {
			return show(err)
		}
		for i, pg := range d.Pages {
			if i == 4 {
				break
			}
			pb := b.AddPage(write.PageSize{Width: 612, Height: 792})
			f := pb.AddStandardFont("Helvetica")
			g := pb.AddStandardFont("Courier")
			cs := pb.Content()
			for k, t := range pg.Text {
				if k == 20 {
					break
				}
				if k%2 == 0 {
					f, g = g, f
				}
				cs.BeginText().SetFont(f, 12).SetTextPosition(float64(k), 700).ShowText(t.Text).EndText()
			}
			b.FinalizePage(pb)
		}
		if err := b.SetBookmarks(d.Bookmarks); err != nil {
			return show(err)
		}
		if d.Metadata != nil {
			m := *d.Metadata
			// a date that cannot be read is replaced by the current time
			m.ModDate, m.CreationDate = "D:20200102030405Z", "2020-01-02"
			b.Writer().SetMetadata(&m)
		}
		out, err := b.Bytes()
		return show(out, err)
	})
	call("font.embed", func(in *callIn) string {
		h := fnv.New64a()
		h.Write(in.doc)
		t := makeFont(h.Sum64() % 64)
		f, err := font.NewFont("F", t.data)
		if err != nil {
			return show(err)
		}
		f.AddString("Hello, Wörld")
		ttf, err1 := font.ParseTTF(t.data)
		gl, err2 := f.GetSubsetGlyphs()
		ws, err3 := f.GetWidths()
		b := write.NewSimplePDFBuilder()
		pb := b.AddPage(write.PageSizeA4)
		n, err4 := pb.AddEmbeddedFont(f)
		pb.Content().BeginText().SetFont(n, 12).SetTextPosition(10, 700).ShowText("Hello").EndText()
		b.FinalizePage(pb)
		out, err5 := b.Bytes()
		return show(ttf, err1, gl, err2, ws, err3, err4, out, err5)
	})
	call("json.Marshal", func(in *callIn) string {
		f, err := forms.Extract(in.doc, in.pass, false)
		if err != nil || f == nil {
			return show(err)
		}
		j, err := json.Marshal(f.Schema())
		return show(j, err)
	})
}

func anyKeys(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
