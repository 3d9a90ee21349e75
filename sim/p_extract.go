package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/types"
)

// C17: extraction from any document.

type ehist struct {
	c *Ctx
	b *pbuild
	m *pmodel
	// the expected number of pages and so on come from the model
}

func (h *ehist) str(v Val) string {
	if s, ok := h.m.get(v).(Str); ok {
		return refText(string(s))
	}
	return ""
}

func (h *ehist) nums(v Val) []float64 {
	a, ok := h.m.get(v).(Arr)
	if !ok {
		return nil
	}
	var o []float64
	var add func(a Arr)
	add = func(a Arr) {
		for _, e := range a {
			switch x := e.(type) {
			case Arr:
				add(x)
			case int64, Real:
				o = append(o, num(x))
			}
		}
	}
	add(a)
	return o
}

func (h *ehist) name(v Val) string {
	if n, ok := h.m.get(v).(Name); ok {
		return string(n)
	}
	return ""
}

func sameNums(got, want []float64) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !nearTo(got[i], want[i], 1e-9) {
			return false
		}
	}
	return true
}

func sameRect(r *types.Rectangle, want []float64) bool {
	if len(want) < 4 {
		return r == nil
	}
	return r != nil && sameNums([]float64{r.LowerX, r.LowerY, r.UpperX, r.UpperY}, want[:4])
}

// sameText compares the text of a value with the value.
func (h *ehist) sameText(got string, want Val) bool {
	if want == nil {
		return got == ""
	}
	v, err := parseVal([]byte(got))
	if err != nil {
		return false
	}
	return showVal(v) == showVal(want) || showVal(v) == showVal(h.m.get(want)) || got == refText(showStr(h.m.get(want)))
}

func showStr(v Val) string {
	if s, ok := v.(Str); ok {
		return string(s)
	}
	return "\x00"
}

// font is what is known about a font dictionary.
func (h *ehist) font(v Val) *rfont { return h.b.rfonts[h.m.dict(v).num("PZF")] }

// content is the whole content of a page, decoded.
func (h *ehist) content(d Dict) []byte {
	var o []byte
	part := func(v Val) {
		if ref, ok := v.(Ref); ok {
			o = append(append(o, h.b.plain[ref.N]...), '\n')
		}
	}
	switch x := h.m.get(d["Contents"]).(type) {
	case Arr:
		for _, e := range x {
			part(e)
		}
	case *Stm:
		part(d["Contents"])
	}
	return o
}

var annotTypes = map[string]string{"StrikeOut": "strikeout", "PolyLine": "polyline", "FreeText": "freetext", "Widget": "Widget", "Redact": "Redact"}

func (h *ehist) annot(g *types.Annotation, v Val, page int) string {
	d := h.m.dict(v)
	kind := h.name(d["Subtype"])
	want := annotTypes[kind]
	if want == "" {
		want = strings.ToLower(kind)
	}
	id := ""
	if ref, ok := v.(Ref); ok {
		id = fmt.Sprint(ref.N)
	}
	if string(g.Type) != want || g.ID != id || g.PageNumber != page {
		return fmt.Sprintf("has type %s, ID %q, page %d, want %s, %q, %d", g.Type, g.ID, g.PageNumber, want, id, page)
	}
	if !sameRect(g.Rect, h.nums(d["Rect"])) {
		return fmt.Sprintf("has the rectangle %+v, want %v", g.Rect, h.nums(d["Rect"]))
	}
	for k, s := range map[string]string{"Contents": g.Contents, "T": g.Title, "Subj": g.Subject} {
		if s != h.str(d[k]) {
			return fmt.Sprintf("has /%s %q, want %q", k, s, h.str(d[k]))
		}
	}
	c := h.nums(d["C"])
	switch {
	case len(c) == 3:
		if g.Color == nil || !sameColor(g.Color, xcolor{"rgb", [4]float64{c[0], c[1], c[2]}}) {
			return fmt.Sprintf("has the color %+v, want %v", g.Color, c)
		}
	case len(c) == 4:
		if g.Color == nil || !sameColor(g.Color, xcolor{"cmyk", [4]float64{c[0], c[1], c[2], c[3]}}) {
			return fmt.Sprintf("has the color %+v, want %v", g.Color, c)
		}
	case len(c) == 0:
		if g.Color != nil {
			return fmt.Sprintf("has the color %+v, want none", g.Color)
		}
	}
	b := h.nums(d["Border"])
	if len(b) < 3 {
		if g.Border != nil {
			return fmt.Sprintf("has the border %+v, want none", g.Border)
		}
	} else if g.Border == nil || !nearTo(g.Border.Width, b[2], 1e-9) || !sameNums(g.Border.Dash, b[3:]) {
		return fmt.Sprintf("has the border %+v, want %v", g.Border, b)
	}
	var dest Val
	uri := ""
	if kind == "Link" {
		dest, uri = h.target(d)
	}
	if g.URI != uri {
		return fmt.Sprintf("has the URI %q, want %q", g.URI, uri)
	}
	if !h.sameText(g.Destination, dest) {
		return fmt.Sprintf("has the destination %q, want %s", g.Destination, showVal(dest))
	}
	open, icon := false, ""
	if kind == "Text" {
		open, _ = h.m.get(d["Open"]).(bool)
		icon = h.name(d["Name"])
	}
	if g.Open != open || strings.TrimPrefix(g.Icon, "/") != icon {
		return fmt.Sprintf("has Open %v, Icon %q, want %v, %q", g.Open, g.Icon, open, icon)
	}
	q := h.nums(d["QuadPoints"])
	var got []float64
	for _, p := range g.QuadPoints {
		got = append(got, p.X, p.Y)
	}
	if len(q) >= 8 {
		q = q[:8]
	}
	if !sameNums(got, q) {
		return fmt.Sprintf("has the quad points %v, want %v", got, q)
	}
	return ""
}

// target is where a link or an outline item leads.
func (h *ehist) target(d Dict) (dest Val, uri string) {
	dest = d["Dest"]
	a := h.m.dict(d["A"])
	uri = h.str(a["URI"])
	if dest == nil && h.name(a["S"]) == "GoTo" {
		dest = a["D"]
	}
	if v := h.m.get(dest); v != nil {
		dest = v
	}
	return dest, uri
}

type xmark struct {
	title, uri string
	dest       Val
	page       int
	kids       []xmark
}

func (h *ehist) outline(v Val, index map[int]int) []xmark {
	var out []xmark
	for v != nil {
		d := h.m.dict(v)
		x := xmark{title: h.str(d["Title"])}
		x.dest, x.uri = h.target(d)
		if a, ok := h.m.get(x.dest).(Arr); ok && len(a) > 0 {
			if ref, ok := a[0].(Ref); ok {
				x.page = index[ref.N]
			}
		}
		x.kids = h.outline(d["First"], index)
		out = append(out, x)
		v = d["Next"]
	}
	return out
}

func (h *ehist) marks(got []types.Bookmark, want []xmark, path string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s has %d items, want %d", path, len(got), len(want))
	}
	for i, w := range want {
		g := got[i]
		at := fmt.Sprintf("%s/%d", path, i)
		if g.Title != w.title || g.URI != w.uri || g.PageNumber != w.page || !h.sameText(g.Destination, w.dest) {
			return fmt.Sprintf("%s is %+v, want %q, URI %q, page %d, destination %s", at, g, w.title, w.uri, w.page, showVal(w.dest))
		}
		if s := h.marks(g.Children, w.kids, at); s != "" {
			return s
		}
	}
	return ""
}

func (h *ehist) document(doc *types.ContentDocument, encrypted bool) {
	c, m := h.c, h.m
	if len(doc.Pages) != len(m.list) {
		c.Fail("pages", "%d pages, want %d", len(doc.Pages), len(m.list))
		return
	}
	md := doc.Metadata
	if md == nil || md.PageCount != len(m.list) || md.Encrypted != encrypted || md.PDFVersion != h.b.ver {
		c.Fail("metadata", "metadata is %+v, want %d pages, encrypted %v, version %s", md, len(m.list), encrypted, h.b.ver)
		return
	}
	wantMeta := map[string]string{}
	if d, ok := m.objs[m.info].(Dict); ok && m.info > 0 {
		for k, v := range d {
			if _, ok := m.get(v).(Str); ok {
				wantMeta[nameText(k)] = h.str(v)
			}
		}
	}
	gotMeta := map[string]string{"Title": md.Title, "Author": md.Author, "Subject": md.Subject, "Keywords": md.Keywords, "Creator": md.Creator, "Producer": md.Producer, "CreationDate": md.CreationDate, "ModDate": md.ModDate}
	for k, v := range md.Custom {
		gotMeta[k] = v
	}
	for _, k := range []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate", "Company", "My Key", "T", "Trapped", "Custom"} {
		if gotMeta[k] != wantMeta[k] {
			c.Fail("metadata", "%s is %q, want %q", k, gotMeta[k], wantMeta[k])
			return
		}
	}
	index := map[int]int{}
	var annots int
	fonts, pics := map[string]bool{}, map[string]bool{}
	for i, p := range m.list {
		index[p.num] = i + 1
		g := &doc.Pages[i]
		at := fmt.Sprintf("page %d (object %d)", i+1, p.num)
		box := h.nums(p.d["MediaBox"])
		if g.PageNumber != i+1 || !sameRect(g.MediaBox, box) || !sameRect(g.CropBox, h.nums(p.d["CropBox"])) || len(box) >= 4 && (!nearTo(g.Width, box[2]-box[0], 1e-9) || !nearTo(g.Height, box[3]-box[1], 1e-9)) {
			c.Fail("boxes", "%s: number %d, boxes %+v %+v, size %v %v, want %v %v", at, g.PageNumber, g.MediaBox, g.CropBox, g.Width, g.Height, box, h.nums(p.d["CropBox"]))
			return
		}
		if g.Rotation != m.rotation(p) {
			c.Fail("rotation", "%s: rotation %d, want %d", at, g.Rotation, m.rotation(p))
			return
		}
		// resources
		res := m.dict(p.d["Resources"])
		fd := m.dict(res["Font"])
		xd := m.dict(res["XObject"])
		var gf map[string]types.FontInfo
		var gx map[string]types.XObject
		var gi map[string]types.Image
		if g.Resources != nil {
			gf, gx, gi = g.Resources.Fonts, g.Resources.XObjects, g.Resources.Images
		}
		if len(gf) != len(fd) || len(gx) != len(xd) {
			c.Fail("resources", "%s: fonts %v, XObjects %v, want %s and %s", at, gf, gx, showVal(fd), showVal(xd))
			return
		}
		for _, k := range sortedKeys(fd) {
			if s := h.fontInfo(gf[k], k, m.dict(fd[k])); s != "" {
				c.Fail("font", "%s: font /%s %s", at, k, s)
				return
			}
			fonts[fmt.Sprintf("%+v", gf[k])] = true
		}
		images := 0
		for _, k := range sortedKeys(xd) {
			d := m.dict(xd[k])
			x := gx[k]
			img := h.name(d["Subtype"]) == "Image"
			if strings.TrimPrefix(x.Subtype, "/") != h.name(d["Subtype"]) || strings.TrimPrefix(x.ID, "/") != k {
				c.Fail("xobject", "%s: XObject /%s is %+v", at, k, x)
				return
			}
			if !img {
				continue
			}
			images++
			w, hh := int64(0), int64(0)
			w, _ = m.get(d["Width"]).(int64)
			hh, _ = m.get(d["Height"]).(int64)
			pics[fmt.Sprintf("%+v", gi[k])] = true
			if int64(x.Width) != w || int64(x.Height) != hh || int64(gi[k].Width) != w || int64(gi[k].Height) != hh {
				c.Fail("xobject", "%s: image /%s is %+v, %+v, want %d x %d", at, k, x, gi[k], w, hh)
				return
			}
		}
		if len(gi) != images {
			c.Fail("xobject", "%s: %d images, want %d", at, len(gi), images)
			return
		}
		// contents
		ops, err := lexContent(h.content(p.d))
		if err != nil {
			c.Fail("bug", "%s: own content: %v", at, err)
			return
		}
		c.Count("operators", len(ops))
		want := interpret(ops, func(font, s string) string {
			if font == "" {
				return s
			}
			return h.font(fd[font]).decode(s)
		})
		c.Count("text_elements", len(want.text))
		if class, t := diffPage(g, want, 1e-6); class != "" {
			c.Fail(class, "%s: %s; content %q", at, t, h.content(p.d))
			return
		}
		// annotations
		var a Arr
		all, _ := m.get(p.d["Annots"]).(Arr)
		for _, v := range all {
			if m.get(v) != nil {
				a = append(a, v)
			}
		}
		if len(g.Annotations) != len(a) {
			c.Fail("annotations", "%s: %d annotations, want %d", at, len(g.Annotations), len(a))
			return
		}
		for k := range a {
			if s := h.annot(&g.Annotations[k], a[k], i+1); s != "" {
				c.Fail("annotation", "%s: annotation %d %s", at, k, s)
				return
			}
			if annots >= len(doc.Annotations) || mustJSON(doc.Annotations[annots]) != mustJSON(g.Annotations[k]) {
				c.Fail("annotations", "annotation %d of the document is not annotation %d of page %d", annots, k, i+1)
				return
			}
			annots++
		}
	}
	if annots != len(doc.Annotations) || len(doc.Fonts) != len(fonts) || len(doc.Images) != len(pics) {
		c.Fail("annotations", "the document has %d annotations, %d fonts and %d images, its pages %d, %d and %d", len(doc.Annotations), len(doc.Fonts), len(doc.Images), annots, len(fonts), len(pics))
		return
	}
	// each of them once
	for _, f := range doc.Fonts {
		delete(fonts, fmt.Sprintf("%+v", f))
	}
	for _, i := range doc.Images {
		delete(pics, fmt.Sprintf("%+v", i))
	}
	if len(fonts) > 0 || len(pics) > 0 {
		c.Fail("annotations", "the document lists fonts and images that its pages do not have")
		return
	}
	top := m.dict(m.dict(Ref{m.root, 0})["Outlines"])
	if s := h.marks(doc.Bookmarks, h.outline(top["First"], index), "outline"); s != "" {
		c.Fail("outline", "%s", s)
	}
}

func (h *ehist) fontInfo(g types.FontInfo, name string, d Dict) string {
	base := h.name(d["BaseFont"])
	sub := h.name(d["Subtype"])
	desc := d
	if a, ok := h.m.get(d["DescendantFonts"]).(Arr); ok {
		desc = h.m.dict(a[0])
	}
	desc = h.m.dict(desc["FontDescriptor"])
	embedded := desc["FontFile"] != nil || desc["FontFile2"] != nil || desc["FontFile3"] != nil
	if strings.TrimPrefix(g.ID, "/") != name || strings.TrimPrefix(g.Name, "/") != base || strings.TrimPrefix(g.Subtype, "/") != sub || g.Embedded != embedded || g.ToUnicode != (d["ToUnicode"] != nil) {
		return fmt.Sprintf("is %+v, want %s, %s, embedded %v, ToUnicode %v", g, base, sub, embedded, d["ToUnicode"] != nil)
	}
	if n := h.name(d["Encoding"]); n != "" && strings.TrimPrefix(g.Encoding, "/") != n {
		return fmt.Sprintf("has the encoding %q, want %q", g.Encoding, n)
	}
	if f := h.str(desc["FontFamily"]); f != "" && g.Family != f {
		return fmt.Sprintf("has the family %q, want %q", g.Family, f)
	}
	return ""
}

// allImages checks the images of the document: each once, with its data.
func (h *ehist) allImages(got []types.Image) {
	m := h.m
	var want []int
	var names []string
	seen := map[int]bool{}
	for _, p := range m.list {
		xd := m.dict(m.dict(p.d["Resources"])["XObject"])
		for _, k := range sortedKeys(xd) {
			ref := xd[k].(Ref)
			if h.name(m.dict(ref)["Subtype"]) == "Image" && !seen[ref.N] {
				seen[ref.N] = true
				want = append(want, ref.N)
				names = append(names, k)
			}
		}
	}
	if len(got) != len(want) {
		h.c.Fail("images", "ExtractAllImages returns %d images, want %d", len(got), len(want))
		return
	}
	for i, n := range want {
		g, d := got[i], m.dict(Ref{n, 0})
		format := "png"
		switch f := m.get(d["Filter"]).(type) {
		case Name:
			format = imageFormat(Arr{f})
		case Arr:
			format = imageFormat(f)
		case nil:
			format = ""
		}
		hh, _ := m.get(d["Height"]).(int64)
		if strings.TrimPrefix(g.ID, "/") != names[i] || g.Width != d.num("Width") || int64(g.Height) != hh || strings.TrimPrefix(g.ColorSpace, "/") != h.name(d["ColorSpace"]) || g.BitsPerComponent != d.num("BitsPerComponent") || g.Format != format {
			h.c.Fail("image", "image %d is %s, %d x %d, %s, %d bits, %q, want /%s, %s, %q", i, g.ID, g.Width, g.Height, g.ColorSpace, g.BitsPerComponent, g.Format, names[i], showVal(d), format)
			return
		}
		if !bytes.Equal(g.Data, h.b.plain[n]) {
			h.c.Fail("image-data", "image %d (/%s, object %d, %s) has the data %.60x (%d bytes), want %.60x (%d bytes)", i, names[i], n, showVal(d), g.Data, len(g.Data), h.b.plain[n], len(h.b.plain[n]))
			return
		}
	}
}

func compactJSON(b []byte) string {
	var o bytes.Buffer
	if json.Compact(&o, b) != nil {
		return "not JSON: " + string(b)
	}
	return o.String()
}

func imageFormat(filters Arr) string {
	for _, k := range [][2]string{{"DCTDecode", "jpeg"}, {"CCITTFaxDecode", "tiff"}, {"JPXDecode", "jpeg2000"}, {"FlateDecode", "png"}} {
		for _, f := range filters {
			if f == Name(k[0]) {
				return k[1]
			}
		}
	}
	return "unknown"
}

func execExtract(c *Ctx) {
	c.limit = 400_000_000
	b := buildPages(c.sc.Ops)
	data := b.b
	k := len(b.snaps)
	rev := k
	for i, f := range c.sc.Faults {
		if i == 0 {
			data, rev = tear(b.docBuilder, f)
			c.Count("fault:torn_append:"+f.K, 1)
		}
	}
	var pass []byte
	if b.enc != nil {
		pass = []byte(b.pass[c.sc.P["owner"]])
		if b.pass[1] == "" {
			pass = []byte(b.pass[0])
		}
	}
	orig := append([]byte(nil), data...)
	c.Begin()
	defer c.End()
	if rev == 0 {
		// a document that was never complete: anything but a crash
		c.Call("ExtractContent", func() { extract.ExtractContent(data, pass, false) })
		c.Call("ExtractAllImages", func() { extract.ExtractAllImages(data, pass, false) })
		return
	}
	h := &ehist{c: c, b: b, m: modelOf(b.docBuilder, b.snaps[rev-1])}
	var doc *types.ContentDocument
	var imgs []types.Image
	var js string
	var err, err2, err3 error
	if !c.Call("ExtractContent", func() { doc, err = extract.ExtractContent(data, pass, false) }) {
		return
	}
	if err != nil {
		c.Fail("refused", "ExtractContent: %v", err)
		return
	}
	h.document(doc, b.enc != nil)
	c.Shape(len(h.m.list), len(b.nodes), rev, b.enc != nil, len(doc.Images), len(doc.Fonts), len(doc.Annotations), len(doc.Bookmarks))
	for _, p := range doc.Pages {
		c.Shape(len(p.Text), len(p.Graphics), len(p.Images))
	}
	c.res.Nontrivial = true
	if c.Failed() {
		return
	}
	if !c.Call("ExtractAllImages", func() { imgs, err2 = extract.ExtractAllImages(data, pass, false) }) {
		return
	}
	if err2 != nil {
		c.Fail("refused", "ExtractAllImages: %v", err2)
		return
	}
	h.allImages(imgs)
	if !c.Call("ExtractContentToJSON", func() { js, err3 = extract.ExtractContentToJSON(data, pass, false) }) {
		return
	}
	if err3 != nil {
		c.Fail("refused", "ExtractContentToJSON: %v", err3)
		return
	}
	if a, b := compactJSON([]byte(js)), mustJSON(doc); a != b {
		c.Fail("deterministic", "two extractions differ: %s", around(a, b))
	}
	if !bytes.Equal(data, orig) {
		c.Fail("input", "the caller's document was changed")
	}
	if seed := c.sc.P["decoder"]; seed != 0 && !c.Failed() {
		decodeAlone(c, NewRng(uint64(seed)))
	}
}

// decodeAlone uses a font decoder that the caller sets up.
func decodeAlone(c *Ctx, r *Rng) {
	f := &rfont{m: map[int]string{}, two: r.P(30)}
	var fd *extract.FontDecoder
	c.Call("NewFontDecoder", func() { fd = extract.NewFontDecoder(r.Pick("F1", "")) })
	if c.Failed() {
		return
	}
	enc := r.Pick("WinAnsiEncoding", "MacRomanEncoding", "StandardEncoding", "MacExpertEncoding")
	if f.two {
		enc = r.Pick("Identity-H", "Identity-V")
	} else {
		f.base(enc)
	}
	steps := []func(){func() { fd.SetBaseEncoding(r.Pick("", "/") + enc) }}
	if !f.two {
		for k := r.N(6); k > 0; k-- {
			code, g := r.N(256), glyphs[r.N(len(glyphs))]
			if g.name == "" {
				continue // leaves the code as it was
			}
			steps = append(steps, func() { fd.SetDifferences(code, g.name) })
			f.set(code, g.text)
		}
	}
	if f.two || r.P(40) {
		cmap := string(f.toUnicode(r))
		steps = append(steps, func() { fd.ParseToUnicodeCMap(cmap) })
	}
	for k := r.N(5); k > 0; k-- {
		code, t := r.N(256), []rune{'x', 'é', '日', '😀', ' '}[r.N(5)]
		steps = append(steps, func() { fd.SetToUnicode(code, t) })
		f.set(code, string(t))
	}
	for _, s := range steps {
		if !c.Call("FontDecoder", s) {
			return
		}
	}
	most := 0
	for _, code := range f.codes {
		most = max(most, code)
	}
	if f.two && most < 256 {
		return // nothing says here that codes have two bytes
	}
	for k := 1 + r.N(3); k > 0; k-- {
		if len(f.codes) == 0 {
			return
		}
		data := f.text(r, r.N(9))
		want := f.decode(data)
		hex := "<"
		for _, b := range []byte(data) {
			hex += fmt.Sprintf(r.Pick("%02x", "%02X"), b) + r.Pick("", "", "", " ", "\n", "\r\n")
		}
		if hex += ">"; r.P(20) {
			hex = strings.Trim(hex, "<>")
		}
		var got string
		if !c.Call("DecodeHex", func() { got = fd.DecodeHex(hex) }) {
			return
		}
		if got != want {
			c.Fail("decoder", "%s decodes to %q, want %q (%s)", hex, got, want, enc)
			return
		}
		if f.two {
			continue
		}
		in := []byte(data)
		if !c.Call("Decode", func() { got = fd.Decode(in) }) {
			return
		}
		if got != want || string(in) != data {
			c.Fail("decoder", "%q decodes to %q, want %q (%s)", data, got, want, enc)
			return
		}
		c.Count("texts_decoded", 1)
	}
}

func genExtract(r *Rng, sc *Scenario, i int) {
	sc.Ops = genPageOps(r, 5, true)
	sc.Ops[0].A = append(sc.Ops[0].A, 0, 1)
	sc.Ops[0].A = sc.Ops[0].A[:3]
	sc.P["owner"] = int64(r.N(2))
	if r.P(12) {
		sc.P["decoder"] = int64(r.U64() >> 12)
	}
	if r.P(25) {
		f := Fault{K: r.Pick("cut", "cut", "zero", "junk"), A: []int64{int64(r.N(1001)), int64(r.U64() >> 20), int64(r.N(3))}}
		if r.P(35) {
			f.A[0] = -int64(1 + r.N(60))
		}
		sc.Faults = append(sc.Faults, f)
	}
}

func init() {
	register(&Prop{
		ID: "C17", Level: "exploration",
		Gen: genExtract, Exec: execExtract,
		Quick: 4000, Thorough: 300000,
		Rule: "one evaluation is one simulated history of a generated document with rich pages (torn last update included), extracted and compared with an independent interpreter; it counts as non-trivial when a document was extracted",
		Real: []string{"content/extract", "core/parse", "core/encrypt"},
		Stub: []string{"the writer of the input documents (independent)", "the disk that loses the tail of the last append", "map iteration order"},
	})
}
