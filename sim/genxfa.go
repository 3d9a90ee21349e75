package main

import (
	"encoding/xml"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// XFA forms in generated documents, and a reader of their own for them: it builds the
// tree of the XML and looks things up in it.

type xpacket struct {
	name string
	num  int
	data []byte
}

type xform struct {
	pk    []xpacket
	arrN  int
	dirty bool
}

var packetNames = []string{"config", "localeSet", "connectionSet", "stylesheet", "xmp", "signature", "sourceSet"}

// xmlText escapes a text in one of the ways there are.
func xmlText(r *Rng, s string) string {
	if strings.TrimSpace(s) != "" && r.P(10) && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
		return "<![CDATA[" + s + "]]>"
	}
	var b strings.Builder
	for _, c := range s {
		switch {
		case c == '&':
			b.WriteString(r.Pick("&amp;", "&#38;", "&#x26;"))
		case c == '<':
			b.WriteString(r.Pick("&lt;", "&#60;"))
		case c == '>':
			b.WriteString(r.Pick("&gt;", "&#x3E;", "&#x3e;"))
		case c == '"':
			b.WriteString(r.Pick("&quot;", "&#34;"))
		case c == '\'':
			b.WriteString(r.Pick("&apos;", "&#39;"))
		case c == '\r' || c == '\t' || c == '\n':
			fmt.Fprintf(&b, "&#%d;", c)
		case c > 127 && r.P(20):
			fmt.Fprintf(&b, "&#x%X;", c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

var xfaWords = []string{"name", "Name", "first name", "zip-code", "größe", "日本", "a&b", "<x>", "f.g", "x\"y", "1st", "it's", "value", "data", "field name=", "Ω_1", "a[0]"}

var xfaValues = []string{"", "John", "Jane Doe", "<b>bold</b>", "a & b", "&amp;", "\"quoted\"", "it's", "日本語", "😀", "1", "0", "true", "false", "42", "-7", "3.25", "007", "1 000", "two\nlines", "tab\there", "  inner  ", "]]>", "<!-- no comment -->", "</value>", "</field><field name=\"x\">", "<data>", "%%EOF", "endstream endobj", "größer", "100.50", "x > y", "\\", "$1", "${2}", "1e3", "Nan", "-inf", "yes", "TRUE", "1e999", "010", "0x1F", "0b11", "1_000", "4155550123", "9007199254740993", "12345678901234567890", "+5", "-0", "1.0", "https://example.com/a/", "C:\\dir\\"}

func xfaValue(r *Rng) string {
	s := xfaValues[r.N(len(xfaValues))]
	if r.P(25) {
		s += xfaValues[r.N(len(xfaValues))]
	}
	if r.P(3) {
		s = strings.Repeat(s+"long ", 1+r.N(200))
	}
	return s
}

func (r *Rng) ws() string {
	return r.Pick("", "", "\n", "\n  ", " ", "\r\n\t", "<!-- <field name=\"decoy\"><value>no</value></field> -->", "\n<!-- x -->\n")
}

func xmlHead(r *Rng) string {
	switch r.N(6) {
	case 0:
		return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
	case 1:
		return "<?xml version='1.0'?>"
	case 2:
		return "<!-- made by x -->"
	}
	return ""
}

// xmlAttr spells an attribute.
func xmlAttr(r *Rng, k, v string) string {
	q := r.Pick("\"", "\"", "'")
	return fmt.Sprintf("%s%s=%s%s%s", r.Pick(" ", " ", "\n  "), k, q, xmlText(&Rng{r.U64() | 1}, v), q)
}

// attr is one whose value is not spelled as CDATA, which has no meaning there.
func attr(r *Rng, k, v string) string {
	for {
		if s := xmlAttr(r, k, v); !strings.Contains(s, "<![CDATA[") {
			return s
		}
	}
}

func elem(r *Rng, name, attrs, text string) string {
	if text == "" && r.P(50) {
		return "<" + name + attrs + r.Pick("", " ") + "/>"
	}
	return "<" + name + attrs + ">" + text + "</" + name + r.Pick("", "", " ") + ">"
}

// padded text: the space around it does not count.
func pad(r *Rng, s string) string {
	t := ""
	if rs := []rune(s); len(rs) > 1 && r.P(25) {
		// in pieces
		for k := 1 + r.N(3); k > 0 && len(rs) > 1; k-- {
			n := 1 + r.N(len(rs)-1)
			t += xmlText(r, string(rs[:n])) + r.Pick("", "<!-- -->", "<!-- and -->", "<?go on?>")
			rs = rs[n:]
		}
		t += xmlText(r, string(rs))
	} else {
		t = xmlText(r, s)
	}
	if r.P(20) {
		t = r.Pick(" ", "\n  ", "\t") + t + r.Pick("", "\n", "  ")
	}
	return t
}

var xfaTypes = []string{"text", "textField", "textEdit", "textArea", "radioButton", "radio", "checkButton", "CHECKBOX", "choiceList", "dropDown", "listBox", "select", "numeric", "decimal", "integer", "float", "date", "dateField", "email", "emailField", "button", "signature", "signatureField", "unheardOf", ""}

func genTemplate(r *Rng) []byte {
	var b strings.Builder
	b.WriteString(xmlHead(r))
	pre := r.Pick("", "", "", "t:")
	at := ""
	if r.P(70) {
		ns := "xmlns"
		if pre != "" {
			ns = "xmlns:t"
		}
		at += attr(r, ns, "http://www.xfa.org/schema/xfa-template/3.0/")
	}
	if r.P(50) {
		at += attr(r, "title", xfaWords[r.N(len(xfaWords))]+" form")
	}
	n := 0
	var body func(depth int) string
	body = func(depth int) string {
		s := r.ws()
		for k := r.N(5); k >= 0; k-- {
			switch {
			case r.P(25) && depth < 4:
				a := ""
				if r.P(80) {
					a = attr(r, "name", xfaWords[r.N(len(xfaWords))])
				}
				if r.P(20) {
					a += attr(r, "layout", "tb")
				}
				s += elem(r, pre+"subform", a, body(depth+1))
			case r.P(10):
				s += elem(r, pre+r.Pick("pageSet", "proto", "draw", "area"), "", "")
			default:
				s += genXField(r, pre, n)
				n++
			}
			s += r.ws()
		}
		return s
	}
	b.WriteString("<" + pre + "template" + at + ">" + body(0) + "</" + pre + "template>")
	if r.P(20) {
		b.WriteString("\n")
	}
	return []byte(b.String())
}

// genFieldList makes a plain list of fields.
func genFieldList(r *Rng) []byte {
	n := 0
	var body func(depth int) string
	body = func(depth int) string {
		s := r.ws()
		for k := r.N(6); k >= 0; k-- {
			if r.P(25) && depth < 4 {
				s += elem(r, r.Pick("group", "subform", "fields"), "", body(depth+1)) + r.ws()
				continue
			}
			a, in := "", r.ws()
			name := fmt.Sprintf("%s%s%d", r.Pick("", "", "", "0", "9 ", "_", "é"), xfaWords[r.N(len(xfaWords))], n)
			n++
			if r.P(70) {
				a = attr(r, "name", name)
			} else if r.P(60) {
				in += elem(r, "name", "", xmlText(r, r.Pick("", " ")+strings.TrimSpace(name)))
			}
			if t := xfaTypes[r.N(len(xfaTypes))]; t != "" {
				a += attr(r, "type", t)
			}
			if r.P(40) {
				a += attr(r, "required", r.Pick("1", "0", "true", "false", "no", "required", "TRUE", ""))
			}
			if r.P(25) {
				a += attr(r, "access", r.Pick("readOnly", "hidden", "open"))
			}
			for _, k := range []string{"x", "y", "w", "h"} {
				if r.P(20) {
					a += attr(r, k, r.Pick("1", "72.5", "10mm", "0", "-3", "NaN"))
				}
			}
			var parts []string
			if r.P(50) {
				parts = append(parts, elem(r, "label", "", pad(r, xfaWords[r.N(len(xfaWords))])))
			}
			if r.P(60) {
				parts = append(parts, elem(r, "value", "", pad(r, xfaValue(r))))
			}
			for _, i := range r.Perm(len(parts)) {
				in += parts[i] + r.ws()
			}
			s += elem(r, "field", a, in) + r.ws()
		}
		return s
	}
	return []byte(xmlHead(r) + "<form>" + body(0) + "</form>")
}

func genXField(r *Rng, pre string, n int) string {
	a := ""
	if r.P(95) {
		a = attr(r, "name", fmt.Sprintf("%s%s%d", r.Pick("", "", "", "0", "9 ", "_", "é"), xfaWords[r.N(len(xfaWords))], n))
	}
	if t := xfaTypes[r.N(len(xfaTypes))]; t != "" {
		a += attr(r, "type", t)
	}
	if r.P(30) {
		a += attr(r, "required", r.Pick("1", "0", "true", "false", "yes", "required", "TRUE", ""))
	}
	if r.P(25) {
		a += attr(r, "access", r.Pick("readOnly", "hidden", "open", "protected"))
	}
	for _, k := range []string{"x", "y", "w", "h"} {
		if r.P(20) {
			a += attr(r, k, r.Pick("1", "72.5", "10mm", "0", "-3", "1.5in", "1234.56789", " 12 ", "16777217", "nan", "Inf"))
		}
	}
	if r.P(20) {
		a += attr(r, "page", r.Pick("1", "2", "17", "255", "256", "1000", "last"))
	}
	if r.P(10) {
		a += attr(r, r.Pick("id", "presence", "names", "t2"), "x1")
	}
	var parts []string
	word := func() string { return xfaWords[r.N(len(xfaWords))] + r.Pick("", " text", " <&>") }
	if r.P(40) {
		parts = append(parts, elem(r, pre+"label", "", pad(r, word())))
	}
	if r.P(25) {
		parts = append(parts, elem(r, pre+r.Pick("desc", "description"), "", pad(r, word())))
	}
	if r.P(45) {
		v := pad(r, xfaValue(r))
		if r.P(25) {
			v = elem(r, pre+r.Pick("text", "integer", "float"), "", v)
		}
		parts = append(parts, elem(r, pre+"value", "", v))
	}
	if r.P(30) {
		s := r.ws()
		for k := r.N(4); k >= 0; k-- {
			s += elem(r, pre+"text", "", pad(r, xfaValue(r))) + r.ws()
		}
		parts = append(parts, elem(r, pre+"items", "", s))
	}
	if r.P(25) {
		va := ""
		if r.P(40) {
			va += attr(r, "scriptTest", "this.rawValue > 1 && x < \"2\"")
		}
		if r.P(40) {
			va += attr(r, "messageText", word())
		}
		if r.P(20) {
			va += attr(r, "formatTest", "pattern")
		}
		s := ""
		if r.P(60) {
			s = r.ws() + elem(r, pre+"pattern", "", pad(r, r.Pick("[0-9]+", "^a<b&c$", "num{9}", "")))
		}
		parts = append(parts, elem(r, pre+"validate", va, s))
	}
	for k := r.N(3); k > 0 && r.P(50); k-- {
		s := ""
		if r.P(80) {
			s = r.ws() + elem(r, pre+"script", attr(r, "contentType", "application/x-javascript"), pad(r, r.Pick("x = 1;", "if (a < b && c > d) { e(); }", "", "// </script>")))
		}
		parts = append(parts, elem(r, pre+"event", attr(r, "activity", r.Pick("initialize", "enter", "change", "exit", "validate", "click", "Change")), s))
	}
	if r.P(15) {
		parts = append(parts, elem(r, pre+"bind", attr(r, "match", r.Pick("none", "once", "global", "dataRef")), ""))
	}
	if r.P(10) {
		parts = append(parts, elem(r, pre+"ui", "", elem(r, pre+"textEdit", "", "")))
	}
	s := r.ws()
	for _, i := range r.Perm(len(parts)) {
		s += parts[i] + r.ws()
	}
	if strings.TrimSpace(s) == "" && r.P(50) {
		s = ""
	}
	return elem(r, pre+"field", a, s)
}

var xfaGroups = []string{"person", "address", "form1", "Group_2", "a.b", "größe", "x-y", "person", "items2", "name", "fields", "texts"}

// genDatasets: with nested, there may be a data element in the data section, which is a group to who fills fields.
func genDatasets(r *Rng, nested bool) []byte {
	var b strings.Builder
	b.WriteString(xmlHead(r))
	pre := r.Pick("xfa:", "xfa:", "", "d:")
	ns := ""
	if pre != "" {
		ns = attr(r, "xmlns:"+strings.TrimSuffix(pre, ":"), "http://www.xfa.org/schema/xfa-data/1.0/")
	}
	fpre := ""
	if pre != "" && r.P(20) {
		fpre = pre
	}
	n := r.N(3)
	word := func() string { return fmt.Sprintf("%s%d", xfaWords[r.N(len(xfaWords))], n) }
	var body func(depth int) string
	field := func(name string) string {
		a := attr(r, "name", name)
		if r.P(15) {
			a = attr(r, "id", name) + a
		}
		if r.P(10) {
			a += attr(r, "type", "x")
		}
		s := r.ws()
		if nested && r.P(10) {
			s += elem(r, "meta", "", elem(r, "value", "", xmlText(r, xfaValue(r)))) + r.ws()
		}
		switch r.N(10) {
		case 0:
			if r.P(50) {
				return elem(r, fpre+"field", a, "")
			}
		case 1:
			s += elem(r, fpre+"value", "", "")
		case 2:
			s += elem(r, fpre+"value", r.Pick("", attr(r, "type", "text")), elem(r, r.Pick("text", "integer", "exData"), "", pad(r, xfaValue(r))))
		default:
			s += elem(r, fpre+"value", r.Pick("", "", attr(r, "xml:space", "preserve")), pad(r, xfaValue(r)))
		}
		if r.P(15) {
			s += r.ws() + elem(r, r.Pick("label", "extra"), "", xmlText(r, xfaValue(r)))
		}
		return elem(r, fpre+"field", a, s+r.ws())
	}
	body = func(depth int) string {
		s := r.ws()
		seen := map[string]bool{}
		for k := r.N(5); k >= 0; k-- {
			if r.P(30) && depth < 4 {
				a := ""
				if r.P(20) {
					a = attr(r, "dataNode", "dataGroup")
				}
				name := xfaGroups[r.N(len(xfaGroups))]
				if nested && r.P(25) {
					name = pre + "data"
				}
				s += elem(r, name, a, body(depth+1))
			} else if w := word(); !seen[w] {
				seen[w] = true
				s += field(w)
				n = (n + 1) % 4
			}
			s += r.ws()
		}
		return s
	}
	data := elem(r, pre+"data", "", body(0))
	switch r.N(6) {
	case 0: // only the data
		if pre == "" {
			b.WriteString(data)
			break
		}
		fallthrough
	default:
		desc := ""
		if r.P(25) {
			desc = "<dd:dataDescription xmlns:dd=\"http://ns.adobe.com/data-description/\" dd:name=\"x\">" + field(word()) + "</dd:dataDescription>"
		}
		s := r.ws()
		if r.P(40) {
			s += desc
			desc = ""
		}
		s += data + r.ws() + desc + r.ws()
		b.WriteString("<" + pre + "datasets" + ns + ">" + s + "</" + pre + "datasets>")
	case 1: // no data section
		b.WriteString("<" + pre + "datasets" + ns + ">" + body(4) + "</" + pre + "datasets>")
	}
	return []byte(b.String())
}

func genPacket(r *Rng, name string) []byte {
	switch name {
	case "template":
		return genTemplate(r)
	case "datasets":
		return genDatasets(r, false)
	}
	if r.P(8) {
		return nil
	}
	for _, n := range setNames {
		if n == name {
			return genSettings(r, name)
		}
	}
	s := xmlHead(r) + elem(r, name, attr(r, "xmlns", "http://example.org/"+name), r.ws()+elem(r, r.Pick("present", "field", "data", "x"), attr(r, "name", xfaWords[r.N(len(xfaWords))]), xmlText(r, xfaValue(r))))
	if r.P(20) {
		s += "\nendstream\nendobj\n"
	}
	return []byte(s)
}

// startXFA adds the packets of an XFA form to the form.
func (b *pbuild) startXFA(r *Rng, how int) {
	b.startForm(r)
	if b.xfa != nil {
		return
	}
	b.xfa = &xform{dirty: true}
	if r.P(35) {
		b.xfa.arrN = b.alloc()
	}
	var names []string
	if how >= 100 { // mostly settings
		for _, n := range setNames {
			if r.P(65) {
				names = append(names, n)
			}
		}
		how = 1 + r.N(3)
	}
	if how != 1 {
		names = append(names, "template")
	}
	if how != 2 {
		names = append(names, "datasets")
	}
	for _, n := range packetNames {
		if r.P(25) && !strings.Contains(" "+strings.Join(names, " ")+" ", " "+n+" ") {
			names = append(names, n)
		}
	}
	for _, n := range []string{"preamble", "postamble", "form", "xdc", "Template", "datasetsX"} {
		if r.P(8) {
			names = append(names, n)
		}
	}
	if r.P(40) {
		q := make([]string, 0, len(names))
		for _, i := range r.Perm(len(names)) {
			q = append(q, names[i])
		}
		names = q
	}
	for _, n := range names {
		data := genPacket(r, n)
		ref := b.richStream(r, Dict{}, data)
		if r.P(40) {
			b.pend[len(b.pend)-1].val.(Dict)["Type"] = Name("EmbeddedFile")
		}
		b.xfa.pk = append(b.xfa.pk, xpacket{n, ref.N, data})
	}
	b.form.dirty = true
}

// setPacket replaces the stream of a packet in a later revision.
func (b *pbuild) setPacket(r *Rng, at int) {
	if b.xfa == nil || len(b.xfa.pk) == 0 {
		return
	}
	p := &b.xfa.pk[at%len(b.xfa.pk)]
	for _, o := range b.pend {
		if o.n == p.num {
			return // it is new in this revision
		}
	}
	p.data = genPacket(r, p.name)
	if r.P(25) {
		// in another object
		p.num = b.richStream(r, Dict{}, p.data).N
		b.form.dirty = true
		return
	}
	b.again = p.num
	b.richStream(r, Dict{}, p.data)
}

func (b *pbuild) xfaArray(r *Rng) Val {
	a := Arr{}
	for _, p := range b.xfa.pk {
		a = append(a, formText(r, p.name), Ref{p.num, 0})
	}
	if b.xfa.arrN > 0 {
		b.puts = append(b.puts, pput{b.xfa.arrN, a, b.xfa.arrN%2 == 0})
		return Ref{b.xfa.arrN, 0}
	}
	return a
}

// xel is an element of XML; its kids are elements and texts (strings), and comments and
// the like (xml.Token).
type xel struct {
	pre, name string
	attrs     []string // key, value
	kids      []interface{}
}

func (e *xel) attr(k string) (string, bool) {
	for i := 0; i < len(e.attrs); i += 2 {
		if s := e.attrs[i]; s == k || strings.HasSuffix(s, ":"+k) {
			return e.attrs[i+1], true
		}
	}
	return "", false
}

func (e *xel) text() string {
	s := ""
	for _, k := range e.kids {
		switch x := k.(type) {
		case string:
			s += x
		case *xel:
			s += x.text()
		}
	}
	return s
}

func (e *xel) child(names ...string) *xel {
	for _, k := range e.kids {
		if x, ok := k.(*xel); ok {
			for _, n := range names {
				if x.name == n {
					return x
				}
			}
		}
	}
	return nil
}

// walk visits the elements below, in their order; f tells whether to go into one.
func (e *xel) walk(f func(x *xel) bool) {
	for _, k := range e.kids {
		if x, ok := k.(*xel); ok && f(x) {
			x.walk(f)
		}
	}
}

func (e *xel) addText(s string) {
	if n := len(e.kids); n > 0 {
		if t, ok := e.kids[n-1].(string); ok {
			e.kids[n-1] = t + s
			return
		}
	}
	if s != "" {
		e.kids = append(e.kids, s)
	}
}

func (e *xel) show(b *strings.Builder) {
	fmt.Fprintf(b, "<%s:%s %q>", e.pre, e.name, e.attrs)
	for _, k := range e.kids {
		switch x := k.(type) {
		case *xel:
			x.show(b)
		case string:
			fmt.Fprintf(b, "%q", x)
		default:
			fmt.Fprintf(b, "{%v}", x)
		}
	}
	b.WriteString("</>")
}

func (e *xel) String() string {
	var b strings.Builder
	e.show(&b)
	return b.String()
}

// readXML is the tree of an XML text, in an element without a name.
func readXML(data []byte) (*xel, error) {
	top := &xel{}
	stack := []*xel{top}
	d := xml.NewDecoder(strings.NewReader(string(data)))
	for {
		t, err := d.RawToken()
		if err != nil {
			if len(stack) == 1 && err.Error() == "EOF" {
				return top, nil
			}
			return nil, fmt.Errorf("XML: %v at depth %d", err, len(stack)-1)
		}
		cur := stack[len(stack)-1]
		switch x := t.(type) {
		case xml.StartElement:
			e := &xel{pre: x.Name.Space, name: x.Name.Local}
			for _, a := range x.Attr {
				k := a.Name.Local
				if a.Name.Space != "" {
					k = a.Name.Space + ":" + k
				}
				e.attrs = append(e.attrs, k, a.Value)
			}
			cur.kids = append(cur.kids, e)
			stack = append(stack, e)
		case xml.EndElement:
			if len(stack) == 1 || cur.name != x.Name.Local || cur.pre != x.Name.Space {
				return nil, fmt.Errorf("XML: </%s> closes <%s>", x.Name.Local, cur.name)
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			cur.addText(string(x))
		case xml.Comment:
			cur.kids = append(cur.kids, struct{ a, b, c string }{"comment", string(x), ""})
		case xml.ProcInst:
			cur.kids = append(cur.kids, struct{ a, b string }{x.Target, string(x.Inst)})
		case xml.Directive:
			cur.kids = append(cur.kids, struct{ a string }{string(x)})
		}
	}
}

// xmlValid is a text as XML can hold it.
func xmlValid(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		ok := c == 9 || c == 10 || c == 13 || c >= 0x20 && c <= 0xd7ff || c >= 0xe000 && c <= 0xfffd || c >= 0x10000 && c <= 0x10ffff
		if !ok || c == utf8.RuneError && n == 1 {
			c = 0xfffd
		}
		b.WriteRune(c)
		i += n
	}
	return b.String()
}

// dataFields are the fields of the data section of a datasets packet, or all if it has
// none, in their order.
func dataFields(top *xel) (fs []*xel) {
	var data []*xel
	top.walk(func(x *xel) bool {
		if x.name == "data" {
			data = append(data, x)
			return false
		}
		return true
	})
	if data == nil {
		data = []*xel{top}
	}
	for _, d := range data {
		d.walk(func(x *xel) bool {
			if x.name == "field" {
				fs = append(fs, x)
				return false
			}
			return true
		})
	}
	return
}

// typed is the value of a text in the datasets.
func typed(s string) interface{} {
	switch s {
	case "":
		return ""
	case "true", "1":
		return true
	case "false", "0":
		return false
	}
	if n, err := strconv.Atoi(s); err == nil {
		return n
	}
	if x, ok := xfaNumber(s); ok {
		return x
	}
	return s
}

// plainText of a value, as it is written.
func plainText(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	return fmt.Sprint(v)
}
