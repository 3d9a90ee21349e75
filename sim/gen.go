package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Generators of PDF values and of their many spellings, independent of the library.

var genNames = []string{"A", "Kind", "Type", "X1", "Length1", "Subtype", "a.b-c", "N", "First", "W", "Key_9", "endobj1", "streamX", "Z", "O", "U", "Names", "K"}

// genVal makes a value; refs are the object numbers it may refer to.
func genVal(r *Rng, depth int, refs []int) Val {
	k := r.N(12)
	if depth <= 0 && k >= 9 {
		k = r.N(9)
	}
	switch k {
	case 0:
		return int64(r.N(100000) - 50000)
	case 1:
		if r.P(8) {
			return Real(r.Pick("0.00001", "-0.000025", "0.000000123", "123456789012.5", "-98765432101.25", "0.0", "-0.00009"))
		}
		return Real(fmt.Sprintf("%d.%0*d", r.N(2000)-1000, 1+r.N(4), r.N(10)))
	case 2:
		return r.P(50)
	case 3:
		return nil
	case 4, 5:
		return genStr(r)
	case 6:
		return Name(genNames[r.N(len(genNames))])
	case 7, 8:
		if len(refs) > 0 {
			return Ref{refs[r.N(len(refs))], 0}
		}
		return int64(r.N(10))
	case 9, 10:
		return genDict(r, depth-1, refs)
	default:
		a := Arr{}
		for n := r.N(5); n > 0; n-- {
			a = append(a, genVal(r, depth-1, refs))
		}
		return a
	}
}

func genDict(r *Rng, depth int, refs []int) Dict {
	d := Dict{}
	for n := r.N(6); n > 0; n-- {
		v := genVal(r, depth, refs)
		if v == nil {
			// an entry whose value is null is the same as no entry
			v = int64(7)
		}
		k := genNames[r.N(len(genNames))]
		if k == "Type" {
			v = Name(r.Pick("Thing", "Font", "Annot", "Other"))
		}
		d[k] = v
	}
	return d
}

// genStr makes a string that is awkward to store.
func genStr(r *Rng) Str {
	switch r.N(10) {
	case 0:
		return ""
	case 1:
		return Str(r.Pick("endobj", "stream\n", "endstream endobj", ">>", "<< /Length 5 >>", "1 0 obj", "%%EOF", "startxref\n0", "trailer", "xref", "obj", "2 0 R", "/Root 1 0 R"))
	case 2:
		return Str(r.Pick("(balanced)", "a(b(c)d)e", "\\", "\\\\n", "tab\there", "line\nfeed", "cr\rhere", "crlf\r\nhere", "(", ")", "((", "))", "%not a comment", "\\(", "octal\\101"))
	case 3, 4:
		n := 1 + r.N(40)
		if r.P(6) {
			n = []int{127, 128, 255, 256, 257, 600, 5000}[r.N(7)]
		}
		return Str(r.Bytes(n))
	default:
		n := r.N(30)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte("abcdefghijklmnop ABCDEFG 0123456789.,-_/<>[]"[r.N(44)])
		}
		return Str(b)
	}
}

// emit writes a value, with one of its spellings.
func emit(r *Rng, v Val) []byte {
	var b bytes.Buffer
	emitTo(r, &b, v)
	return b.Bytes()
}

func sp(r *Rng, b *bytes.Buffer, need bool) {
	switch r.N(8) {
	case 0:
		b.WriteString("\n")
	case 1:
		b.WriteString("\r\n")
	case 2:
		b.WriteString("  ")
	case 3:
		if r.P(30) {
			b.WriteString("%" + r.Pick("x", " comment (", " endobj stream >>", "<<") + "\n")
		} else {
			b.WriteString("\t")
		}
	case 4, 5:
		if need {
			b.WriteString(" ")
		}
	default:
		b.WriteString(" ")
	}
}

func emitTo(r *Rng, b *bytes.Buffer, v Val) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case int64:
		if x > 0 && r.P(5) {
			b.WriteString("+")
		}
		b.WriteString(strconv.FormatInt(x, 10))
	case Real:
		b.WriteString(string(x))
	case Name:
		b.WriteString("/" + spellName(string(x)))
	case Str:
		emitStr(r, b, string(x))
	case Ref:
		fmt.Fprintf(b, "%d %d R", x.N, x.G)
	case Arr:
		b.WriteString("[")
		for i, e := range x {
			if i > 0 {
				sp(r, b, true)
			} else {
				sp(r, b, false)
			}
			emitTo(r, b, e)
		}
		sp(r, b, false)
		b.WriteString("]")
	case Dict:
		b.WriteString("<<")
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i := len(ks) - 1; i > 0; i-- {
			j := r.N(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
		for _, k := range ks {
			sp(r, b, false)
			b.WriteString("/" + spellName(k))
			switch x[k].(type) {
			case Name, Str, Arr, Dict:
				sp(r, b, false)
			default:
				sp(r, b, true)
			}
			emitTo(r, b, x[k])
			switch x[k].(type) {
			case Name, nil, bool, int64, Real, Ref:
				sp(r, b, true)
			}
		}
		sp(r, b, false)
		b.WriteString(">>")
	default:
		panic(fmt.Sprintf("emit %T", v))
	}
}

// spellName escapes what a name cannot have as it is.
func spellName(s string) string {
	var o strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		hex := c == '#' && i+2 < len(s) && hexv(s[i+1]) >= 0 && hexv(s[i+2]) >= 0
		if c <= 32 || c > 126 || isDelim(c) || c == '#' && !hex {
			fmt.Fprintf(&o, "#%02X", c)
			continue
		}
		o.WriteByte(c)
	}
	return o.String()
}

func emitStr(r *Rng, b *bytes.Buffer, s string) {
	if r.P(30) {
		b.WriteString("<")
		for i := 0; i < len(s); i++ {
			h := fmt.Sprintf("%02x", s[i])
			if r.P(50) {
				h = strings.ToUpper(h)
			}
			if i == len(s)-1 && h[1] == '0' && r.P(50) {
				h = h[:1] // what is missing is 0
			}
			b.WriteString(h)
			if r.P(4) {
				b.WriteString(r.Pick(" ", "\n", "\r\n", "\t"))
			}
		}
		b.WriteString(">")
		return
	}
	bal := balanced(s)
	b.WriteString("(")
	for i := 0; i < len(s); i++ {
		c := s[i]
		if r.P(1) {
			b.WriteString("\\" + r.Pick("\n", "\r\n", "\r")) // a line that goes on
			if c == '\n' {
				b.WriteString("\\n")
				continue
			}
		}
		esc := strings.IndexByte("\r\n\t\b\f", c)
		switch {
		case c == '\\':
			b.WriteString("\\\\")
		case c == '(' || c == ')':
			if !bal || r.P(50) && !bal {
				b.WriteByte('\\')
			}
			b.WriteByte(c)
		case esc >= 0 && (c == '\r' || r.P(60)):
			b.WriteByte('\\')
			b.WriteByte("rntbf"[esc])
		case c == '\n':
			eol := r.Pick("\n", "\n", "\r", "\r\n")
			if eol == "\r" && i+1 < len(s) && s[i+1] == '\n' {
				eol = "\n"
			}
			b.WriteString(eol)
		case c < 32 || c > 126:
			switch short := i+1 == len(s) || s[i+1] < '0' || s[i+1] > '9'; {
			case r.P(50):
				b.WriteByte(c)
			case short && r.P(30):
				fmt.Fprintf(b, "\\%o", c)
			default:
				fmt.Fprintf(b, "\\%03o", c)
			}
		case strings.IndexByte("acdeghijkl/&#<>[]", c) >= 0 && r.P(2):
			b.WriteByte('\\') // which says nothing
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteString(")")
}

func balanced(s string) bool {
	d := 0
	for _, c := range s {
		if c == '(' {
			d++
		}
		if c == ')' {
			d--
			if d < 0 {
				return false
			}
		}
	}
	return d == 0
}

// genData makes stream data.
func genData(r *Rng) []byte {
	switch r.N(10) {
	case 0:
		return []byte{}
	case 4:
		// runs
		var b []byte
		for k := r.N(8); k >= 0; k-- {
			b = append(b, bytes.Repeat([]byte{byte(r.N(3))}, r.Pick2(1, 2, 3, 127, 128, 129, 300))...)
		}
		return b
	case 1:
		return []byte(r.Pick("endstream", "\nendstream\nendobj\n", "stream\nx\nendstream", "a\nendobj\n5 0 obj\n<<>>", "\r", "\n", "\r\n", "abc\n", "abc\r\n", "\x00", "startxref\n9\n", "trailer<</Size 1>>"))
	case 2:
		return bytes.Repeat([]byte(r.Pick("a", "xyz ", "\x00", "line of text\n")), 1+r.N(200))
	case 3:
		return r.Bytes(1 + r.N(1500))
	default:
		return r.Bytes(r.N(80))
	}
}

func deflate(b []byte) []byte {
	var o bytes.Buffer
	z := zlib.NewWriter(&o)
	z.Write(b)
	z.Close()
	return o.Bytes()
}

// same compares two values, taking a null entry for a missing one.
func same(a, b Val) bool { return showVal(strip(a)) == showVal(strip(b)) }

func strip(v Val) Val {
	switch x := v.(type) {
	case Dict:
		d := Dict{}
		for k, e := range x {
			if e != nil {
				d[k] = strip(e)
			}
		}
		return d
	case Arr:
		a := Arr{}
		for _, e := range x {
			a = append(a, strip(e))
		}
		return a
	}
	return v
}

// without copies a dictionary without some keys.
func without(d Dict, keys ...string) Dict {
	o := Dict{}
	for k, v := range d {
		o[k] = v
	}
	for _, k := range keys {
		delete(o, k)
	}
	return o
}

// mapStrs returns v with f applied to every string.
func mapStrs(v Val, f func(string) string) Val {
	switch x := v.(type) {
	case Str:
		return Str(f(string(x)))
	case Arr:
		a := Arr{}
		for _, e := range x {
			a = append(a, mapStrs(e, f))
		}
		return a
	case Dict:
		d := Dict{}
		for k, e := range x {
			d[k] = mapStrs(e, f)
		}
		return d
	}
	return v
}

// parseObj parses what the library hands out for an object: the value, and for a
// stream its data.  The "N G obj ... endobj" wrapper is optional.
func parseObj(b []byte) (Val, error) {
	l := &lexer{b: b}
	l.ws()
	save := l.p
	if _, err := strconv.Atoi(l.word()); err == nil {
		l.ws()
		if _, err := strconv.Atoi(l.word()); err == nil {
			l.ws()
			if l.word() == "obj" {
				save = -1
			}
		}
	}
	if save >= 0 {
		l.p = save
	}
	v := l.value()
	if l.err != nil {
		return nil, l.err
	}
	l.ws()
	if l.p >= len(b) {
		return v, nil
	}
	k := l.word()
	if k == "stream" {
		d, ok := v.(Dict)
		if !ok {
			return nil, fmt.Errorf("stream without a dictionary")
		}
		if l.p < len(b) && b[l.p] == '\r' {
			l.p++
		}
		if l.p < len(b) && b[l.p] == '\n' {
			l.p++
		}
		n, ok := d["Length"].(int64)
		var raw []byte
		if ok && n >= 0 && l.p+int(n) <= len(b) {
			raw = b[l.p : l.p+int(n)]
			l.p += int(n)
			l.ws()
			if l.word() != "endstream" {
				return nil, fmt.Errorf("no endstream after %d bytes: %q", n, snippet(b[min(l.p, len(b)):]))
			}
		} else if _, isRef := d["Length"].(Ref); isRef {
			i := bytes.LastIndex(b, []byte("endstream"))
			if i < l.p {
				return nil, fmt.Errorf("no endstream")
			}
			raw = b[l.p:i]
			if bytes.HasSuffix(raw, []byte("\n")) {
				raw = raw[:len(raw)-1]
			}
			if bytes.HasSuffix(raw, []byte("\r")) {
				raw = raw[:len(raw)-1]
			}
			l.p = i + len("endstream")
		} else {
			return nil, fmt.Errorf("Length %s with %d bytes left", showVal(d["Length"]), len(b)-l.p)
		}
		v = &Stm{D: d, Raw: raw}
		l.ws()
		k = l.word()
	}
	if k == "endobj" && save < 0 {
		l.ws()
		k = l.word()
	}
	if k != "" || l.p < len(b) {
		return nil, fmt.Errorf("%q after the object", snippet(b[min(l.p, len(b)):]))
	}
	return v, nil
}

// goVal turns a value into what callers put in a write.Dictionary; mk makes the dictionaries.
func goVal(r *Rng, v Val, mk func(map[string]interface{}) interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		if r.P(50) {
			return int(x)
		}
		return x
	case Real:
		f, _ := strconv.ParseFloat(string(x), 64)
		return f
	case Name:
		return "/" + string(x)
	case Ref:
		return fmt.Sprintf("%d %d R", x.N, x.G)
	case Str:
		if r.P(50) && plain(string(x)) {
			return string(x)
		}
		return []byte(x)
	case Arr:
		a := []interface{}{}
		for _, e := range x {
			a = append(a, goVal(r, e, mk))
		}
		return a
	case Dict:
		m := map[string]interface{}{}
		ks := sortedKeys(x)
		for _, k := range ks {
			key := k
			if r.P(50) {
				key = "/" + k
			}
			m[key] = goVal(r, x[k], mk)
		}
		return mk(m)
	}
	return v
}

func sortedKeys(d Dict) []string {
	ks := make([]string, 0, len(d))
	for k := range d {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// plain says that a Go string stands for the same PDF string.
func plain(s string) bool {
	if strings.HasPrefix(s, "/") || strings.HasSuffix(s, " R") {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 32 || c > 126 || c == '(' || c == ')' || c == '\\' {
			return false
		}
	}
	return true
}
