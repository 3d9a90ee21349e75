package main

import (
	"bytes"
	"compress/zlib"
	"encoding/ascii85"
	"encoding/hex"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
)

// An independent reader of PDF files, written from the file format and not from
// the library: the oracle for everything the library writes.

type (
	Name string
	Str  string
	Ref  struct{ N, G int }
	Arr  []Val
	Dict map[string]Val
	Val  interface{}
	// Real keeps the text of a real number.
	Real string
	// Stm is a stream with its undecoded data.
	Stm struct {
		D   Dict
		Raw []byte
	}
)

type lexer struct {
	b    []byte
	p    int
	err  error
	deep int
}

func isWS(c byte) bool { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32 }
func isDelim(c byte) bool {
	switch c {
	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
		return true
	}
	return false
}

func (l *lexer) fail(f string, a ...interface{}) Val {
	if l.err == nil {
		l.err = fmt.Errorf("at %d: %s", l.p, fmt.Sprintf(f, a...))
	}
	return nil
}

func (l *lexer) ws() {
	for l.p < len(l.b) {
		c := l.b[l.p]
		if isWS(c) {
			l.p++
		} else if c == '%' {
			for l.p < len(l.b) && l.b[l.p] != 10 && l.b[l.p] != 13 {
				l.p++
			}
		} else {
			return
		}
	}
}

func (l *lexer) word() string {
	s := l.p
	for l.p < len(l.b) && !isWS(l.b[l.p]) && !isDelim(l.b[l.p]) {
		l.p++
	}
	return string(l.b[s:l.p])
}

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (l *lexer) value() Val {
	l.ws()
	l.deep++
	defer func() { l.deep-- }()
	if l.err != nil || l.p >= len(l.b) || l.deep > 500 {
		return l.fail("value expected")
	}
	c := l.b[l.p]
	switch {
	case c == '/':
		l.p++
		w := l.word()
		if strings.Contains(w, "#") {
			var o []byte
			for i := 0; i < len(w); i++ {
				if w[i] == '#' && i+2 < len(w) && hexv(w[i+1]) >= 0 && hexv(w[i+2]) >= 0 {
					o = append(o, byte(hexv(w[i+1])<<4|hexv(w[i+2])))
					i += 2
				} else {
					o = append(o, w[i])
				}
			}
			w = string(o)
		}
		return Name(w)
	case c == '(':
		return l.str()
	case c == '<':
		if l.p+1 < len(l.b) && l.b[l.p+1] == '<' {
			l.p += 2
			d := Dict{}
			for {
				l.ws()
				if l.p >= len(l.b) {
					return l.fail("dictionary not closed")
				}
				if l.b[l.p] == '>' {
					if l.p+1 < len(l.b) && l.b[l.p+1] == '>' {
						l.p += 2
						return d
					}
					return l.fail("stray >")
				}
				if l.b[l.p] != '/' {
					return l.fail("key expected, found %q", snippet(l.b[l.p:]))
				}
				k, _ := l.value().(Name)
				v := l.value()
				if l.err != nil {
					return nil
				}
				if _, dup := d[string(k)]; dup {
					return l.fail("duplicate key /%s", k)
				}
				d[string(k)] = v
			}
		}
		l.p++
		var o []byte
		half := -1
		for l.p < len(l.b) && l.b[l.p] != '>' {
			h := hexv(l.b[l.p])
			if h < 0 && !isWS(l.b[l.p]) {
				return l.fail("bad hex string")
			}
			if h >= 0 {
				if half < 0 {
					half = h
				} else {
					o = append(o, byte(half<<4|h))
					half = -1
				}
			}
			l.p++
		}
		if l.p >= len(l.b) {
			return l.fail("hex string not closed")
		}
		l.p++
		if half >= 0 {
			o = append(o, byte(half<<4))
		}
		return Str(o)
	case c == '[':
		l.p++
		a := Arr{}
		for {
			l.ws()
			if l.p >= len(l.b) {
				return l.fail("array not closed")
			}
			if l.b[l.p] == ']' {
				l.p++
				return a
			}
			v := l.value()
			if l.err != nil {
				return nil
			}
			a = append(a, v)
		}
	case c == '+' || c == '-' || c == '.' || c >= '0' && c <= '9':
		w := l.word()
		if n, err := strconv.ParseInt(w, 10, 64); err == nil {
			// maybe a reference
			save := l.p
			if n >= 0 {
				l.ws()
				g := l.word()
				if gn, err := strconv.Atoi(g); err == nil && g != "" && gn >= 0 {
					l.ws()
					if l.p < len(l.b) && l.b[l.p] == 'R' && (l.p+1 == len(l.b) || isWS(l.b[l.p+1]) || isDelim(l.b[l.p+1])) {
						l.p++
						return Ref{int(n), gn}
					}
				}
			}
			l.p = save
			return n
		}
		if _, err := strconv.ParseFloat(w, 64); err == nil && !strings.ContainsAny(w, "eEnN") {
			return Real(w)
		}
		return l.fail("bad number %q", w)
	default:
		switch w := l.word(); w {
		case "true":
			return true
		case "false":
			return false
		case "null":
			return nil
		default:
			return l.fail("unexpected token %q near %q", w, snippet(l.b[max(0, l.p-20):]))
		}
	}
}

func snippet(b []byte) string {
	if len(b) > 40 {
		b = b[:40]
	}
	return string(b)
}

func (l *lexer) str() Val {
	l.p++
	depth := 1
	var o []byte
	for l.p < len(l.b) {
		c := l.b[l.p]
		l.p++
		switch c {
		case '(':
			depth++
			o = append(o, c)
		case ')':
			depth--
			if depth == 0 {
				return Str(o)
			}
			o = append(o, c)
		case '\\':
			if l.p >= len(l.b) {
				return l.fail("string not closed")
			}
			e := l.b[l.p]
			l.p++
			switch e {
			case 'n':
				o = append(o, 10)
			case 'r':
				o = append(o, 13)
			case 't':
				o = append(o, 9)
			case 'b':
				o = append(o, 8)
			case 'f':
				o = append(o, 12)
			case '\r':
				if l.p < len(l.b) && l.b[l.p] == '\n' {
					l.p++
				}
			case '\n':
			default:
				if e >= '0' && e <= '7' {
					v := int(e - '0')
					for k := 0; k < 2 && l.p < len(l.b) && l.b[l.p] >= '0' && l.b[l.p] <= '7'; k++ {
						v = v*8 + int(l.b[l.p]-'0')
						l.p++
					}
					o = append(o, byte(v))
				} else {
					o = append(o, e)
				}
			}
		case '\r':
			if l.p < len(l.b) && l.b[l.p] == '\n' {
				l.p++
			}
			o = append(o, 10)
		default:
			o = append(o, c)
		}
	}
	return l.fail("string not closed")
}

// parseVal parses one value and requires that nothing but white space follows.
func parseVal(b []byte) (Val, error) {
	l := &lexer{b: b}
	v := l.value()
	if l.err == nil {
		l.ws()
		if l.p != len(b) {
			l.fail("trailing %q", snippet(b[l.p:]))
		}
	}
	return v, l.err
}

// showVal is a canonical text of a value.
func showVal(v Val) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return fmt.Sprint(x)
	case int64:
		return fmt.Sprint(x)
	case Real:
		f, _ := strconv.ParseFloat(string(x), 64)
		return strconv.FormatFloat(f, 'f', -1, 64)
	case Name:
		return "/" + string(x)
	case Str:
		return fmt.Sprintf("(%x)", string(x))
	case Ref:
		return fmt.Sprintf("%d %d R", x.N, x.G)
	case Arr:
		var s []string
		for _, e := range x {
			s = append(s, showVal(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	case Dict:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var s []string
		for _, k := range ks {
			s = append(s, "/"+k+" "+showVal(x[k]))
		}
		return "<<" + strings.Join(s, " ") + ">>"
	case *Stm:
		return fmt.Sprintf("%s stream(%x)", showVal(x.D), x.Raw)
	}
	return fmt.Sprintf("?%T", v)
}

// RFile is a file as the independent reader sees it.
type RFile struct {
	b       []byte
	Objs    map[int]Val
	Gens    map[int]int
	Trailer Dict
	Dec     func(n, g int, b []byte, stream bool) []byte
	entries map[int]rentry
	InStm   map[int]int
}

type rentry struct {
	typ  int
	a, b int
}

// ReadFile reads a whole file strictly.
func ReadFile(b []byte) (*RFile, error) {
	f := &RFile{b: b, Objs: map[int]Val{}, Gens: map[int]int{}, entries: map[int]rentry{}, InStm: map[int]int{}}
	if !bytes.HasPrefix(b, []byte("%PDF-")) {
		return nil, fmt.Errorf("no header")
	}
	tail := bytes.TrimRight(b, "\r\n")
	if !bytes.HasSuffix(tail, []byte("%%EOF")) {
		return nil, fmt.Errorf("file does not end with %%%%EOF")
	}
	i := bytes.LastIndex(b, []byte("startxref"))
	if i < 0 {
		return nil, fmt.Errorf("no startxref")
	}
	l := &lexer{b: b, p: i + 9}
	l.ws()
	off, err := strconv.Atoi(l.word())
	if err != nil {
		return nil, fmt.Errorf("startxref: %v", err)
	}
	seen := map[int]bool{}
	for off > 0 || len(seen) == 0 {
		if seen[off] {
			return nil, fmt.Errorf("xref chain loops at %d", off)
		}
		seen[off] = true
		t, err := f.section(off)
		if err != nil {
			return nil, fmt.Errorf("xref section at %d: %v", off, err)
		}
		if f.Trailer == nil {
			f.Trailer = t
		}
		p, ok := t["Prev"].(int64)
		if !ok {
			break
		}
		off = int(p)
	}
	size, ok := f.Trailer["Size"].(int64)
	if !ok {
		return nil, fmt.Errorf("trailer has no Size: %s", showVal(f.Trailer))
	}
	var nums []int
	for n := range f.entries {
		nums = append(nums, n)
	}
	sort.Ints(nums)
	for _, n := range nums {
		e := f.entries[n]
		if e.typ != 0 && int64(n) >= size {
			return nil, fmt.Errorf("object %d not below Size %d", n, size)
		}
		if e.typ == 1 {
			v, g, err := f.objectAt(n, e.a)
			if err != nil {
				return nil, fmt.Errorf("object %d at %d: %v", n, e.a, err)
			}
			if g != e.b {
				return nil, fmt.Errorf("object %d: generation %d in the xref, %d at the object", n, e.b, g)
			}
			f.Objs[n] = v
			f.Gens[n] = g
		}
	}
	return f, nil
}

// LoadObjStms resolves objects held in object streams; decode yields the decoded data of a stream.
func (f *RFile) LoadObjStms() error {
	var nums []int
	for n, e := range f.entries {
		if e.typ == 2 {
			nums = append(nums, n)
		}
	}
	sort.Ints(nums)
	for _, n := range nums {
		e := f.entries[n]
		s, ok := f.Objs[e.a].(*Stm)
		if !ok {
			return fmt.Errorf("object %d: container %d is not a stream", n, e.a)
		}
		if s.D["Type"] != Name("ObjStm") {
			return fmt.Errorf("object %d: container %d has Type %v", n, e.a, s.D["Type"])
		}
		data, err := f.Decode(e.a)
		if err != nil {
			return fmt.Errorf("object stream %d: %v", e.a, err)
		}
		first, _ := s.D["First"].(int64)
		cnt, _ := s.D["N"].(int64)
		if int(first) > len(data) {
			return fmt.Errorf("object stream %d: First %d beyond %d", e.a, first, len(data))
		}
		hd := strings.Fields(string(data[:first]))
		if len(hd) != int(cnt)*2 {
			return fmt.Errorf("object stream %d: header has %d numbers for N %d: %q", e.a, len(hd), cnt, data[:first])
		}
		if e.b >= int(cnt) {
			return fmt.Errorf("object %d: index %d of %d", n, e.b, cnt)
		}
		on, _ := strconv.Atoi(hd[e.b*2])
		o, _ := strconv.Atoi(hd[e.b*2+1])
		if on != n {
			return fmt.Errorf("object stream %d index %d holds object %d, the xref says %d", e.a, e.b, on, n)
		}
		if int(first)+o > len(data) {
			return fmt.Errorf("object %d: offset beyond its stream", n)
		}
		l := &lexer{b: data, p: int(first) + o}
		v := l.value()
		if l.err != nil {
			return fmt.Errorf("object %d in stream %d: %v", n, e.a, l.err)
		}
		end := len(data)
		if e.b+1 < int(cnt) {
			no, _ := strconv.Atoi(hd[e.b*2+3])
			end = int(first) + no
		}
		at := l.p
		l.ws()
		if end < at || l.p < end {
			return fmt.Errorf("object %d in stream %d: value ends at %d, next object starts at %d", n, e.a, l.p, end)
		}
		f.Objs[n] = v
		f.InStm[n] = e.a
	}
	return nil
}

// Decode decodes a stream object (Flate with or without PNG predictor only).
func (f *RFile) Decode(n int) ([]byte, error) {
	s, ok := f.Objs[n].(*Stm)
	if !ok {
		return nil, fmt.Errorf("object %d is not a stream", n)
	}
	raw := s.Raw
	if f.Dec != nil && s.D["Type"] != Name("XRef") {
		raw = f.Dec(n, f.Gens[n], raw, true)
	}
	return decodeStm(s.D, raw)
}

func decodeStm(d Dict, raw []byte) ([]byte, error) {
	switch fl := d["Filter"].(type) {
	case nil:
		return raw, nil
	case Name:
		if fl != "FlateDecode" {
			return nil, fmt.Errorf("filter %s", fl)
		}
	case Arr:
		if len(fl) == 0 {
			return raw, nil
		}
		if len(fl) != 1 || fl[0] != Name("FlateDecode") {
			return nil, fmt.Errorf("filters %v", fl)
		}
	}
	z, err := zlib.NewReader(bytes.NewReader(raw))
	if err != nil {
		return nil, err
	}
	data, err := io.ReadAll(z)
	if err != nil {
		return nil, err
	}
	if p, ok := d["DecodeParms"].(Dict); ok {
		if pr, _ := p["Predictor"].(int64); pr >= 10 {
			cols, _ := p["Columns"].(int64)
			return unPNG(data, int(cols))
		}
	}
	return data, nil
}

// decodeChain undoes filters, written down from the format's description.
func decodeChain(chain Arr, b []byte) ([]byte, error) {
	for _, f := range chain {
		var out []byte
		switch f {
		case Name("Crypt"):
			continue
		case Name("FlateDecode"):
			z, err := zlib.NewReader(bytes.NewReader(b))
			if err != nil {
				return nil, err
			}
			if out, err = io.ReadAll(z); err != nil {
				return nil, err
			}
		case Name("ASCIIHexDecode"):
			i := bytes.IndexByte(b, '>')
			if i != len(b)-1 {
				return nil, fmt.Errorf("> at %d of %d", i, len(b))
			}
			out = make([]byte, i/2)
			if _, err := hex.Decode(out, b[:i]); err != nil {
				return nil, err
			}
		case Name("ASCII85Decode"):
			b = bytes.TrimPrefix(b, []byte("<~"))
			if !bytes.HasSuffix(b, []byte("~>")) {
				return nil, fmt.Errorf("no ~> at the end")
			}
			b = b[:len(b)-2]
			out = make([]byte, 4*len(b)+8)
			n, _, err := ascii85.Decode(out, b, true)
			if err != nil {
				return nil, err
			}
			out = out[:n]
		case Name("RunLengthDecode"):
			for {
				if len(b) == 0 {
					return nil, fmt.Errorf("no end of the runs")
				}
				n := int(b[0])
				if n == 128 {
					break
				}
				k := n + 1
				if n > 128 {
					k = 1
				}
				if len(b) < 1+k {
					return nil, fmt.Errorf("a run of %d in %d bytes", n, len(b))
				}
				if n > 128 {
					out = append(out, bytes.Repeat(b[1:2], 257-n)...)
				} else {
					out = append(out, b[1:1+k]...)
				}
				b = b[1+k:]
			}
		default:
			return nil, fmt.Errorf("filter %v", f)
		}
		b = out
	}
	return b, nil
}

func unPNG(data []byte, cols int) ([]byte, error) {
	row := cols + 1
	if cols <= 0 || len(data)%row != 0 {
		return nil, fmt.Errorf("predictor rows of %d in %d bytes", cols, len(data))
	}
	var out []byte
	prev := make([]byte, cols)
	for r := 0; r < len(data)/row; r++ {
		t := data[r*row]
		cur := append([]byte(nil), data[r*row+1:(r+1)*row]...)
		for i := range cur {
			var a, b, c byte
			if i > 0 {
				a = cur[i-1]
				c = prev[i-1]
			}
			b = prev[i]
			switch t {
			case 0:
			case 1:
				cur[i] += a
			case 2:
				cur[i] += b
			case 3:
				cur[i] += byte((int(a) + int(b)) / 2)
			case 4:
				p := int(a) + int(b) - int(c)
				pa, pb, pc := abs(p-int(a)), abs(p-int(b)), abs(p-int(c))
				if pa <= pb && pa <= pc {
					cur[i] += a
				} else if pb <= pc {
					cur[i] += b
				} else {
					cur[i] += c
				}
			default:
				return nil, fmt.Errorf("predictor type %d", t)
			}
		}
		out = append(out, cur...)
		prev = cur
	}
	return out, nil
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func (f *RFile) objectAt(n, off int) (Val, int, error) {
	if off <= 0 || off >= len(f.b) {
		return nil, 0, fmt.Errorf("offset out of the file")
	}
	l := &lexer{b: f.b, p: off}
	if isWS(f.b[off]) {
		return nil, 0, fmt.Errorf("offset points at white space")
	}
	w := l.word()
	if w != strconv.Itoa(n) {
		return nil, 0, fmt.Errorf("offset points at %q", snippet(f.b[off:]))
	}
	l.ws()
	g, err := strconv.Atoi(l.word())
	if err != nil {
		return nil, 0, fmt.Errorf("generation: %v", err)
	}
	l.ws()
	if l.word() != "obj" {
		return nil, 0, fmt.Errorf("no obj keyword: %q", snippet(f.b[off:]))
	}
	v := l.value()
	if l.err != nil {
		return nil, 0, l.err
	}
	l.ws()
	k := l.word()
	if k == "stream" {
		d, ok := v.(Dict)
		if !ok {
			return nil, 0, fmt.Errorf("stream without dictionary")
		}
		if l.p < len(f.b) && f.b[l.p] == '\r' {
			l.p++
		}
		if l.p >= len(f.b) || f.b[l.p] != '\n' {
			return nil, 0, fmt.Errorf("no end of line after stream")
		}
		l.p++
		ln, ok := d["Length"].(int64)
		if !ok {
			if r, isRef := d["Length"].(Ref); isRef {
				e := f.entries[r.N]
				lv, _, err := f.objectAt(r.N, e.a)
				if err != nil {
					return nil, 0, err
				}
				ln, ok = lv.(int64)
			}
			if !ok {
				return nil, 0, fmt.Errorf("Length is %s", showVal(d["Length"]))
			}
		}
		if ln < 0 || l.p+int(ln) > len(f.b) {
			return nil, 0, fmt.Errorf("Length %d beyond the file", ln)
		}
		raw := f.b[l.p : l.p+int(ln)]
		l.p += int(ln)
		if l.p < len(f.b) && f.b[l.p] == '\r' {
			l.p++
		}
		if l.p < len(f.b) && f.b[l.p] == '\n' {
			l.p++
		}
		if k := l.word(); k != "endstream" {
			return nil, 0, fmt.Errorf("Length %d is not where endstream is: %q", ln, snippet(f.b[min(l.p, len(f.b)):]))
		}
		v = &Stm{D: d, Raw: raw}
		l.ws()
		k = l.word()
	}
	if k != "endobj" {
		return nil, 0, fmt.Errorf("endobj expected, found %q", k)
	}
	return v, g, nil
}

func (f *RFile) set(n int, e rentry) {
	if _, ok := f.entries[n]; !ok {
		f.entries[n] = e
	}
}

func (f *RFile) section(off int) (Dict, error) {
	if off < 0 || off >= len(f.b) {
		return nil, fmt.Errorf("offset outside the file")
	}
	if !bytes.HasPrefix(f.b[off:], []byte("xref")) {
		return f.xrefStream(off)
	}
	l := &lexer{b: f.b, p: off + 4}
	for {
		l.ws()
		if bytes.HasPrefix(f.b[l.p:], []byte("trailer")) {
			l.p += 7
			break
		}
		first, e1 := strconv.Atoi(l.word())
		l.ws()
		count, e2 := strconv.Atoi(l.word())
		if e1 != nil || e2 != nil {
			return nil, fmt.Errorf("bad subsection header near %q", snippet(f.b[l.p:]))
		}
		for l.p < len(f.b) && (f.b[l.p] == ' ') {
			l.p++
		}
		if l.p < len(f.b) && f.b[l.p] == '\r' {
			l.p++
		}
		if l.p < len(f.b) && f.b[l.p] == '\n' {
			l.p++
		}
		for i := 0; i < count; i++ {
			if l.p+20 > len(f.b) {
				return nil, fmt.Errorf("entry beyond the file")
			}
			e := f.b[l.p : l.p+20]
			o, e1 := strconv.Atoi(string(e[:10]))
			g, e2 := strconv.Atoi(string(e[11:16]))
			eol := string(e[18:20])
			if e1 != nil || e2 != nil || e[10] != ' ' || e[16] != ' ' || (eol != " \n" && eol != " \r" && eol != "\r\n") {
				return nil, fmt.Errorf("bad entry %q", e)
			}
			switch e[17] {
			case 'n':
				f.set(first+i, rentry{1, o, g})
			case 'f':
				f.set(first+i, rentry{0, o, g})
			default:
				return nil, fmt.Errorf("bad entry %q", e)
			}
			l.p += 20
		}
	}
	d, ok := l.value().(Dict)
	if !ok {
		return nil, fmt.Errorf("no trailer dictionary: %v", l.err)
	}
	return d, nil
}

func (f *RFile) xrefStream(off int) (Dict, error) {
	l := &lexer{b: f.b, p: off}
	n, err := strconv.Atoi(l.word())
	if err != nil {
		return nil, fmt.Errorf("neither xref nor an object: %q", snippet(f.b[off:]))
	}
	v, _, err := f.objectAt(n, off)
	if err != nil {
		return nil, err
	}
	s, ok := v.(*Stm)
	if !ok || s.D["Type"] != Name("XRef") {
		return nil, fmt.Errorf("object %d is not a cross-reference stream", n)
	}
	data, err := decodeStm(s.D, s.Raw)
	if err != nil {
		return nil, err
	}
	w, _ := s.D["W"].(Arr)
	if len(w) != 3 {
		return nil, fmt.Errorf("W is %s", showVal(s.D["W"]))
	}
	var ws [3]int
	for i := range ws {
		x, _ := w[i].(int64)
		ws[i] = int(x)
	}
	size, _ := s.D["Size"].(int64)
	idx, _ := s.D["Index"].(Arr)
	if idx == nil {
		idx = Arr{int64(0), size}
	}
	es := ws[0] + ws[1] + ws[2]
	p := 0
	rd := func(w int, def int) int {
		if w == 0 {
			return def
		}
		v := 0
		for i := 0; i < w; i++ {
			v = v<<8 | int(data[p])
			p++
		}
		return v
	}
	for i := 0; i+1 < len(idx); i += 2 {
		first, _ := idx[i].(int64)
		cnt, _ := idx[i+1].(int64)
		for k := int64(0); k < cnt; k++ {
			if p+es > len(data) {
				return nil, fmt.Errorf("entries end early: %d of %d", k, cnt)
			}
			t := rd(ws[0], 1)
			a := rd(ws[1], 0)
			b := rd(ws[2], 0)
			f.set(int(first+k), rentry{t, a, b})
		}
	}
	if p != len(data) {
		return nil, fmt.Errorf("%d bytes of entries left over", len(data)-p)
	}
	return s.D, nil
}

// Get resolves references.
func (f *RFile) Get(v Val) Val {
	for i := 0; i < 50; i++ {
		r, ok := v.(Ref)
		if !ok {
			return v
		}
		v = f.Objs[r.N]
	}
	return nil
}

// D gets the dictionary of a dictionary or stream, through references.
func (f *RFile) D(v Val) Dict {
	switch x := f.Get(v).(type) {
	case Dict:
		return x
	case *Stm:
		return x.D
	}
	return nil
}

// Pages walks the page tree.
func (f *RFile) Pages() ([]int, error) {
	root := f.D(f.Trailer["Root"])
	if root == nil {
		return nil, fmt.Errorf("Root does not lead to a dictionary")
	}
	if root["Type"] != Name("Catalog") {
		return nil, fmt.Errorf("Root has Type %s", showVal(root["Type"]))
	}
	var out []int
	seen := map[int]bool{}
	var walk func(v Val, depth int) (int, error)
	walk = func(v Val, depth int) (int, error) {
		r, ok := v.(Ref)
		if !ok {
			return 0, fmt.Errorf("page tree node is %s", showVal(v))
		}
		if seen[r.N] {
			return 0, fmt.Errorf("page tree visits object %d twice", r.N)
		}
		seen[r.N] = true
		d := f.D(v)
		if d == nil {
			return 0, fmt.Errorf("page tree node %d does not exist", r.N)
		}
		switch f.Get(d["Type"]) {
		case Name("Page"):
			out = append(out, r.N)
			return 1, nil
		case Name("Pages"):
			kids, ok := f.Get(d["Kids"]).(Arr)
			if !ok {
				return 0, fmt.Errorf("node %d: Kids is %s", r.N, showVal(d["Kids"]))
			}
			n := 0
			for _, k := range kids {
				c, err := walk(k, depth+1)
				if err != nil {
					return 0, err
				}
				if p, _ := f.D(k)["Parent"].(Ref); p.N != r.N {
					return 0, fmt.Errorf("node %s has Parent %s, it is a kid of %d", showVal(k), showVal(f.D(k)["Parent"]), r.N)
				}
				n += c
			}
			if cnt, _ := f.Get(d["Count"]).(int64); int(cnt) != n {
				return 0, fmt.Errorf("node %d: Count %s, it has %d pages", r.N, showVal(d["Count"]), n)
			}
			return n, nil
		}
		return 0, fmt.Errorf("node %d has Type %s", r.N, showVal(d["Type"]))
	}
	_, err := walk(root["Pages"], 0)
	return out, err
}
