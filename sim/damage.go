package main

import (
	"bytes"
	"compress/zlib"
	"io"
	"strings"
)

// Damage: what a broken writer or a broken disk does to a document.

var badInts = []int64{-1, 0, 1, 2, 3, 7, 255, 256, 65535, 65536, 1000000, 2147483647, 2147483648, 4294967296, 9223372036854775807, -2147483648, -9223372036854775808}
var badReals = []Real{"99999999999999999999999", "-0.0", ".", "-", "+5", "1.2.3", "0.00000000000000001", "-99999999999999999999"}
var badNames = []Name{"", "Type", "Page", "Pages", "Catalog", "FlateDecode", "ASCII85Decode", "ASCIIHexDecode", "RunLengthDecode", "LZWDecode", "DCTDecode", "Crypt", "Identity", "Identity-H", "Font", "XObject", "Image", "Form", "Parent", "Kids", "ObjStm", "XRef", "Off", "Yes", "DeviceRGB", "Indexed", "Standard", "V2", "AESV2", "AESV3"}

// mutateVal returns v with one place in it replaced.
func mutateVal(r *Rng, v Val, refs []int, self int) Val {
	switch x := v.(type) {
	case Dict:
		if len(x) > 0 && !r.P(12) {
			o := without(x)
			ks := sortedKeys(o)
			k := ks[r.N(len(ks))]
			switch r.N(14) {
			case 0:
				delete(o, k)
			case 1:
				o[ks[r.N(len(ks))]] = o[k]
			case 2:
				o[string(badNames[r.N(len(badNames))])] = badVal(r, refs, self)
			default:
				o[k] = mutateVal(r, o[k], refs, self)
			}
			return o
		}
	case Arr:
		if len(x) > 0 && !r.P(12) {
			o := append(Arr(nil), x...)
			i := r.N(len(o))
			switch r.N(12) {
			case 0:
				return append(o[:i:i], o[i+1:]...)
			case 1:
				for k := r.Pick2(1, 3, 60); k > 0; k-- {
					o = append(o, o[i])
				}
				return o
			default:
				o[i] = mutateVal(r, o[i], refs, self)
			}
			return o
		}
	}
	return badVal(r, refs, self)
}

// badVal is a value that does not belong where it is put.
func badVal(r *Rng, refs []int, self int) Val {
	switch r.N(13) {
	case 0:
		return Ref{self, 0}
	case 1, 2, 3:
		if len(refs) > 0 {
			return Ref{refs[r.N(len(refs))], 0}
		}
		return Ref{1 + r.N(9), 0}
	case 4:
		return Ref{r.Pick2(0, 999, 100000, 2147483647), r.Pick2(0, 0, 1, 65535)}
	case 5, 6:
		return badInts[r.N(len(badInts))]
	case 7:
		return badReals[r.N(len(badReals))]
	case 8:
		return badNames[r.N(len(badNames))]
	case 9:
		switch r.N(5) {
		case 0:
			return Arr{}
		case 1:
			return Dict{}
		case 2:
			return Str("")
		case 3:
			return nil
		default:
			return r.P(50)
		}
	case 10:
		var v Val = int64(1)
		for k := r.Pick2(3, 40, 400, 2500); k > 0; k-- {
			if r.P(80) {
				v = Arr{v}
			} else {
				v = Dict{"A": v}
			}
		}
		return v
	case 11:
		return Str(strings.Repeat(r.Pick("(", ")", "\\", "\xfe\xff", "x", "<", "\x00"), r.Pick2(1, 3, 60)))
	default:
		return genVal(r, 3, refs)
	}
}

// mutate damages one of the pending objects.
func (d *docBuilder) mutate(r *Rng) {
	var os []*dobj
	var refs []int
	for _, o := range d.pend {
		refs = append(refs, o.n)
		if o.n != d.encN || r.P(50) {
			os = append(os, o)
		}
	}
	if len(os) == 0 {
		return
	}
	o := os[r.N(len(os))]
	if o.stm && r.P(50) {
		o.data = mutateStream(r, o)
		return
	}
	v := mutateVal(r, o.val, refs, o.n)
	if _, ok := v.(Dict); !ok && o.stm {
		return
	}
	o.val = v
}

// mutateStream damages what the stream decodes to, or what is stored of it.
func mutateStream(r *Rng, o *dobj) []byte {
	dict, _ := o.val.(Dict)
	f := dict["Filter"]
	if f == nil {
		return damageText(r, o.data)
	}
	if a, ok := f.(Arr); ok && len(a) == 1 {
		f = a[0]
	}
	if n, ok := f.(Name); ok && n == "FlateDecode" && r.P(70) {
		if zr, err := zlib.NewReader(bytes.NewReader(o.data)); err == nil {
			if b, err := io.ReadAll(zr); err == nil {
				return deflate(damageText(r, b))
			}
		}
	}
	return damageBytes(r, o.data)
}

// words that mean something to one or another of the readers of a stream
var badWords = []string{"(", ")", "<", ">", "<<", ">>", "[", "]", "/", "%", "\\", "BT", "ET", "q", "Q", "cm", "Tj", "TJ", "Tf", "Td", "Do", "BI", "ID", "EI", "re", "f", "S", "'", "\"", "Tm",
	"beginbfchar", "endbfchar", "beginbfrange", "endbfrange", "<0000> <ffff> <0000>", "<00> <ff> [", "begincodespacerange", "1e400", "-", "99999999999999999999", "endstream", "endobj", "obj", "stream",
	"</", "/>", "<field name=\"a\">", "</field>", "<subform>", "</subform>", "<!--", "-->", "<![CDATA[", "]]>", "&", "&#x0;", "&#xFFFFFFFF;", "&amp;", "<?", "?>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "xmlns=\"", "<xfa:data>", "</xfa:data>", "0 0 0 0 0 0"}

// damageText damages data that is words of a language.
func damageText(r *Rng, b []byte) []byte {
	for k := 1 + r.N(3); k > 0; k-- {
		if r.P(35) || len(b) == 0 {
			b = damageBytes(r, b)
			continue
		}
		i := r.N(len(b))
		w := badWords[r.N(len(badWords))]
		if r.P(30) {
			w = " " + w + " "
		}
		if r.P(15) {
			w = strings.Repeat(w+" ", r.Pick2(2, 20, 500))
		}
		if r.P(50) {
			b = append(append(append([]byte(nil), b[:i]...), w...), b[i:]...)
		} else {
			j := min(len(b), i+1+r.N(12))
			b = append(append(append([]byte(nil), b[:i]...), w...), b[j:]...)
		}
	}
	return b
}

// damageBytes damages data whatever it is.
func damageBytes(r *Rng, b []byte) []byte {
	b = append([]byte(nil), b...)
	if len(b) == 0 {
		return r.Bytes(r.N(20))
	}
	i := r.N(len(b))
	n := min(len(b)-i, 1+r.N(r.Pick2(4, 40, 400)))
	switch r.N(6) {
	case 0, 1:
		b[i] ^= 1 << r.N(8)
	case 2:
		b = b[:i]
	case 3:
		b = append(b[:i:i], b[i+n:]...)
	case 4:
		b = append(b[:i+n:i+n], b[i:]...)
	default:
		copy(b[i:i+n], make([]byte, n))
	}
	return b
}

// genDamage makes one fault of the kinds damage knows.  Places are in millionths
// of the file, or counted from its end.
func genDamage(r *Rng) Fault {
	at := func() int64 {
		if r.P(30) {
			return -int64(1 + r.N(500))
		}
		return int64(r.N(1000000))
	}
	seed := int64(r.U64() >> 20)
	switch r.N(14) {
	case 0:
		return Fault{K: "flip", A: []int64{at(), int64(r.N(8))}}
	case 1:
		return Fault{K: "byte", A: []int64{at(), int64(r.N(256))}}
	case 2:
		return Fault{K: "zero", A: []int64{at(), int64(1 + r.N(r.Pick2(4, 64, 1024)))}}
	case 3:
		return Fault{K: "cut", A: []int64{at()}}
	case 4:
		return Fault{K: "lose", A: []int64{at(), int64(1 + r.N(r.Pick2(4, 64, 1024)))}}
	case 5:
		return Fault{K: "dup", A: []int64{at(), int64(1 + r.N(r.Pick2(4, 64, 1024)))}}
	case 6:
		return Fault{K: "splice", A: []int64{at(), at(), int64(1 + r.N(r.Pick2(16, 64, 1024)))}}
	case 7, 8, 9, 10:
		return Fault{K: "number", A: []int64{at(), seed, int64(r.N(4))}}
	case 11, 12:
		return Fault{K: "word", A: []int64{at(), seed}}
	default:
		return Fault{K: "insert", A: []int64{at(), seed}}
	}
}

// damage applies a fault to a file.
func damage(b []byte, f Fault) []byte {
	if len(b) == 0 {
		return b
	}
	pos := func(a int) int {
		if a < 0 {
			return max(0, len(b)+a)
		}
		return min(len(b)-1, int(int64(len(b))*int64(a)/1000000))
	}
	b = append([]byte(nil), b...)
	i := pos(f.I(0))
	switch f.K {
	case "flip":
		b[i] ^= 1 << (f.I(1) & 7)
	case "byte":
		b[i] = byte(f.I(1))
	case "zero":
		n := min(len(b)-i, max(0, f.I(1)))
		copy(b[i:i+n], make([]byte, n))
	case "cut":
		b = b[:i]
	case "lose":
		n := min(len(b)-i, max(0, f.I(1)))
		b = append(b[:i:i], b[i+n:]...)
	case "dup":
		n := min(len(b)-i, max(0, f.I(1)))
		b = append(b[:i+n:i+n], b[i:]...)
	case "splice":
		j := pos(f.I(1))
		n := min(len(b)-i, len(b)-j, max(0, f.I(2)))
		copy(b[i:i+n], append([]byte(nil), b[j:j+n]...))
	case "number":
		// the next run of digits is another number
		for i < len(b) && (b[i] < '0' || b[i] > '9') {
			i++
		}
		j := i
		for j < len(b) && b[j] >= '0' && b[j] <= '9' {
			j++
		}
		if i == j {
			return b
		}
		r := NewRng(uint64(f.I(1)))
		var s []byte
		switch f.I(2) {
		case 0, 1: // of the same length, so that nothing moves
			s = append(s, b[i:j]...)
			for k := range s {
				s[k] = '0' + byte(r.N(10))
			}
			if j-i > 2 && r.P(50) {
				copy(s, strings.Repeat("0", j-i))
				s[j-i-1] = '0' + byte(r.N(10))
				s[j-i-2] = '0' + byte(r.N(4))
			}
			if r.P(20) {
				for k := range s {
					s[k] = '9'
				}
			}
		case 2:
			s = []byte(showVal(badInts[r.N(len(badInts))]))
		default:
			s = []byte(r.Pick("", "-", "+1", "00000000000000000000000000000001", "1.5", "18446744073709551615", "340282366920938463463374607431768211456", "0x10"))
		}
		b = append(append(append([]byte(nil), b[:i]...), s...), b[j:]...)
	case "word":
		// the next word is another word
		r := NewRng(uint64(f.I(1)))
		for i < len(b) && !(b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z') {
			i++
		}
		j := i
		for j < len(b) && (b[j] >= 'a' && b[j] <= 'z' || b[j] >= 'A' && b[j] <= 'Z') {
			j++
		}
		w := r.Pick("obj", "endobj", "stream", "endstream", "xref", "trailer", "startxref", "R", "null", "true", "n", "f", "Length", "Filter", "Type", "Prev", "Size", "Root", "Kids", "Parent", "First", "N", "W", "Index", "Extends", "Predictor", "Columns", "Count", "Encrypt", "V", "P", "O", "U", "Fields", "T", "Next", "ToUnicode", "Differences", "%%EOF", "<<", ">>", "[", "]")
		if r.P(30) && j-i > 0 {
			w = (w + "                ")[:min(16, j-i)]
		}
		b = append(append(append([]byte(nil), b[:i]...), w...), b[j:]...)
	case "insert":
		r := NewRng(uint64(f.I(1)))
		w := []byte(badWords[r.N(len(badWords))])
		if r.P(30) {
			w = r.Bytes(1 + r.N(30))
		}
		if r.P(10) {
			w = bytes.Repeat(append(w, ' '), r.Pick2(10, 1000))
		}
		b = append(append(append([]byte(nil), b[:i]...), w...), b[i:]...)
	}
	return b
}
