package main

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// Rich pages: content streams in any spelling, fonts with all kinds of encodings, images
// with all kinds of filters, annotations, nested outlines.  What a reader should find in
// them is kept beside them.

// rfont is what the codes of a font stand for.
type rfont struct {
	two   bool
	m     map[int]string
	codes []int
}

func (f *rfont) set(code int, s string) {
	if _, ok := f.m[code]; !ok {
		f.codes = append(f.codes, code)
	}
	f.m[code] = s
}

// text makes a string in the font.
func (f *rfont) text(r *Rng, n int) string {
	var b []byte
	for ; n > 0; n-- {
		c := f.codes[r.N(len(f.codes))]
		if f.two {
			b = append(b, byte(c>>8))
		}
		b = append(b, byte(c))
	}
	return string(b)
}

func (f *rfont) decode(s string) string {
	if f == nil {
		return s
	}
	var o strings.Builder
	for i := 0; i < len(s); i++ {
		c := int(s[i])
		if f.two {
			i++
			c = c<<8 | int(s[i])
		}
		o.WriteString(f.m[c])
	}
	return o.String()
}

// The encodings, where readers agree on them.

var winHigh = map[int]rune{128: '€', 130: '‚', 131: 'ƒ', 132: '„', 133: '…', 134: '†', 135: '‡', 136: 'ˆ', 137: '‰', 138: 'Š', 139: '‹', 140: 'Œ', 142: 'Ž', 145: '‘', 146: '’', 147: '“', 148: '”', 149: '•', 150: '–', 151: '—', 152: '˜', 153: '™', 154: 'š', 155: '›', 156: 'œ', 158: 'ž', 159: 'Ÿ'}

var macHigh = []rune("ÄÅÇÉÑÖÜáàâäãåçéèêëíìîïñóòôöõúùûü†°¢£§•¶ß®©™´¨?ÆØ?±??¥µ?????ªº?æø¿¡¬?ƒ??«»…?ÀÃÕŒœ–—“”‘’÷?ÿŸ⁄?‹›ﬁﬂ‡·‚„‰ÂÊÁËÈÍÎÏÌÓÔ?ÒÚÛÙıˆ˜¯˘˙˚¸˝˛ˇ")

var stdHigh = map[int]rune{39: '’', 96: '‘', 161: '¡', 162: '¢', 163: '£', 164: '⁄', 165: '¥', 166: 'ƒ', 167: '§', 168: '¤', 169: '\'', 170: '“', 171: '«', 172: '‹', 173: '›', 174: 'ﬁ', 175: 'ﬂ', 177: '–', 178: '†', 179: '‡', 180: '·', 182: '¶', 183: '•', 184: '‚', 185: '„', 186: '”', 187: '»', 188: '…', 189: '‰', 191: '¿', 193: '`', 194: '´', 195: 'ˆ', 196: '˜', 197: '¯', 198: '˘', 199: '˙', 200: '¨', 202: '˚', 203: '¸', 205: '˝', 206: '˛', 207: 'ˇ', 208: '—', 225: 'Æ', 227: 'ª', 232: 'Ł', 233: 'Ø', 234: 'Œ', 235: 'º', 241: 'æ', 245: 'ı', 248: 'ł', 249: 'ø', 250: 'œ', 251: 'ß'}

// expert has the private characters of the Adobe glyph list where there are no others.
var expert = map[int]rune{32: 0x20, 33: 0xf721, 34: 0xf6f8, 35: 0xf7a2, 36: 0xf724, 37: 0xf6e4, 38: 0xf726, 39: 0xf7b4, 40: 0x207d, 41: 0x207e, 42: 0x2025, 43: 0x2024, 44: 0x2c, 45: 0x2d, 46: 0x2e, 47: 0x2044, 48: 0xf730, 49: 0xf731, 50: 0xf732, 51: 0xf733, 52: 0xf734, 53: 0xf735, 54: 0xf736, 55: 0xf737, 56: 0xf738, 57: 0xf739, 58: 0x3a, 59: 0x3b, 61: 0xf6de, 63: 0xf73f, 68: 0xf7f0, 71: 0xbc, 72: 0xbd, 73: 0xbe, 74: 0x215b, 75: 0x215c, 76: 0x215d, 77: 0x215e, 78: 0x2153, 79: 0x2154, 86: 0xfb00, 87: 0xfb01, 88: 0xfb02, 89: 0xfb03, 90: 0xfb04, 91: 0x208d, 93: 0x208e, 94: 0xf6f6, 95: 0xf6e5, 96: 0xf760, 97: 0xf761, 98: 0xf762, 99: 0xf763, 100: 0xf764, 101: 0xf765, 102: 0xf766, 103: 0xf767, 104: 0xf768, 105: 0xf769, 106: 0xf76a, 107: 0xf76b, 108: 0xf76c, 109: 0xf76d, 110: 0xf76e, 111: 0xf76f, 112: 0xf770, 113: 0xf771, 114: 0xf772, 115: 0xf773, 116: 0xf774, 117: 0xf775, 118: 0xf776, 119: 0xf777, 120: 0xf778, 121: 0xf779, 122: 0xf77a, 123: 0x20a1, 124: 0xf6dc, 125: 0xf6dd, 126: 0xf6fe, 129: 0xf6e9, 130: 0xf6e0, 135: 0xf7e1, 136: 0xf7e0, 137: 0xf7e2, 138: 0xf7e4, 139: 0xf7e3, 140: 0xf7e5, 141: 0xf7e7, 142: 0xf7e9, 143: 0xf7e8, 144: 0xf7ea, 145: 0xf7eb, 146: 0xf7ed, 147: 0xf7ec, 148: 0xf7ee, 149: 0xf7ef, 150: 0xf7f1, 151: 0xf7f3, 152: 0xf7f2, 153: 0xf7f4, 154: 0xf7f6, 155: 0xf7f5, 156: 0xf7fa, 157: 0xf7f9, 158: 0xf7fb, 159: 0xf7fc, 161: 0x2078, 162: 0x2084, 163: 0x2083, 164: 0x2086, 165: 0x2088, 166: 0x2087, 167: 0xf6fd, 169: 0xf6df, 170: 0x2082, 172: 0xf7a8, 174: 0xf6f5, 175: 0xf6f0, 176: 0x2085, 178: 0xf6e1, 179: 0xf6e7, 180: 0xf7fd, 182: 0xf6e3, 185: 0xf7fe, 187: 0x2089, 188: 0x2080, 189: 0xf6ff, 190: 0xf7e6, 191: 0xf7f8, 192: 0xf7bf, 193: 0x2081, 194: 0xf6f9, 201: 0xf7b8, 207: 0xf6fa, 208: 0x2012, 209: 0xf6e6, 214: 0xf7a1, 216: 0xf7ff, 218: 0xb9, 219: 0xb2, 220: 0xb3, 221: 0x2074, 222: 0x2075, 223: 0x2076, 224: 0x2077, 225: 0x2079, 226: 0x2070, 228: 0xf6ec, 229: 0xf6f1, 230: 0xf6f3, 233: 0xf6ed, 234: 0xf6f2, 235: 0xf6eb, 241: 0xf6ee, 242: 0xf6fb, 243: 0xf6f4, 244: 0xf7af, 245: 0xf6ea, 246: 0x207f, 247: 0xf6ef, 248: 0xf6e2, 249: 0xf6e8, 250: 0xf6f7, 251: 0xf6fc}

func (f *rfont) base(enc string) {
	if enc == "MacExpertEncoding" {
		for c := 0; c < 256; c++ {
			if expert[c] != 0 {
				f.set(c, string(expert[c]))
			}
		}
		return
	}
	for c := 32; c < 127; c++ {
		f.set(c, string(rune(c)))
	}
	switch enc {
	case "WinAnsiEncoding":
		for c := 128; c < 256; c++ {
			if winHigh[c] != 0 {
				f.set(c, string(winHigh[c]))
			} else if c > 160 && c != 173 {
				f.set(c, string(rune(c)))
			}
		}
	case "MacRomanEncoding":
		for i, x := range macHigh {
			if x != '?' {
				f.set(128+i, string(x))
			}
		}
	case "StandardEncoding":
		for c := 32; c < 256; c++ {
			if stdHigh[c] != 0 {
				f.set(c, string(stdHigh[c]))
			}
		}
	}
}

type glyph struct{ name, text string }

// glyphs are those of the standard Latin character set and some others.
var glyphs = func() []glyph {
	gs := []glyph{{"uni20AC", "€"}, {"uni0416", "Ж"}, {"u1F600", "😀"}, {"uni00E9", "é"}, {"u20AC", "€"}, {"u10348", "𐍈"}, {"uni65E5", "日"}, {"", ""}} // the last has no text
	for i, names := range []string{
		"space exclam quotedbl numbersign dollar percent ampersand quotesingle parenleft parenright asterisk plus comma hyphen period slash zero one two three four five six seven eight nine colon semicolon less equal greater question at",
		"bracketleft backslash bracketright asciicircum underscore grave", "braceleft bar braceright asciitilde",
		"exclamdown cent sterling currency yen brokenbar section dieresis copyright ordfeminine guillemotleft logicalnot - registered macron degree plusminus twosuperior threesuperior acute mu paragraph periodcentered cedilla onesuperior ordmasculine guillemotright onequarter onehalf threequarters questiondown Agrave Aacute Acircumflex Atilde Adieresis Aring AE Ccedilla Egrave Eacute Ecircumflex Edieresis Igrave Iacute Icircumflex Idieresis Eth Ntilde Ograve Oacute Ocircumflex Otilde Odieresis multiply Oslash Ugrave Uacute Ucircumflex Udieresis Yacute Thorn germandbls agrave aacute acircumflex atilde adieresis aring ae ccedilla egrave eacute ecircumflex edieresis igrave iacute icircumflex idieresis eth ntilde ograve oacute ocircumflex otilde odieresis divide oslash ugrave uacute ucircumflex udieresis yacute thorn ydieresis"} {
		for k, n := range strings.Fields(names) {
			if n != "-" {
				gs = append(gs, glyph{n, string(rune([]int{32, 91, 123, 161}[i] + k))})
			}
		}
	}
	for c := 'A'; c <= 'Z'; c++ {
		gs = append(gs, glyph{string(c), string(c)}, glyph{string(c + 32), string(c + 32)})
	}
	for i, n := range strings.Fields("OE oe Scaron scaron Ydieresis Zcaron zcaron florin circumflex caron breve dotaccent ring ogonek tilde hungarumlaut endash emdash quoteleft quoteright quotesinglbase quotedblleft quotedblright quotedblbase dagger daggerdbl bullet ellipsis perthousand guilsinglleft guilsinglright fraction Euro trademark minus fi fl ff ffi ffl dotlessi Lslash lslash") {
		gs = append(gs, glyph{n, string([]rune("ŒœŠšŸŽžƒˆˇ˘˙˚˛˜˝–—‘’‚“”„†‡•…‰‹›⁄€™−ﬁﬂﬀﬃﬄıŁł")[i])})
	}
	return gs
}()

// differences overlays the codes of a font.
func (f *rfont) differences(r *Rng) Arr {
	var a Arr
	for k := 1 + r.N(3); k > 0; k-- {
		code := r.N(250)
		a = append(a, int64(code))
		for n := 1 + r.N(4); n > 0 && code < 256; n-- {
			g := glyphs[r.N(len(glyphs))]
			if r.P(12) {
				g = glyphs[r.N(8)]
			}
			if r.P(8) {
				g = glyph{}
			}
			if g.name == "" {
				a = append(a, Name(fmt.Sprintf("g%d", r.N(500))))
				f.drop(code)
			} else {
				a = append(a, Name(g.name))
				f.set(code, g.text)
			}
			code++
		}
	}
	return a
}

// drop makes a code unusable.
func (f *rfont) drop(code int) {
	delete(f.m, code)
	for i, c := range f.codes {
		if c == code {
			f.codes = append(f.codes[:i:i], f.codes[i+1:]...)
			break
		}
	}
}

func utf16hex(r *Rng, s string) string {
	o := ""
	for _, u := range utf16.Encode([]rune(s)) {
		if r.P(50) {
			o += fmt.Sprintf("%04x", u)
		} else {
			o += fmt.Sprintf("%04X", u)
		}
	}
	return "<" + o + ">"
}

// toUnicode makes a ToUnicode map.
func (f *rfont) toUnicode(r *Rng) []byte {
	var b strings.Builder
	gap := func() string { return r.Pick(" ", "\n", " ", "", "\r\n", "  ", " % c <00> <41>\n") }
	code := func(c int) string {
		if f.two {
			return fmt.Sprintf(r.Pick("<%04x>", "<%04X>"), c)
		}
		return fmt.Sprintf(r.Pick("<%02x>", "<%02X>"), c)
	}
	limit := 256
	if f.two {
		limit = 65536
	}
	target := func(s string) string {
		if len(s) == 1 && r.P(8) {
			return fmt.Sprintf("<%02X>", s[0])
		}
		return utf16hex(r, s)
	}
	texts := []string{"A", "é", "ffi", "日", "😀", "x̂", "Ω", "ab", "\u00a0", "א", "中文", "𝒳y"}
	b.WriteString("/CIDInit /ProcSet findresource begin" + r.Pick("\n", "\r\n", "\r") + "12 dict begin begincmap /CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def\n/CMapName /Adobe-Identity-UCS def /CMapType 2 def\n1 begincodespacerange ")
	b.WriteString(code(0) + gap() + code(limit-1) + " endcodespacerange\n")
	for k := 1 + r.N(4); k > 0; k-- {
		n := 1 + r.N(6)
		if r.P(50) {
			fmt.Fprintf(&b, "%d beginbfchar%s", n, r.Pick("\n", " ", "\r\n"))
			for ; n > 0; n-- {
				c := r.N(min(limit, 700))
				t := texts[r.N(len(texts))]
				f.set(c, t)
				b.WriteString(code(c) + gap() + target(t) + gap())
			}
			b.WriteString("\nendbfchar\n")
			continue
		}
		fmt.Fprintf(&b, "%d beginbfrange%s", n, r.Pick("\n", " ", "\r\n"))
		for ; n > 0; n-- {
			lo := r.N(min(limit, 700))
			m := 1 + r.N(6)
			lo = lo &^ 7 // the last byte alone counts up
			if r.P(40) {
				b.WriteString(code(lo) + gap() + code(lo+m-1) + gap() + "[")
				for i := 0; i < m; i++ {
					t := texts[r.N(len(texts))]
					f.set(lo+i, t)
					b.WriteString(gap() + utf16hex(r, t) + gap())
				}
				b.WriteString("]" + gap())
				continue
			}
			t := []rune(r.Pick("A", "a", "0", "А", "一", "x1", "😀", "f0"))
			if r.P(15) {
				// a long one
				lo &^= 255
				m = 100 + r.N(157)
				t = []rune(r.Pick("一", "Ā", "\u0400", "x一"))
			}
			b.WriteString(code(lo) + gap() + code(lo+m-1) + gap() + target(string(t)) + gap())
			for i := 0; i < m; i++ {
				f.set(lo+i, string(t))
				t[len(t)-1]++
			}
		}
		b.WriteString("\nendbfrange\n")
	}
	b.WriteString("endcmap CMapName currentdict /CMap defineresource pop end end")
	return []byte(b.String())
}

// richFont makes a font.
func (b *pbuild) richFont(r *Rng) Dict {
	f := &rfont{m: map[int]string{}}
	d := Dict{"Type": Name("Font"), "PZF": int64(len(b.rfonts))}
	b.rfonts = append(b.rfonts, f)
	base := r.Pick("Helvetica", "Courier-Bold", "Times-Roman", "ABCDEF+Some-Font", "Arial,Bold")
	desc := func() Val {
		fd := Dict{"Type": Name("FontDescriptor"), "FontName": Name(base), "Flags": int64(32)}
		if r.P(60) {
			fd[r.Pick("FontFile", "FontFile2", "FontFile3")] = b.addStream(r, Dict{}, []byte("font program"))
		}
		if r.P(30) {
			fd["FontFamily"] = Str(r.Pick("Some Family", "Fam-ily", "(x)"))
		}
		return b.maybe(r, 70, fd)
	}
	d["BaseFont"] = b.maybe(r, 10, Name(base))
	if r.P(30) {
		f.two = true
		d["Subtype"] = Name("Type0")
		d["Encoding"] = Name(r.Pick("Identity-H", "Identity-V"))
		cid := Dict{"Type": Name("Font"), "Subtype": Name(r.Pick("CIDFontType2", "CIDFontType0")), "BaseFont": Name(base), "CIDSystemInfo": Dict{"Registry": Str("Adobe"), "Ordering": Str("Identity"), "Supplement": int64(0)}}
		if r.P(70) {
			cid["FontDescriptor"] = desc()
		}
		d["DescendantFonts"] = b.maybe(r, 20, Arr{b.add(r, cid)})
		d["ToUnicode"] = b.richStream(r, Dict{}, f.toUnicode(r))
		return d
	}
	d["Subtype"] = b.maybe(r, 8, Name(r.Pick("Type1", "TrueType", "Type1")))
	if base != "Helvetica" && base != "Courier-Bold" && base != "Times-Roman" {
		d["FontDescriptor"] = desc()
	}
	enc := r.Pick("WinAnsiEncoding", "MacRomanEncoding", "StandardEncoding", "WinAnsiEncoding", "MacRomanEncoding", "StandardEncoding", "MacExpertEncoding")
	switch r.N(4) {
	case 0:
		f.base("StandardEncoding")
	case 1:
		f.base(enc)
		d["Encoding"] = b.maybe(r, 25, Name(enc))
	default:
		e := Dict{"Type": Name("Encoding")}
		if r.P(70) {
			e["BaseEncoding"] = b.maybe(r, 10, Name(enc))
			f.base(enc)
		} else {
			f.base("StandardEncoding")
		}
		e["Differences"] = b.maybe(r, 25, f.differences(r))
		d["Encoding"] = b.maybe(r, 40, e)
	}
	if r.P(30) {
		d["ToUnicode"] = b.richStream(r, Dict{}, f.toUnicode(r))
	}
	return d
}

// richStream adds a stream whose data is encoded with some chain of filters.
func (b *pbuild) richStream(r *Rng, d Dict, data []byte) Ref {
	n := b.again
	b.again = 0
	if n == 0 {
		n = b.alloc()
	}
	b.plain[n] = data
	var filters, parms Arr
	has := false
	apply := func(k int) {
		var p Val
		name := ""
		switch k {
		case 0:
			name = "ASCIIHexDecode"
			s := fmt.Sprintf("%x", data)
			if r.P(50) {
				s = strings.ToUpper(s)
			}
			if strings.HasSuffix(s, "0") && r.P(50) {
				s = s[:len(s)-1] // a missing last digit is 0
			}
			if len(s) > 9 && r.P(30) {
				s = s[:7] + "\n" + s[7:]
			}
			data = []byte(s + ">")
		case 1:
			name = "ASCII85Decode"
			data = encode85(data)
		case 2:
			name = "RunLengthDecode"
			data = encodeRL(r, data)
		case 3:
			name = "FlateDecode"
			if r.P(30) && len(data) > 0 {
				colors, bits := 1, 8
				if r.P(40) {
					colors, bits = r.Pick2(1, 3, 4, 3), r.Pick2(8, 4, 4, 16, 2)
				}
				pred := Dict{"Predictor": int64(10 + r.N(6))}
				var cols int
				row := 0
				for _, c := range []int{d.num("Width"), 1 + r.N(20), 2, 4, 1} {
					if c < 1 {
						continue
					}
					if w := (c*colors*bits + 7) / 8; len(data)%w == 0 && c*colors*bits%8 == 0 {
						cols, row = c, w
						break
					}
				}
				if cols > 0 {
					if r.P(20) && bits == 8 {
						pred["Predictor"] = int64(2)
						data = toTIFF(data, row, colors)
					} else {
						data = toPNGRows(r, data, row, (colors*bits+7)/8)
					}
					if cols != 1 || r.P(50) {
						pred["Columns"] = int64(cols)
					}
					if colors != 1 || r.P(30) {
						pred["Colors"] = int64(colors)
					}
					if bits != 8 || r.P(30) {
						pred["BitsPerComponent"] = int64(bits)
					}
					p, has = pred, true
				}
			}
			data = deflate(data)
		}
		filters = append(Arr{Name(name)}, filters...)
		parms = append(Arr{p}, parms...)
	}
	if r.P(70) {
		apply(r.Pick2(3, 3, 3, 3, 0, 1, 2))
		if r.P(25) {
			apply(r.N(4))
		}
	}
	crypt := r.P(7)
	if crypt {
		// a crypt filter of its own, which leaves the data as it is
		filters = append(Arr{Name("Crypt")}, filters...)
		p := []Val{nil, Dict{}, Dict{"Name": Name("Identity")}, Dict{"Type": Name("CryptFilterDecodeParms"), "Name": Name("Identity")}}[r.N(4)]
		has = has || p != nil
		parms = append(Arr{p}, parms...)
	}
	switch {
	case crypt && (len(filters) > 1 || r.P(50)):
		d["Filter"] = filters
		if has {
			for i, p := range parms {
				if i > 0 && p != nil {
					parms[i] = b.maybe(r, 20, p)
				}
			}
			d["DecodeParms"] = parms
		}
	case crypt:
		d["Filter"] = filters[0]
		if has {
			d["DecodeParms"] = parms[0]
		}
	case len(filters) == 1 && r.P(70):
		d["Filter"] = filters[0]
		if has {
			d["DecodeParms"] = b.maybe(r, 15, parms[0])
		}
	case len(filters) > 0:
		d["Filter"] = b.maybe(r, 10, filters)
		if has {
			for i, p := range parms {
				if p != nil {
					parms[i] = b.maybe(r, 20, p)
				}
			}
			d["DecodeParms"] = b.maybe(r, 15, parms)
		}
	}
	b.stream(n, d, data, r.P(15))
	return Ref{n, 0}
}

// num is a number in a dictionary.
func (d Dict) num(k string) int {
	n, _ := d[k].(int64)
	return int(n)
}

func toTIFF(data []byte, row, step int) []byte {
	out := append([]byte(nil), data...)
	for i := len(out) - 1; i >= 0; i-- {
		if i%row >= step {
			out[i] -= data[i-step]
		}
	}
	return out
}

// toPNGRows applies a random row filter to every row.
func toPNGRows(r *Rng, data []byte, row, step int) []byte {
	var out []byte
	at := func(y, x int) int {
		if y < 0 || x < 0 {
			return 0
		}
		return int(data[y*row+x])
	}
	for y := 0; y*row < len(data); y++ {
		t := r.N(5)
		out = append(out, byte(t))
		for x := 0; x < row; x++ {
			a, up, c := at(y, x-step), at(y-1, x), 0
			if x >= step {
				c = at(y-1, x-step)
			}
			p := 0
			switch t {
			case 1:
				p = a
			case 2:
				p = up
			case 3:
				p = (a + up) / 2
			case 4:
				e := a + up - c
				p = c
				if abs(e-a) <= abs(e-up) && abs(e-a) <= abs(e-c) {
					p = a
				} else if abs(e-up) <= abs(e-c) {
					p = up
				}
			}
			out = append(out, byte(at(y, x)-p))
		}
	}
	return out
}

func encode85(data []byte) []byte {
	var out []byte
	for i := 0; i < len(data); i += 4 {
		var q [4]byte
		n := copy(q[:], data[i:])
		v := uint32(q[0])<<24 | uint32(q[1])<<16 | uint32(q[2])<<8 | uint32(q[3])
		if n == 4 && v == 0 {
			out = append(out, 'z')
			continue
		}
		var e [5]byte
		for k := 4; k >= 0; k-- {
			e[k] = byte(v%85) + '!'
			v /= 85
		}
		out = append(out, e[:n+1]...)
		if i%60 == 56 {
			out = append(out, '\n')
		}
	}
	return append(out, "~>"...)
}

func encodeRL(r *Rng, data []byte) []byte {
	var out []byte
	for i := 0; i < len(data); {
		j := i + 1
		for j < len(data) && j-i < 128 && data[j] == data[i] {
			j++
		}
		if j-i > 1 {
			out = append(out, byte(257-(j-i)), data[i])
			i = j
			continue
		}
		n := min(len(data)-i, 1+r.N(128))
		out = append(append(out, byte(n-1)), data[i:i+n]...)
		i += n
	}
	return append(out, 128)
}

// richText is a text string in one of its encodings.
func richText(r *Rng) Str {
	switch r.N(6) {
	case 0:
		return decoy(r)
	case 1:
		return Str(r.Pick("a\xe4", "\xfcber", "caf\xe9", "\xa9 2026", "na\xefve"))
	case 2, 3:
		s := r.Pick("日本語", "Ω≈ç", "😀 smile", "(Żółć)", "x\\y", "tab\tnew\nline", "\u0628\u0639", "") + r.Pick("", "", " end)", "\\")
		b := []byte("\xfe\xff")
		for _, u := range utf16.Encode([]rune(s)) {
			b = append(b, byte(u>>8), byte(u))
		}
		return Str(b)
	case 4:
		return Str(r.Pick("", "a", "line\nbreak", "cr\rcr", "un(balanced", "nested (a (b))", "back\\slash", "\xef\xbb\xbfutf8 é"))
	}
	return Str(genASCII(r))
}

// refText is the text of a text string.
func refText(s string) string {
	if strings.HasPrefix(s, "\xfe\xff") {
		var u []uint16
		for i := 2; i+1 < len(s); i += 2 {
			u = append(u, uint16(s[i])<<8|uint16(s[i+1]))
		}
		return string(utf16.Decode(u))
	}
	if strings.HasPrefix(s, "\xef\xbb\xbf") {
		return s[3:]
	}
	if utf8.ValidString(s) {
		return s
	}
	var o []rune
	for i := 0; i < len(s); i++ {
		o = append(o, rune(s[i]))
	}
	return string(o)
}

// richNum spells a number.
func richNum(r *Rng) string {
	switch r.N(8) {
	case 0:
		return r.Pick("0", "-0", "1", "+3", "007", "-17", "0.0")
	case 1:
		return r.Pick(".5", "-.25", "5.", "+.75", "-4.", "00.5", "+1.50")
	case 2, 3:
		return fmt.Sprintf("%d.%0*d", r.In(-300, 300), 1+r.N(4), r.N(10))
	}
	return fmt.Sprint(r.In(-50, 700))
}

// respell writes a name, some of its characters as # and two digits.
func respell(r *Rng, s string) string {
	s = spellName(s)
	if strings.Contains(s, "#") || !r.P(8) {
		return s
	}
	i := r.N(len(s))
	return s[:i] + fmt.Sprintf(r.Pick("#%02X", "#%02x"), s[i]) + s[i+1:]
}

// richContent makes a content stream, cut into parts between tokens.
func (b *pbuild) richContent(r *Rng, fonts []string, fd map[string]*rfont, xobjs []string) [][]byte {
	var toks []string
	glue := map[int]bool{} // no cut before this token
	put := func(s ...string) { toks = append(toks, s...) }
	num := func(n int) {
		for ; n > 0; n-- {
			put(richNum(r))
		}
	}
	frac := func(n int) {
		for ; n > 0; n-- {
			put(r.Pick("0", "1", ".5", "0.25", "1.0", "0.333"))
		}
	}
	cur := ""
	var stack []string
	str := func() string {
		n := r.N(9)
		if r.P(5) {
			n = 60
		}
		s := ""
		if f := fd[cur]; f != nil {
			s = f.text(r, n)
		} else {
			s = genASCII(r)
		}
		var o bytes.Buffer
		emitStr(r, &o, s)
		return o.String()
	}
	inText := false
	for k := r.N(40); k > 0; k-- {
		switch r.N(36) {
		case 0:
			if inText {
				put("ET")
			} else {
				put("BT")
			}
			inText = !inText
		case 1, 2, 3:
			if len(fonts) > 0 {
				cur = fonts[r.N(len(fonts))]
				put("/"+respell(r, cur), fmt.Sprint(r.Pick2(8, 9, 10, 12, 24, -10)), "Tf")
			}
		case 4:
			num(2)
			put(r.Pick("Td", "TD"))
		case 5:
			put("T*")
		case 6:
			num(6)
			put("Tm")
		case 7:
			num(1)
			put(r.Pick("Tc", "Tw", "Ts", "TL"))
		case 8:
			put("100", "Tz", "0", "Tr")
		case 9, 10, 11, 12, 13:
			put(str(), "Tj")
		case 14:
			put(str(), "'")
		case 15:
			num(2)
			put(str(), "\"")
		case 16, 17, 18:
			put("[")
			for n := r.N(6); n > 0; n-- {
				if r.P(40) {
					num(1)
				} else {
					put(str())
				}
			}
			put("]", "TJ")
		case 19, 20:
			num(4)
			put("re", r.Pick("f", "S", "B", "f*", "n"))
		case 21:
			num(2)
			put("m")
			num(2)
			put("l", r.Pick("S", "s", "h"))
		case 22:
			num(6)
			put("c")
		case 23:
			num(1)
			put("w")
		case 24:
			put("q")
			stack = append(stack, cur)
		case 25:
			if len(stack) > 0 {
				put("Q")
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
			}
		case 26:
			put(r.Pick("1", "2", ".5", "-1"), r.Pick("0", "0", "0.5"), r.Pick("0", "0", "-.5"), r.Pick("1", "3", ".25", "-1"))
			num(2)
			put("cm")
		case 27:
			frac(3)
			put(r.Pick("rg", "RG"))
		case 28:
			frac(1)
			put(r.Pick("g", "G"))
		case 29:
			frac(4)
			put(r.Pick("k", "K"))
		case 30, 31:
			if len(xobjs) > 0 {
				put("/"+respell(r, xobjs[r.N(len(xobjs))]), "Do")
			}
		case 32:
			d := r.Bytes(1 + r.N(12))
			for i, c := range d {
				// no white space, so no end of the image
				if isWS(c) {
					d[i] = '('
				}
			}
			if r.P(30) {
				// an EI that does not end them
				d = append(append(d, r.Pick("xEI (a) Tj ", "zEI\nq ", " EIx", "\xffEI Q ", ")EI", " EI(", "xEI\tBT ")...), r.Pick("", ".", "EI", "(")...)
			}
			put("BI", "/W", "1", "/H", "1", "/BPC", "8", "/CS", "/G")
			// the data follow one white space after ID and end before EI
			toks = append(toks, "ID "+string(d)+r.Pick("\n", "\n", " ", "\t", "\r", "\r\n", "\f", "\x00")+"EI")
		case 33:
			put("/Span", "<<", "/ActualText", r.Pick("(Tj)", "<FEFF0041>", "(ET q /F1)"), "/MCID", "3", ">>", "BDC")
			if r.P(70) {
				put("EMC")
			}
		case 34:
			put(r.Pick("BX", "EX", "EMC", "h", "W", "n"))
		case 35:
			put("/GS1", "gs", "[", "3", "2", "]", "0", "d", "1", "J", "/Perceptual", "ri", "50", "i")
		}
	}
	if inText && r.P(90) {
		put("ET")
	}
	cuts := map[int]bool{}
	for n := r.N(4); n > 0 && len(toks) > 0; n-- {
		c := r.N(len(toks))
		if !glue[c] {
			cuts[c] = true
		}
	}
	var parts [][]byte
	var o bytes.Buffer
	last := byte(' ')
	sp(r, &o, false)
	for i, t := range toks {
		if cuts[i] {
			parts = append(parts, append([]byte(nil), o.Bytes()...))
			o.Reset()
			last = ' '
		}
		need := !isDelim(t[0]) && !isDelim(last) && !isWS(last)
		if last == '<' && t[0] == '<' || last == '>' && t[0] == '>' {
			need = true
		}
		if need || r.P(60) {
			was := o.Len()
			sp(r, &o, need)
			if need && o.Len() == was {
				o.WriteByte(' ')
			}
		}
		o.WriteString(t)
		last = t[len(t)-1]
		if strings.HasPrefix(t, "ID ") || r.P(20) {
			o.WriteString(r.Pick("\n", "\n", "\r\n", " ", "\t", "\f", "\x00", "\r"))
			last = ' '
		}
	}
	return append(parts, o.Bytes())
}

// richResources makes resources; names holds the fonts and the XObjects in them.
func (b *pbuild) richResources(r *Rng) Dict {
	d := Dict{}
	fonts := Dict{}
	for i := r.N(4); i > 0; i-- {
		name := r.Pick("F1", "F2", "TT0", "C2_0", "T1_1", "F1.0")
		var v Val
		if len(b.fonts) > 0 && r.P(40) {
			v = Ref{b.fonts[r.N(len(b.fonts))], 0}
		} else {
			f := b.richFont(r)
			v = f
			if r.P(85) {
				ref := b.add(r, f)
				b.fonts = append(b.fonts, ref.N)
				b.fontOf[ref.N] = f.num("PZF")
				v = ref
			}
		}
		fonts[name] = v
	}
	if len(fonts) > 0 || r.P(20) {
		d["Font"] = b.maybe(r, 30, fonts)
	}
	xo := Dict{}
	for i := r.N(4); i > 0; i-- {
		name := r.Pick("Im1", "Im2", "X0", "Fm1", "Img-3", "a.b")
		if r.P(25) {
			f := Dict{"Type": Name("XObject"), "Subtype": Name("Form"), "BBox": Arr{int64(0), int64(0), int64(9), int64(9)}}
			if r.P(50) {
				f["Resources"] = Dict{"Font": fonts}
			}
			xo[name] = b.richStream(r, f, []byte("q 0 0 9 9 re f BT (in a form) Tj ET Q"))
			continue
		}
		if len(b.images) == 0 || r.P(60) {
			b.images = append(b.images, b.richImage(r).N)
		}
		xo[name] = Ref{b.images[r.N(len(b.images))], 0}
	}
	if len(xo) > 0 || r.P(10) {
		d["XObject"] = b.maybe(r, 30, xo)
	}
	if r.P(30) {
		d["ExtGState"] = Dict{"GS1": Dict{"Type": Name("ExtGState"), "CA": Real("0.5")}}
	}
	if r.P(20) {
		d["ProcSet"] = Arr{Name("PDF"), Name("Text")}
	}
	return d
}

func (b *pbuild) richImage(r *Rng) Ref {
	w, h := 1+r.N(9), 1+r.N(9)
	comps := r.Pick2(1, 1, 3, 4)
	d := Dict{"Subtype": Name("Image"), "Width": int64(w), "Height": b.maybe(r, 8, int64(h)), "BitsPerComponent": int64(8)}
	if r.P(70) {
		d["Type"] = Name("XObject")
	}
	d["ColorSpace"] = b.maybe(r, 15, Name(map[int]string{1: "DeviceGray", 3: "DeviceRGB", 4: "DeviceCMYK"}[comps]))
	if r.P(20) {
		d["Interpolate"] = true
	}
	data := r.Bytes(w * h * comps)
	if r.P(30) {
		data = bytes.Repeat([]byte{byte(r.N(256))}, w*h*comps)
	}
	if r.P(20) {
		filter := Name(r.Pick("DCTDecode", "DCTDecode", "JPXDecode", "CCITTFaxDecode"))
		n := b.alloc()
		if filter == "DCTDecode" {
			data = append([]byte("\xff\xd8\xff\xe0"), data...)
		}
		b.plain[n] = data
		d["Filter"] = filter
		if r.P(50) {
			// in other filters
			fs := Arr{filter}
			for k := r.N(3); k > 0; k-- {
				switch r.N(4) {
				case 0:
					fs, data = append(Arr{Name("ASCIIHexDecode")}, fs...), []byte(fmt.Sprintf("%x>", data))
				case 1:
					fs, data = append(Arr{Name("ASCII85Decode")}, fs...), encode85(data)
				case 2:
					fs, data = append(Arr{Name("RunLengthDecode")}, fs...), encodeRL(r, data)
				default:
					fs, data = append(Arr{Name("FlateDecode")}, fs...), deflate(data)
				}
			}
			d["Filter"] = b.maybe(r, 30, fs)
		}
		b.stream(n, d, data, r.P(15))
		return Ref{n, 0}
	}
	return b.richStream(r, d, data)
}

// richPage gives a page its contents.
func (b *pbuild) richPage(r *Rng, p *pnode) {
	// the resources, own or inherited
	var res Dict
	for n := p; n != nil && res == nil; n = n.parent {
		switch x := n.attrs["Resources"].(type) {
		case Dict:
			res = x
		case Ref:
			res, _ = b.richVal[x.N].(Dict)
		}
	}
	get := func(v Val) Val {
		if ref, ok := v.(Ref); ok {
			return b.pending(ref.N)
		}
		return v
	}
	var fonts, xobjs []string
	fd := map[string]*rfont{}
	if d, ok := get(res["Font"]).(Dict); ok {
		for _, k := range sortedKeys(d) {
			fonts = append(fonts, k)
			if ref, ok := d[k].(Ref); ok {
				fd[k] = b.rfonts[b.fontOf[ref.N]]
			} else {
				fd[k] = b.rfonts[d[k].(Dict).num("PZF")]
			}
		}
	}
	if d, ok := get(res["XObject"]).(Dict); ok {
		xobjs = sortedKeys(d)
	}
	parts := b.richContent(r, fonts, fd, xobjs)
	var a Arr
	for _, s := range parts {
		a = append(a, b.richStream(r, Dict{}, s))
	}
	if r.P(4) {
		// nothing, between them
		i := r.N(len(a) + 1)
		a = append(a[:i:i], append(Arr{b.nothing(r)}, a[i:]...)...)
	}
	delete(p.attrs, "Contents")
	switch {
	case len(a) == 1 && r.P(80):
		p.attrs["Contents"] = a[0]
	case r.P(96):
		p.attrs["Contents"] = b.maybe(r, 30, a)
	}
	if r.P(60) {
		var annots Arr
		for i := r.N(4); i > 0; i-- {
			annots = append(annots, b.richAnnot(r))
			if r.P(3) {
				annots = append(annots, b.nothing(r))
			}
		}
		p.attrs["Annots"] = b.maybe(r, 40, annots)
	}
}

// nothing is null, or a reference to an object that does not exist.
func (b *pbuild) nothing(r *Rng) Val {
	if r.P(30) {
		return nil
	}
	return Ref{99000 + r.N(500), 0}
}

// pending is a value that was put and is kept for later pages.
func (b *pbuild) pending(n int) Val { return b.richVal[n] }

var annotKinds = []string{"Link", "Text", "Highlight", "Underline", "StrikeOut", "Squiggly", "Circle", "Square", "Line", "Polygon", "PolyLine", "Ink", "Stamp", "Caret", "FreeText", "Popup", "Widget", "Redact", "Link", "Link", "Text"}

func (b *pbuild) richAnnot(r *Rng) Val {
	kind := annotKinds[r.N(len(annotKinds))]
	n := func() Val {
		if r.P(30) {
			return Real(fmt.Sprintf("%d.%d", r.In(0, 500), r.N(100)))
		}
		return int64(r.In(0, 700))
	}
	nums := func(k int) Arr {
		a := Arr{}
		for ; k > 0; k-- {
			a = append(a, n())
		}
		return a
	}
	frac := func(k int) Arr {
		a := Arr{}
		for ; k > 0; k-- {
			a = append(a, []Val{int64(0), int64(1), Real("0.5"), Real(".25")}[r.N(4)])
		}
		return a
	}
	d := Dict{"Subtype": b.maybe(r, 6, Name(kind)), "Rect": b.maybe(r, 12, nums(4))}
	if r.P(70) {
		d["Type"] = Name("Annot")
	}
	for _, k := range []string{"Contents", "T", "Subj"} {
		if r.P(40) {
			d[k] = b.maybe(r, 12, richText(r))
		}
	}
	if r.P(40) {
		d["C"] = b.maybe(r, 12, frac(r.Pick2(3, 3, 4, 0, 1)))
	}
	if r.P(40) {
		a := nums(3)
		if r.P(40) {
			a = append(a, nums(1+r.N(3)))
		}
		d["Border"] = b.maybe(r, 12, a)
	}
	dest := func() Val {
		if r.P(25) {
			return r.name()
		}
		return Arr{pageAt{r.N(20)}, Name(r.Pick("Fit", "FitB"))}
	}
	if kind == "Link" {
		switch r.N(3) {
		case 0:
			d["Dest"] = b.maybe(r, 15, dest())
		case 1:
			d["A"] = b.maybe(r, 30, Dict{"S": Name("GoTo"), "D": dest()})
		default:
			d["A"] = b.maybe(r, 30, Dict{"S": b.maybe(r, 10, Name("URI")), "URI": b.maybe(r, 15, Str("http://example.org/"+r.Pick("", "a(b)", "x?y=z#t", "p%20q", "\\")))})
		}
	}
	if kind == "Text" {
		if r.P(50) {
			d["Open"] = b.maybe(r, 15, r.P(60))
		}
		if r.P(50) {
			d["Name"] = b.maybe(r, 15, Name(r.Pick("Note", "Key", "Help")))
		}
	}
	if r.P(60) && strings.Contains("Highlight Underline StrikeOut Squiggly", kind) {
		d["QuadPoints"] = b.maybe(r, 15, nums(8*(1+r.N(3))))
	}
	if r.P(20) {
		d["AP"] = decoyDict(r)
	}
	return b.maybe(r, 75, d)
}

// name is the name of a destination.
func (r *Rng) name() Val {
	if r.P(50) {
		return Name(r.Pick("chap1", "sec.2", "page-3"))
	}
	return Str(r.Pick("chap1", "sec (2)", "page\\3"))
}

// richOutline adds the items of an outline level.
func (b *pbuild) richOutline(r *Rng, parent, depth int) (first, last, count int) {
	n := 1 + r.N(3)
	nums := make([]int, n)
	for i := range nums {
		nums[i] = b.alloc()
	}
	for i := range nums {
		d := Dict{"Title": b.maybe(r, 10, richText(r)), "Parent": Ref{parent, 0}}
		switch r.N(5) {
		case 0:
			d["A"] = b.maybe(r, 40, Dict{"S": Name("GoTo"), "D": Arr{pageAt{r.N(20)}, Name("XYZ"), nil, int64(5), int64(0)}})
		case 1:
			d["A"] = b.maybe(r, 40, Dict{"S": Name("URI"), "URI": Str("http://example.org/")})
		case 2:
			d["Dest"] = r.name()
		case 3:
		default:
			d["Dest"] = b.maybe(r, 20, Arr{pageAt{r.N(20)}, Name("Fit")})
		}
		if i > 0 {
			d["Prev"] = Ref{nums[i-1], 0}
		}
		if i+1 < n {
			d["Next"] = Ref{nums[i+1], 0}
		}
		if depth > 0 && r.P(40) {
			f, l, c := b.richOutline(r, nums[i], depth-1)
			d["First"], d["Last"], d["Count"] = Ref{f, 0}, Ref{l, 0}, int64(-c)
		}
		b.puts = append(b.puts, pput{nums[i], d, r.P(60)})
	}
	return nums[0], nums[n-1], n
}

func (b *pbuild) richCatalog(r *Rng) {
	c := b.cat.attrs
	b.cat.dirty = true
	b.cat.inStm = r.P(60)
	if r.P(60) {
		on := b.alloc()
		f, l, n := b.richOutline(r, on, 3)
		d := Dict{"Type": Name("Outlines"), "First": Ref{f, 0}, "Last": Ref{l, 0}, "Count": int64(n)}
		b.puts = append(b.puts, pput{on, d, r.P(60)})
		c["Outlines"] = Ref{on, 0}
	}
	if r.P(70) {
		d := Dict{}
		for _, k := range []string{"Title", "Author", "Subject", "Keywords", "Creator", "Producer", "Company", "My#20Key", "T"} {
			if r.P(50) {
				d[k] = b.maybe(r, 12, richText(r))
			}
		}
		for _, k := range []string{"CreationDate", "ModDate"} {
			if r.P(50) {
				d[k] = b.maybe(r, 12, Str(r.Pick("D:20200101120000Z", "D:20211231235959+01'30'", "D:2020", "junk")))
			}
		}
		if r.P(30) {
			d["Trapped"] = Name("False")
		}
		if b.info == 0 {
			b.info = b.alloc()
		}
		b.puts = append(b.puts, pput{b.info, d, r.P(60)})
	}
	if r.P(20) {
		c["PZX"] = decoyDict(r)
	}
}
