package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
)

// C01: histories of the low-level writer.  C02: the same histories with failing sinks.

// wobj is what the model knows of an object.
type wobj struct {
	val    Val    // value, or the dictionary of a stream
	stream bool   // it is a stream
	data   []byte // its decoded data
	raw    bool   // the data was given encoded: compare the stored bytes
	plain  []byte // what the data was before it was encoded with the library's filters
	chain  Arr    // and these filters
}

// whist is a writer with its model.
type whist struct {
	c     *Ctx
	w     *write.PDFWriter
	objs  map[int]*wobj
	next  int
	root  int
	info  int
	ver   string
	xref  bool
	ostm  bool
	enc   *types.PDFEncryption
	encN  int
	id    []byte
	pass  []byte
	owner []byte
	ref   *refEnc
	onOut func(out []byte)
	spare write.Dictionary
	last  []byte
	lastK string
}

func newWHist(c *Ctx) *whist {
	return &whist{c: c, w: write.NewPDFWriter(), objs: map[int]*wobj{}, next: 1, ver: "1.7"}
}

func mkDictionary(m map[string]interface{}) interface{} { return write.Dictionary(m) }

// sink is an io.Writer with faults.
type sink struct {
	buf    bytes.Buffer
	kind   string
	at     int
	calls  int
	fired  bool
	closed bool
}

var errSink = errors.New("sink: no space left on device")

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	if s.closed {
		return 0, io.ErrClosedPipe
	}
	room := s.at - s.buf.Len()
	switch s.kind {
	case "err":
		if room < len(p) {
			s.fired = true
			if room < 0 {
				room = 0
			}
			s.buf.Write(p[:room])
			return room, errSink
		}
	case "once":
		// the failure passes: what is written later is taken again
		if !s.fired && room < len(p) {
			s.fired = true
			if room < 0 {
				room = 0
			}
			s.buf.Write(p[:room])
			return room, errSink
		}
	case "short":
		// a writer that breaks the contract of io.Writer: fewer bytes, no error
		if room < len(p) {
			s.fired = true
			if room < 0 {
				room = 0
			}
			s.buf.Write(p[:room])
			return room, nil
		}
	case "late":
		// all bytes are taken, and then the error is reported
		s.buf.Write(p)
		if s.buf.Len() >= s.at {
			s.fired = true
			return len(p), errSink
		}
		return len(p), nil
	}
	s.buf.Write(p)
	return len(p), nil
}

func (h *whist) nums() []int {
	var ns []int
	for n := range h.objs {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	return ns
}

// step performs one operation; it reports whether to go on.
func (h *whist) step(op Op) bool {
	c := h.c
	w := h.w
	if strings.HasPrefix(op.K, "set") && op.I(0) < 1 {
		// minimised too far: numbers start at 1
		op.A = append([]int64{1}, op.A[min(1, len(op.A)):]...)
	}
	switch op.K {
	case "add", "set":
		v, err := parseObj(op.B)
		if err != nil {
			panic("bad scenario: " + err.Error())
		}
		content := append([]byte(nil), op.B...)
		n := op.I(0)
		if n > 0 && n == h.encN {
			return true
		}
		o := &wobj{val: v}
		if s, ok := v.(*Stm); ok {
			o = &wobj{val: without(s.D, "Length"), stream: true, data: s.Raw, raw: true}
		}
		if op.K == "add" {
			if !c.Call("AddObject", func() { n = w.AddObject(content) }) {
				return false
			}
			if n != h.next {
				c.Fail("number", "AddObject returned %d, the next free number is %d", n, h.next)
			}
			h.next++
		} else {
			if !c.Call("SetObject", func() { w.SetObject(n, content) }) {
				return false
			}
			if n >= h.next {
				h.next = n + 1
			}
		}
		h.objs[n] = o
	case "stream", "setstream":
		dv, err := parseVal(op.B)
		if err != nil {
			panic("bad scenario: " + err.Error())
		}
		d := dv.(Dict)
		data := []byte(op.Str(0))
		comp := op.I(1) != 0
		r := NewRng(uint64(op.I(2)))
		plain := data
		var chain Arr
		if op.I(4) > 0 && !comp && op.I(3) == 0 {
			// the caller encodes the data with the library's filters
			for m := op.I(4); m > 0 && len(chain) < 4; m /= 4 {
				k := m % 4
				if !c.Call("Encode", func() {
					switch k {
					case 0:
						data = parse.EncodeASCIIHex(data)
					case 1:
						data = parse.EncodeASCII85(data)
					case 2:
						data = parse.EncodeRunLength(data)
					default:
						data = deflate(data)
					}
				}) {
					return false
				}
				chain = append(Arr{[]Name{"ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "FlateDecode"}[k]}, chain...)
			}
			d = without(d, "DecodeParms")
			if op.I(2)%9 == 0 {
				// and leaves them out of the encryption
				p := make(Arr, len(chain)+1)
				p[0] = Dict{"Name": Name("Identity")}
				if op.I(2)%2 == 0 {
					p[0] = Dict{}
				}
				chain = append(Arr{Name("Crypt")}, chain...)
				d["DecodeParms"] = p
				c.Count("identity_streams", 1)
			}
			d["Filter"] = chain
			if len(chain) == 1 && op.I(2)%2 == 0 {
				d["Filter"] = chain[0]
			}
			c.Count("encoded_streams", 1)
		}
		mk := mkDictionary
		if op.I(2)%3 == 0 {
			mk = func(m map[string]interface{}) interface{} { return m }
		}
		m := goVal(r, d, mk)
		gd, ok := m.(write.Dictionary)
		if !ok {
			gd = write.Dictionary(m.(map[string]interface{}))
		}
		reuse := op.I(3) != 0
		if _, filt := spareVals[h]["Filter"]; reuse && h.spare != nil && !(filt && comp) {
			// the caller passes the same dictionary again
			gd = h.spare
			d = h.spareVal()
		}
		before := fmt.Sprint(len(gd), gd)
		n := op.I(0)
		if n > 0 && n == h.encN {
			return true
		}
		if op.K == "stream" {
			if !c.Call("AddStreamObject", func() { n = w.AddStreamObject(gd, data, comp) }) {
				return false
			}
			if n != h.next {
				c.Fail("number", "AddStreamObject returned %d, the next free number is %d", n, h.next)
			}
			h.next++
		} else {
			if !c.Call("SetStreamObject", func() { w.SetStreamObject(n, gd, data, comp) }) {
				return false
			}
			if n >= h.next {
				h.next = n + 1
			}
		}
		if after := fmt.Sprint(len(gd), gd); after != before {
			c.Fail("argument-changed", "the caller's dictionary was %s and is now %s", before, after)
		}
		h.spare = gd
		spareVals[h] = d
		exp := without(d, "Length")
		o := &wobj{val: exp, stream: true, data: append([]byte(nil), data...), raw: !comp, plain: plain, chain: chain}
		h.objs[n] = o
		if comp {
			o.val = without(exp, "Filter")
		}
	case "root":
		if ns := h.nums(); len(ns) > 0 {
			h.root = ns[op.I(0)%len(ns)]
			w.SetRoot(h.root)
		}
	case "info":
		if ns := h.nums(); len(ns) > 0 {
			h.info = ns[op.I(0)%len(ns)]
			w.SetInfo(h.info)
		}
	case "version":
		h.ver = op.Str(0)
		w.SetVersion(h.ver)
	case "xref":
		h.xref = op.I(0) != 0
		w.UseXRefStream(h.xref)
	case "objstm":
		h.ostm = op.I(0) != 0
		w.UseObjectStream(h.ostm)
	case "encrypt":
		if h.enc != nil {
			return true
		}
		h.pass, h.owner = []byte(op.Str(0)), []byte(op.Str(1))
		switch op.I(0) {
		case 5:
			var err error
			var n int
			if !c.Call("SetupEncryptionWithPasswords", func() {
				n, err = w.SetupEncryptionWithPasswords([]byte(op.Str(0)), []byte(op.Str(1)), int32(op.I(1)), op.I(2) == 0)
			}) {
				return false
			}
			if err != nil {
				if c.randomFailed() {
					c.Count("setup_refused", 1)
					return true
				}
				c.Fail("encrypt-setup", "SetupEncryptionWithPasswords: %v", err)
				return false
			}
			h.encN = n
			h.next = n + 1
			h.enc = &types.PDFEncryption{V: 5, EncryptMetadata: op.I(2) == 0}
		default:
			// a dictionary made elsewhere, handed to the writer
			e := newRefEnc(op.I(0), map[int]int{1: 2, 2: 3, 4: 4}[op.I(0)], map[int]int{1: 5, 2: op.I(3), 4: 16}[op.I(0)],
				[]byte(op.Str(0)), []byte(op.Str(1)), int32(op.I(1)), op.I(2) == 0, NewRng(uint64(op.I(4))).Bytes(16), NewRng(uint64(op.I(4))))
			e.cf = op.I(6)
			h.ref = e
			body := emit(NewRng(uint64(op.I(4))), e.dict())
			enc := &types.PDFEncryption{V: e.V, R: e.R, KeyLength: e.Len, Filter: "Standard", P: e.P, O: e.O, U: e.U, EncryptMetadata: e.Meta, EncryptKey: e.Key}
			if e.cf > 0 {
				enc.StreamMethod, enc.StringMethod = e.methods()
			}
			if !c.Call("SetEncryption", func() {
				h.encN = w.AddObject(body)
				w.SetEncryption(enc, e.ID)
				w.SetEncryptRef(h.encN)
			}) {
				return false
			}
			h.next = h.encN + 1
			h.enc = enc
		}
	default:
		panic("bad op " + op.K)
	}
	return true
}

var spareVals = map[*whist]Dict{}

func (h *whist) spareVal() Dict { return spareVals[h] }

// randomFailed says whether the random source has failed in this run.
func (c *Ctx) randomFailed() bool { return len(c.sc.RandFail) > 0 }

// expectRoot: the writer needs a root only if one was set.
var dbgOut func([]byte)

func (h *whist) verify(out []byte) {
	if dbgOut != nil {
		dbgOut(out)
	}
	c := h.c
	fail := func(class, f string, a ...interface{}) {
		c.Fail(class, "%s\n(modes: xref stream %v, object streams %v, encrypted %v; file %q)", fmt.Sprintf(f, a...), h.xref, h.ostm, h.enc != nil, clip(out, 700))
	}
	if !bytes.HasPrefix(out, []byte("%PDF-"+h.ver+"\n")) {
		fail("header", "the file starts with %q, the version is %s", clip(out, 12), h.ver)
	}
	ivs := map[string]string{}
	f, err := ReadFile(out)
	if err != nil {
		fail("unreadable", "an independent reader cannot read the file: %v", err)
		return
	}
	var pdf *parse.PDF
	opts := parse.ParseOptions{Password: h.pass}
	if !c.Call("Open", func() { pdf, err = parse.OpenWithOptions(out, opts) }) {
		return
	}
	if err != nil {
		fail("open", "Open fails on the writer's own output: %v", err)
		return
	}
	if h.onOut != nil {
		h.onOut(out)
	}
	var key []byte
	stmM, strM := "AESV2", "AESV2"
	if h.ref != nil {
		stmM, strM = h.ref.methods()
	}
	if h.enc != nil {
		if !pdf.IsEncrypted() || pdf.Encryption() == nil {
			fail("encrypt-lost", "the document is opened as unencrypted")
			return
		}
		key = pdf.Encryption().EncryptKey
		if h.enc.V == 1 || h.enc.V == 2 {
			key = key[:min(len(key), h.enc.KeyLength)]
		}
		if h.enc.V >= 5 {
			for i := 0; i+8 <= len(key); i += 8 {
				if bytes.Count(key[i:i+8], []byte{0}) == 8 || i > 0 && bytes.Equal(key[i:i+8], key[:8]) {
					fail("key", "the key %x is not random", key)
				}
			}
			for _, k := range []Name{"U", "O"} {
				ed, _ := f.Objs[h.encN].(Dict)
				s, _ := ed[string(k)].(Str)
				for i := 0; i+8 <= len(s); i += 8 {
					if s[i:i+8] == "\x00\x00\x00\x00\x00\x00\x00\x00" {
						fail("key", "a salt in /%s %x is not random", k, string(s))
					}
				}
			}
		}
		f.Dec = func(n, g int, b []byte, stream bool) []byte {
			m := stmM
			if s, ok := f.Objs[n].(*Stm); ok && stream && h.enc.V >= 4 && (ownIdentity(s.D) || !h.enc.EncryptMetadata && s.D["Type"] == Name("Metadata")) {
				m = "None"
			}
			if w := weakIV(ivs, m, b); w != "" {
				fail("iv", "stream %d: %s", n, w)
			}
			d, err := refDec(key, m, n, g, b)
			if err != nil {
				fail("decrypt", "object %d: %v", n, err)
			}
			return d
		}
		if e, ok := f.Trailer["Encrypt"].(Ref); !ok || e.N != h.encN {
			fail("trailer", "Encrypt is %s, want %d 0 R", showVal(f.Trailer["Encrypt"]), h.encN)
		}
		if _, in := f.Objs[h.encN].(Dict); !in {
			fail("encrypt-lost", "the encryption dictionary %d is not a plain object", h.encN)
		}
	} else if pdf.IsEncrypted() {
		fail("encrypt-lost", "the document is not encrypted, but is opened as if it were")
	}
	if c.Failed() {
		return
	}
	if err := f.LoadObjStms(); err != nil {
		fail("unreadable", "an independent reader cannot read the object streams: %v", err)
		return
	}
	if h.root > 0 {
		if r, ok := f.Trailer["Root"].(Ref); !ok || r.N != h.root {
			fail("trailer", "Root is %s, want %d 0 R", showVal(f.Trailer["Root"]), h.root)
		}
	}
	if h.info > 0 {
		if r, ok := f.Trailer["Info"].(Ref); !ok || r.N != h.info {
			fail("trailer", "Info is %s, want %d 0 R", showVal(f.Trailer["Info"]), h.info)
		}
	}
	for n := range f.Objs {
		if h.objs[n] == nil && n != h.encN && n < h.next {
			fail("extra", "object %d is in the file and was never added: %s", n, clipS(showVal(f.Objs[n]), 200))
		}
	}
	// object by object, with the independent reader and with the library
	var bp *parse.PDF
	opts.BytePerfect = true
	if !c.Call("Open(BytePerfect)", func() { bp, err = parse.OpenWithOptions(out, opts) }) {
		return
	}
	if err != nil {
		fail("open-byteperfect", "OpenWithOptions(BytePerfect): %v", err)
		return
	}
	var bpb []byte
	c.Call("Bytes", func() { bpb = bp.Bytes() })
	if !bytes.Equal(bpb, out) {
		fail("byteperfect", "Bytes() of the byte-perfect document differs: %q", clip(bpb, 300))
	}
	for _, n := range h.nums() {
		o := h.objs[n]
		v, ok := f.Objs[n]
		if !ok {
			fail("missing", "object %d is not in the file", n)
			continue
		}
		if f.InStm[n] == 0 && key != nil {
			bad := false
			strs := func(s string) string {
				if w := weakIV(ivs, strM, []byte(s)); w != "" {
					fail("iv", "object %d: %s", n, w)
				}
				d, err := refDec(key, strM, n, 0, []byte(s))
				if err != nil {
					bad = true
				}
				return string(d)
			}
			if s, isS := v.(*Stm); isS {
				d := mapStrs(s.D, strs).(Dict)
				raw := f.Dec(n, 0, s.Raw, true)
				if l, ok := d["Length"].(int64); !ok || int(l) != len(s.Raw) {
					fail("length", "object %d has Length %s and %d bytes", n, showVal(d["Length"]), len(s.Raw))
				}
				d["Length"] = int64(len(raw))
				v = &Stm{D: d, Raw: raw}
			} else {
				v = mapStrs(v, strs)
			}
			if bad {
				fail("decrypt", "object %d has a string that does not decrypt: %s", n, clipS(showVal(f.Objs[n]), 300))
			}
		}
		h.match("file", n, o, v, fail)
		for i, p := range []*parse.PDF{pdf, bp} {
			who := []string{"GetObject", "GetObject(byte-perfect)"}[i]
			if !p.HasObject(n) {
				fail("missing", "HasObject(%d) is false (%s)", n, who)
				continue
			}
			var got []byte
			var err error
			if !c.Call(who, func() { got, err = p.GetObject(n) }) {
				return
			}
			if err != nil {
				fail("getobject", "%s(%d): %v", who, n, err)
				continue
			}
			gv, err := parseObj(got)
			if err != nil {
				fail("getobject", "%s(%d) returned %q: %v", who, n, clip(got, 300), err)
				continue
			}
			h.match(who, n, o, gv, fail)
			if s, ok := gv.(*Stm); ok && o.chain != nil {
				if !c.Call("DecodeStream", func() { got, err = p.DecodeStream(showVal(s.D), s.Raw) }) {
					return
				}
				if err != nil || !bytes.Equal(got, o.plain) {
					fail("decode", "%s: stream %d (%s) decodes to %q, %v; want %q", who, n, showVal(s.D["Filter"]), clip(got, 200), err, clip(o.plain, 200))
				}
			}
		}
	}
	// numbers that were never used
	for _, n := range []int{h.next + 5, h.next + 1000} {
		if _, err := pdf.GetObject(n); !types.IsNotFound(err) || !errors.Is(err, types.ErrObjectNotFound) {
			fail("extra", "the error about the object %d, which is not there, is %v", n, err)
		}
		if pdf.HasObject(n) || bp.HasObject(n) {
			fail("extra", "HasObject(%d) is true, the highest number is %d", n, h.next-1)
		}
	}
	for n := 1; n < h.next && n < 60; n++ {
		if h.objs[n] == nil && n != h.encN && (pdf.HasObject(n) || bp.HasObject(n)) {
			fail("extra", "HasObject(%d) is true and it was never added", n)
		}
	}
	c.Shape(h.xref, h.ostm, h.enc != nil, len(h.objs), bucket(len(out)), h.root > 0, h.info > 0)
}

func bucket(n int) int {
	b := 0
	for n > 0 {
		n >>= 1
		b++
	}
	return b
}

func (h *whist) match(who string, n int, o *wobj, v Val, fail func(string, string, ...interface{})) {
	if !o.stream {
		if _, isS := v.(*Stm); isS {
			fail("value", "%s: object %d became a stream", who, n)
			return
		}
		if !same(v, o.val) {
			fail("value", "%s: object %d is %s, want %s", who, n, clipS(showVal(v), 300), clipS(showVal(o.val), 300))
		}
		return
	}
	s, ok := v.(*Stm)
	if !ok {
		fail("value", "%s: object %d is %s, want a stream", who, n, clipS(showVal(v), 300))
		return
	}
	if l, ok := s.D["Length"].(int64); ok && int(l) != len(s.Raw) {
		fail("length", "%s: object %d has Length %d and %d bytes", who, n, l, len(s.Raw))
	}
	d := without(s.D, "Length")
	data := s.Raw
	if !o.raw {
		if len(o.data) > 0 || s.D["Filter"] != nil {
			if s.D["Filter"] != Name("FlateDecode") {
				fail("value", "%s: object %d has Filter %s, it was added with compression", who, n, showVal(s.D["Filter"]))
				return
			}
			var err error
			data, err = decodeStm(Dict{"Filter": Name("FlateDecode")}, s.Raw)
			if err != nil {
				fail("value", "%s: stream %d does not inflate: %v", who, n, err)
				return
			}
		}
		d = without(d, "Filter")
	}
	if !bytes.Equal(data, o.data) {
		fail("data", "%s: stream %d has data %q, want %q", who, n, clip(data, 200), clip(o.data, 200))
	}
	if o.chain != nil {
		if got, err := decodeChain(o.chain, data); err != nil || !bytes.Equal(got, o.plain) {
			fail("encode", "%s: stream %d holds %q encoded with %s as %q (%v)", who, n, clip(o.plain, 200), showVal(o.chain), clip(data, 200), err)
		}
	}
	if !same(d, o.val) {
		fail("value", "%s: stream %d has dictionary %s, want %s", who, n, clipS(showVal(d), 300), clipS(showVal(o.val), 300))
	}
}

func clip(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}
func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// write performs a Write with a sink fault and checks it.
func (h *whist) write(op Op) bool {
	c := h.c
	kind := op.Str(0)
	s := &sink{kind: kind, at: 1 << 60}
	if kind != "" {
		// the size is known from a clean write of the same state
		ref := &sink{}
		var err error
		if !c.Call("Write", func() { err = h.w.Write(ref) }) {
			return false
		}
		if err != nil {
			return h.writeErr(err, ref, nil)
		}
		s.at = ref.buf.Len() * op.I(0) / 1000
		if kind != "late" && s.at >= ref.buf.Len() {
			s.at = ref.buf.Len() - 1
		}
		if h.enc == nil {
			h.last = append([]byte(nil), ref.buf.Bytes()...)
		}
	}
	var err error
	useBytes := op.I(1) != 0 && kind == ""
	var out []byte
	name := "Write"
	if useBytes {
		name = "Bytes"
	}
	if !c.Call(name, func() {
		if useBytes {
			out, err = h.w.Bytes()
		} else {
			err = h.w.Write(s)
			out = s.buf.Bytes()
		}
	}) {
		return false
	}
	c.Sig(out, err == nil)
	if kind != "" {
		c.Count("fault:sink:"+kind, b2i(s.fired))
		if s.fired && err == nil {
			c.Fail("lost-error", "the sink failed (%s after %d bytes) and Write returned nil", kind, s.at)
			return false
		}
		if s.fired {
			c.res.Nontrivial = true
			if (kind == "err" || kind == "once") && !errors.Is(err, errSink) {
				c.Fail("wrong-error", "the sink returned %v, Write returned %v", errSink, err)
			}
			if h.enc == nil && kind != "late" && !bytes.HasPrefix(h.last, out) {
				c.Fail("not-prefix", "the bytes before the failure are not a prefix of the document:\n%q", clip(out, 300))
			}
			c.Shape("sink", kind, s.at*20/(len(h.last)+1), h.xref, h.ostm, h.enc != nil)
			return true
		}
	}
	if err != nil {
		return h.writeErr(err, s, out)
	}
	if h.enc == nil {
		k := fmt.Sprint(h.xref, h.ostm, h.ver, h.root, h.info)
		if op.I(2) != 0 && h.lastK == k && h.last != nil && !bytes.Equal(h.last, out) {
			c.Fail("repeat", "the same document written twice gives different bytes:\n%q\n%q", diffAt(h.last, out), diffAt(out, h.last))
		}
		h.last, h.lastK = append([]byte(nil), out...), k
	}
	h.verify(append([]byte(nil), out...))
	return true
}

// diffAt shows a from a little before it differs from b.
func diffAt(a, b []byte) []byte {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i > 30 {
		i -= 30
	} else {
		i = 0
	}
	return clip(a[i:], 200)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// writeErr: a failing write is right only when the environment failed.
func (h *whist) writeErr(err error, s *sink, out []byte) bool {
	if h.enc != nil && h.c.randomFailed() {
		h.c.Count("write_refused", 1)
		if s != nil && s.buf.Len() > 0 {
			h.c.Fail("partial", "the write failed (%v) after handing %d bytes to the sink", err, s.buf.Len())
		}
		h.c.res.Nontrivial = true
		return true
	}
	h.c.Fail("write-error", "Write failed: %v", err)
	return false
}

// genWriter makes a history.
func genWriter(r *Rng, sc *Scenario, faults bool) {
	var live []int
	next := 1
	n := 2 + r.N(14)
	if r.P(10) {
		n += r.N(40)
	}
	refs := func() []int {
		if len(live) == 0 {
			return []int{1, 2, 3}
		}
		return live
	}
	if r.P(60) {
		sc.Ops = append(sc.Ops, Op{K: "add", B: []byte("<</Type/Catalog/Pages 2 0 R>>")}, Op{K: "add", B: []byte("<</Type/Pages/Kids[]/Count 0>>")}, Op{K: "root"})
		live = append(live, 1, 2)
		next = 3
	}
	if r.P(50) {
		sc.Ops = append(sc.Ops, Op{K: "xref", A: []int64{1}})
	}
	if r.P(35) {
		sc.Ops = append(sc.Ops, Op{K: "objstm", A: []int64{1}})
	}
	enc := false
	for i := 0; i < n; i++ {
		num := int64(0)
		if r.P(25) && len(live) > 0 {
			num = int64(live[r.N(len(live))])
		} else if r.P(10) {
			num = int64(next + r.N(12))
			if r.P(4) {
				num = int64(next + r.Pick2(300, 70000))
			}
		}
		use := func() {
			if num > 0 {
				if int(num) >= next {
					next = int(num) + 1
				}
				live = append(live, int(num))
			} else {
				live = append(live, next)
				next++
			}
		}
		switch k := r.N(20); {
		case k < 7:
			v := genVal(r, 3, refs())
			if r.P(60) {
				v = genDict(r, 3, refs())
			}
			b := emit(r, v)
			if r.P(5) {
				b = append(b, "% a comment at the end"...)
			}
			if r.P(10) {
				b = append(b, r.Pick("\n", " ", "\r\n", "  ")...)
			}
			if r.P(10) {
				b = append([]byte(r.Pick("\n", " ", "\r\n")), b...)
			}
			op := Op{K: "add", B: b}
			if num > 0 {
				op = Op{K: "set", B: b, A: []int64{num}}
			}
			sc.Ops = append(sc.Ops, op)
			use()
		case k < 13:
			d := genDict(r, 2, refs())
			if r.P(15) {
				d["Length"] = int64(r.N(500))
			}
			comp := int64(b2i(r.P(50)))
			data := genData(r)
			if comp == 0 && r.P(20) {
				d["Filter"] = Name("FlateDecode")
				data = deflate(data)
			} else {
				delete(d, "Filter")
			}
			op := Op{K: "stream", S: []string{string(data)}, A: []int64{num, comp, int64(r.N(1000)), int64(b2i(r.P(15) && comp == 0 || r.P(5)))}}
			if comp == 0 && d["Filter"] == nil && op.I(3) == 0 && r.P(35) {
				op.A = append(op.A, int64(r.N(256)))
			}
			if num > 0 {
				op.K = "setstream"
			}
			op.B = emit(r, d)
			sc.Ops = append(sc.Ops, op)
			use()
		case k == 13:
			// a stream given as raw content
			d := genDict(r, 1, refs())
			data := genData(r)
			d["Length"] = int64(len(data))
			b := append(emit(r, d), r.Pick("\nstream\n", "\nstream\r\n", " stream\n")...)
			b = append(b, data...)
			b = append(b, "\nendstream"...)
			op := Op{K: "add", B: b}
			if num > 0 {
				op = Op{K: "set", B: b, A: []int64{num}}
			}
			sc.Ops = append(sc.Ops, op)
			use()
		case k == 14:
			sc.Ops = append(sc.Ops, Op{K: "root", A: []int64{int64(r.N(50))}})
		case k == 15:
			sc.Ops = append(sc.Ops, Op{K: "info", A: []int64{int64(r.N(50))}})
		case k == 16:
			sc.Ops = append(sc.Ops, Op{K: r.Pick("xref", "objstm"), A: []int64{int64(r.N(2))}})
		case k == 17 && !enc && r.P(40):
			enc = true
			v := int64(r.Pick2(5, 5, 5, 1, 2, 4))
			sc.Ops = append(sc.Ops, Op{K: "encrypt", A: []int64{v, int64(int32(r.U64())), int64(r.N(2)), int64(r.Pick2(5, 8, 16)), int64(r.N(1 << 30))},
				S: []string{r.Pick("", "user", "pässwörd", "0123456789012345678901234567890123456789", "a(b)\\"), r.Pick("", "owner", "o)\x80\xff")}})
			live = append(live, next)
			next++
		case k == 18:
			sc.Ops = append(sc.Ops, Op{K: "version", S: []string{r.Pick("1.4", "1.5", "1.7", "2.0")}})
		default:
			sc.Ops = append(sc.Ops, genWrite(r, faults))
		}
	}
	sc.Ops = append(sc.Ops, genWrite(r, faults))
	if r.P(40) {
		sc.Ops = append(sc.Ops, Op{K: "write", A: []int64{0, 0, 1}})
	}
	if enc && r.P(35) {
		for k := 1 + r.N(3); k > 0; k-- {
			sc.RandFail = append(sc.RandFail, r.N(25))
		}
		sc.Ops = append(sc.Ops, Op{K: "write"})
	}
}

func genWrite(r *Rng, faults bool) Op {
	if faults && r.P(75) {
		at := int64(r.N(1001))
		if r.P(30) {
			at = int64(r.Pick2(0, 1, 999, 1000))
		}
		return Op{K: "write", S: []string{r.Pick("err", "once", "short", "late")}, A: []int64{at}}
	}
	return Op{K: "write", A: []int64{0, int64(b2i(r.P(30)))}}
}

func execWriter(c *Ctx) {
	c.limit = 400_000_000
	h := newWHist(c)
	defer delete(spareVals, h)
	c.Begin()
	defer c.End()
	writes := 0
	for _, op := range c.sc.Ops {
		if op.K == "write" {
			if !h.write(op) || c.Failed() {
				return
			}
			writes++
			continue
		}
		if op.I(2) == 0 {
			h.lastK = ""
		}
		h.lastK = ""
		if !h.step(op) || c.Failed() {
			return
		}
	}
	if writes > 0 && len(h.objs) > 1 {
		c.res.Nontrivial = true
	}
}

func init() {
	register(&Prop{
		ID: "C01", Level: "exploration",
		Gen:   func(r *Rng, sc *Scenario, i int) { genWriter(r, sc, false) },
		Exec:  execWriter,
		Quick: 6000, Thorough: 400000,
		Rule: "one evaluation is one simulated history of writer calls, with a write and a full read-back at each write step; it counts as non-trivial when at least one write was verified over two or more objects",
		Real: []string{"core/write (writer, object streams, cross-reference streams, encryption)", "core/parse", "core/encrypt"},
		Stub: []string{"map iteration order", "crypto/rand", "time.Now", "the io.Writer"},
	})
	register(&Prop{
		ID: "C02", Level: "exploration",
		Gen:   func(r *Rng, sc *Scenario, i int) { genWriter(r, sc, true) },
		Exec:  execWriter,
		Quick: 6000, Thorough: 400000,
		Rule: "one evaluation is one simulated history of writer calls with failing sinks; it counts as non-trivial when a fault fired or a write was verified over two or more objects",
		Real: []string{"core/write (writer, object streams, cross-reference streams, encryption)", "core/parse", "core/encrypt"},
		Stub: []string{"map iteration order", "crypto/rand", "time.Now", "the io.Writer"},
	})
}
