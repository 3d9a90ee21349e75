package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"

	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/types"
)

// C03: encrypted documents.

var passwords = []string{"", "user", "owner", "p\xe4ss", "a(b)\\c", "0123456789012345678901234567890123456789", "01234567890123456789012345678901", "\x00\x01\xff\xfe", " ", "User"}

// tamper damages one of the values the password is checked with.
func (d *docBuilder) tamper(op Op) {
	if len(op.A) < 9 || op.I(7) == 0 {
		return
	}
	e, bit := d.enc, op.I(8)
	flip := func(b []byte) []byte {
		o := append([]byte(nil), b...)
		o[bit/8%len(o)] ^= 1 << (bit % 8)
		return o
	}
	switch op.I(7) {
	case 1:
		e.tamper = func(x Dict) { x["O"] = Str(flip(e.O)) }
	case 2:
		e.tamper = func(x Dict) { x["U"] = Str(flip(e.U[:16])) + Str(e.U[16:]) }
	case 3:
		e.tamper = func(x Dict) { x["P"] = int64(e.P ^ int32(1)<<(bit%32)) }
	case 4:
		d.id = flip(e.ID)
	}
}

func genCrypt(r *Rng, sc *Scenario, i int) {
	user, owner := passwords[r.N(len(passwords))], passwords[r.N(len(passwords))]
	v := r.Pick2(1, 2, 2, 4, 4, 4)
	op := Op{K: "encrypt", A: []int64{int64(v), int64(int32(r.U64())), int64(r.N(2)), int64(r.Pick2(5, 8, 10, 16)), int64(r.N(1 << 30)), 0, int64(r.N(6)), 0, int64(r.N(256))}, S: []string{user, owner}}
	if r.P(45) {
		// a document of the library's own writer
		sc.Var = "writer"
		if r.P(50) {
			op.A[0] = 5
		}
		w := &Scenario{}
		genWriter(r, w, false)
		sc.RandFail = nil
		at := r.N(len(w.Ops) + 1)
		for k, o := range w.Ops {
			if k == at {
				sc.Ops = append(sc.Ops, op)
			}
			if o.K != "encrypt" && (o.K != "write" || k == len(w.Ops)-1) {
				sc.Ops = append(sc.Ops, o)
			}
			if r.P(15) {
				sc.Ops = append(sc.Ops, secretOp(r, op.I(2) == 0))
			}
		}
		if at == len(w.Ops) {
			sc.Ops = append(sc.Ops, op)
		}
		sc.Ops = append(sc.Ops, secretOp(r, op.I(2) == 0), Op{K: "write"})
		if r.P(25) {
			sc.RandFail = append(sc.RandFail, r.N(30))
		}
		return
	}
	sc.Var = "document"
	d := &Scenario{}
	genRevisions(r, d, 3, 25)
	sc.Faults = d.Faults
	// the encryption dictionary takes the place of a number nothing else has
	op.A[5] = int64(1 + r.N(4))
	if r.P(30) {
		op.A[7] = int64(1 + r.N(4))
		sc.Faults = nil
	}
	done := false
	for _, o := range d.Ops {
		if !done && (o.K == "put" || o.K == "stm") {
			sc.Ops = append(sc.Ops, op)
			done = true
		}
		sc.Ops = append(sc.Ops, o)
		if r.P(15) && done && o.K != "commit" {
			s := secretOp(r, true)
			n := int64(5 + r.N(20))
			if s.K == "stream" {
				s.K, s.A = "stm", []int64{n, int64(b2i(r.P(20)))}
			} else {
				s.K, s.A = "put", []int64{n, int64(b2i(r.P(60)))}
			}
			sc.Ops = append(sc.Ops, s)
		}
	}
	if !done {
		sc.Ops = append(sc.Ops, op)
	}
}

// secretOp adds an object whose contents must not show in the file.
func secretOp(r *Rng, meta bool) Op {
	s := "SECRET" + hex.EncodeToString(r.Bytes(8))
	switch k := r.N(5); {
	case k == 0:
		return Op{K: "add", B: emit(r, Str(s))}
	case k == 1:
		return Op{K: "stream", B: emit(r, Dict{"Type": Name("Metadata"), "Subtype": Name("XML")}), S: []string{"clear " + s[6:]}, A: []int64{0, 0, 1, 0}}
	case k == 2:
		return Op{K: "stream", B: emit(r, Dict{"Note": Str(s)}), S: []string{s + s}, A: []int64{0, 0, 1, 0}}
	default:
		return Op{K: "add", B: emit(r, Dict{"A": Arr{Str(s), Dict{"B": Str("x" + s)}}})}
	}
}

// opens tries a password on both readers and on DecryptPDF.
func opens(c *Ctx, data []byte, pass string) (ok, failed int, enc *types.PDFEncryption) {
	ok, enc, errs := openErrs(c, data, pass)
	return ok, len(errs), enc
}

func openErrs(c *Ctx, data []byte, pass string) (ok int, enc *types.PDFEncryption, errs []error) {
	in := append([]byte(nil), data...)
	try := func(what string, f func() error) {
		var err error
		if !c.Call(what, func() { err = f() }) {
			return
		}
		if err == nil {
			ok++
		} else {
			errs = append(errs, err)
		}
	}
	var p []byte
	if pass != "" {
		p = []byte(pass)
	}
	for _, bp := range []bool{false, true} {
		try("OpenWithOptions", func() error {
			pdf, err := parse.OpenWithOptions(in, parse.ParseOptions{Password: p, BytePerfect: bp})
			if err == nil && !pdf.IsEncrypted() {
				return nil
			}
			if err != nil && pdf != nil {
				c.Fail("half-open", "OpenWithOptions returns an error and a document")
			}
			return err
		})
	}
	try("DecryptPDF", func() error {
		out, e, err := encrypt.DecryptPDF(in, p, false)
		if err == nil {
			enc = e
		} else if out != nil || e != nil {
			c.Fail("half-open", "DecryptPDF returns %v and %d bytes, %v", err, len(out), e)
		}
		return err
	})
	if !bytes.Equal(in, data) {
		c.Fail("input", "opening an encrypted document changed the caller's bytes")
	}
	return
}

// samePass says whether two passwords are one to the standard security handler.
func samePass(v int, a, b string) bool {
	if v >= 5 {
		return a == b
	}
	return bytes.Equal(pad32([]byte(a)), pad32([]byte(b)))
}

// access checks who may open the document.
func access(c *Ctx, data []byte, v int, user, owner string) {
	eff := owner
	if owner == "" && v < 5 {
		eff = user
	}
	for i, p := range passwords {
		right := samePass(v, p, user) || samePass(v, p, eff)
		if !right && i%3 != int(c.sc.Seed%3) {
			continue
		}
		ok, enc, errs := openErrs(c, data, p)
		bad := len(errs)
		if c.Failed() {
			return
		}
		if right && bad > 0 {
			c.Fail("refused", "V=%d: the password %q is refused %d times out of 3 (user %q, owner %q)", v, p, bad, user, owner)
		}
		if !right && ok > 0 {
			c.Fail("wrong-password", "V=%d: the password %q opens the document (user %q, owner %q)", v, p, user, owner)
		}
		for _, err := range errs {
			if code, _ := types.GetErrorCode(err); !right && (!errors.Is(err, types.ErrWrongPassword) || !types.IsEncryptionError(err) || code == "") {
				c.Fail("error", "V=%d: the error about the password %q does not say so: %v", v, p, err)
			}
		}
		if right && enc != nil {
			c.Count("opened", 1)
		}
		if !right {
			c.Count("fault:wrong_password", 1)
		}
		if c.Failed() {
			return
		}
	}
}

func execCrypt(c *Ctx) {
	c.limit = 400_000_000
	c.Begin()
	defer c.End()
	if c.sc.Var == "writer" {
		execCryptWriter(c)
		return
	}
	d := buildDoc(c.sc.Ops)
	if len(d.snaps) == 0 || d.enc == nil {
		return
	}
	var e Op
	var secrets []string
	for _, op := range c.sc.Ops {
		if op.K == "encrypt" {
			e = op
		}
	}
	user, owner := e.Str(0), e.Str(1)
	k := len(d.snaps)
	c.Shape(d.enc.V, d.enc.cf, d.enc.Meta, d.enc.Len, k, len(d.live)/4, e.I(7))
	c.res.Nontrivial = true
	if e.I(7) != 0 {
		// somebody changed what the password is checked with
		for _, p := range []string{user, owner} {
			ok, _, _ := opens(c, d.b, p)
			if ok > 0 {
				c.Fail("tampered", "V=%d: with a damaged %s the document opens all the same", d.enc.V, []string{"", "O", "U", "P", "ID"}[e.I(7)])
			}
		}
		c.Count("fault:tampered", 1)
		return
	}
	_ = secrets
	access(c, d.b, d.enc.V, user, owner)
	if c.Failed() {
		return
	}
	pass := user
	if c.sc.Seed%3 == 0 && owner != "" {
		pass = owner
	}
	for i, s := range d.snaps {
		if i == k-1 || i == int(c.sc.Seed%uint64(k)) {
			checkRevision(c, fmt.Sprintf("encrypted (V=%d, filters %d), revision %d of %d", d.enc.V, d.enc.cf, i+1, k), d.b[:s.end], s, i+1, true, []byte(pass))
			if c.Failed() {
				return
			}
		}
	}
	// the functions on bytes
	_, _, enc := opens(c, d.b, pass)
	if enc == nil {
		return
	}
	for n, o := range d.snaps[k-1].live {
		if n%2 == 0 || o.aux {
			continue
		}
		var b []byte
		var err error
		if !c.Call("parse.GetObject", func() { b, err = parse.GetObject(d.b, n, enc, false) }) {
			return
		}
		if err != nil {
			c.Fail("get-bytes", "parse.GetObject(%d): %v", n, err)
			return
		}
		cmpObj(o, b, "parse.GetObject", func(class, f string, a ...interface{}) { c.Fail(class, f, a...) })
	}
	for _, f := range c.sc.Faults {
		data, rev := tear(d, f)
		c.Count("fault:torn_append:"+f.K, 1)
		if rev > 0 {
			checkRevision(c, fmt.Sprintf("encrypted, crash (%s) while revision %d was appended", f.K, k), data, d.snaps[rev-1], rev, false, []byte(pass))
		}
	}
}

func execCryptWriter(c *Ctx) {
	h := newWHist(c)
	defer delete(spareVals, h)
	var secrets []string
	h.onOut = func(out []byte) {
		if h.enc == nil {
			return
		}
		stm, str := "AESV2", "AESV2"
		if h.ref != nil {
			stm, str = h.ref.methods()
		}
		if stm != "None" && str != "None" {
			for _, s := range secrets {
				if bytes.Contains(out, []byte(s)) {
					c.Fail("leak", "the encrypted document shows %q in the clear", s)
				}
			}
		}
		access(c, out, h.enc.V, string(h.pass), string(h.owner))
		c.res.Nontrivial = true
		c.Shape(h.enc.V, stm, str, h.xref, h.ostm, len(h.objs)/4)
	}
	for _, op := range c.sc.Ops {
		if bytes.Contains(op.B, []byte("SECRET")) {
			if v, err := parseVal(op.B); err == nil {
				mapStrs(v, func(s string) string {
					if len(s) > 12 {
						secrets = append(secrets, s)
					}
					return s
				})
			}
		}
		if s := op.Str(0); len(s) > 12 && s[:6] == "SECRET" {
			secrets = append(secrets, s)
		}
		if op.K == "write" {
			if !h.write(op) || c.Failed() {
				return
			}
			continue
		}
		if !h.step(op) || c.Failed() {
			return
		}
	}
}

func init() {
	register(&Prop{
		ID: "C03", Level: "exploration",
		Gen:   genCrypt,
		Exec:  execCrypt,
		Quick: 4000, Thorough: 300000,
		Rule: "one evaluation is one simulated encrypted document - written by the library, or with a history of revisions by an independent writer with its own encryption - opened with its passwords and with wrong ones, read back, and damaged; it counts as non-trivial when the document was encrypted and opened",
		Real: []string{"core/encrypt", "core/parse", "core/write"},
		Stub: []string{"crypto/rand", "map iteration order", "the writer of the foreign documents (independent)"},
	})
}
