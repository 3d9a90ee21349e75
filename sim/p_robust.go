package main

import (
	"bytes"

	rt "github.com/benedoc-inc/pdfer/zz_simrt"
)

// C04: whatever the bytes, every call returns.

// genAnyDoc makes the ops of a document of any of the kinds.
func genAnyDoc(r *Rng, maxPages int) []Op {
	s := &Scenario{P: map[string]int64{}}
	switch r.N(5) {
	case 0:
		genXFA(r, s, 0)
	case 1:
		genForm(r, s, 0)
	case 2:
		genExtract(r, s, 0)
		if r.P(40) {
			// a form on rich pages
			var ops []Op
			for _, op := range s.Ops {
				if op.K == "commit" && r.P(60) {
					for k := 1 + r.N(4); k > 0; k-- {
						ops = append(ops, Op{K: "field", A: []int64{int64(r.N(6)), int64(r.U64() >> 20)}})
					}
				}
				ops = append(ops, op)
			}
			s.Ops = ops
		}
	case 3:
		genExtract(r, s, 0)
	default:
		s.Ops = genPageOps(r, maxPages, true)
	}
	docs, _ := splitDocs(s.Ops)
	ops := docs[0]
	if r.P(15) {
		// fewer pages are often enough
		ops = trimPages(ops, 1)
	}
	return ops
}

func trimPages(ops []Op, n int) []Op {
	var o []Op
	for _, op := range ops {
		if op.K == "page" {
			if n--; n < 0 {
				continue
			}
		}
		o = append(o, op)
	}
	return o
}

// anyDoc lays the ops out.
func anyDoc(ops []Op, owner bool) (data, pass []byte, b *pbuild) {
	b = buildPages(ops)
	if b.enc != nil {
		pass = []byte(b.pass[b2i(owner)])
		if b.pass[1] == "" {
			pass = []byte(b.pass[0])
		}
	}
	return b.b, pass, b
}

func genCalls(r *Rng, n int) []Op {
	var ops []Op
	for ; n > 0; n-- {
		ops = append(ops, Op{K: "call", S: []string{apiCalls[r.N(len(apiCalls))].name}, A: []int64{int64(r.U64() >> 20), int64(b2i(r.P(15)))}})
	}
	return ops
}

func genRobust(r *Rng, sc *Scenario, i int) {
	sc.P["owner"] = int64(r.N(2))
	seed := func() int64 { return int64(r.U64() >> 20) }
	if r.P(3) {
		sc.Ops = append(sc.Ops, Op{K: "raw", B: r.Bytes(r.Pick2(0, 1, 5, 30, 300))})
	} else {
		ops := genAnyDoc(r, 4)
		mode := r.N(10)
		if mode != 0 && mode < 7 {
			var o []Op
			for _, op := range ops {
				if op.K == "commit" && (len(o) < 3 || r.P(70)) {
					for k := 1 + r.N(r.Pick2(1, 2, 4)); k > 0; k-- {
						o = append(o, Op{K: "mutate", A: []int64{0, seed()}})
					}
				}
				o = append(o, op)
			}
			ops = o
		}
		sc.Ops = append(sc.Ops, ops...)
		if mode >= 6 {
			for k := 1 + r.N(r.Pick2(1, 3, 6)); k > 0; k-- {
				sc.Faults = append(sc.Faults, genDamage(r))
			}
		}
	}
	if r.P(30) {
		sc.Ops = append(sc.Ops, genAnyDoc(r, 3)...)
	}
	sc.Ops = append(sc.Ops, Op{K: "go"})
	sc.Ops = append(sc.Ops, genCalls(r, 5+r.N(5))...)
}

// callInput makes what the calls work on.
func callInput(sc *Scenario) *callIn {
	var raw []byte
	var isRaw bool
	var ops []Op
	for _, op := range sc.Ops {
		if op.K == "raw" {
			raw, isRaw = op.B, true
			continue
		}
		ops = append(ops, op)
	}
	docs, _ := splitDocs(ops)
	in := &callIn{pages: 1}
	owner := sc.P["owner"] != 0
	k := 0
	if isRaw {
		in.doc = append([]byte{}, raw...)
	} else {
		var d []Op
		if len(docs) > 0 {
			d = docs[0]
		}
		var b *pbuild
		in.doc, in.pass, b = anyDoc(d, owner)
		in.pages = max(1, len(b.pages))
		in.sealed = b.enc != nil
		for _, p := range b.xhist {
			for i, x := range p {
				if in.xml == "" || uint64(i) == sc.Seed%7 {
					in.xml = string(x.data)
				}
			}
		}
		k = 1
	}
	for _, f := range sc.Faults {
		in.doc = damage(in.doc, f)
		if f.I(1)%2 == 0 && in.xml != "" && f.K != "number" {
			in.xml = string(damage([]byte(in.xml), f))
		}
	}
	if in.xml == "" {
		in.xml = "<template><subform name=\"a\"><field name=\"b\"><value><text>c</text></value></field></subform></template>"
	}
	in.other, in.opass = in.doc, in.pass
	if len(docs) > k {
		var b *pbuild
		in.other, in.opass, b = anyDoc(docs[k], owner)
		in.sealed = in.sealed || b.enc != nil
	}
	return in
}

// the most a call may do: far beyond what the largest of the generated documents
// takes, and far below what a user would wait for
const callSteps = 200_000_000

func execRobust(c *Ctx) {
	in := callInput(c.sc)
	for _, f := range c.sc.Faults {
		c.Count("fault:damage:"+f.K, 1)
	}
	orig, oorig := append([]byte(nil), in.doc...), append([]byte(nil), in.other...)
	n, muts := 0, 0
	c.limit = 1 << 60
	c.Begin()
	for _, op := range c.sc.Ops {
		if op.K == "mutate" {
			c.Count("fault:damage:object", 1)
			muts++
		}
		if op.K != "call" {
			continue
		}
		a := callNamed(op.Str(0))
		if a == nil {
			continue
		}
		x := *in
		x.seed, x.verbose = uint64(op.I(0)), op.I(1) != 0
		rt.SetStepLimit(callSteps)
		var res string
		if !c.Call(a.name, func() { res = a.f(&x) }) {
			break
		}
		n++
		c.Sig(a.name, res)
		c.Shape(a.name, len(res)/64)
		if !bytes.Equal(orig, x.doc) || !bytes.Equal(oorig, x.other) || !bytes.Equal(orig, in.doc) {
			c.Fail("input@"+a.name, "%s changed the bytes it was given", a.name)
			break
		}
	}
	c.End()
	c.Count("calls", n)
	c.res.Nontrivial = n > 0 && (muts > 0 || len(c.sc.Faults) > 0)
}

func init() {
	register(&Prop{
		ID: "C04", Level: "exploration",
		Gen: genRobust, Exec: execRobust,
		Quick: 4000, Thorough: 200000,
		Rule: "one evaluation is one simulated history of calls on a document that was damaged by the writer (a value, a reference or stream data replaced) or by the disk (flipped, lost, repeated, zeroed, misplaced or cut off bytes, other numbers or words); it counts as non-trivial when there was damage and at least one call returned",
		Real: []string{"every public package"},
		Stub: []string{"the writer of the input documents (independent)", "the disk that damages them", "the machine's memory and stack (bounded)", "map iteration order"},
	})
}
