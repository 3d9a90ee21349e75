package main

import (
	"bytes"
	"fmt"

	rt "github.com/benedoc-inc/pdfer/zz_simrt"
)

// C06: the result of a call depends on its arguments and on nothing else.

func genDeterm(r *Rng, sc *Scenario, i int) {
	sc.P["owner"] = int64(r.N(2))
	sc.Ops = genAnyDoc(r, 5)
	if r.P(50) {
		sc.Ops = append(sc.Ops, genAnyDoc(r, 4)...)
	} else if r.P(70) {
		// the second document is a changed copy of the first
		seed := func() int64 { return int64(r.U64() >> 20) }
		docs, _ := splitDocs(sc.Ops)
		for _, op := range docs[0] {
			if op.K != "commit" && op.K != "start" && op.K != "encrypt" && r.P(15) {
				op.A = append([]int64(nil), op.A...)
				if len(op.A) > 1 {
					op.A[1] = seed()
				}
			}
			sc.Ops = append(sc.Ops, op)
		}
	}
	if r.P(15) {
		sc.Faults = append(sc.Faults, genDamage(r))
	}
	sc.Ops = append(sc.Ops, Op{K: "go"})
	sc.Ops = append(sc.Ops, genCalls(r, 4+r.N(5))...)
	// the other world
	sc.P["map2"] = int64(r.U64() >> 20)
	sc.P["clock2"] = int64(1_500_000_000+r.N(400_000_000)) * 1_000_000_000
	sc.P["zone2"] = int64(r.Pick2(-43200, -12600, 0, 3600, 20700, 50400))
	sc.ZoneSec = r.Pick2(-18000, 0, 7200)
	sc.P["rand2"] = int64(r.U64() >> 20)
	sc.P["again"] = int64(b2i(r.P(30)))
}

func execDeterm(c *Ctx) {
	sc := c.sc
	in := callInput(sc)
	for _, f := range sc.Faults {
		c.Count("fault:damage:"+f.K, 1)
	}
	var calls []Op
	for _, op := range sc.Ops {
		if op.K == "call" && callNamed(op.Str(0)) != nil {
			calls = append(calls, op)
		}
	}
	m, clock, zone, rnd, rnd0 := sc.Map, sc.ClockNs, sc.ZoneSec, sc.RandSeed, sc.RandSeed
	defer func() { sc.Map, sc.ClockNs, sc.ZoneSec, sc.RandSeed = m, clock, zone, rnd0 }()
	run := func(order []int) []string {
		out := make([]string, len(calls))
		for _, k := range order {
			op := calls[k]
			sc.RandSeed = rnd
			if in.sealed {
				// what is encrypted anew takes random numbers: the same in both worlds
				sc.RandSeed = uint64(op.I(0))
			}
			c.fs = rt.NewFS()
			c.Begin()
			x := *in
			x.doc, x.other = append([]byte(nil), in.doc...), append([]byte(nil), in.other...)
			x.seed, x.verbose = uint64(op.I(0)), op.I(1) != 0
			rt.SetStepLimit(callSteps)
			name := op.Str(0)
			ok := c.Call(name, func() { out[k] = callNamed(name).f(&x) })
			c.End()
			if !ok {
				return out
			}
			if !bytes.Equal(x.doc, in.doc) || !bytes.Equal(x.other, in.other) {
				c.Fail("input@"+name, "%s changed the bytes it was given", name)
			}
		}
		return out
	}
	order := make([]int, len(calls))
	back := make([]int, len(calls))
	for k := range order {
		order[k], back[k] = k, len(calls)-1-k
	}
	c.limit = 1 << 60
	a := run(order)
	if c.Failed() {
		return
	}
	// another map order, another time, another place, another random stream, another history
	sc.Map = MapCfg{Mode: "shuffle", Seed: uint64(sc.P["map2"])}
	sc.ClockNs, sc.ZoneSec, rnd = sc.P["clock2"], int(sc.P["zone2"]), uint64(sc.P["rand2"])
	b := run(back)
	if c.Failed() {
		return
	}
	for k, op := range calls {
		c.Sig(op.Str(0), a[k])
		c.Shape(op.Str(0), len(a[k])/64)
		if a[k] != b[k] {
			at := 0
			for at < len(a[k]) && at < len(b[k]) && a[k][at] == b[k][at] {
				at++
			}
			c.Fail("differs@"+op.Str(0), "%s gave two results for the same arguments:\n  ...%s\n  ...%s", op.Str(0), cutAt(a[k], at), cutAt(b[k], at))
		}
	}
	c.Count("calls_compared", len(calls))
	c.res.Nontrivial = len(calls) > 0
}

func cutAt(s string, at int) string {
	return fmt.Sprintf("%.260s", s[max(0, at-120):])
}

func init() {
	register(&Prop{
		ID: "C06", Level: "exploration",
		Gen: genDeterm, Exec: execDeterm,
		Quick: 5000, Thorough: 200000,
		Rule: "one evaluation is one set of calls on generated documents, made in two simulated worlds that differ in map iteration order, clock, time zone, random stream and in the calls made before; it counts as non-trivial when at least one call was compared",
		Real: []string{"every public package"},
		Stub: []string{"the writer of the input documents (independent)", "map iteration order", "clock and time zone", "the random source"},
	})
}
