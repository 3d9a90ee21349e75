package main

import (
	"bytes"
	"fmt"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	rt "github.com/benedoc-inc/pdfer/zz_simrt"
)

// C07: calls in several threads do not disturb one another.

func genThreads(r *Rng, sc *Scenario, i int) {
	sc.P["owner"] = int64(r.N(2))
	sc.Ops = trimPages(genAnyDoc(r, 3), 1+r.N(2))
	if r.P(30) {
		sc.Ops = append(sc.Ops, trimPages(genAnyDoc(r, 2), 1)...)
	}
	if r.P(15) {
		sc.Faults = append(sc.Faults, genDamage(r))
	}
	sc.P["share"] = int64(r.N(8))
	sc.Ops = append(sc.Ops, Op{K: "go"})
	threads := r.Pick2(2, 2, 2, 3, 4)
	// what the threads do: often the same, which is where shared state would be shared
	var common []Op
	if r.P(65) {
		common = genCalls(r, 1+r.N(3))
		if r.P(40) {
			common = append(common, Op{K: "call", S: []string{r.Pick("parse.PDF", "acroform.AcroForm")}, A: []int64{int64(r.U64() >> 20)}})
		}
	}
	for t := 0; t < threads; t++ {
		sc.Ops = append(sc.Ops, Op{K: "thread"})
		calls := common
		if calls == nil {
			calls = genCalls(r, 1+r.N(3))
		}
		for _, op := range calls {
			o := op
			o.A = append([]int64(nil), op.A...)
			if r.P(50) {
				o.A[0] = int64(r.U64() >> 20)
			}
			sc.Ops = append(sc.Ops, o)
		}
	}
	// the schedule
	span := int64(r.Pick2(3_000, 30_000, 300_000, 2_000_000))
	var at []int64
	for k := r.Pick2(1, 4, 25, 100); k > 0; k-- {
		at = append(at, 1+int64(r.U64()%uint64(span)))
	}
	for k := r.Pick2(0, 0, 1, 3); k > 0; k-- {
		// a stretch of quick changes
		p := 1 + int64(r.U64()%uint64(span))
		gap := r.Pick2(1, 5, 40, 300)
		for j := 0; j < 60; j++ {
			p += int64(1 + r.N(gap))
			at = append(at, p)
		}
	}
	sortInt64(at)
	for _, p := range at {
		sc.Sched = append(sc.Sched, rt.Preempt{Step: p, Task: 1 + r.N(threads)})
	}
}

func sortInt64(a []int64) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func execThreads(c *Ctx) {
	sc := c.sc
	base := callInput(sc)
	for _, f := range sc.Faults {
		c.Count("fault:damage:"+f.K, 1)
	}
	var threads [][]Op
	for _, op := range sc.Ops {
		switch {
		case op.K == "thread":
			threads = append(threads, nil)
		case op.K == "call" && len(threads) > 0 && callNamed(op.Str(0)) != nil:
			n := len(threads) - 1
			threads[n] = append(threads[n], op)
		}
	}
	sc.Map = MapCfg{Mode: "sorted"} // C06 decides what depends on map order
	c.limit = 1 << 60
	input := func() *callIn {
		in := *base
		in.doc, in.other = append([]byte(nil), base.doc...), append([]byte(nil), base.other...)
		if sc.P["share"]&1 != 0 {
			in.pdf, _ = parse.OpenWithOptions(in.doc, parse.ParseOptions{Password: in.pass})
		}
		if sc.P["share"]&2 != 0 {
			in.form, _ = acroform.ExtractAcroForm(in.doc, in.pass, false)
			in.uenc = in.enc()
		}
		if sc.P["share"]&4 != 0 {
			in.data = in.formData(NewRng(sc.Seed))
		}
		return &in
	}
	// one thread, or all of them, over the same input
	run := func(sel []int) [][]string {
		c.Begin()
		defer c.End()
		var in *callIn
		if !c.Call("preparing", func() { in = input() }) {
			return nil
		}
		data := show(in.data)
		out := make([][]string, len(sel))
		var fns []func()
		for k, t := range sel {
			k, t := k, t
			fns = append(fns, func() {
				for _, op := range threads[t] {
					x := *in
					x.seed = uint64(op.I(0))
					out[k] = append(out[k], callNamed(op.Str(0)).f(&x))
				}
			})
		}
		rt.SetStepLimit(callSteps * int64(len(sel)+1))
		pans, stacks := rt.RunTasks(fns)
		ok := true
		for k, p := range pans {
			if p != nil {
				ok = false
				name := "a thread"
				if n := len(out[k]); n < len(threads[sel[k]]) {
					name = threads[sel[k]][n].Str(0)
				}
				p := p
				st := Guard(func() { panic(p) })
				st.Stack = stacks[k]
				st.Site = siteOf(st.Stack)
				if len(sel) > 1 {
					name += " in several threads"
				}
				c.Judge(name, st)
			}
		}
		if !bytes.Equal(in.doc, base.doc) || !bytes.Equal(in.other, base.other) {
			c.Fail("input", "a call changed the bytes it was given")
			ok = false
		}
		if show(in.data) != data {
			c.Fail("data", "a call changed the form data it was given")
			ok = false
		}
		if !ok {
			return nil
		}
		return out
	}
	sched := sc.Sched
	defer func() { sc.Sched = sched }()
	// all threads at once first: nothing of the process has been used before
	var all []int
	for t := range threads {
		all = append(all, t)
	}
	if len(all) == 0 {
		return
	}
	got := run(all)
	if got == nil {
		return
	}
	switches := c.res.C["task_switches"]
	sc.Sched = nil
	for t := range threads {
		alone := run([]int{t})
		if alone == nil {
			return
		}
		for k, op := range threads[t] {
			c.Sig(op.Str(0), got[t][k])
			c.Shape(op.Str(0), len(got[t][k])/64)
			if got[t][k] != alone[0][k] {
				a, b := alone[0][k], got[t][k]
				at := 0
				for at < len(a) && at < len(b) && a[at] == b[at] {
					at++
				}
				c.Fail("disturbed@"+op.Str(0), "%s gives another result when other threads are at work:\n  alone   ...%s\n  threads ...%s", op.Str(0), cutAt(a, at), cutAt(b, at))
			}
		}
	}
	c.Count("threads", len(threads))
	c.Shape(fmt.Sprint(switches))
	c.res.Nontrivial = len(threads) > 1 && switches > len(threads)
}

func init() {
	register(&Prop{
		ID: "C07", Level: "exploration", Race: true,
		Gen: genThreads, Exec: execThreads,
		Quick: 800, Thorough: 30000,
		Rule: "one evaluation is one execution of two to four simulated threads of calls under a seeded schedule, compared with each thread running alone, with the race detector watching; it counts as non-trivial when the schedule switched threads more often than their number",
		Real: []string{"every public package", "the Go race detector"},
		Stub: []string{"the thread scheduler (one simulated thread runs at a time, the hand-off is invisible to the race detector)", "map iteration order (sorted)", "the random source (a stream per thread)", "the disk (one per thread)"},
	})
}
