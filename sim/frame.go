// Package main is the deterministic simulator: it runs the instrumented library
// under seeded schedules, map orders, clocks, random streams, disks and faults,
// checks the properties, minimises what fails and writes replay files.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"

	rt "github.com/benedoc-inc/pdfer/zz_simrt"
)

// Rng is the one source of randomness of the harness.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) In(lo, hi int) int { return lo + r.N(hi-lo+1) }
func (r *Rng) P(pct int) bool    { return r.N(100) < pct }
func (r *Rng) Pick(s ...string) string {
	return s[r.N(len(s))]
}
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 13)
	}
	return b
}
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Op is one step of a workload.
type Op struct {
	K string   `json:"k"`
	A []int64  `json:"a,omitempty"`
	S []string `json:"s,omitempty"`
	B []byte   `json:"b,omitempty"`
}

// opJSON is an Op whose strings, which may hold any bytes, are written byte for rune.
type opJSON struct {
	K string   `json:"k"`
	A []int64  `json:"a,omitempty"`
	S []string `json:"s,omitempty"`
	B []byte   `json:"b,omitempty"`
}

func (o Op) MarshalJSON() ([]byte, error) {
	j := opJSON{K: o.K, A: o.A, B: o.B}
	for _, s := range o.S {
		r := make([]rune, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = rune(s[i])
		}
		j.S = append(j.S, string(r))
	}
	return json.Marshal(j)
}

func (o *Op) UnmarshalJSON(b []byte) error {
	var j opJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	*o = Op{K: j.K, A: j.A, B: j.B}
	for _, s := range j.S {
		var x []byte
		for _, r := range s {
			x = append(x, byte(r))
		}
		o.S = append(o.S, string(x))
	}
	return nil
}

func (o Op) I(i int) int {
	if i < len(o.A) {
		return int(o.A[i])
	}
	return 0
}
func (o Op) Str(i int) string {
	if i < len(o.S) {
		return o.S[i]
	}
	return ""
}

// Fault is one fault of the environment (see the property for the kinds).
type Fault struct {
	K string  `json:"k"`
	A []int64 `json:"a,omitempty"`
}

func (o Fault) I(i int) int {
	if i < len(o.A) {
		return int(o.A[i])
	}
	return 0
}

// MapCfg decides the iteration order of maps.
type MapCfg struct {
	Mode string `json:"mode"`
	Seed uint64 `json:"seed,omitempty"`
	Lo   int    `json:"lo,omitempty"`
	Hi   int    `json:"hi,omitempty"`
}

// Scenario is everything a run depends on.  It is the replay file.
type Scenario struct {
	Prop     string           `json:"prop"`
	Var      string           `json:"var,omitempty"`
	Seed     uint64           `json:"seed"`
	P        map[string]int64 `json:"p,omitempty"`
	Ops      []Op             `json:"ops,omitempty"`
	Faults   []Fault          `json:"faults,omitempty"`
	Disk     []rt.FSFault     `json:"disk,omitempty"`
	Map      MapCfg           `json:"map"`
	Sched    []rt.Preempt     `json:"sched,omitempty"`
	ClockNs  int64            `json:"clock_ns"`
	ZoneSec  int              `json:"zone_s,omitempty"`
	TickNs   int64            `json:"tick_ns"`
	Jumps    []rt.Jump        `json:"jumps,omitempty"`
	RandSeed uint64           `json:"rand_seed,omitempty"`
	RandFail []int            `json:"rand_fail,omitempty"`
	Prelude  []*Scenario      `json:"prelude,omitempty"`
	Expect   *Expect          `json:"expect,omitempty"`
}

// Expect is what replaying the file must show.
type Expect struct {
	Class string `json:"class"`
	Sig   string `json:"sig"`
	Text  string `json:"text"`
}

// Failure is one broken check in a run.
type Failure struct {
	Class string `json:"class"`
	Text  string `json:"text"`
}

// Result of one run.
type Result struct {
	I          int            `json:"i"`
	Fails      []Failure      `json:"fails,omitempty"`
	Sig        uint64         `json:"sig"`
	Shape      uint64         `json:"shape"`
	Nontrivial bool           `json:"nt"`
	Steps      int64          `json:"steps"`
	SimNs      int64          `json:"ns"`
	C          map[string]int `json:"c,omitempty"`
	Died       string         `json:"died,omitempty"`
}

// Ctx is one run in progress.
type Ctx struct {
	sc    *Scenario
	res   *Result
	on    bool
	limit int64
	fs    *rt.FS
	alloc int64
}

// Prop is a property with its workload generator and its checks.
type Prop struct {
	ID       string
	Race     bool
	Gen      func(r *Rng, sc *Scenario, i int)
	Exec     func(c *Ctx)
	Quick    int
	Thorough int
	Rule     string
	Real     []string
	Stub     []string
	Assume   []string
	Level    string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func (c *Ctx) Count(k string, n int) {
	if c.res.C == nil {
		c.res.C = map[string]int{}
	}
	c.res.C[k] += n
}

// Fail records a violation.
func (c *Ctx) Fail(class, f string, a ...interface{}) {
	t := fmt.Sprintf(f, a...)
	if len(t) > 1500 {
		t = t[:1500] + "..."
	}
	for _, x := range c.res.Fails {
		if x.Class == class {
			return
		}
	}
	if len(c.res.Fails) < 20 {
		c.res.Fails = append(c.res.Fails, Failure{class, t})
	}
	c.Sig("fail", class, t)
}

// Failed reports whether something has failed already.
func (c *Ctx) Failed() bool { return len(c.res.Fails) > 0 }

// Sig folds an observation into the run's signature.
func (c *Ctx) Sig(vs ...interface{}) {
	h := fnv.New64a()
	for _, v := range vs {
		switch x := v.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		case error:
			h.Write([]byte(x.Error()))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	c.res.Sig = c.res.Sig*1099511628211 ^ h.Sum64()
}

// Shape folds a structural feature into the distinctness measure.
func (c *Ctx) Shape(vs ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, vs...)
	c.res.Shape = c.res.Shape*1099511628211 ^ h.Sum64()
}

const defaultSteps = 60_000_000

// Begin starts the simulated world of this run.
func (c *Ctx) Begin() {
	sc := c.sc
	limit := c.limit
	if limit == 0 {
		limit = defaultSteps
	}
	alloc := c.alloc
	if alloc == 0 {
		alloc = 64 << 20
	}
	if c.fs == nil {
		c.fs = rt.NewFS(sc.Disk...)
	}
	rt.Begin(rt.Config{
		MapMode: sc.Map.Mode, MapSeed: sc.Map.Seed, MapLo: sc.Map.Lo, MapHi: sc.Map.Hi,
		StepLimit: limit, Depth: 5000, Alloc: alloc,
		ClockNs: sc.ClockNs, ZoneSec: sc.ZoneSec, TickNs: sc.TickNs, Jumps: sc.Jumps,
		RandSeed: sc.RandSeed, RandFail: sc.RandFail, FS: c.fs, Preempts: sc.Sched, PoolSeed: sc.Map.Seed ^ 77,
	})
	c.on = true
}

// End closes it.
func (c *Ctx) End() rt.Counters {
	if !c.on {
		return rt.Counters{}
	}
	c.on = false
	n := rt.End()
	c.res.Steps += n.Steps
	c.res.SimNs += n.ClockNs
	c.Count("map_iterations", n.MapRanges)
	c.Count("map_elements", n.MapElems)
	c.Count("random_reads", n.RandReads)
	c.Count("fault:random_failure", n.RandFails)
	c.Count("clock_reads", n.TimeReads)
	c.Count("fault:clock_jump", n.JumpsFired)
	c.Count("task_switches", n.Switches)
	c.Count("lock_waits", n.LockWaits)
	c.Count("disk_ops", n.FSOps)
	for k, v := range c.fs.Fired {
		c.Count("fault:disk:"+k, v)
	}
	c.Sig("world", n.Steps, n.MapSig, n.SchedSig)
	return n
}

// Stop says how a guarded call ended.
type Stop struct {
	Kind  string // "", panic, hang, deep, huge, exit, crash, deadlock
	Val   interface{}
	Site  string
	Stack string
}

// OK reports a normal return.
func (s Stop) OK() bool { return s.Kind == "" }

// Guard runs f and reports how it ended.
func Guard(f func()) (st Stop) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		st.Val = r
		switch x := r.(type) {
		case rt.Hang:
			st.Kind = "hang"
		case rt.Deep:
			st.Kind = "deep"
		case rt.Huge:
			st.Kind = "huge"
		case rt.Exit:
			st.Kind = "exit"
		case rt.Crash:
			st.Kind = "crash"
		case rt.Deadlock:
			st.Kind = "deadlock"
		case rt.Abort:
			panic(x)
		default:
			st.Kind = "panic"
		}
		st.Stack = string(debug.Stack())
		st.Site = siteOf(st.Stack)
	}()
	f()
	return
}

var reFrame = regexp.MustCompile(`(?m)^github\.com/benedoc-inc/pdfer/([^\s(]+(?:\(\*?[A-Za-z0-9_\[\].]+\))?[^\s(]*)\(`)

// siteOf is the innermost function of the module under test on a stack.
func siteOf(stack string) string {
	for _, m := range reFrame.FindAllStringSubmatch(stack, -1) {
		if strings.HasPrefix(m[1], "zz_simrt") {
			continue
		}
		return cleanSite(m[1])
	}
	return "?"
}

var reFn = regexp.MustCompile(`\.func\d+(\.\d+)*$`)

func cleanSite(s string) string { return reFn.ReplaceAllString(s, "") }

// recSite names the function that recurses: for runaway recursion the innermost
// frame is arbitrary, so the class uses the alphabetically first of the functions
// that occur most.
func recSite(stack string) string {
	cnt := map[string]int{}
	for _, m := range reFrame.FindAllStringSubmatch(stack, -1) {
		if strings.HasPrefix(m[1], "zz_simrt") {
			continue
		}
		cnt[cleanSite(m[1])]++
	}
	var names []string
	best := 0
	for _, n := range cnt {
		if n > best {
			best = n
		}
	}
	for k, n := range cnt {
		if n*2 > best {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		return "?"
	}
	return names[0]
}

var reNum = regexp.MustCompile(`-?\d+`)

func normMsg(v interface{}) string {
	s := fmt.Sprint(v)
	if i := strings.Index(s, "\n"); i >= 0 {
		s = s[:i]
	}
	s = reNum.ReplaceAllString(s, "N")
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

// Call runs f; any way of ending other than returning is a violation.
func (c *Ctx) Call(name string, f func()) bool {
	st := Guard(f)
	return c.Judge(name, st)
}

// Judge turns an abnormal end into a violation.
func (c *Ctx) Judge(name string, st Stop) bool {
	switch st.Kind {
	case "":
		return true
	case "panic":
		c.Fail("panic@"+st.Site+":"+normMsg(st.Val), "%s panicked: %v\n%s", name, st.Val, trimStack(st.Stack))
	case "hang":
		c.Fail("hang@"+name, "%s did not return within the step budget (%v)\n%s", name, st.Val, trimStack(st.Stack))
	case "deep":
		c.Fail("deep@"+recSite(st.Stack), "%s recursed without bound (%v)\n%s", name, st.Val, trimStack(st.Stack))
	case "huge":
		c.Fail("huge@"+st.Site, "%s asked for an allocation out of proportion to its input (%v)\n%s", name, st.Val, trimStack(st.Stack))
	default:
		c.Fail(st.Kind+"@"+name, "%s ended with %s (%v)\n%s", name, st.Kind, st.Val, trimStack(st.Stack))
	}
	return false
}

var reHex = regexp.MustCompile(`(\{?0x[0-9a-f]+\??(, )?\}?)+|goroutine \d+| \+0x[0-9a-f]+`)

func trimStack(s string) string {
	var out []string
	for _, m := range reFrame.FindAllStringSubmatch(s, -1) {
		if strings.HasPrefix(m[1], "zz_simrt") {
			continue
		}
		out = append(out, m[1])
		if len(out) == 6 {
			break
		}
	}
	return "  at " + strings.Join(out, " < ")
}

// seedOf derives the seed of run i.
func seedOf(base int64, prop string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", base, prop, i)
	r := NewRng(h.Sum64())
	return r.U64()
}

// Generate makes the scenario of run i.
func Generate(p *Prop, base int64, i int) *Scenario {
	sc := &Scenario{Prop: p.ID, Seed: seedOf(base, p.ID, i), P: map[string]int64{}}
	r := NewRng(sc.Seed)
	// the environment of the run; the property may override it
	switch r.N(10) {
	case 0:
		sc.Map = MapCfg{Mode: "sorted"}
	case 1:
		sc.Map = MapCfg{Mode: "reverse"}
	case 2:
		sc.Map = MapCfg{Mode: "rotate", Seed: r.U64() >> 16}
	default:
		sc.Map = MapCfg{Mode: "shuffle", Seed: r.U64() >> 16}
	}
	sc.ClockNs = (1_600_000_000 + int64(r.N(200_000_000))) * 1_000_000_000
	sc.TickNs = int64(r.Pick2(1000, 50_000, 1_000_000))
	sc.RandSeed = r.U64() >> 16
	p.Gen(r, sc, i)
	// what runs is what the replay file says
	out := &Scenario{}
	if err := json.Unmarshal([]byte(mustJSON(sc)), out); err != nil {
		panic(err)
	}
	if out.P == nil {
		out.P = map[string]int64{}
	}
	return out
}

// Pick2 picks an int.
func (r *Rng) Pick2(v ...int) int { return v[r.N(len(v))] }

// Execute runs a scenario.
func Execute(sc *Scenario) *Result {
	for _, p := range sc.Prelude {
		Execute(p)
	}
	res := &Result{Sig: 14695981039346656037, Shape: 14695981039346656037}
	p := props[sc.Prop]
	if p == nil {
		panic("unknown property " + sc.Prop)
	}
	c := &Ctx{sc: sc, res: res}
	if hook := os.Getenv("SIM_TRACE"); hook != "" {
		fmt.Fprintf(os.Stderr, "run %s %s\n", sc.Prop, mustJSON(sc))
	}
	st := Guard(func() { p.Exec(c) })
	if c.on {
		Guard(func() { c.End() })
	}
	if !st.OK() {
		// the harness itself must not panic; if it does because of what the
		// library returned, that is a violation too, but it is reported as such
		c.Fail("harness@"+st.Kind+":"+normMsg(st.Val), "unguarded %s: %v\n%s", st.Kind, st.Val, st.Stack)
	}
	return res
}

func mustJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	wd, _ := os.Getwd()
	return wd
}

func verifPath(parts ...string) string {
	return filepath.Join(append([]string{verifDir()}, parts...)...)
}
