package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check PROP [quick|thorough] | replay FILE | gen PROP i | serve | selftest PROP n")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "serve":
		serve()
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "gen":
		i, _ := strconv.Atoi(os.Args[3])
		sc := Generate(props[os.Args[2]], seedEnv(), i)
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b))
	case "one":
		i, _ := strconv.Atoi(os.Args[3])
		sc := Generate(props[os.Args[2]], seedEnv(), i)
		res := Execute(sc)
		b, _ := json.MarshalIndent(res, "", " ")
		fmt.Println(string(b))
		for _, f := range res.Fails {
			fmt.Println("FAIL", f.Class, "\n", f.Text)
		}
	case "survey":
		survey(os.Args[2], os.Args[3])
	case "selftest":
		n, _ := strconv.Atoi(os.Args[3])
		os.Exit(selftest(os.Args[2], n))
	default:
		os.Exit(2)
	}
}

func seedEnv() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func tierEnv() string {
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		return t
	}
	return "quick"
}

type request struct {
	Prop string    `json:"prop,omitempty"`
	Base int64     `json:"base,omitempty"`
	I    int       `json:"i"`
	Sc   *Scenario `json:"sc,omitempty"`
}

// serve executes runs on request, one at a time.
func serve() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(200)
	log.SetOutput(io.Discard)
	out := bufio.NewWriter(os.Stdout)
	// the library and the command print to stdout; keep that away from the protocol
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var rq request
		if err := json.Unmarshal(line, &rq); err != nil {
			fmt.Fprintln(os.Stderr, "bad request:", err)
			os.Exit(4)
		}
		sc := rq.Sc
		if sc == nil {
			sc = Generate(props[rq.Prop], rq.Base, rq.I)
		}
		res := Execute(sc)
		res.I = rq.I
		b, _ := json.Marshal(res)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// server is a child process that executes runs.
type server struct {
	race bool
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	err  *tail
	done []int // runs executed by this process, in order
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, b...)
	if len(t.b) > 1<<16 {
		// keep the beginning: that is where the reason is
		t.b = t.b[:1<<16]
	}
	return len(b), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func binary(race bool) string {
	self, _ := os.Executable()
	if race {
		return filepath.Join(filepath.Dir(self), "sim-race")
	}
	return filepath.Join(filepath.Dir(self), "sim")
}

func (s *server) start() error {
	s.cmd = exec.Command(binary(s.race), "serve")
	s.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	s.err = &tail{}
	s.cmd.Stderr = s.err
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
	s.done = nil
	return s.cmd.Start()
}

func (s *server) stop() {
	if s.cmd == nil {
		return
	}
	s.in.Close()
	t := time.AfterFunc(2*time.Second, func() { s.cmd.Process.Kill() })
	s.cmd.Wait()
	t.Stop()
	s.cmd = nil
}

const runTimeout = 240 * time.Second

// do executes one run; a dead or stuck child is part of the result.
func (s *server) do(rq request) *Result {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return &Result{I: rq.I, Died: "start: " + err.Error()}
		}
	}
	b, _ := json.Marshal(rq)
	stuck := false
	t := time.AfterFunc(runTimeout, func() { stuck = true; s.cmd.Process.Kill() })
	defer t.Stop()
	s.in.Write(append(b, '\n'))
	line, err := s.out.ReadBytes('\n')
	if err == nil {
		var r Result
		if err := json.Unmarshal(line, &r); err == nil {
			s.done = append(s.done, rq.I)
			return &r
		}
	}
	t.Stop()
	s.in.Close()
	werr := s.cmd.Wait()
	s.cmd = nil
	r := &Result{I: rq.I}
	msg := s.err.String()
	switch {
	case stuck:
		r.Died = "no answer within " + runTimeout.String()
	case strings.Contains(msg, "DATA RACE"):
		r.Fails = []Failure{raceFailure(msg)}
		r.Nontrivial = true
	case strings.Contains(msg, "fatal error:") || strings.Contains(msg, "panic:") || strings.Contains(msg, "SIGSEGV"):
		i := strings.Index(msg, "fatal error:")
		if i < 0 {
			i = strings.Index(msg, "panic:")
		}
		if i < 0 {
			i = 0
		}
		first := msg[i:]
		if j := strings.Index(first, "\n"); j > 0 {
			first = first[:j]
		}
		r.Fails = []Failure{{Class: "died@" + siteOf(msg) + ":" + normMsg(first), Text: "the process died: " + first + "\n" + trimStack(msg)}}
		r.Nontrivial = true
	default:
		r.Died = fmt.Sprintf("child ended: %v: %.2000s", werr, msg)
	}
	return r
}

func raceFailure(msg string) Failure {
	i := strings.Index(msg, "WARNING: DATA RACE")
	m := msg[i:]
	if j := strings.Index(m[10:], "=================="); j > 0 {
		m = m[:j+10]
	}
	var sites []string
	for _, part := range strings.Split(m, "Previous ") {
		for _, l := range strings.Split(part, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "github.com/benedoc-inc/pdfer/") && !strings.Contains(l, "zz_simrt") {
				l = strings.TrimPrefix(l, "github.com/benedoc-inc/pdfer/")
				if k := strings.LastIndex(l, "("); k > 0 {
					l = l[:k]
				}
				sites = append(sites, cleanSite(l))
				break
			}
		}
	}
	sort.Strings(sites)
	return Failure{Class: "race@" + strings.Join(sites, "|"), Text: "unsynchronised access by two threads:\n" + reHex.ReplaceAllString(m, "")}
}

// known findings

type knownFinding struct{ prop, class, text string }

func loadKnown(prop string) []knownFinding {
	b, err := os.ReadFile(verifPath("known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		// known: property=C01 class=<class> :: text
		rest := strings.TrimSpace(strings.TrimPrefix(l, "known:"))
		head, text, _ := strings.Cut(rest, " :: ")
		var k knownFinding
		k.text = text
		pr, cl, _ := strings.Cut(head, " class=")
		k.prop = strings.TrimPrefix(pr, "property=")
		k.class = cl
		if k.prop == prop {
			out = append(out, k)
		}
	}
	return out
}

func isKnown(ks []knownFinding, class string) bool {
	for _, k := range ks {
		if k.class == class {
			return true
		}
	}
	return false
}

func unlisted(ks []knownFinding, r *Result) *Failure {
	for i := range r.Fails {
		if !isKnown(ks, r.Fails[i].Class) {
			return &r.Fails[i]
		}
	}
	return nil
}

type totals struct {
	runs, nontrivial int
	steps, simNs     int64
	shapes           map[uint64]int
	sigs             map[uint64]int
	c                map[string]int
	known            map[string]int
	failing          []*Result
	histories        map[int][]int // failing run -> runs the same process executed before
	died             []string
}

func check(id string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	start := time.Now()
	tier := tierEnv()
	base := seedEnv()
	n := p.Quick
	capS := 240.0
	if tier == "thorough" {
		n = p.Thorough
		capS = 3600
	}
	if v := os.Getenv("SIM_RUNS"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	ks := loadKnown(id)
	workers := runtime.NumCPU()
	if v := os.Getenv("SIM_WORKERS"); v != "" {
		workers, _ = strconv.Atoi(v)
	}
	t := &totals{shapes: map[uint64]int{}, sigs: map[uint64]int{}, c: map[string]int{}, known: map[string]int{}, histories: map[int][]int{}}
	var mu sync.Mutex
	nextRun := 0
	stop := false
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := &server{race: p.Race}
			defer s.stop()
			for {
				mu.Lock()
				if nextRun >= n || stop || time.Since(start).Seconds() > capS {
					mu.Unlock()
					return
				}
				i := nextRun
				nextRun++
				mu.Unlock()
				if p.Race && len(s.done) >= 10 {
					// what is set up on first use is used for the first time again
					s.stop()
				}
				hist := append([]int(nil), s.done...)
				r := s.do(request{Prop: id, Base: base, I: i})
				mu.Lock()
				t.add(r, ks, hist)
				if len(t.failing) >= 12 {
					stop = true
				}
				if len(t.died) > 0 {
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	code := 0
	violations := 0
	if len(t.died) > 0 {
		fmt.Fprintln(os.Stderr, "the check could not finish:", t.died[0])
		return 2
	}
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s; met %d times in this run]\n", id, k.text, k.class, t.known[k.class])
	}
	var vio *violation
	if len(t.failing) > 0 {
		sort.Slice(t.failing, func(a, b int) bool { return t.failing[a].I < t.failing[b].I })
		vio = confirm(p, base, t, ks)
		if vio == nil {
			fmt.Fprintf(os.Stderr, "run %d of %s failed (%s) but did not fail again; the simulation is not reproducible here\n%s\n",
				t.failing[0].I, id, t.failing[0].Fails[0].Class, t.failing[0].Fails[0].Text)
			return 2
		}
		violations = 1
		code = 1
	}
	writeEvidence(p, tier, base, t, violations, time.Since(start).Seconds(), vio)
	if vio != nil {
		fmt.Printf("%s\n", vio.text)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, vio.path)
	} else {
		fmt.Printf("%s: held on %d simulated runs (%d distinct non-trivial), %.1fs\n", id, t.runs, t.distinct(), time.Since(start).Seconds())
	}
	return code
}

func (t *totals) distinct() int { return len(t.shapes) }

func (t *totals) add(r *Result, ks []knownFinding, hist []int) {
	t.runs++
	if r.Died != "" {
		t.died = append(t.died, fmt.Sprintf("run %d: %s", r.I, r.Died))
		return
	}
	if r.Nontrivial {
		t.nontrivial++
		t.shapes[r.Shape]++
	}
	t.sigs[r.Sig]++
	t.steps += r.Steps
	t.simNs += r.SimNs
	for k, v := range r.C {
		t.c[k] += v
	}
	for _, f := range r.Fails {
		if isKnown(ks, f.Class) {
			t.known[f.Class]++
		}
	}
	if unlisted(ks, r) != nil {
		t.failing = append(t.failing, r)
		t.histories[r.I] = hist
	}
}

type violation struct {
	path, text string
}

// confirm reproduces a failure in a fresh process, minimises it and writes the
// replay file.
func confirm(p *Prop, base int64, t *totals, ks []knownFinding) *violation {
	deadline := time.Now().Add(150 * time.Second)
	for _, r := range t.failing {
		f := unlisted(ks, r)
		sc := Generate(p, base, r.I)
		fresh := func(sc *Scenario) *Result {
			s := &server{race: p.Race}
			defer s.stop()
			return s.do(request{Sc: sc, I: r.I})
		}
		got := fresh(sc)
		if !has(got, f.Class) {
			// perhaps an earlier run in the same process left something behind
			ok := false
			hist := t.histories[r.I]
			for span := 1; span <= len(hist)*2 && !ok; span *= 2 {
				k := span
				if k > len(hist) {
					k = len(hist)
				}
				if k > 256 {
					break
				}
				sc2 := Generate(p, base, r.I)
				for _, h := range hist[len(hist)-k:] {
					sc2.Prelude = append(sc2.Prelude, Generate(p, base, h))
				}
				if g := fresh(sc2); has(g, f.Class) {
					sc, got, ok = sc2, g, true
				}
				if k == len(hist) {
					break
				}
			}
			if !ok {
				continue
			}
		}
		min := minimise(p, sc, f.Class, deadline)
		g1 := fresh(min)
		g2 := fresh(min)
		if !has(g1, f.Class) || !has(g2, f.Class) || (g1.Sig != g2.Sig) {
			min = sc
			g1 = got
		}
		var text string
		for _, x := range g1.Fails {
			if x.Class == f.Class {
				text = x.Text
			}
		}
		min.Expect = &Expect{Class: f.Class, Sig: fmt.Sprintf("%016x", g1.Sig), Text: text}
		b, _ := json.MarshalIndent(min, "", " ")
		h := fnv.New32a()
		h.Write([]byte(f.Class))
		os.MkdirAll(verifPath("replays"), 0755)
		path := filepath.Join("replays", fmt.Sprintf("%s-%d-%d-%08x.json", p.ID, base, r.I, h.Sum32()))
		if err := os.WriteFile(verifPath(path), b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		return &violation{path: path, text: fmt.Sprintf("%s seed=%d run=%d class=%s\n%s\nminimised scenario: %d ops, %d faults, %d disk faults, %d preemptions, map order %s",
			p.ID, base, r.I, f.Class, text, len(min.Ops), len(min.Faults), len(min.Disk), len(min.Sched), min.Map.Mode)}
	}
	return nil
}

func has(r *Result, class string) bool {
	for _, f := range r.Fails {
		if f.Class == class {
			return true
		}
	}
	return false
}

func clone(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	var c Scenario
	json.Unmarshal(b, &c)
	return &c
}

// minimise shrinks a failing scenario while it keeps failing the same way.
func minimise(p *Prop, sc *Scenario, class string, deadline time.Time) *Scenario {
	s := &server{race: p.Race}
	defer s.stop()
	tries := 0
	test := func(c *Scenario) bool {
		tries++
		if tries > 1500 || time.Now().After(deadline) {
			return false
		}
		if p.Race || len(c.Prelude) > 0 {
			s.stop()
		}
		r := s.do(request{Sc: c})
		if len(r.Fails) > 0 {
			// do not let state survive a failing run
			s.stop()
		}
		return has(r, class)
	}
	best := clone(sc)
	attempt := func(edit func(c *Scenario)) bool {
		c := clone(best)
		edit(c)
		if mustJSON(c) == mustJSON(best) {
			return false
		}
		if test(c) {
			best = c
			return true
		}
		return false
	}
	// ddmin-like removal of a list
	shrinkList := func(length func(*Scenario) int, del func(*Scenario, int, int)) {
		for chunk := (length(best) + 1) / 2; chunk >= 1; chunk /= 2 {
			for i := 0; i < length(best); {
				j := i + chunk
				if j > length(best) {
					j = length(best)
				}
				if !attempt(func(c *Scenario) { del(c, i, j) }) {
					i = j
				}
			}
		}
	}
	for pass := 0; pass < 3; pass++ {
		before := mustJSON(best)
		attempt(func(c *Scenario) { c.Prelude = nil })
		shrinkList(func(c *Scenario) int { return len(c.Prelude) }, func(c *Scenario, i, j int) { c.Prelude = append(c.Prelude[:i:i], c.Prelude[j:]...) })
		attempt(func(c *Scenario) { c.Map = MapCfg{Mode: "sorted"} })
		attempt(func(c *Scenario) { c.Map = MapCfg{Mode: "reverse"} })
		shrinkList(func(c *Scenario) int { return len(c.Faults) }, func(c *Scenario, i, j int) { c.Faults = append(c.Faults[:i:i], c.Faults[j:]...) })
		shrinkList(func(c *Scenario) int { return len(c.Disk) }, func(c *Scenario, i, j int) { c.Disk = append(c.Disk[:i:i], c.Disk[j:]...) })
		shrinkList(func(c *Scenario) int { return len(c.Sched) }, func(c *Scenario, i, j int) { c.Sched = append(c.Sched[:i:i], c.Sched[j:]...) })
		shrinkList(func(c *Scenario) int { return len(c.RandFail) }, func(c *Scenario, i, j int) { c.RandFail = append(c.RandFail[:i:i], c.RandFail[j:]...) })
		shrinkList(func(c *Scenario) int { return len(c.Jumps) }, func(c *Scenario, i, j int) { c.Jumps = append(c.Jumps[:i:i], c.Jumps[j:]...) })
		shrinkList(func(c *Scenario) int { return len(c.Ops) }, func(c *Scenario, i, j int) { c.Ops = append(c.Ops[:i:i], c.Ops[j:]...) })
		attempt(func(c *Scenario) { c.ZoneSec = 0 })
		attempt(func(c *Scenario) { c.ClockNs = 1_700_000_000_000_000_000 })
		if best.Map.Mode == "shuffle" || best.Map.Mode == "rotate" {
			// find the one map iteration that matters
			hi := best.Map.Hi
			if hi == 0 {
				hi = 1 << 20
			}
			lo := best.Map.Lo
			for w := hi - lo; w > 1; {
				mid := lo + w/2
				if attempt(func(c *Scenario) { c.Map.Lo, c.Map.Hi = lo, mid }) {
					hi = mid
				} else if attempt(func(c *Scenario) { c.Map.Lo, c.Map.Hi = mid, hi }) {
					lo = mid
				} else {
					break
				}
				w = hi - lo
			}
		}
		// smaller numbers and strings inside operations
		for i := 0; i < len(best.Ops); i++ {
			for a := 0; a < len(best.Ops[i].A); a++ {
				for _, v := range []int64{0, 1, best.Ops[i].A[a] / 2, best.Ops[i].A[a] - 1} {
					if v >= 0 && i < len(best.Ops) && v < best.Ops[i].A[a] {
						if attempt(func(c *Scenario) { c.Ops[i].A[a] = v }) {
							break
						}
					}
				}
			}
			for a := 0; a < len(best.Ops[i].S); a++ {
				if len(best.Ops[i].S[a]) > 0 {
					attempt(func(c *Scenario) { c.Ops[i].S[a] = c.Ops[i].S[a][:len(c.Ops[i].S[a])/2] })
				}
			}
			if len(best.Ops[i].B) > 0 {
				attempt(func(c *Scenario) { c.Ops[i].B = c.Ops[i].B[:len(c.Ops[i].B)/2] })
			}
		}
		for k := range best.P {
			k := k
			for _, v := range []int64{0, 1, best.P[k] / 2} {
				if v < best.P[k] && attempt(func(c *Scenario) { c.P[k] = v }) {
					break
				}
			}
		}
		if mustJSON(best) == before {
			break
		}
	}
	return best
}

// replay executes a replay file in a fresh process and compares.
func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var sc Scenario
	if err := json.Unmarshal(b, &sc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ex := sc.Expect
	sc.Expect = nil
	s := &server{race: props[sc.Prop].Race}
	r := s.do(request{Sc: &sc})
	s.stop()
	for _, f := range r.Fails {
		fmt.Printf("class=%s\n%s\n", f.Class, f.Text)
	}
	if ex != nil {
		same := has(r, ex.Class) && (ex.Sig == fmt.Sprintf("%016x", r.Sig) || r.Sig == 0)
		fmt.Printf("expected class=%s sig=%s: %v (sig now %016x)\n", ex.Class, ex.Sig, same, r.Sig)
		if has(r, ex.Class) {
			fmt.Printf("VIOLATION property=%s replay=%s\n", sc.Prop, path)
			return 1
		}
	}
	return 0
}

// survey lists failure classes over many runs (development aid).
func survey(id, ns string) {
	p := props[id]
	n, _ := strconv.Atoi(ns)
	base := seedEnv()
	type ent struct {
		n     int
		first int
		text  string
	}
	m := map[string]*ent{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	start := time.Now()
	shapes := map[uint64]bool{}
	cs := map[string]int{}
	failed := 0
	var steps int64
	var maxSteps int64
	maxI := 0
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := &server{race: p.Race}
			defer s.stop()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= n {
					return
				}
				r := s.do(request{Prop: id, Base: base, I: i})
				mu.Lock()
				if r.Nontrivial {
					shapes[r.Shape] = true
				}
				steps += r.Steps
				if r.Steps > maxSteps {
					maxSteps, maxI = r.Steps, i
				}
				for k, v := range r.C {
					cs[k] += v
				}
				if r.Died != "" {
					r.Fails = append(r.Fails, Failure{"DIED", r.Died})
				}
				if len(r.Fails) > 0 {
					failed++
				}
				for _, f := range r.Fails {
					e := m[f.Class]
					if e == nil {
						e = &ent{first: i, text: f.Text}
						m[f.Class] = e
					}
					e.n++
					if i < e.first {
						e.first, e.text = i, f.Text
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool { return m[ks[a]].n > m[ks[b]].n })
	for _, k := range ks {
		fmt.Printf("%5d  first=%d  %s\n", m[k].n, m[k].first, k)
		if os.Getenv("V") != "" {
			fmt.Println("      ", strings.ReplaceAll(m[k].text, "\n", "\n       "))
		}
	}
	var cks []string
	for k := range cs {
		cks = append(cks, k)
	}
	sort.Strings(cks)
	for _, k := range cks {
		fmt.Printf("   %s=%d", k, cs[k])
	}
	fmt.Printf("\n%d runs, %d failing, %d shapes, %.1fs, steps avg %d max %d (run %d)\n", n, failed, len(shapes), time.Since(start).Seconds(), steps/int64(n), maxSteps, maxI)
}

// selftest executes every run twice in different processes and compares signatures.
func selftest(id string, n int) int {
	p := props[id]
	base := seedEnv()
	sig := func(workers int) map[int]uint64 {
		out := map[int]uint64{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				s := &server{race: p.Race}
				defer s.stop()
				for i := w; i < n; i += workers {
					r := s.do(request{Prop: id, Base: base, I: i})
					mu.Lock()
					out[i] = r.Sig
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		return out
	}
	a := sig(1 + runtime.NumCPU()/4)
	b := sig(runtime.NumCPU())
	c := sig(runtime.NumCPU() - 1)
	bad := 0
	for i := 0; i < n; i++ {
		if a[i] != b[i] || a[i] != c[i] {
			bad++
			if bad < 10 {
				fmt.Printf("run %d differs: %x %x %x\n", i, a[i], b[i], c[i])
			}
		}
	}
	fmt.Printf("%s: %d runs executed three times in different processes (and worker counts): %d differ\n", id, n, bad)
	if bad > 0 {
		return 2
	}
	return 0
}

func writeEvidence(p *Prop, tier string, base int64, t *totals, violations int, wall float64, vio *violation) {
	faults := map[string]int{}
	other := map[string]int{}
	for k, v := range t.c {
		if strings.HasPrefix(k, "fault:") {
			if v > 0 {
				faults[strings.TrimPrefix(k, "fault:")] = v
			}
		} else {
			other[k] = v
		}
	}
	var samples []interface{}
	for i := 0; i < 3; i++ {
		sc := Generate(p, base, i)
		s := mustJSON(sc)
		if len(s) > 3000 {
			s = s[:3000] + "..."
		}
		samples = append(samples, s)
	}
	instr := map[string]int{}
	if b, err := os.ReadFile(filepath.Join(filepath.Dir(binary(false)), "gen", "stats.json")); err == nil {
		json.Unmarshal(b, &instr)
	}
	cov := map[string]interface{}{
		"evaluations":              t.runs,
		"distinct_nontrivial":      t.distinct(),
		"rule":                     p.Rule,
		"samples":                  samples,
		"nontrivial_runs":          t.nontrivial,
		"distinct_run_signatures":  len(t.sigs),
		"runs_per_hour":            int(float64(t.runs) / wall * 3600),
		"seeds_per_hour":           int(float64(t.runs) / wall * 3600),
		"simulated_steps":          t.steps,
		"simulated_time_s":         float64(t.simNs) / 1e9,
		"faults_injected":          faults,
		"workload_counters":        other,
		"instrumentation_points":   instr,
		"components_real":          p.Real,
		"components_stub":          p.Stub,
		"known_finding_occurrence": t.known,
	}
	if vio != nil {
		cov["violation_replay"] = vio.path
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": base, "level": p.Level,
		"coverage": cov, "wall_s": wall, "violations": violations, "assumptions": p.Assume,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(verifPath("evidence"), 0755)
	if err := os.WriteFile(verifPath("evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
