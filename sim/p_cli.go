package main

// C14: the pdfer command on a disk that fails.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/benedoc-inc/pdfer/types"
	zz_cli "github.com/benedoc-inc/pdfer/zz_cli"
	rt "github.com/benedoc-inc/pdfer/zz_simrt"
)

// the passwords the command tries
var cliPasswords = []string{"", "admin", "password", "1234"}

type cliFile struct {
	doc    *pdoc  // a document that is known
	schema bool   // a schema it wrote
	any    bool   // nothing is known about it
	old    string // something else
}

type cli struct {
	*xhist
	fs    *rt.FS
	files map[string]*cliFile
	ran   int
}

// run runs the command; code is its exit status, -1 after a crash.
func (h *cli) run(args []string) (code int, out, msg string, ok bool) {
	var o, e bytes.Buffer
	oldArgs, oldFlags, oldF := os.Args, flag.CommandLine, log.Flags()
	os.Args = append([]string{"pdfer"}, args...)
	flag.CommandLine = flag.NewFlagSet("pdfer", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	log.SetFlags(0)
	log.SetOutput(&e)
	rt.Capture(&o, &e)
	st := Guard(func() { zz_cli.Main() })
	rt.Revive()
	rt.Capture(nil, nil)
	log.SetOutput(io.Discard)
	log.SetFlags(oldF)
	os.Args, flag.CommandLine = oldArgs, oldFlags
	out, msg = o.String(), e.String()
	switch st.Kind {
	case "exit":
		code = st.Val.(rt.Exit).Code
	case "crash":
		code = -1
	default:
		if !h.c.Judge("pdfer", st) {
			return
		}
	}
	if strings.Contains(msg, "PANIC") {
		h.fail("panic", "the command panicked: %s", clipS(msg, 400))
		return
	}
	h.ran++
	return code, out, msg, true
}

func (h *cli) snapshot() map[string]string {
	m := map[string]string{}
	for _, f := range h.fs.Files() {
		d, _ := h.fs.Get(f)
		m[f] = string(d)
	}
	return m
}

// bystanders: nothing but the files that were named has changed.
func (h *cli) bystanders(before map[string]string, faulted bool, mine ...string) bool {
	is := map[string]bool{}
	for _, f := range mine {
		if f != "" {
			is[h.abs(f)] = true
		}
	}
	now := h.snapshot()
	var names []string
	for f := range before {
		names = append(names, f)
	}
	for f := range now {
		if _, ok := before[f]; !ok {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	for _, f := range names {
		if is[f] {
			continue
		}
		b, was := before[f]
		n, there := now[f]
		switch {
		case was && (!there || n != b):
			h.fail("bystander", "the file %s was changed", f)
			return false
		case !was && !faulted:
			h.fail("bystander", "the file %s appeared", f)
			return false
		}
	}
	return true
}

func (h *cli) abs(f string) string {
	if !path.IsAbs(f) {
		f = path.Join("/work", f)
	}
	return path.Clean(f)
}

// dataFile is the text of a JSON file of values; fd is what it says, nil if it is not one.
func (h *cli) dataFile(r *Rng, doc *pdoc, how int) (text []byte, fd types.FormData, good bool) {
	var names []string
	if doc != nil && !doc.dead {
		old := h.cur
		h.cur = doc
		ds := h.packet("datasets")
		h.cur = old
		if ds != nil {
			if top, err := readXML(ds.data); err == nil {
				for _, f := range dataFields(top) {
					if n, ok := f.attr("name"); ok {
						names = append(names, n)
					}
				}
			}
		}
	}
	var b strings.Builder
	ws := func() string { return r.Pick("", "", "", " ", "\n", "\t", "\r\n  ") }
	str := func(s string) string {
		if r.P(15) {
			var u strings.Builder
			u.WriteByte('"')
			for _, c := range s {
				if c < 0x10000 && r.P(40) {
					fmt.Fprintf(&u, "\\u%04x", c)
				} else {
					j, _ := json.Marshal(string(c))
					u.WriteString(strings.Trim(string(j), "\""))
					if string(j) == `"\""` {
						u.Reset()
						j, _ := json.Marshal(s)
						return string(j)
					}
				}
			}
			u.WriteByte('"')
			return u.String()
		}
		j, _ := json.Marshal(s)
		return string(j)
	}
	b.WriteString(ws() + "{")
	n := r.N(5)
	for k := 0; k < n; k++ {
		name := r.Pick("no such field", "decoy", "x", "")
		if len(names) > 0 && r.P(85) {
			name = names[r.N(len(names))]
		}
		if k > 0 {
			b.WriteString(",")
		}
		var v string
		switch x := xfaAny(r).(type) {
		case string:
			v = str(x)
		case nil:
			v = "null"
		default:
			v = mustJSON(x)
		}
		b.WriteString(ws() + str(name) + ws() + ":" + ws() + v + ws())
	}
	b.WriteString(ws() + "}" + ws())
	text = []byte(b.String())
	switch how {
	case 1:
		text = text[:r.N(len(text))]
	case 2:
		text = []byte(r.Pick("[]", "\"x\"", "12", "", "{\"a\":}", "{'a':1}", "{\"a\":1,}", "{\"a\":1} x", "nul", "<form/>"))
	case 3:
		text = []byte("null")
	}
	if err := json.Unmarshal(text, &fd); err != nil {
		return text, nil, false
	}
	return text, fd, true
}

func (h *cli) step(op Op) {
	c := h.c
	fs := h.fs
	r := NewRng(uint64(op.I(0)))
	var pdfs []string
	for f, x := range h.files {
		if x.doc != nil {
			pdfs = append(pdfs, f)
		}
	}
	sort.Strings(pdfs)
	in := "/work/in.pdf"
	if len(pdfs) > 0 && r.P(55) {
		in = pdfs[r.N(len(pdfs))]
	}
	doc := h.files[in].doc
	if doc == nil {
		return // its file was lost in an earlier step
	}
	h.cur = doc
	var args []string
	add := func(k, v string) {
		switch r.N(4) {
		case 0:
			args = append(args, "-"+k+"="+v)
		case 1:
			args = append(args, "--"+k, v)
		default:
			args = append(args, "-"+k, v)
		}
	}
	short := func(f string) string {
		if r.P(30) {
			return strings.TrimPrefix(f, "/work/")
		}
		return f
	}
	out := r.Pick("/work/out.pdf", "/work/out.pdf", "/work/out/two.pdf", "/work/three.pdf", in)
	schema := op.K == "schema"
	if schema && r.P(70) {
		out = r.Pick("/work/schema.json", "/work/out/schema.json")
	}
	bad := ""
	data := "/work/data.json"
	var fd types.FormData
	known := true // whether it has to work is known
	if !schema {
		how := 0
		if r.P(12) {
			how = r.In(1, 3)
		}
		text, v, good := h.dataFile(r, doc, how)
		fd = v
		if !good {
			bad = "the data are no JSON object"
		}
		fs.Put(data, text)
		h.files[data] = &cliFile{old: string(text)}
	}
	inArg, outArg, dataArg := in, out, data
	if r.P(14) {
		switch r.N(8) {
		case 0:
			inArg, bad = "/work/none.pdf", "no such input"
		case 1:
			outArg, bad = "/work/none/out.pdf", "no such directory"
		case 2:
			outArg, bad = "/work/out", "the output is a directory"
		case 3:
			if !schema {
				dataArg, bad = "/work/none.json", "no such data"
			}
		case 4:
			inArg, bad = "", "no input"
		case 5:
			outArg, bad = "", "no output"
		case 6:
			if !schema {
				dataArg, bad = "", "no data"
			}
		case 7:
			inArg, bad = "/work/out", "the input is a directory"
		}
		if bad != "" {
			c.Count("bad_invocations", 1)
		}
	}
	todo := []string{"input", "output", "data", "schema", "verbose", "log"}
	logArg := ""
	for _, i := range r.Perm(len(todo)) {
		switch todo[i] {
		case "input":
			if inArg != "" {
				add("input", short(inArg))
			}
		case "output":
			if outArg != "" {
				add("output", short(outArg))
			}
		case "data":
			if !schema && dataArg != "" || schema && r.P(10) {
				add("data", short(dataArg))
			}
		case "schema":
			if schema {
				args = append(args, "-extract-schema")
			}
		case "verbose":
			if r.P(20) {
				args = append(args, "-verbose")
			}
		case "log":
			if !schema && r.P(25) {
				logArg = "/work/run.log"
				if r.P(8) {
					logArg, bad = "/work/none/run.log", "no directory for the log"
				}
				add("log", short(logArg))
			}
		}
	}
	// what has to happen
	opens := doc.enc == nil
	if !opens && !doc.dead {
		for _, p := range cliPasswords {
			for _, q := range []string{h.user, h.owner} {
				opens = opens || p == q
			}
		}
	}
	var wantS *types.FormSchema
	ds, tp := h.packet("datasets"), h.packet("template")
	switch {
	case bad != "":
	case doc.dead:
		known = false
	case !opens:
		bad = "the password is none that is tried"
	case schema && (tp == nil || len(tp.data) == 0):
		bad = "there is no template"
	case schema:
		var err error
		if wantS, err = refTemplate(tp.data); err != nil {
			h.fail("xml", "%v", err)
			return
		}
	case ds == nil:
		bad = "there are no datasets"
	}

	before := h.snapshot()
	at := len(fs.FiredAt)
	h.what = fmt.Sprintf("pdfer %q", args)
	code, stdout, msg, ok := h.run(args)
	if !ok {
		return
	}
	fired := fs.FiredAt[at:]
	hit := func(f string) bool {
		for _, x := range fired {
			if h.abs(strings.Split(x, " ")[0]) == f {
				return true
			}
		}
		return false
	}
	if len(fired) > 0 {
		h.what += fmt.Sprintf(" with a fault at %q", fired)
	}
	c.Shape(op.K, code, bad != "", len(fired), doc.enc != nil)
	c.Sig(code, stdout)
	c.Count(fmt.Sprintf("exit:%d", code), 1)
	if !h.bystanders(before, len(fired) > 0, outArg, logArg) {
		return
	}
	clean := len(fired) == 0 && !(c.randomFailed() && doc.enc != nil)
	touched := false // the output may be anything
	if outArg != "" && h.abs(outArg) == out {
		was, had := before[out]
		is, has := fs.Get(out)
		same := had == has && (!had || was == string(is))
		switch {
		case code == 0:
		case same:
		case code < 0 || hit(out):
			touched = true
		default:
			h.fail("output", "it ended with status %d, and the output file is not what it was (%s)", code, clipS(msg, 200))
			return
		}
	}
	switch {
	case code == 0 && bad != "":
		h.fail("success", "status 0, although %s", bad)
		return
	case code > 0 && bad == "" && clean && known:
		h.fail("refused", "status %d: %s", code, clipS(msg[max(0, len(msg)-400):], 400))
		return
	case code > 0 && strings.TrimSpace(strings.Replace(msg, "=== pdfer starting ===", "", 1)) == "" && logArg == "":
		h.fail("silent", "status %d without a message", code)
		return
	}
	if code > 0 && logArg != "" && clean && bad != "" && !strings.Contains(msg, "log file") {
		l, _ := fs.Get(logArg)
		if !strings.Contains(string(l)+msg, "Error") && !strings.Contains(string(l)+msg, "Could not") {
			h.fail("silent", "status %d, and neither the log nor the output says why: %q", code, clip(l, 300))
			return
		}
	}
	if touched {
		h.files[out] = &cliFile{any: true}
		// a crash may have come after the last byte: then it is complete all the same, or
		// it is found wanting by whoever reads it
		return
	}
	if code != 0 {
		return
	}
	c.Count("completed", 1)
	if doc.dead {
		h.files[out] = &cliFile{any: true}
		return
	}
	got, has := fs.Get(out)
	if !has {
		h.fail("output", "status 0, and no output file")
		return
	}
	if schema {
		var s types.FormSchema
		if err := json.Unmarshal(got, &s); err != nil {
			h.fail("output", "status 0, and the schema is not complete: %v in %q", err, clip(got, 200))
			return
		}
		c.Count("questions", len(s.Questions))
		h.compareTemplate(&s, wantS)
		if w := fmt.Sprintf("Questions extracted: %d\n", len(wantS.Questions)); !strings.Contains(stdout, w) {
			h.fail("report", "it says %q, want %q", stdout, w)
		}
		h.files[out] = &cliFile{schema: true}
		return
	}
	top, err := readXML(ds.data)
	if err != nil {
		h.fail("xml", "%v", err)
		return
	}
	c.Count("values_filled", fillTree(top, fd))
	if !h.changed(append([]byte(nil), got...), map[string]func([]byte) string{"datasets": func(got []byte) string {
		g, err := readXML(got)
		if err != nil {
			return fmt.Sprintf("%v in %q", err, clip(got, 300))
		}
		return sameTree(g, top)
	}}) {
		return
	}
	h.files[out] = &cliFile{doc: h.cur}
	if bytes.Contains(got, []byte("left over from before")) {
		h.fail("output", "the output holds what was in the file before")
		return
	}
	if w := fmt.Sprintf("Fields filled: %d\n", len(fd)); !strings.Contains(stdout, w) {
		h.fail("report", "it says %q, want %q", stdout, w)
		return
	}
	if logArg != "" && clean {
		if l, _ := fs.Get(logArg); !strings.Contains(string(l), fmt.Sprintf("Fields filled: %d\n", len(fd))) {
			h.fail("report", "the log says %q", clip(l, 400))
		}
	}
}

func execCLI(c *Ctx) {
	c.limit = 400_000_000
	ops, rest := splitDocs(c.sc.Ops)
	if len(ops) == 0 {
		return
	}
	b := buildPages(ops[0])
	h := &cli{xhist: &xhist{phist: &phist{c: c}, pks: map[*pdoc][]xpacket{}}, files: map[string]*cliFile{}}
	h.user, h.owner = b.pass[0], b.pass[1]
	if h.owner == "" {
		h.owner = h.user
	}
	d, rev := docOf(c, b)
	c.fs = rt.NewFS()
	h.fs = c.fs
	c.Begin()
	defer c.End()
	h.docs, h.cur = []*pdoc{d}, d
	if !d.dead {
		h.pks[d] = b.xhist[rev-1]
	}
	c.Shape("cli", len(h.pks[d]), len(b.snaps), rev, b.enc != nil)
	fs := h.fs
	put := func(f, s string) {
		fs.Put(f, []byte(s))
		h.files[f] = &cliFile{old: s}
	}
	fs.PutDir("/work/out")
	put("/work/note.txt", "somebody else's file")
	if c.sc.P["there"] != 0 {
		old := strings.Repeat("left over from before\n", 4000)
		put("/work/out.pdf", old)
		put("/work/out/schema.json", old)
		put("/work/run.log", old)
	}
	fs.Put("/work/in.pdf", d.data)
	h.files["/work/in.pdf"] = &cliFile{doc: d}
	fs.SetFaults(c.sc.Disk)
	if p := c.sc.P["capacity"]; p > 0 {
		fs.SetCapacity(int(p))
	}
	for _, op := range rest {
		c.Count("op:"+op.K, 1)
		switch op.K {
		case "fill", "schema":
			h.step(op)
		case "repair": // faults stop
			fs.SetFaults(nil)
			fs.SetCapacity(0)
		}
		if c.Failed() {
			break
		}
	}
	c.res.Nontrivial = h.ran > 0
}

func genCLI(r *Rng, sc *Scenario, i int) {
	genXFA(r, sc, i)
	var ops []Op
	for _, op := range sc.Ops {
		if op.K == "encrypt" && len(op.S) > 1 {
			op.S = append([]string(nil), op.S...)
			if r.P(75) {
				op.S[r.N(2)] = cliPasswords[r.N(4)]
			}
		}
		ops = append(ops, op)
		if op.K == "go" {
			break
		}
	}
	sc.Ops = ops
	steps := func(n int) {
		for ; n > 0; n-- {
			sc.Ops = append(sc.Ops, Op{K: r.Pick("fill", "fill", "schema"), A: []int64{int64(r.U64() >> 20)}})
		}
	}
	steps(r.In(1, 5))
	sc.P["there"] = int64(r.N(2))
	if r.P(70) {
		for k := r.In(1, 3); k > 0; k-- {
			f := rt.FSFault{N: r.In(1, 5), Arg: r.N(1001)}
			switch r.N(9) {
			case 0:
				f.Op, f.Kind = "create", r.Pick("enospc", "eacces", "eio", "crash", "crashafter")
			case 1:
				f.Op, f.Kind = "close", r.Pick("eio", "enospc", "crash")
			case 2:
				f.Op, f.Kind, f.N = "read", r.Pick("eio", "shortread", "shortread"), r.In(1, 20)
			case 3:
				f.Op, f.Kind, f.N = "open", r.Pick("eacces", "eio", "crash"), r.In(1, 8)
			case 4:
				f.Op, f.Kind, f.N = "", r.Pick("crash", "crashafter", "eio", "enospc"), r.In(1, 60)
			case 5:
				f.Op, f.Kind = r.Pick("rename", "sync", "remove", "mkdir", "stat"), r.Pick("eio", "crash", "crashafter")
			default:
				f.Op, f.Kind = "write", r.Pick("enospc", "eio", "short", "torn", "crash", "crash", "crashafter")
			}
			sc.Disk = append(sc.Disk, f)
		}
		if r.P(15) {
			sc.P["capacity"] = int64(1 + r.N(60000))
		}
		if r.P(60) {
			sc.Ops = append(sc.Ops, Op{K: "repair"})
			steps(r.In(1, 2))
		}
	}
}

func init() {
	register(&Prop{
		ID: "C14", Level: "exploration",
		Gen: genCLI, Exec: execCLI,
		Quick: 6000, Thorough: 300000,
		Rule: "one evaluation is one simulated history of invocations of the pdfer command on one disk, with faults of the disk and crashes in between; it counts as non-trivial when at least one invocation ran",
		Real: []string{"cmd/pdfer", "forms/xfa", "core/parse", "core/encrypt"},
		Stub: []string{"the file system (in memory, with faults and crashes)", "the writer of the input documents (independent)", "the command line and the standard streams", "the random source", "map iteration order"},
	})
}
