// simgen writes instrumented copies of the non-test sources of the module under
// test, plus the simulation runtime, and an overlay file that makes the go
// command build them in place of the originals.  It works from types, not from
// names or line numbers, so it follows whatever the current tree contains.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
)

const mod = "github.com/benedoc-inc/pdfer"
const rtPath = mod + "/zz_simrt"

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Module     *struct{ Path string }
}

// selector replacements: package path -> name -> replacement in the runtime
var repl = map[string]map[string]string{
	"time":        {"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "TimeSleep"},
	"crypto/rand": {"Read": "RandRead", "Reader": "RandReader", "Int": "RandInt"},
	"math/rand": {"Int": "MRInt", "Intn": "MRIntn", "Int31": "MRInt31", "Int31n": "MRInt31n", "Int63": "MRInt63",
		"Int63n": "MRInt63n", "Uint32": "MRUint32", "Uint64": "MRUint64", "Float64": "MRFloat64", "Seed": "MRSeed",
		"Read": "MRRead", "Perm": "MRPerm", "Shuffle": "MRShuffle"},
	"os": {"MkdirAll": "OsMkdirAll", "Mkdir": "OsMkdir", "Open": "OsOpen", "Create": "OsCreate", "OpenFile": "OsOpenFile",
		"ReadFile": "OsReadFile", "WriteFile": "OsWriteFile", "Stat": "OsStat", "Lstat": "OsLstat", "Rename": "OsRename",
		"Remove": "OsRemove", "RemoveAll": "OsRemoveAll", "ReadDir": "OsReadDir", "TempDir": "OsTempDir",
		"MkdirTemp": "OsMkdirTemp", "CreateTemp": "OsCreateTemp", "Getwd": "OsGetwd", "Chdir": "OsChdir",
		"Chmod": "OsChmod", "Truncate": "OsTruncate", "Exit": "OsExit", "File": "File",
		"Stdin": "Stdin", "Stdout": "Stdout", "Stderr": "Stderr"},
	"io/ioutil":     {"ReadFile": "OsReadFile", "WriteFile": "OsWriteFile", "TempDir": "OsMkdirTemp", "TempFile": "OsCreateTemp"},
	"path/filepath": {"Abs": "FilepathAbs", "Glob": "FilepathGlob", "Walk": "FilepathWalk"},
	"fmt":           {"Print": "FmtPrint", "Printf": "FmtPrintf", "Println": "FmtPrintln"},
	"log":           {"Fatal": "LogFatal", "Fatalf": "LogFatalf", "Fatalln": "LogFatalln"},
	"strings":       {"Repeat": "StringsRepeat"},
	"bytes":         {"Repeat": "BytesRepeat"},
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once", "WaitGroup": "WaitGroup", "Cond": "Cond",
		"NewCond": "NewCond", "Pool": "Pool", "Map": "Map", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
}

func init() {
	repl["math/rand/v2"] = map[string]string{"Int": "MRInt", "IntN": "MRIntn", "Uint32": "MRUint32", "Uint64": "MRUint64",
		"Float64": "MRFloat64", "Perm": "MRPerm", "Shuffle": "MRShuffle"}
}

var stats = struct {
	sync.Mutex
	m map[string]int
}{m: map[string]int{}}

func count(k string) {
	stats.Lock()
	stats.m[k]++
	stats.Unlock()
}

type edit struct {
	start, end int
	text       string
	seq        int
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	file  *token.File
	edits []edit
	n     int
	used  map[*types.PkgName]int // remaining uses
	tick  bool
}

func (r *rewriter) off(p token.Pos) int { return r.file.Offset(p) }
func (r *rewriter) rep(s, e token.Pos, t string) {
	r.edits = append(r.edits, edit{r.off(s), r.off(e), t, len(r.edits)})
}
func (r *rewriter) ins(p token.Pos, t string) { r.rep(p, p, t) }
func (r *rewriter) text(n ast.Node) string    { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rewriter) apply() []byte {
	sort.SliceStable(r.edits, func(a, b int) bool {
		x, y := r.edits[a], r.edits[b]
		if x.start != y.start {
			return x.start < y.start
		}
		// pure insertions before replacements that start at the same place
		xi, yi := x.end == x.start, y.end == y.start
		if xi != yi {
			return xi
		}
		return x.seq < y.seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range r.edits {
		if e.start < pos {
			fmt.Fprintf(os.Stderr, "simgen: overlapping edit at %s: %q\n", r.file.Position(r.file.Pos(e.start)), e.text)
			os.Exit(3)
		}
		out.Write(r.src[pos:e.start])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(r.src[pos:])
	return out.Bytes()
}

const q = "zz_simrt."

func (r *rewriter) body(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	r.ins(b.Lbrace+1, " "+q+"Enter(); defer "+q+"Leave();")
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) under(e ast.Expr) types.Type {
	t := r.info.TypeOf(e)
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func addressable(e ast.Expr, info *types.Info) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return true
	case *ast.ParenExpr:
		return addressable(x.X, info)
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		t := info.TypeOf(x.X)
		if t == nil {
			return false
		}
		_, isMap := t.Underlying().(*types.Map)
		return !isMap
	}
	return false
}

func (r *rewriter) visit(n ast.Node, parents []ast.Node) {
	var parent ast.Node
	if len(parents) > 0 {
		parent = parents[len(parents)-1]
	}
	switch x := n.(type) {
	case *ast.FuncDecl:
		r.body(x.Body)
	case *ast.FuncLit:
		r.body(x.Body)
	case *ast.ForStmt:
		r.ins(x.Body.Lbrace+1, " "+q+"Y();")
	case *ast.RangeStmt:
		u := r.under(x.X)
		m, isMap := u.(*types.Map)
		_, isChan := u.(*types.Chan)
		switch {
		case isChan:
			count("chan range")
			r.n++
			v := fmt.Sprintf("simC%d", r.n)
			// for v := range ch  ->  for simC := ch; ; { v, ok := recv(simC); if !ok {break}; ...
			if x.Key == nil {
				r.rep(x.For, x.X.Pos(), "for "+v+" := ")
				r.rep(x.X.End(), x.Body.Lbrace+1, "; ; { if _, simOK := "+q+"Recv2("+v+"); !simOK { break }; ")
			} else {
				k := r.text(x.Key)
				if x.Tok == token.DEFINE {
					r.rep(x.For, x.X.Pos(), "for "+v+" := ")
					r.rep(x.X.End(), x.Body.Lbrace+1, "; ; { "+k+", simOK := "+q+"Recv2("+v+"); if !simOK { break }; ")
				} else {
					r.rep(x.For, x.X.Pos(), "for "+v+" := ")
					r.rep(x.X.End(), x.Body.Lbrace+1, "; ; { var simOK bool; if "+k+", simOK = "+q+"Recv2("+v+"); !simOK { break }; ")
				}
			}
		case isMap && x.Key != nil && !(blank(x.Key) && blank(x.Value)):
			_ = m
			count("map range")
			r.n++
			it := fmt.Sprintf("simR%d", r.n)
			kb, vb := blank(x.Key), blank(x.Value)
			if x.Tok == token.DEFINE {
				switch {
				case kb:
					v := r.text(x.Value)
					r.rep(x.For, x.X.Pos(), "for "+it+", "+v+" := "+q+"RangeV(")
					r.ins(x.X.End(), "); "+it+".NextV(&"+v+"); ")
				case vb:
					k := r.text(x.Key)
					r.rep(x.For, x.X.Pos(), "for "+it+", "+k+" := "+q+"RangeK(")
					r.ins(x.X.End(), "); "+it+".NextK(&"+k+"); ")
				default:
					k, v := r.text(x.Key), r.text(x.Value)
					r.rep(x.For, x.X.Pos(), "for "+it+", "+k+", "+v+" := "+q+"Range(")
					r.ins(x.X.End(), "); "+it+".Next(&"+k+", &"+v+"); ")
				}
			} else if (kb || addressable(x.Key, r.info)) && (vb || addressable(x.Value, r.info)) {
				k, v := "nil", "nil"
				if !kb {
					k = "&" + r.text(x.Key)
				}
				if !vb {
					v = "&" + r.text(x.Value)
				}
				r.rep(x.For, x.X.Pos(), "for "+it+" := "+q+"RangeI(")
				r.ins(x.X.End(), "); "+it+".Next("+k+", "+v+"); ")
			}
			r.ins(x.Body.Lbrace+1, " "+q+"Y();")
		default:
			r.ins(x.Body.Lbrace+1, " "+q+"Y();")
		}
	case *ast.SelectorExpr:
		id, ok := x.X.(*ast.Ident)
		if !ok {
			return
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			return
		}
		if to, ok := repl[pn.Imported().Path()][x.Sel.Name]; ok {
			count(pn.Imported().Path() + "." + x.Sel.Name)
			r.rep(x.Pos(), x.End(), q+to)
			r.used[pn]--
		}
		if pn.Imported().Path() == "maps" && (x.Sel.Name == "Keys" || x.Sel.Name == "Values" || x.Sel.Name == "All") {
			count("maps." + x.Sel.Name + " (not instrumented)")
		}
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		if !ok {
			return
		}
		b, ok := r.info.Uses[id].(*types.Builtin)
		if !ok {
			return
		}
		switch b.Name() {
		case "recover":
			r.ins(x.Pos(), q+"Recover(")
			r.ins(x.End(), ")")
			count("recover")
		case "make":
			if len(x.Args) > 1 {
				if _, isChan := r.under(x.Args[0]).(*types.Chan); isChan {
					return
				}
				last := x.Args[len(x.Args)-1]
				for _, a := range x.Args[1:] {
					if tv, ok := r.info.Types[a]; ok && tv.Value == nil {
						r.ins(a.Pos(), q+"Sz(")
						r.ins(a.End(), ")")
						count("make size")
					}
				}
				_ = last
			} else if len(x.Args) == 1 {
				if _, isChan := r.under(x.Args[0]).(*types.Chan); isChan {
					// rendezvous channels become one-slot channels
					r.ins(x.Args[0].End(), ", 1")
					count("make chan")
				}
			}
		}
	case *ast.GoStmt:
		count("go statement")
		c := x.Call
		if len(c.Args) == 0 {
			r.rep(x.Go, c.Pos(), "{ simFn := ")
			r.rep(c.Lparen, c.Rparen+1, "; "+q+"Go(func() { simFn() }) }")
			return
		}
		var as []string
		for i := range c.Args {
			as = append(as, fmt.Sprintf("simA%d", i))
		}
		call := strings.Join(as, ", ")
		ell := ""
		if c.Ellipsis.IsValid() {
			ell = "..."
		}
		r.rep(x.Go, c.Pos(), "{ simFn := ")
		r.rep(c.Lparen, c.Lparen+1, "; "+call+" := ")
		r.rep(c.Args[len(c.Args)-1].End(), c.Rparen+1, "; "+q+"Go(func() { simFn("+call+ell+") }) }")
	case *ast.SendStmt:
		if inComm(n, parents) {
			return
		}
		count("chan send")
		r.ins(x.Pos(), q+"Send(")
		r.rep(x.Arrow, x.Arrow+2, ",")
		r.ins(x.End(), ")")
	case *ast.UnaryExpr:
		if x.Op != token.ARROW || inComm(n, parents) {
			return
		}
		count("chan receive")
		name := "Recv("
		switch p := parent.(type) {
		case *ast.AssignStmt:
			if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
				name = "Recv2("
			}
		case *ast.ValueSpec:
			if len(p.Names) == 2 && len(p.Values) == 1 {
				name = "Recv2("
			}
		}
		r.rep(x.OpPos, x.OpPos+2, q+name)
		r.ins(x.End(), ")")
	case *ast.SelectStmt:
		def := false
		for _, s := range x.Body.List {
			if s.(*ast.CommClause).Comm == nil {
				def = true
			}
		}
		if !def {
			count("select")
			r.n++
			lab := fmt.Sprintf("simL%d", r.n)
			at := x.Pos()
			if ls, ok := parent.(*ast.LabeledStmt); ok {
				at = ls.Pos()
			}
			r.ins(at, lab+": ; ")
			r.ins(x.Body.Rbrace, "default: "+q+"Blocked(\"select\"); goto "+lab+"; ")
		}
	}
}

func inComm(n ast.Node, parents []ast.Node) bool {
	for i := len(parents) - 1; i >= 0; i-- {
		if c, ok := parents[i].(*ast.CommClause); ok {
			return c.Comm != nil && n.Pos() >= c.Comm.Pos() && n.End() <= c.Comm.End()
		}
		switch parents[i].(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		}
	}
	return false
}

func main() {
	repo := flag.String("repo", "/repo", "module under test")
	out := flag.String("out", "", "output directory")
	rt := flag.String("rt", "", "runtime sources")
	raceOverlay := flag.Bool("racepool", false, "disable sync.Pool in the race build")
	flag.Parse()
	_ = raceOverlay
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "simgen: go list:", err)
		os.Exit(3)
	}
	exports := map[string]string{}
	var pkgs []listPkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fmt.Fprintln(os.Stderr, "simgen:", err)
			os.Exit(3)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == mod && !strings.HasPrefix(p.ImportPath, mod+"/examples") && !strings.HasPrefix(p.ImportPath, mod+"/tests") {
			pkgs = append(pkgs, p)
		}
	}
	overlay := map[string]string{}
	must(os.RemoveAll(*out))
	must(os.MkdirAll(*out, 0755))
	rts, _ := filepath.Glob(filepath.Join(*rt, "*.go"))
	for _, f := range rts {
		overlay[filepath.Join(*repo, "zz_simrt", filepath.Base(f))] = f
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for _, p := range pkgs {
		p := p
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			res := rewrite(p, exports)
			rel, _ := filepath.Rel(*repo, p.Dir)
			for name, src := range res {
				dst := filepath.Join(*out, "src", rel, name)
				must(os.MkdirAll(filepath.Dir(dst), 0755))
				must(os.WriteFile(dst, src, 0644))
				mu.Lock()
				overlay[filepath.Join(p.Dir, name)] = dst
				mu.Unlock()
				if p.Name == "main" && p.ImportPath == mod+"/cmd/pdfer" {
					c := bytes.Replace(src, []byte("package main"), []byte("package zz_cli"), 1)
					c = bytes.Replace(c, []byte("func main()"), []byte("func Main()"), 1)
					dst := filepath.Join(*out, "src", "zz_cli", name)
					must(os.MkdirAll(filepath.Dir(dst), 0755))
					must(os.WriteFile(dst, c, 0644))
					mu.Lock()
					overlay[filepath.Join(*repo, "zz_cli", name)] = dst
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	writeOverlay(filepath.Join(*out, "overlay.json"), overlay)
	// the race build also runs without sync.Pool: its race-mode behaviour is
	// random and its hand-overs would order tasks that nothing else orders
	goroot := strings.TrimSpace(run("go", "env", "GOROOT"))
	pool := filepath.Join(goroot, "src", "sync", "pool.go")
	src, err := os.ReadFile(pool)
	must(err)
	s := string(src)
	s = strings.Replace(s, "func (p *Pool) Put(x any) {", "func (p *Pool) Put(x any) {\n\tif race.Enabled {\n\t\treturn\n\t}", 1)
	s = strings.Replace(s, "func (p *Pool) Get() any {", "func (p *Pool) Get() any {\n\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}", 1)
	dst := filepath.Join(*out, "pool.go")
	must(os.WriteFile(dst, []byte(s), 0644))
	overlay[pool] = dst
	writeOverlay(filepath.Join(*out, "overlay_race.json"), overlay)
	j, _ := json.MarshalIndent(stats.m, "", " ")
	must(os.WriteFile(filepath.Join(*out, "stats.json"), j, 0644))
}

func run(name string, args ...string) string {
	b, err := exec.Command(name, args...).Output()
	must(err)
	return string(b)
}

func writeOverlay(p string, m map[string]string) {
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": m}, "", " ")
	must(err)
	must(os.WriteFile(p, b, 0644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "simgen:", err)
		os.Exit(3)
	}
}

func rewrite(p listPkg, exports map[string]string) map[string][]byte {
	fset := token.NewFileSet()
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		must(err)
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		must(err)
		files = append(files, af)
		srcs[af] = src
		names[af] = f
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
	}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		fmt.Fprintln(os.Stderr, "simgen: type check", p.ImportPath, err)
		os.Exit(3)
	}
	out := map[string][]byte{}
	for _, af := range files {
		r := &rewriter{fset: fset, info: info, src: srcs[af], file: fset.File(af.Pos()), used: map[*types.PkgName]int{}}
		ast.Inspect(af, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok {
					r.used[pn]++
				}
			}
			return true
		})
		var stack []ast.Node
		ast.Inspect(af, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			r.visit(n, stack)
			stack = append(stack, n)
			return true
		})
		// imports left without a use
		for _, im := range af.Imports {
			var pn *types.PkgName
			if im.Name != nil {
				pn, _ = info.Defs[im.Name].(*types.PkgName)
			} else {
				pn, _ = info.Implicits[im].(*types.PkgName)
			}
			if pn == nil {
				continue
			}
			if left, ok := r.used[pn]; ok && left == 0 {
				if im.Name != nil {
					r.rep(im.Name.Pos(), im.Name.End(), "_")
				} else {
					r.ins(im.Path.Pos(), "_ ")
				}
			}
		}
		r.ins(af.Name.End(), "; import zz_simrt \""+rtPath+"\"")
		out[names[af]] = append(r.apply(), "\nvar _ = zz_simrt.Steps\n"...)
	}
	return out
}
