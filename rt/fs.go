package zz_simrt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FSFault is one fault of the simulated disk.
type FSFault struct {
	Op   string `json:"op"`   // operation class: mkdir write read create close rename remove sync stat; "" any
	N    int    `json:"n"`    // the n-th operation of that class (1-based)
	Kind string `json:"kind"` // enospc eio eacces short torn crash crashafter shortread
	Arg  int    `json:"arg"`  // bytes that reach the disk before a short, torn or crashed write (permille of the write)
}

// FS is the simulated disk: an in-memory tree behind every file operation of
// the program under test.
type FS struct {
	nodes  map[string]*node
	faults []FSFault
	count  map[string]int
	ops    int
	Fired  map[string]int
	Log    []string
	// FiredAt names the file of every fault that was injected.
	FiredAt []string
	Cwd     string
	// Capacity is the number of bytes the disk holds; 0: unlimited.
	Capacity int
	used     int
	Stdout   strings.Builder
	tmp      int
}

type node struct {
	dir  bool
	data []byte
	mode os.FileMode
	mod  time.Time
}

// NewFS makes an empty disk.
func NewFS(faults ...FSFault) *FS {
	return &FS{nodes: map[string]*node{"/": {dir: true, mode: 0755}}, faults: faults,
		count: map[string]int{}, Fired: map[string]int{}, Cwd: "/work"}
}

func (f *FS) abs(p string) string {
	if p == "" {
		return ""
	}
	if !path.IsAbs(p) {
		p = path.Join(f.Cwd, p)
	}
	return path.Clean(p)
}

// Put places a file (and its parents) without going through the fault layer.
func (f *FS) Put(p string, data []byte) {
	p = f.abs(p)
	f.mkAll(path.Dir(p))
	if n := f.nodes[p]; n != nil {
		f.used -= len(n.data)
	}
	f.nodes[p] = &node{data: append([]byte(nil), data...), mode: 0644}
	f.used += len(data)
}

// PutDir places a directory.
func (f *FS) PutDir(p string) { f.mkAll(f.abs(p)) }

func (f *FS) mkAll(p string) {
	for q := p; ; q = path.Dir(q) {
		if f.nodes[q] == nil {
			f.nodes[q] = &node{dir: true, mode: 0755}
		}
		if q == "/" {
			return
		}
	}
}

// Get reads a file without going through the fault layer.
func (f *FS) Get(p string) ([]byte, bool) {
	n := f.nodes[f.abs(p)]
	if n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// IsDir reports whether p is a directory.
func (f *FS) IsDir(p string) bool { n := f.nodes[f.abs(p)]; return n != nil && n.dir }

// Files lists all files in order.
func (f *FS) Files() []string {
	var out []string
	for p, n := range f.nodes {
		if !n.dir {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// Dirs lists all directories in order.
func (f *FS) Dirs() []string {
	var out []string
	for p, n := range f.nodes {
		if n.dir {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// SetFaults replaces the fault plan and restarts the operation counts.
func (f *FS) SetFaults(faults []FSFault) {
	f.faults = faults
	f.count = map[string]int{}
}

// Count is the number of operations of a class so far.
func (f *FS) Count(op string) int { return f.count[op] }

var errDead = errors.New("process is gone")

func (f *FS) op(class, p string) *FSFault {
	f.ops++
	f.count[class]++
	f.count[""]++
	if len(f.Log) < 400 {
		f.Log = append(f.Log, class+" "+p)
	}
	Y()
	for i := range f.faults {
		ft := &f.faults[i]
		if (ft.Op == class && ft.N == f.count[class]) || (ft.Op == "" && ft.N == f.count[""]) {
			f.Fired[class+":"+ft.Kind]++
			f.FiredAt = append(f.FiredAt, p)
			return ft
		}
	}
	return nil
}

func perr(op, p string, err error) error { return &os.PathError{Op: op, Path: p, Err: err} }

func faultErr(op, p string, ft *FSFault) error {
	switch ft.Kind {
	case "enospc":
		return perr(op, p, syscall.ENOSPC)
	case "eacces":
		return perr(op, p, syscall.EACCES)
	case "short", "torn", "eio", "shortread":
		return perr(op, p, syscall.EIO)
	case "crash", "crashafter":
		crash(op + " " + p)
	}
	return perr(op, p, syscall.EIO)
}

//go:norace
func crash(at string) {
	dead = true
	panic(Crash{At: at})
}

//go:norace
func isDead() bool { return dead }

func (f *FS) parentOK(op, p string) error {
	d := path.Dir(p)
	n := f.nodes[d]
	if n == nil {
		return perr(op, p, syscall.ENOENT)
	}
	if !n.dir {
		return perr(op, p, syscall.ENOTDIR)
	}
	return nil
}

func (f *FS) mkdirAll(p0 string, mode os.FileMode) error {
	if isDead() {
		return errDead
	}
	if ft := f.op("mkdir", p0); ft != nil && ft.Kind != "crashafter" {
		return faultErr("mkdir", p0, ft)
	} else if ft != nil {
		defer crash("after mkdir " + p0)
	}
	p := f.abs(p0)
	if p == "" {
		return perr("mkdir", p0, syscall.ENOENT)
	}
	for q := p; q != "/"; q = path.Dir(q) {
		if n := f.nodes[q]; n != nil && !n.dir {
			return perr("mkdir", p0, syscall.ENOTDIR)
		}
	}
	f.mkAll(p)
	return nil
}

// File replaces os.File.
type File struct {
	f     *FS
	name  string
	p     string
	off   int64
	flag  int
	close bool
	real  *os.File
}

// Stdin, Stdout and Stderr replace the os variables.
var (
	Stdin  = &File{real: os.Stdin, name: "/dev/stdin"}
	Stdout = &File{real: os.Stdout, name: "/dev/stdout"}
	Stderr = &File{real: os.Stderr, name: "/dev/stderr"}
)

var captured = map[*File]io.Writer{}

// Capture sends what the program prints to out and err; nil: to the real ones.
func Capture(out, err io.Writer) {
	delete(captured, Stdout)
	delete(captured, Stderr)
	if out != nil {
		captured[Stdout] = out
	}
	if err != nil {
		captured[Stderr] = err
	}
}

// FmtPrint replaces fmt.Print.
func FmtPrint(a ...interface{}) (int, error) { return fmt.Fprint(Stdout, a...) }

// FmtPrintf replaces fmt.Printf.
func FmtPrintf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(Stdout, f, a...) }

// FmtPrintln replaces fmt.Println.
func FmtPrintln(a ...interface{}) (int, error) { return fmt.Fprintln(Stdout, a...) }

func (f *FS) open(name string, flag int, perm os.FileMode) (*File, error) {
	if isDead() {
		return nil, errDead
	}
	class := "open"
	if flag&os.O_CREATE != 0 {
		class = "create"
	}
	ft := f.op(class, name)
	if ft != nil && ft.Kind != "crashafter" {
		return nil, faultErr("open", name, ft)
	}
	p := f.abs(name)
	n := f.nodes[p]
	if p == "" || n == nil && flag&os.O_CREATE == 0 {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if n == nil {
		if err := f.parentOK("open", p); err != nil {
			return nil, err
		}
		n = &node{mode: perm}
		f.nodes[p] = n
	} else if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if n.dir && flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 {
		f.used -= len(n.data)
		n.data = nil
	}
	if ft != nil {
		crash("after open " + name)
	}
	return &File{f: f, name: name, p: p, flag: flag}, nil
}

func (fl *File) Name() string { return fl.name }
func (fl *File) Fd() uintptr  { return 3 }

func (fl *File) Write(b []byte) (int, error) {
	if fl == nil {
		return 0, os.ErrInvalid
	}
	if fl.real != nil {
		if w := captured[fl]; w != nil {
			return w.Write(b)
		}
		switch fl { // the variables may have been changed
		case Stdout:
			return os.Stdout.Write(b)
		case Stderr:
			return os.Stderr.Write(b)
		}
		return fl.real.Write(b)
	}
	if isDead() {
		return 0, errDead
	}
	if fl.close {
		return 0, perr("write", fl.name, os.ErrClosed)
	}
	if fl.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", fl.name, syscall.EBADF)
	}
	f := fl.f
	ft := f.op("write", fmt.Sprintf("%s %d", fl.name, len(b)))
	n := f.nodes[fl.p]
	if n == nil {
		// unlinked: the bytes go nowhere
		return len(b), nil
	}
	keep := len(b)
	if ft != nil {
		switch ft.Kind {
		case "short", "torn", "crash", "enospc":
			keep = len(b) * ft.Arg / 1000
			if keep >= len(b) && len(b) > 0 {
				keep = len(b) - 1
			}
		case "crashafter":
		default:
			keep = 0
		}
	}
	full := false
	if f.Capacity > 0 && f.used+keep > f.Capacity {
		keep = f.Capacity - f.used
		if keep < 0 {
			keep = 0
		}
		full = true
	}
	if fl.flag&os.O_APPEND != 0 {
		fl.off = int64(len(n.data))
	}
	end := int(fl.off) + keep
	if end > len(n.data) {
		f.used += end - len(n.data)
		n.data = append(n.data, make([]byte, end-len(n.data))...)
	}
	copy(n.data[fl.off:], b[:keep])
	fl.off += int64(keep)
	if ft != nil {
		if ft.Kind == "crashafter" {
			crash("after write " + fl.name)
		}
		return keep, faultErr("write", fl.name, ft)
	}
	if full {
		f.Fired["write:full"]++
		f.FiredAt = append(f.FiredAt, fl.name)
		return keep, perr("write", fl.name, syscall.ENOSPC)
	}
	return keep, nil
}

func (fl *File) WriteString(s string) (int, error) { return fl.Write([]byte(s)) }

func (fl *File) Read(b []byte) (int, error) {
	if fl == nil {
		return 0, os.ErrInvalid
	}
	if fl.real != nil {
		return fl.real.Read(b)
	}
	if isDead() {
		return 0, errDead
	}
	if fl.close {
		return 0, perr("read", fl.name, os.ErrClosed)
	}
	ft := fl.f.op("read", fl.name)
	n := fl.f.nodes[fl.p]
	if n == nil {
		return 0, io.EOF
	}
	if n.dir {
		return 0, perr("read", fl.name, syscall.EISDIR)
	}
	if ft != nil && ft.Kind != "shortread" && ft.Kind != "short" {
		return 0, faultErr("read", fl.name, ft)
	}
	if fl.off >= int64(len(n.data)) {
		return 0, io.EOF
	}
	if ft != nil && len(b) > 1 {
		b = b[:1+(len(b)-1)*ft.Arg/1000]
	}
	c := copy(b, n.data[fl.off:])
	fl.off += int64(c)
	return c, nil
}

func (fl *File) ReadAt(b []byte, off int64) (int, error) {
	save := fl.off
	fl.off = off
	n, err := io.ReadFull(fl, b)
	fl.off = save
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}

func (fl *File) WriteAt(b []byte, off int64) (int, error) {
	save := fl.off
	fl.off = off
	n, err := fl.Write(b)
	fl.off = save
	return n, err
}

func (fl *File) Seek(off int64, whence int) (int64, error) {
	n := fl.f.nodes[fl.p]
	switch whence {
	case io.SeekCurrent:
		off += fl.off
	case io.SeekEnd:
		if n != nil {
			off += int64(len(n.data))
		}
	}
	if off < 0 {
		return 0, perr("seek", fl.name, syscall.EINVAL)
	}
	fl.off = off
	return off, nil
}

func (fl *File) Truncate(size int64) error {
	n := fl.f.nodes[fl.p]
	if n == nil {
		return nil
	}
	if int64(len(n.data)) > size {
		n.data = n.data[:size]
	} else {
		n.data = append(n.data, make([]byte, size-int64(len(n.data)))...)
	}
	return nil
}

func (fl *File) Sync() error {
	if fl.real != nil || isDead() {
		return nil
	}
	if ft := fl.f.op("sync", fl.name); ft != nil {
		return faultErr("sync", fl.name, ft)
	}
	return nil
}

func (fl *File) Stat() (os.FileInfo, error) { return fl.f.stat(fl.name) }

func (fl *File) Chmod(os.FileMode) error { return nil }

func (fl *File) Close() error {
	if fl == nil {
		return os.ErrInvalid
	}
	if fl.real != nil || isDead() {
		return nil
	}
	if fl.close {
		return perr("close", fl.name, os.ErrClosed)
	}
	fl.close = true
	if ft := fl.f.op("close", fl.name); ft != nil {
		return faultErr("close", fl.name, ft)
	}
	return nil
}

type info struct {
	name string
	n    *node
}

func (i info) Name() string               { return i.name }
func (i info) Size() int64                { return int64(len(i.n.data)) }
func (i info) ModTime() time.Time         { return i.n.mod }
func (i info) IsDir() bool                { return i.n.dir }
func (i info) Sys() interface{}           { return nil }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }
func (i info) Mode() os.FileMode {
	if i.n.dir {
		return i.n.mode | os.ModeDir
	}
	return i.n.mode
}

func (f *FS) stat(name string) (os.FileInfo, error) {
	if isDead() {
		return nil, errDead
	}
	if ft := f.op("stat", name); ft != nil {
		return nil, faultErr("stat", name, ft)
	}
	n := f.nodes[f.abs(name)]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{path.Base(f.abs(name)), n}, nil
}

// ---- the os functions ----

func OsMkdirAll(p string, m os.FileMode) error { return fs_().mkdirAll(p, m) }
func OsMkdir(p string, m os.FileMode) error {
	f := fs_()
	if f.nodes[f.abs(p)] != nil {
		return perr("mkdir", p, syscall.EEXIST)
	}
	if err := f.parentOK("mkdir", f.abs(p)); err != nil {
		return err
	}
	return f.mkdirAll(p, m)
}

func fs_() *FS {
	f := fsCur()
	if f == nil {
		panic("zz_simrt: file operation outside a simulated run")
	}
	return f
}

func OsOpen(name string) (*File, error) { return fs_().open(name, os.O_RDONLY, 0) }
func OsCreate(name string) (*File, error) {
	return fs_().open(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func OsOpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	return fs_().open(name, flag, perm)
}

func OsReadFile(name string) ([]byte, error) {
	fl, err := OsOpen(name)
	if err != nil {
		return nil, err
	}
	defer fl.Close()
	var out []byte
	// the file is read in a few chunks, so that a read fault can hit the middle
	n := fl.f.nodes[fl.p]
	chunk := 512
	if n != nil && len(n.data) > chunk {
		chunk = len(n.data)/2 + 1
	}
	buf := make([]byte, chunk)
	for {
		c, err := fl.Read(buf)
		out = append(out, buf[:c]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func OsWriteFile(name string, data []byte, perm os.FileMode) error {
	fl, err := fs_().open(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = fl.Write(data)
	if err1 := fl.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func OsStat(name string) (os.FileInfo, error)  { return fs_().stat(name) }
func OsLstat(name string) (os.FileInfo, error) { return fs_().stat(name) }

func OsRename(a, b string) error {
	f := fs_()
	if isDead() {
		return errDead
	}
	ft := f.op("rename", a+" "+b)
	if ft != nil && ft.Kind != "crashafter" {
		return faultErr("rename", a, ft)
	}
	pa, pb := f.abs(a), f.abs(b)
	n := f.nodes[pa]
	if n == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if err := f.parentOK("rename", pb); err != nil {
		return err
	}
	if o := f.nodes[pb]; o != nil {
		if o.dir != n.dir {
			return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
		}
		f.used -= len(o.data)
	}
	moved := map[string]*node{}
	for p, x := range f.nodes {
		if p == pa || strings.HasPrefix(p, pa+"/") {
			moved[p] = x
		}
	}
	for p := range moved {
		delete(f.nodes, p)
	}
	for p, x := range moved {
		f.nodes[pb+strings.TrimPrefix(p, pa)] = x
	}
	if ft != nil {
		crash("after rename " + a)
	}
	return nil
}

func OsRemove(name string) error {
	f := fs_()
	if isDead() {
		return errDead
	}
	if ft := f.op("remove", name); ft != nil {
		return faultErr("remove", name, ft)
	}
	p := f.abs(name)
	n := f.nodes[p]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir {
		for q := range f.nodes {
			if strings.HasPrefix(q, p+"/") {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	f.used -= len(n.data)
	delete(f.nodes, p)
	return nil
}

func OsRemoveAll(name string) error {
	f := fs_()
	if isDead() {
		return errDead
	}
	if ft := f.op("remove", name); ft != nil {
		return faultErr("remove", name, ft)
	}
	p := f.abs(name)
	for q, n := range f.nodes {
		if q == p || strings.HasPrefix(q, p+"/") {
			f.used -= len(n.data)
			delete(f.nodes, q)
		}
	}
	return nil
}

func OsReadDir(name string) ([]os.DirEntry, error) {
	f := fs_()
	if isDead() {
		return nil, errDead
	}
	if ft := f.op("readdir", name); ft != nil {
		return nil, faultErr("readdir", name, ft)
	}
	p := f.abs(name)
	if n := f.nodes[p]; n == nil || !n.dir {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var out []os.DirEntry
	for q, n := range f.nodes {
		if q != "/" && path.Dir(q) == p {
			out = append(out, info{path.Base(q), n})
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].Name() < out[b].Name() })
	return out, nil
}

func OsTempDir() string { return "/tmp" }
func OsMkdirTemp(dir, pattern string) (string, error) {
	f := fs_()
	if dir == "" {
		dir = "/tmp"
		f.PutDir(dir)
	}
	f.tmp++
	name := path.Join(dir, tmpName(pattern, f.tmp))
	return name, OsMkdir(name, 0700)
}
func OsCreateTemp(dir, pattern string) (*File, error) {
	f := fs_()
	if dir == "" {
		dir = "/tmp"
		f.PutDir(dir)
	}
	f.tmp++
	return OsOpenFile(path.Join(dir, tmpName(pattern, f.tmp)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}
func tmpName(p string, n int) string {
	if i := strings.LastIndex(p, "*"); i >= 0 {
		return fmt.Sprintf("%s%d%s", p[:i], n, p[i+1:])
	}
	return fmt.Sprintf("%s%d", p, n)
}
func OsGetwd() (string, error)          { return fs_().Cwd, nil }
func OsChdir(d string) error            { f := fs_(); f.Cwd = f.abs(d); return nil }
func OsChmod(string, os.FileMode) error { return nil }
func OsTruncate(name string, n int64) error {
	fl, err := OsOpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	return fl.Truncate(n)
}
func FilepathAbs(p string) (string, error) { return fs_().abs(p), nil }
func FilepathGlob(pattern string) ([]string, error) {
	f := fs_()
	var out []string
	for q := range f.nodes {
		if ok, err := filepath.Match(f.abs(pattern), q); err != nil {
			return nil, err
		} else if ok {
			out = append(out, q)
		}
	}
	sort.Strings(out)
	return out, nil
}
func FilepathWalk(root string, fn filepath.WalkFunc) error {
	f := fs_()
	p := f.abs(root)
	var all []string
	for q := range f.nodes {
		if q == p || strings.HasPrefix(q, p+"/") {
			all = append(all, q)
		}
	}
	sort.Strings(all)
	for _, q := range all {
		if err := fn(q, info{path.Base(q), f.nodes[q]}, nil); err != nil {
			return err
		}
	}
	return nil
}

// SetCapacity leaves n more bytes on the disk; 0: unlimited.
func (f *FS) SetCapacity(n int) {
	f.Capacity = 0
	if n > 0 {
		f.Capacity = f.used + n
	}
}
