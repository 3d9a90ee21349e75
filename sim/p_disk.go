package main

// C10: extraction to a directory under disk faults and crashes.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"strings"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/types"
	rt "github.com/benedoc-inc/pdfer/zz_simrt"
)

const outDir = "/work/out/deep"

// diskWant is what a complete directory holds.
type diskWant struct {
	doc    *types.ContentDocument
	imgs   []types.Image
	nimg   int
	chars  int
	text   bool
	pages  []string // JSON of each page without its images
	names  []string
	failed bool
}

func wantOf(c *Ctx, data, pass []byte) *diskWant {
	w := &diskWant{}
	var err, err2 error
	if !c.Call("ExtractContent", func() { w.doc, err = extract.ExtractContent(data, pass, false) }) ||
		!c.Call("ExtractAllImages", func() { w.imgs, err2 = extract.ExtractAllImages(data, pass, false) }) {
		return nil
	}
	if err != nil || err2 != nil {
		w.failed = true
		return w
	}
	for _, im := range w.imgs {
		if len(im.Data) > 0 {
			w.nimg++
		}
	}
	for _, p := range w.doc.Pages {
		for _, t := range p.Text {
			w.chars += len(t.Text)
			w.text = true
		}
	}
	return w
}

// complete compares the directory with what it has to hold. strict is false when only
// "nothing is missing" can be asked.
func (w *diskWant) complete(c *Ctx, fs *rt.FS, when string) *extract.ExtractedContent {
	js, ok := fs.Get(path.Join(outDir, "content.json"))
	if !ok {
		c.Fail("no structure", "%s: content.json is missing", when)
		return nil
	}
	var got extract.ExtractedContent
	if err := json.Unmarshal(js, &got); err != nil {
		c.Fail("structure", "%s: content.json is not complete: %v", when, err)
		return nil
	}
	if len(got.Pages) != len(w.doc.Pages) {
		c.Fail("pages", "%s: content.json has %d pages, the document %d", when, len(got.Pages), len(w.doc.Pages))
		return nil
	}
	for i, p := range w.doc.Pages {
		g := got.Pages[i]
		if len(g.ImageRefs) != len(p.Images) {
			c.Fail("page images", "%s: page %d shows %d images, not %d", when, i+1, len(g.ImageRefs), len(p.Images))
			return nil
		}
		for k, r := range p.Images {
			x := g.ImageRefs[k]
			if x.ImageID != r.ImageID || x.X != r.X || x.Y != r.Y || x.Width != r.Width || x.Height != r.Height || x.Transform != r.Transform {
				c.Fail("page images", "%s: page %d image %d is %+v, not %+v", when, i+1, k, x, r)
				return nil
			}
		}
		a := extract.ExtractedPage{PageNumber: p.PageNumber, Width: p.Width, Height: p.Height, Rotation: p.Rotation,
			MediaBox: p.MediaBox, CropBox: p.CropBox, Text: p.Text, Graphics: p.Graphics, Annotations: p.Annotations, Resources: p.Resources}
		g.ImageRefs = nil
		if x, y := mustJSON(viaJSON(a)), mustJSON(viaJSON(g)); x != y {
			c.Fail("pages", "%s: page %d in content.json: %s", when, i+1, around(y, x))
			return nil
		}
	}
	for _, x := range []struct {
		what string
		a, b interface{}
	}{{"metadata", w.doc.Metadata, got.Metadata}, {"bookmarks", w.doc.Bookmarks, got.Bookmarks}, {"fonts", w.doc.Fonts, got.Fonts}} {
		if a, b := mustJSON(viaJSON(x.a)), mustJSON(viaJSON(x.b)); a != b && !(emptyJSON(a) && emptyJSON(b)) {
			c.Fail("document", "%s: %s in content.json: %s", when, x.what, around(b, a))
			return nil
		}
	}
	if m := w.doc.Metadata; m != nil && (got.PDFVersion != m.PDFVersion || got.IsEncrypted != m.Encrypted) {
		c.Fail("document", "%s: content.json says version %q encrypted %v", when, got.PDFVersion, got.IsEncrypted)
	}
	if len(got.Images) != w.nimg {
		c.Fail("images", "%s: content.json lists %d images, the document has %d", when, len(got.Images), w.nimg)
		return nil
	}
	seen := map[string]bool{}
	n := 0
	for _, im := range w.imgs {
		if len(im.Data) == 0 {
			continue
		}
		g := got.Images[n]
		n++
		ext := map[string]string{"jpeg": ".jpg", "png": ".png", "tiff": ".tif", "jpeg2000": ".jp2"}[im.Format]
		if ext == "" {
			ext = ".bin"
		}
		if seen[g.Filename] || !strings.HasPrefix(g.Filename, "images/") || strings.Contains(g.Filename, "..") || path.Ext(g.Filename) != ext {
			c.Fail("images", "%s: image %d has the file name %q", when, n, g.Filename)
			return nil
		}
		seen[g.Filename] = true
		data, ok := fs.Get(path.Join(outDir, g.Filename))
		if !ok {
			c.Fail("image file", "%s: %s is named in content.json but is missing", when, g.Filename)
			return nil
		}
		if !bytes.Equal(data, im.Data) {
			c.Fail("image file", "%s: %s has %d bytes that are not the %d of the image", when, g.Filename, len(data), len(im.Data))
			return nil
		}
		if g.ID != im.ID || g.Width != im.Width || g.Height != im.Height || g.Format != im.Format || g.Size != len(im.Data) || g.ColorSpace != im.ColorSpace || g.Filter != im.Filter {
			c.Fail("images", "%s: image %d is described as %+v", when, n, g)
			return nil
		}
	}
	s := got.Summary
	if s.PageCount != len(w.doc.Pages) || s.TextCharCount != w.chars || s.HasText != w.text || s.ImageCount != len(w.imgs) ||
		s.HasImages != (len(w.imgs) > 0) || s.HasBookmarks != (len(w.doc.Bookmarks) > 0) ||
		s.IsScannedPDF != (len(w.imgs) > 0 && !w.text && len(w.doc.Pages) > 0) {
		c.Fail("summary", "%s: the summary is %+v for %d pages, %d characters, %d images", when, s, len(w.doc.Pages), w.chars, len(w.imgs))
	}
	return &got
}

func emptyJSON(s string) bool { return s == "null" || s == "[]" || s == "{}" }

func viaJSON(v interface{}) (out interface{}) {
	json.Unmarshal([]byte(mustJSON(v)), &out)
	return
}

func (w *diskWant) output(c *Ctx, o *extract.DirectoryOutput, got *extract.ExtractedContent) {
	if o == nil {
		c.Fail("output", "success without a result")
		return
	}
	var files []string
	for _, im := range got.Images {
		files = append(files, path.Join(outDir, im.Filename))
	}
	s := got.Summary
	if path.Clean(o.Path) != outDir || o.StructureFile != path.Join(outDir, "content.json") || strings.Join(o.ImageFiles, " ") != strings.Join(files, " ") ||
		o.PageCount != s.PageCount || o.ImageCount != s.ImageCount || o.TextCharCount != s.TextCharCount || o.HasText != s.HasText ||
		o.HasImages != s.HasImages || o.IsScannedPDF != s.IsScannedPDF {
		c.Fail("output", "the result %+v does not fit the summary %+v", *o, s)
	}
}

func execDisk(c *Ctx) {
	c.limit = 400_000_000
	disk := c.sc.Disk
	c.fs = rt.NewFS()
	fs := c.fs
	c.Begin()
	defer c.End()

	// documents: the ops are split at "next"
	var docs [][]Op
	cur := []Op{}
	for _, o := range c.sc.Ops {
		if o.K == "next" {
			docs = append(docs, cur)
			cur = nil
			continue
		}
		cur = append(cur, o)
	}
	docs = append(docs, cur)

	type input struct {
		data, pass []byte
		want       *diskWant
	}
	var ins []input
	for i, ops := range docs {
		b := buildPages(ops)
		in := input{data: b.b}
		if b.enc != nil {
			in.pass = []byte(b.pass[0])
		}
		if i == len(docs)-1 {
			for k, f := range c.sc.Faults {
				if k == 0 {
					in.data, _ = tear(b.docBuilder, f)
				}
			}
			if c.sc.P["wrong"] != 0 {
				in.pass = []byte("surely not this one")
			}
		}
		if in.want = wantOf(c, in.data, in.pass); in.want == nil {
			return
		}
		ins = append(ins, in)
	}

	fs.Put("/work/note.txt", []byte("somebody else's file"))
	fs.Put("/work/out/content.json", []byte("{\"mine\":1}"))
	fs.PutDir("/work/empty")
	for i, in := range ins {
		fs.Put(fmt.Sprintf("/work/in%d.pdf", i), in.data)
	}
	if c.sc.P["there"] != 0 {
		fs.Put(outDir+"/images/keep.me", []byte("kept"))
		fs.Put(outDir+"/keep.too", []byte("kept"))
	}
	before := map[string]string{}
	for _, f := range fs.Files() {
		d, _ := fs.Get(f)
		before[f] = string(d)
	}
	bystanders := func(when string) {
		for f, d := range before {
			if g, ok := fs.Get(f); !ok || string(g) != d {
				c.Fail("bystander", "%s: the file %s was changed", when, f)
			}
		}
		for _, f := range fs.Files() {
			if _, ok := before[f]; !ok && !strings.HasPrefix(f, outDir+"/") {
				c.Fail("bystander", "%s: the file %s appeared outside the output directory", when, f)
			}
		}
	}
	dir := outDir
	if c.sc.P["slash"] != 0 {
		dir += "/"
	}
	run := func(i int) (o *extract.DirectoryOutput, err error, st Stop) {
		in := ins[i]
		st = Guard(func() {
			if c.sc.P["file"] != 0 {
				o, err = extract.ExtractToDirectoryFromFile(fmt.Sprintf("/work/in%d.pdf", i), in.pass, dir, false)
			} else {
				data := append([]byte(nil), in.data...)
				o, err = extract.ExtractToDirectory(data, in.pass, dir, false)
				if !bytes.Equal(data, in.data) {
					c.Fail("input", "the caller's document was changed")
				}
			}
		})
		return
	}

	last := len(ins) - 1
	for i := 0; i < last; i++ {
		// an earlier extraction into the same directory, undisturbed
		o, err, st := run(i)
		if !c.Judge("ExtractToDirectory", st) {
			return
		}
		if ins[i].want.failed {
			continue
		}
		if err != nil {
			c.Fail("refused", "ExtractToDirectory: %v", err)
			return
		}
		if got := ins[i].want.complete(c, fs, "first extraction"); got != nil {
			ins[i].want.output(c, o, got)
		}
	}
	w := ins[last].want
	fired := func() int {
		n := 0
		for _, k := range fs.Fired {
			n += k
		}
		return n
	}
	fs.SetFaults(disk)
	if p := c.sc.P["capacity"]; p > 0 {
		fs.SetCapacity(int(p))
	}
	o, err, st := run(last)
	c.Shape(fired(), len(disk), st.Kind, err != nil, len(ins), w.nimg, fs.Count(""), fmt.Sprint(fs.Fired))
	c.Sig(fmt.Sprint(fs.Log), fmt.Sprint(err))
	c.res.Nontrivial = !w.failed
	switch {
	case st.Kind == "crash":
		rt.Revive()
		bystanders("after the crash")
		// a structure file that can be read must not lead to anything missing
		js, ok := fs.Get(outDir + "/content.json")
		var any interface{}
		if ok && json.Unmarshal(js, &any) == nil {
			if w.failed {
				if last == 0 {
					c.Fail("refused", "a document that cannot be read left a content.json")
				}
			} else {
				ok := false
				for i := range ins {
					probe := &Ctx{sc: c.sc, res: &Result{}}
					if ins[i].want.failed {
						continue
					}
					if ins[i].want.complete(probe, fs, ""); !probe.Failed() {
						ok = true
					} else if i == last && !ok {
						c.Fail("crash", "after a crash (%v) content.json can be read but the directory is not complete: %s", st.Val, probe.res.Fails[0].Text)
					}
				}
			}
		}
	case !c.Judge("ExtractToDirectory", st):
		return
	case err != nil:
		if fired() == 0 && !w.failed {
			c.Fail("refused", "ExtractToDirectory: %v", err)
			return
		}
		if o != nil {
			c.Fail("result", "an error and a result")
		}
		bystanders("after the error")
		if w.failed && last == 0 {
			if _, ok := fs.Get(outDir + "/content.json"); ok {
				c.Fail("refused", "a document that cannot be read left a content.json")
			}
		}
	default:
		if w.failed {
			c.Fail("refused", "a document that ExtractContent refuses was extracted")
			return
		}
		bystanders("after the extraction")
		if got := w.complete(c, fs, "reported as done"); got != nil {
			w.output(c, o, got)
		}
	}
	if c.Failed() || w.failed {
		return
	}
	// the disk works again: extracting once more completes the directory
	fs.SetFaults(nil)
	fs.SetCapacity(0)
	o, err, st = run(last)
	if !c.Judge("ExtractToDirectory", st) {
		return
	}
	if err != nil {
		c.Fail("retry", "after the faults stopped: %v", err)
		return
	}
	bystanders("after the retry")
	if got := w.complete(c, fs, "after the retry"); got != nil {
		w.output(c, o, got)
	}
}

func genDisk(r *Rng, sc *Scenario, i int) {
	one := func() {
		ops := genPageOps(r, 4, true)
		ops[0].A = append(ops[0].A, 0, 1)[:3]
		sc.Ops = append(sc.Ops, ops...)
	}
	if r.P(35) {
		one()
		sc.Ops = append(sc.Ops, Op{K: "next"})
	}
	one()
	for _, k := range []string{"file", "there", "slash"} {
		if r.P(40) {
			sc.P[k] = 1
		}
	}
	if r.P(5) {
		sc.P["wrong"] = 1
	}
	if r.P(10) {
		sc.Faults = append(sc.Faults, Fault{K: r.Pick("cut", "zero", "junk"), A: []int64{int64(r.N(1001)), int64(r.U64() >> 20), int64(r.N(3))}})
	}
	fault := func() {
		f := rt.FSFault{N: r.In(1, 4), Arg: r.N(1001)}
		switch r.N(8) {
		case 0:
			f.Op, f.Kind, f.N = "mkdir", r.Pick("enospc", "eacces", "eio", "crash", "crashafter"), r.In(1, 2)
		case 1:
			f.Op, f.Kind = "create", r.Pick("enospc", "eacces", "eio", "crash", "crashafter")
		case 2:
			f.Op, f.Kind = "close", r.Pick("eio", "enospc", "crash")
		case 3:
			f.Op, f.Kind, f.N = "read", r.Pick("eio", "shortread", "shortread"), r.In(1, 3)
		case 4:
			f.Op, f.Kind, f.N = "open", r.Pick("eacces", "eio"), 1
		case 5:
			f.Op, f.Kind, f.N = "", r.Pick("crash", "crashafter", "eio", "enospc"), r.In(1, 20)
		default:
			f.Op, f.Kind = "write", r.Pick("enospc", "eio", "short", "torn", "crash", "crash", "crashafter")
		}
		if r.P(20) {
			f.N = r.In(1, 12)
		}
		sc.Disk = append(sc.Disk, f)
	}
	if r.P(85) {
		fault()
		if r.P(25) {
			fault()
		}
	}
	if r.P(12) {
		sc.P["capacity"] = int64(1 + r.N(60000))
	}
}

func init() {
	register(&Prop{
		ID: "C10", Level: "exploration",
		Gen: genDisk, Exec: execDisk,
		Quick: 4000, Thorough: 200000,
		Rule: "one evaluation is one simulated extraction of a generated document to a directory on the simulated disk, with its faults, a possible crash, a look at what is on the disk, and a second extraction after the faults stopped; it counts as non-trivial when the document can be read",
		Real: []string{"content/extract (ExtractToDirectory)", "core/parse", "core/encrypt"},
		Stub: []string{"the disk (in memory, with errors, short and torn writes, a full disk and crashes)", "the writer of the input documents (independent)", "map iteration order"},
	})
}
