// A04: one storage operation of an execution fails; what the calls report, and
// what is left.
package main

import (
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
	"verif/raw"
	"verif/tr"
)

// step is one public call: its answer, and the error it reports.
type step struct {
	name string
	run  func() (string, error)
}

// call runs a step and says whether a storage operation failed during it.
func call(t *h.T, f *mem.File, s step) (out string, err error, hit bool) {
	before := f.Failed
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Failf("%s panics after %d failures: %v", s.name, f.Failed, r)
			}
		}()
		out, err = s.run()
	}()
	hit = f.Failed > before
	if hit && err == nil {
		t.Failf("%s: a storage operation failed and nothing was reported (answer %.200s)", s.name, out)
	}
	if hit {
		t.Count("faults_reported", 1)
	}
	return
}

// points chooses which operations fail: all of a short execution, some of a
// long one.
func points(t *h.T, total, limit int) []int {
	if total <= limit {
		ps := make([]int, total)
		for i := range ps {
			ps[i] = i
		}
		t.Count("executions_enumerated", 1)
		return ps
	}
	seen := map[int]bool{}
	var ps []int
	for len(ps) < limit {
		n := t.R.Intn(total)
		switch t.R.Intn(4) {
		case 0: // the first ones
			n = t.R.Intn(min(total, 60))
		case 1: // the last ones
			n = total - 1 - t.R.Intn(min(total, 60))
		}
		if !seen[n] {
			seen[n] = true
			ps = append(ps, n)
		}
	}
	t.Count("executions_sampled", 1)
	return ps
}

// lookups are calls that only read an index file.
func lookups(f *mem.File, d *dg.Doc, search []string, x *appendable.IndexFile, probes []dg.Val) []step {
	tree := func(lp *linkedpage.LinkedPage, m *appendable.IndexMeta) *bptree.BPTree {
		w := m.Width
		if d.Format == 1 {
			w = 0
		}
		return lp.BPTree(&bptree.BPTree{Data: d.Bytes, DataParser: ix.Handler(d.Format), Width: w})
	}
	all := func(visit func(lp *linkedpage.LinkedPage, m *appendable.IndexMeta) error) error {
		lp, err := x.Indexes()
		for ; err == nil; lp, err = lp.Next() {
			m := &appendable.IndexMeta{}
			if err := lp.UnmarshalMetadata(m); err != nil {
				return err
			}
			if err := visit(lp, m); err != nil {
				return err
			}
		}
		if errors.Is(err, io.EOF) {
			return nil
		}
		return err
	}
	walk := func(name string, forward bool) step {
		return step{name, func() (string, error) {
			out := ""
			err := all(func(lp *linkedpage.LinkedPage, m *appendable.IndexMeta) error {
				from := pointer.ReferencedValue{}
				if !forward {
					from.DataPointer.Offset = math.MaxUint64
					from.Value = []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}
				}
				it, err := tree(lp, m).Iter(from)
				if err != nil {
					return err
				}
				out += fmt.Sprintf("%q %d:", m.FieldName, m.FieldType)
				for {
					if forward && !it.Next() || !forward && !it.Prev() {
						break
					}
					out += fmt.Sprint(it.Key(), it.Pointer())
				}
				return it.Err()
			})
			return out, err
		}}
	}
	steps := []step{
		{"Metadata", func() (string, error) { m, err := x.Metadata(); return fmt.Sprint(m), err }},
		{"IsEmpty", func() (string, error) { v, err := x.IsEmpty(); return fmt.Sprint(v), err }},
		{"IndexFieldNames", func() (string, error) { v, err := x.IndexFieldNames(); return fmt.Sprintf("%q", v), err }},
		{"Collect", func() (string, error) {
			lp, err := x.Indexes()
			if errors.Is(err, io.EOF) {
				return "none", nil
			}
			if err != nil {
				return "", err
			}
			lps, err := lp.Collect()
			return fmt.Sprint(len(lps)), err
		}},
		walk("a walk forward", true),
		walk("a walk backward", false),
		{"opening", func() (string, error) {
			y, err := ix.Open(f, d.Format, search)
			if err != nil {
				return "", err
			}
			v, err := y.IndexFieldNames()
			return fmt.Sprintf("%q", v), err
		}},
		{"synchronizing with nothing new", func() (string, error) { return "", x.Synchronize(d.Bytes) }},
	}
	for _, p := range probes {
		steps = append(steps,
			step{"Find", func() (string, error) {
				out := ""
				err := all(func(lp *linkedpage.LinkedPage, m *appendable.IndexMeta) error {
					k, mp, err := tree(lp, m).Find(pointer.ReferencedValue{Value: []byte(p.Key())})
					out += fmt.Sprint(k, mp)
					return err
				})
				return out, err
			}},
			step{"Contains", func() (string, error) {
				out := ""
				err := all(func(lp *linkedpage.LinkedPage, m *appendable.IndexMeta) error {
					ok, err := tree(lp, m).Contains(pointer.ReferencedValue{Value: []byte(p.Key())})
					out += fmt.Sprint(ok)
					return err
				})
				return out, err
			}},
			step{"FindOrCreateIndex", func() (string, error) {
				name := ""
				if l, err := x.IndexFieldNames(); err != nil {
					return "", err
				} else if len(l) > 0 {
					name = l[len(l)-1]
				} else {
					return "", nil
				}
				var typ appendable.FieldType
				if err := all(func(lp *linkedpage.LinkedPage, m *appendable.IndexMeta) error {
					if m.FieldName == name {
						typ = m.FieldType
					}
					return nil
				}); err != nil {
					return "", err
				}
				_, m, err := x.FindOrCreateIndex(name, typ)
				return fmt.Sprint(m), err
			}})
	}
	return steps
}

func document(t *h.T, lines int) (*dg.Doc, []string) {
	var d *dg.Doc
	var search []string
	if t.R.Intn(3) == 0 {
		d = dg.CSV(t.R, dg.RandCSVConf(t.R), lines)
	} else {
		c := dg.RandConf(t.R)
		c.Lone = false
		c.Names = c.Names[:min(len(c.Names), 5)]
		d = dg.JSONL(t.R, c, lines)
		if t.R.Intn(3) == 0 {
			for _, n := range c.Names {
				if t.R.Intn(2) == 0 {
					search = append(search, n)
				}
			}
			for _, v := range values(d) {
				if d.Expands(v) { // a known finding of C06
					search = nil
				}
			}
		}
	}
	return d, search
}

func values(d *dg.Doc) (vs []dg.Val) {
	for _, l := range d.Lines {
		vs = append(vs, l.Vals...)
	}
	return
}

// reading fails operations of lookups on a finished index.
func reading(t *h.T) {
	d, search := document(t, 1+t.R.Intn(30))
	file := mem.New(nil)
	t.NoErr(ix.Build(file, d.Bytes, d.Format, search), "indexing")
	t.Logf("%q search %q", ix.Head(d.Bytes), search)
	content := string(file.Buf)
	var probes []dg.Val
	if vs := values(d); len(vs) > 0 {
		for i := 0; i < 2; i++ {
			probes = append(probes, vs[t.R.Intn(len(vs))])
		}
	}
	open := func() (*mem.File, []step) {
		f := mem.New([]byte(content))
		x, err := ix.Open(f, d.Format, search)
		t.NoErr(err, "opening")
		return f, lookups(f, d, search, x, probes)
	}
	f, steps := open()
	start := f.Total()
	want := make([]string, len(steps))
	for i, s := range steps {
		var err error
		want[i], err, _ = call(t, f, s)
		t.NoErr(err, "%s", s.name)
	}
	if string(f.Buf) != content {
		t.Failf("lookups changed the file")
	}
	total := f.Total()
	t.Max("max_operations", total-start)
	for _, p := range points(t, total-start, t.N(120, 2000)) {
		f, steps := open()
		f.FailAt = func(k mem.Kind, n int) bool { return n == start+p }
		for i, s := range steps {
			out, err, hit := call(t, f, s)
			if err == nil && out != want[i] {
				t.Failf("operation %d of the lookups failed: %s answers %.300s, not %.300s", p, s.name, out, want[i])
			}
			if err != nil && !hit {
				t.Failf("operation %d of the lookups failed: %s, later, reports %v", p, s.name, err)
			}
			if hit && !errors.Is(err, f.Last) {
				t.Count("errors_not_wrapped", 1)
			}
		}
		if f.Failed != 1 {
			t.Failf("%d operations failed instead of one", f.Failed)
		}
		// and again, on the same open file
		f.FailAt = nil
		for i, s := range steps {
			out, err, _ := call(t, f, s)
			if err != nil || out != want[i] {
				t.Failf("after operation %d of the lookups had failed: %s answers %.300s (%v), not %.300s", p, s.name, out, err, want[i])
			}
		}
		if string(f.Buf) != content {
			t.Failf("lookups with a failure changed the file")
		}
		t.Count("lookup_faults", 1)
		t.Beat()
	}
	t.Distinct("reading", content)
	t.Sample(map[string]any{"case": t.Name, "lines": len(d.Lines), "operations": total - start})
}

// contains says whether every entry of want is in got.
func contains(got, want *raw.Index) string {
	have := map[string]bool{}
	for _, f := range got.Fields {
		if f.Tree != nil {
			for _, e := range f.Tree.Entries {
				have[fmt.Sprint(f.Meta.Name, f.Meta.Type, e)] = true
			}
		}
	}
	for _, f := range want.Fields {
		for _, e := range f.Tree.Entries {
			if !have[fmt.Sprint(f.Meta.Name, f.Meta.Type, e)] {
				return fmt.Sprintf("%v of %q type %d is lost", e, f.Meta.Name, f.Meta.Type)
			}
		}
	}
	return ""
}

// writing fails operations of indexing, in two steps.
func writing(t *h.T) {
	d, search := document(t, 1+t.R.Intn(25))
	t.Logf("%q search %q", ix.Head(d.Bytes), search)
	cut := len(d.Lines)
	if cut > 0 && t.R.Intn(4) > 0 {
		cut = t.R.Intn(cut)
	}
	prefix := d.Prefix(cut)
	old := prefix.Expect(search)
	for i := range old.Fields {
		if old.Fields[i].Tree == nil {
			old.Fields[i].Tree = &raw.Tree{}
		}
	}
	run := func(f *mem.File) (reported error, done int) {
		var x *appendable.IndexFile
		for i, s := range []step{
			{"NewIndexFile", func() (string, error) { var err error; x, err = ix.Open(f, d.Format, search); return "", err }},
			{"Synchronize", func() (string, error) { return "", x.Synchronize(prefix.Bytes) }},
			{"NewIndexFile again", func() (string, error) { var err error; x, err = ix.Open(f, d.Format, search); return "", err }},
			{"Synchronize again", func() (string, error) { return "", x.Synchronize(d.Bytes) }},
			{"Metadata", func() (string, error) { m, err := x.Metadata(); return fmt.Sprint(m), err }},
		} {
			_, err, hit := call(t, f, s)
			if err != nil {
				if !hit {
					t.Failf("%s: %v, and no operation failed during it", s.name, err)
				}
				return err, i
			}
		}
		return nil, 5
	}
	clean := mem.New(nil)
	err, _ := run(clean)
	t.NoErr(err, "indexing")
	ix.Check(t, clean.Buf, d, search)
	total := clean.Total()
	t.Max("max_operations", total)
	kinds := [3]string{"read_faults", "write_faults", "seek_faults"}
	for _, p := range points(t, total, t.N(150, 3000)) {
		f := mem.New(nil)
		var kind mem.Kind
		f.FailAt = func(k mem.Kind, n int) bool {
			if n == p {
				kind = k
			}
			return n == p
		}
		err, done := run(f)
		if err == nil || f.Failed != 1 {
			t.Failf("operation %d of %d failed and indexing reports nothing (%d failures)", p, total, f.Failed)
		}
		f.FailAt = nil
		t.Count(kinds[kind], 1)
		if kind == mem.Read && done > 1 {
			// what was indexed before is all there, for an independent reader
			// and for the repository's
			got, err := dg.Read(f.Buf, d.Bytes, d.Format)
			t.NoErr(err, "after read %d failed (%s), the index", p, kinds[kind])
			if s := contains(got, old); s != "" {
				t.Failf("after a read, operation %d of %d, failed: %s", p, total, s)
			}
			if got.Meta.ReadOffset < old.Meta.ReadOffset {
				t.Failf("after a read, operation %d of %d, failed: %d bytes are recorded as indexed, %d were", p, total, got.Meta.ReadOffset, old.Meta.ReadOffset)
			}
			x, err := ix.Open(f, d.Format, search)
			t.NoErr(err, "opening after read %d failed", p)
			v, err := x.IndexFieldNames()
			if err != nil || len(v) < len(names(old)) {
				t.Failf("after a read, operation %d of %d, failed: fields %q (%v)", p, total, v, err)
			}
			t.Count("survivals_checked", 1)
		}
		t.Beat()
	}
	t.Distinct("writing", clean.Buf)
}

func names(x *raw.Index) map[string]bool {
	m := map[string]bool{}
	for _, f := range x.Fields {
		m[f.Meta.Name] = true
	}
	return m
}

// ordered fails operations of insertions into and lookups in an ordered index
// that is larger than indexing short files makes.
func ordered(t *h.T) {
	b := tr.NewBed(t)
	s := tr.RandShape(t)
	n := 100 + t.R.Intn(500)
	if s.Width > 100 {
		n /= 5
	}
	ps, data := tr.Gen(t, s, n)
	tree := b.Add(s, data)
	for i, p := range ps {
		if t.R.Intn(4) == 0 {
			// an insertion fails by a read
			at := b.F.Total() + t.R.Intn(12)
			read := false
			b.F.FailAt = func(k mem.Kind, n int) bool {
				if k == mem.Read && n >= at && !read {
					read = true
					return true
				}
				return false
			}
			_, err, hit := call(t, b.F, step{"Insert", func() (string, error) { return "", tree.BP.Insert(p.Key, p.Rec) }})
			b.F.FailAt = nil
			if hit {
				t.Count("insertions_failed", 1)
				if in := stored(t, b, tree, p); in {
					t.Failf("key %d is inserted, though %v was reported", i, err)
				}
			} else {
				t.NoErr(err, "Insert")
				insertModel(tree, p)
				continue
			}
		}
		tree.Insert(p)
	}
	tree.CheckAll()
	total0 := b.F.Total()
	lookup := func() (string, error) {
		out := ""
		r := tree.Model
		for j := 0; j < 6; j++ {
			k := r[(j*len(r))/6].Key
			it, err := tree.BP.Iter(k)
			if err != nil {
				return "", err
			}
			for i := 0; i < 40 && (j%2 == 0 && it.Next() || j%2 == 1 && it.Prev()); i++ {
				out += fmt.Sprint(it.Key(), it.Pointer())
			}
			if it.Err() != nil {
				return "", it.Err()
			}
			ok, err := tree.BP.Contains(k)
			if err != nil {
				return "", err
			}
			kk, mp, err := tree.BP.Find(k)
			if err != nil {
				return "", err
			}
			out += fmt.Sprint(ok, kk, mp)
		}
		return out, nil
	}
	want, err := lookup()
	t.NoErr(err, "lookups")
	for _, p := range points(t, b.F.Total()-total0, t.N(100, 1000)) {
		at := b.F.Total() + p
		b.F.FailAt = func(k mem.Kind, n int) bool { return n == at }
		out, err, hit := call(t, b.F, step{"lookups", lookup})
		if !hit {
			t.Failf("operation %d was not reached", p)
		}
		_ = out
		_ = err
		b.F.FailAt = nil
		if p%4 == 0 {
			out, err := lookup()
			if err != nil || out != want {
				t.Failf("after a failed lookup the answer is %.200s (%v), not %.200s", out, err, want)
			}
		}
		t.Count("tree_lookup_faults", 1)
	}
	tree.CheckAll()
	t.Distinct("ordered", b.F.Buf)
}

func insertModel(tree *tr.Tree, p tr.Pair) {
	i := 0
	for i < len(tree.Model) && tr.Compare(tree.Model[i].Key, p.Key) < 0 {
		i++
	}
	tree.Model = append(tree.Model[:i], append([]tr.Pair{p}, tree.Model[i:]...)...)
}

func stored(t *h.T, b *tr.Bed, tree *tr.Tree, p tr.Pair) bool {
	k, mp, err := tree.BP.Find(p.Key)
	t.NoErr(err, "Find")
	return tr.Same(k, p.Key) && mp == p.Rec
}

type root struct{ mp pointer.MemoryPointer }

func (r *root) Root() (pointer.MemoryPointer, error)   { return r.mp, nil }
func (r *root) SetRoot(mp pointer.MemoryPointer) error { r.mp = mp; return nil }

// vectors fails operations of the vector store.
func vectors(t *h.T) {
	f := mem.New(nil)
	pf, err := pagefile.NewPageFile(f)
	t.NoErr(err, "NewPageFile")
	d := 1 + t.R.Intn(100)
	vt := btree.NewBTree(&root{}, pf, uint64(d))
	model := map[uint]hnsw.Point{}
	n := 30 + t.R.Intn(200)
	find := func(id uint) step {
		return step{"Find", func() (string, error) {
			k, p, err := vt.Find(pointer.ReferencedId{Value: id})
			return fmt.Sprint(k.Value, p), err
		}}
	}
	for i := 0; i < n; i++ {
		id := uint(t.R.Intn(10 * n))
		if _, ok := model[id]; ok {
			continue
		}
		p := make(hnsw.Point, d)
		for j := range p {
			p[j] = t.R.Float32()
		}
		ins := step{"Insert", func() (string, error) { return "", vt.Insert(pointer.ReferencedId{Value: id}, p) }}
		if t.R.Intn(3) == 0 {
			at, done := f.Total()+t.R.Intn(10), false
			f.FailAt = func(k mem.Kind, n int) bool {
				if k == mem.Read && n >= at && !done {
					done = true
					return true
				}
				return false
			}
			_, err, hit := call(t, f, ins)
			f.FailAt = nil
			if !hit {
				t.NoErr(err, "Insert")
				model[id] = p
				continue
			}
			t.Count("insertions_failed", 1)
		}
		_, err, _ := call(t, f, ins)
		t.NoErr(err, "Insert")
		model[id] = p
	}
	for id, p := range model {
		want := fmt.Sprint(id, p)
		out, err, _ := call(t, f, find(id))
		if err != nil || out != want {
			t.Failf("vector %d is %.100s (%v)", id, out, err)
		}
		if t.R.Intn(3) > 0 {
			continue
		}
		for j := 0; ; j++ {
			at := f.Total() + j
			f.FailAt = func(k mem.Kind, n int) bool { return n == at }
			out, err, hit := call(t, f, find(id))
			f.FailAt = nil
			if err == nil && out != want {
				t.Failf("vector %d is %.100s after a failure", id, out)
			}
			if !hit {
				break
			}
			t.Count("tree_lookup_faults", 1)
		}
		out, err, _ = call(t, f, find(id))
		if err != nil || out != want {
			t.Failf("vector %d is %.100s (%v) after a failure", id, out, err)
		}
	}
	t.Distinct("vectors", f.Buf)
}

// pages fails operations of the page allocator and the directory.
func pages(t *h.T) {
	script := func(f *mem.File, seed int64) []step {
		var pf *pagefile.PageFile
		var lp *linkedpage.LinkedPage
		var offs []int64
		steps := []step{
			{"NewPageFile", func() (string, error) { var err error; pf, err = pagefile.NewPageFile(f); return "", err }},
			{"NewMultiBPTree", func() (string, error) { var err error; lp, err = linkedpage.NewMultiBPTree(pf, 0); return "", err }},
		}
		for i := 0; i < 20; i++ {
			steps = append(steps, step{"AddNext", func() (string, error) {
				next, err := lp.AddNext()
				if err == nil {
					lp = next
				}
				return "", err
			}}, step{"SetMetadata", func() (string, error) { return "", lp.SetMetadata([]byte{1, 2, byte(i)}) }},
				step{"SetRoot", func() (string, error) { return "", lp.SetRoot(pointer.MemoryPointer{Offset: uint64(i), Length: 4}) }},
				step{"Metadata", func() (string, error) { b, err := lp.Metadata(); return fmt.Sprint(b), err }},
				step{"Root", func() (string, error) { p, err := lp.Root(); return fmt.Sprint(p), err }},
				step{"NewPage", func() (string, error) {
					o, err := pf.NewPage([]byte{byte(i)})
					offs = append(offs, o)
					return fmt.Sprint(o), err
				}})
			if i%3 == 2 {
				steps = append(steps, step{"FreePage", func() (string, error) {
					o := offs[0]
					offs = offs[1:]
					return "", pf.FreePage(o)
				}})
			}
		}
		return append(steps, step{"Collect", func() (string, error) {
			first, err := linkedpage.NewMultiBPTree(pf, 0)
			if err != nil {
				return "", err
			}
			l, err := first.Collect()
			return fmt.Sprint(len(l)), err
		}}, step{"NewPageFile", func() (string, error) { _, err := pagefile.NewPageFile(f); return "", err }})
	}
	clean := mem.New(nil)
	var want []string
	for _, s := range script(clean, 0) {
		out, err, _ := call(t, clean, s)
		t.NoErr(err, "%s", s.name)
		want = append(want, out)
	}
	for p := 0; p < clean.Total(); p++ {
		f := mem.New(nil)
		f.FailAt = func(k mem.Kind, n int) bool { return n == p }
		for i, s := range script(f, 0) {
			out, err, hit := call(t, f, s)
			if hit {
				break
			}
			if err != nil || out != want[i] {
				t.Failf("%s gives %s (%v), not %s", s.name, out, err, want[i])
			}
		}
		if f.Failed != 1 {
			t.Failf("operation %d was not reached", p)
		}
		t.Count("page_faults", 1)
	}
	t.Distinct("pages", clean.Buf)
}

func main() {
	h.Main("A04", func(c *h.C) {
		c.Level("fault_enumeration")
		c.Rule("executions of indexing, lookups, tree insertions and allocations are repeated with each (long ones: some) of their storage operations failing once; distinct: executions")
		c.Assume("a failing operation reports an error other than io.EOF and transfers nothing or part of what it was asked to")
		c.Case("pages", pages)
		c.Each(c.N(50, 600), "reading", reading)
		c.Each(c.N(60, 600), "writing", writing)
		c.Each(c.N(60, 1500), "ordered", ordered)
		c.Each(c.N(60, 1500), "vectors", vectors)
	})
}
