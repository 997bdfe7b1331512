// C13: reading an index writes nothing, and readings of one handle that take
// turns do not disturb each other.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/mmap"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
	"verif/raw"
	"verif/tr"
)

// counted passes on to storage and counts the writes.
type counted struct {
	io.ReadWriteSeeker
	writes, reads int
}

func (c *counted) Write(p []byte) (int, error) {
	c.writes++
	return c.ReadWriteSeeker.Write(p)
}

func (c *counted) Read(p []byte) (int, error) {
	c.reads++
	return c.ReadWriteSeeker.Read(p)
}

func (c *counted) quiet(t *h.T, what string) {
	if c.writes != 0 {
		t.Failf("%s wrote %d times", what, c.writes)
	}
}

// walker is a reading that is under way.
type walker struct {
	name string
	step func() bool // false when it is through
}

func turns(t *h.T, ws []*walker, quiet func(string)) {
	n := 0
	for len(ws) > 0 {
		k := t.R.Intn(len(ws))
		if !ws[k].step() {
			ws = append(ws[:k:k], ws[k+1:]...)
		} else {
			quiet(ws[k].name)
		}
		if n++; n%200 == 0 {
			t.Beat()
		}
	}
	t.Count("turns", n)
}

func fields(t *h.T, x *appendable.IndexFile, want *raw.Index) {
	var names []string
	seen := map[string]bool{}
	for _, f := range want.Fields {
		if !seen[f.Meta.Name] {
			seen[f.Meta.Name] = true
			names = append(names, f.Meta.Name)
		}
	}
	got, err := x.IndexFieldNames()
	t.NoErr(err, "IndexFieldNames")
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", names) {
		t.Failf("IndexFieldNames gives %q, not %q", got, names)
	}
	empty, err := x.IsEmpty()
	t.NoErr(err, "IsEmpty")
	if empty != (len(want.Fields) == 0) {
		t.Failf("IsEmpty is %v with %d indexes", empty, len(want.Fields))
	}
	md, err := x.Metadata()
	t.NoErr(err, "Metadata")
	if md.ReadOffset != want.Meta.ReadOffset || md.Entries != want.Meta.Entries {
		t.Failf("Metadata gives %+v, not %+v", *md, want.Meta)
	}
}

// frees leaves some pages of a file free.
func frees(t *h.T, pf *pagefile.PageFile) {
	var at []int64
	for k := []int{1, 2, 5, 40, 512}[t.R.Intn(5)]; k > 0; k-- {
		off, err := pf.NewPage([]byte("free soon"))
		t.NoErr(err, "NewPage")
		at = append(at, off)
	}
	t.R.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
	for _, off := range at {
		t.NoErr(pf.FreePage(off), "FreePage")
	}
	t.Count("free_pages", len(at))
}

// index reads an index file that the indexer wrote.
func index(t *h.T) {
	var d *dg.Doc
	var search []string
	n := t.R.Intn(40)
	if t.R.Intn(10) == 0 {
		n = 200 + t.R.Intn(300)
	}
	if t.R.Intn(4) == 0 {
		d = dg.CSV(t.R, dg.RandCSVConf(t.R), n)
	} else {
		conf := dg.RandConf(t.R)
		conf.Long = conf.Long && n < 100
		d = dg.JSONL(t.R, conf, n)
		if s := dg.Search(t.R, d); t.R.Intn(2) == 0 && !d.AnyExpands(s) {
			search = s
		}
	}
	f := mem.New(nil)
	t.NoErr(ix.Build(f, d.Bytes, d.Format, search), "Synchronize")
	want, err := dg.Read(f.Buf, d.Bytes, d.Format)
	t.NoErr(err, "decoding")
	if t.R.Intn(3) == 0 {
		pf, err := pagefile.NewPageFile(f)
		t.NoErr(err, "NewPageFile")
		frees(t, pf)
	}
	before := bytes.Clone(f.Buf)
	t.Logf("%q search %q", ix.Head(d.Bytes), search)

	c := &counted{ReadWriteSeeker: mem.New(before)}
	bytesOf := func() []byte { return c.ReadWriteSeeker.(*mem.File).Buf }
	if t.R.Intn(3) == 0 { // from a mapping that cannot be written
		p := filepath.Join(t.Dir, strings.ReplaceAll(t.Name, "/", "-"))
		t.NoErr(os.WriteFile(p, before, 0o444), "write")
		defer os.Remove(p)
		m, err := mmap.OpenFile(p, os.O_RDONLY, 0)
		t.NoErr(err, "OpenFile")
		defer m.Close()
		c.ReadWriteSeeker = m
		bytesOf = func() []byte {
			b, err := os.ReadFile(p)
			t.NoErr(err, "ReadFile")
			return b
		}
		t.Count("mapped_read_only", 1)
	}
	x, err := ix.Open(c, d.Format, search)
	t.NoErr(err, "Open")
	c.quiet(t, "opening")
	if _, err := ix.Open(c, 1-d.Format, nil); err == nil {
		t.Failf("opened in the other format")
	}
	c.quiet(t, "being refused to open it in the other format")
	fields(t, x, want)
	c.quiet(t, "asking for the fields")

	var ws []*walker
	add := func(name string, step func() bool) { ws = append(ws, &walker{name, step}) }
	// the directory, slot by slot
	for k := 0; k < 2; k++ {
		lp, err := x.Indexes()
		if len(want.Fields) == 0 {
			if !errors.Is(err, io.EOF) {
				t.Failf("Indexes of an empty index: %v", err)
			}
			break
		}
		t.NoErr(err, "Indexes")
		i := 0
		add("walking over the directory", func() bool {
			w := want.Fields[i]
			im := &appendable.IndexMeta{}
			t.NoErr(lp.UnmarshalMetadata(im), "UnmarshalMetadata")
			if im.FieldName != w.Meta.Name || uint16(im.FieldType) != w.Meta.Type || im.Width != w.Meta.Width {
				t.Failf("slot %d holds %+v, not %q of type %d", i, *im, w.Meta.Name, w.Meta.Type)
			}
			i++
			next, err := lp.Next()
			if i == len(want.Fields) {
				if !errors.Is(err, io.EOF) {
					t.Failf("after slot %d of %d: %v", i, len(want.Fields), err)
				}
				return false
			}
			t.NoErr(err, "Next")
			lp = next
			return true
		})
	}
	// trees, entry by entry, forwards and backwards, and lookups
	for k := 0; k < 6 && len(want.Fields) > 0; k++ {
		w := &want.Fields[t.R.Intn(len(want.Fields))]
		lp, im, err := x.FindOrCreateIndex(w.Meta.Name, appendable.FieldType(w.Meta.Type))
		t.NoErr(err, "FindOrCreateIndex of one that exists")
		c.quiet(t, "finding an index")
		width := im.Width
		if d.Format == 1 {
			width = 0 // CSV trees always refer to the data
		}
		bp := lp.BPTree(&bptree.BPTree{Data: d.Bytes, DataParser: ix.Handler(d.Format), Width: width})
		if w.Tree == nil {
			continue
		}
		es := w.Tree.Entries
		if len(es) == 0 {
			continue
		}
		switch t.R.Intn(3) {
		case 0:
			it, err := bp.Iter(pointer.ReferencedValue{})
			t.NoErr(err, "Iter")
			i := 0
			add("iterating forwards", func() bool {
				if ok := it.Next(); ok != (i < len(es)) {
					t.Failf("index %q: at entry %d of %d Next is %v (%v)", w.Meta.Name, i, len(es), ok, it.Err())
				} else if !ok {
					return false
				}
				at(t, w, i, it.Key(), it.Pointer())
				i++
				return i < 300 || i < len(es) && t.R.Intn(100) != 0
			})
		case 1:
			it, err := bp.Iter(pointer.ReferencedValue{Value: bytes.Repeat([]byte{0xff}, 400), DataPointer: pointer.MemoryPointer{Offset: ^uint64(0)}})
			t.NoErr(err, "Iter")
			i := len(es) - 1
			add("iterating backwards", func() bool {
				if ok := it.Prev(); ok != (i >= 0) {
					t.Failf("index %q: at entry %d of %d Prev is %v (%v)", w.Meta.Name, i, len(es), ok, it.Err())
				} else if !ok {
					return false
				}
				at(t, w, i, it.Key(), it.Pointer())
				i--
				return true
			})
		default:
			left := 40
			add("looking up", func() bool {
				i := t.R.Intn(len(es))
				key := pointer.ReferencedValue{Value: []byte(es[i].Value), DataPointer: pointer.MemoryPointer{Offset: es[i].KeyOff, Length: es[i].KeyLen}}
				k, p, err := bp.Find(key)
				t.NoErr(err, "Find")
				at(t, w, i, k, p)
				in, err := bp.Contains(key)
				t.NoErr(err, "Contains")
				if !in {
					t.Failf("Contains %q is false", key.Value)
				}
				left--
				return left > 0
			})
		}
	}
	for k := 0; k < 3; k++ {
		left := 3
		add("asking for the fields", func() bool {
			fields(t, x, want)
			left--
			return left > 0
		})
	}
	turns(t, ws, func(what string) { c.quiet(t, what) })
	c.quiet(t, "reading")
	if !bytes.Equal(bytesOf(), before) {
		t.Failf("reading changed the index file")
	}
	t.Count("reads", c.reads)
	t.Count("indexes", len(want.Fields))
	if len(ws) > 1 {
		t.Distinct(d.Bytes, search)
	}
	t.Sample(map[string]any{"case": t.Name, "fields": len(want.Fields), "lines": len(d.Lines), "reads": c.reads, "writes": c.writes})
}

func at(t *h.T, w *raw.Field, i int, k pointer.ReferencedValue, p pointer.MemoryPointer) {
	e := w.Tree.Entries[i]
	if string(k.Value) != e.Value || k.DataPointer.Offset != e.KeyOff || k.DataPointer.Length != e.KeyLen || p.Offset != e.RecOff || p.Length != e.RecLen {
		t.Failf("index %q, entry %d: %q at %v -> %v instead of %v", w.Meta.Name, i, k.Value, k.DataPointer, p, e)
	}
	t.Count("entries_read", 1)
}

// trees reads several ordered indexes over one handle.
func trees(t *h.T) {
	b := tr.NewBed(t)
	for k := 1 + t.R.Intn(4); k > 0; k-- {
		s := tr.RandShape(t)
		ps, data := tr.Gen(t, s, 1+t.R.Intn(400))
		tree := b.Add(s, data)
		for _, p := range ps {
			tree.Insert(p)
		}
	}
	if t.R.Intn(3) == 0 {
		frees(t, b.PF)
	}
	before := bytes.Clone(b.F.Buf)
	writes := 0
	b.F.OnWrite = func(int64, []byte) { writes++ }
	quiet := func(what string) {
		if writes != 0 {
			t.Failf("%s wrote %d times", what, writes)
		}
	}
	b.Open()
	quiet("opening")
	var ws []*walker
	for k := 0; k < 4; k++ {
		tree := b.Trees[t.R.Intn(len(b.Trees))]
		target := tree.Target()
		i := sort.Search(len(tree.Model), func(i int) bool { return tr.Compare(tree.Model[i].Key, target) >= 0 })
		it, err := tree.BP.Iter(target)
		t.NoErr(err, "Iter")
		back := t.R.Intn(2) == 0
		if back {
			i--
		}
		ws = append(ws, &walker{"iterating", func() bool {
			var ok bool
			if back {
				ok = it.Prev()
			} else {
				ok = it.Next()
			}
			t.NoErr(it.Err(), "iterating")
			if ok != (i >= 0 && i < len(tree.Model)) {
				t.Failf("an iterator says %v at entry %d of %d", ok, i, len(tree.Model))
			} else if !ok {
				return false
			}
			if !tr.Same(it.Key(), tree.Model[i].Key) || it.Pointer() != tree.Model[i].Rec {
				t.Failf("an iterator is at %v -> %v, not at entry %d of %d, %v", it.Key(), it.Pointer(), i, len(tree.Model), tree.Model[i])
			}
			t.Count("entries_read", 1)
			if back {
				i--
			} else {
				i++
			}
			return true
		}})
	}
	for k := 0; k < 3; k++ {
		tree := b.Trees[t.R.Intn(len(b.Trees))]
		left := 30
		ws = append(ws, &walker{"looking up", func() bool {
			tree.CheckFind(tree.Target())
			left--
			return left > 0
		}})
	}
	turns(t, ws, quiet)
	if !bytes.Equal(before, b.F.Buf) {
		t.Failf("reading changed the file")
	}
	t.Distinct(before)
}

// vectors reads a store of vectors.
func vectors(t *h.T) {
	f := mem.New(nil)
	dim := 1 + t.R.Intn(40)
	open := func(rw io.ReadWriteSeeker) *btree.BTree {
		pf, err := pagefile.NewPageFile(rw)
		t.NoErr(err, "NewPageFile")
		root, err := linkedpage.NewMultiBPTree(pf, 0)
		t.NoErr(err, "NewMultiBPTree")
		lp, err := root.Next()
		if errors.Is(err, io.EOF) {
			lp, err = root.AddNext()
		}
		t.NoErr(err, "the first slot")
		return lp.BTree(btree.NewBTree(lp, pf, uint64(dim)))
	}
	s := open(f)
	model := map[uint64]hnsw.Point{}
	var ids []uint64
	for k := 1 + t.R.Intn(300); k > 0; k-- {
		id := uint64(t.R.Intn(2000))
		if model[id] != nil {
			continue
		}
		v := make(hnsw.Point, dim)
		for i := range v {
			v[i] = t.R.Float32()
		}
		model[id] = v
		ids = append(ids, id)
		t.NoErr(s.Insert(pointer.ReferencedId{Value: hnsw.Id(id)}, v), "Insert")
	}
	before := bytes.Clone(f.Buf)
	c := &counted{ReadWriteSeeker: mem.New(before)}
	s = open(c)
	c.quiet(t, "opening")
	for k := 0; k < 200; k++ {
		id := ids[t.R.Intn(len(ids))]
		_, v, err := s.Find(pointer.ReferencedId{Value: hnsw.Id(id)})
		t.NoErr(err, "Find")
		if fmt.Sprint(v) != fmt.Sprint(model[id]) {
			t.Failf("Find %d gives %v, not %v", id, v, model[id])
		}
		absent := uint64(2000 + t.R.Intn(100))
		s.Find(pointer.ReferencedId{Value: hnsw.Id(absent)})
		c.quiet(t, "finding a vector")
	}
	if !bytes.Equal(before, c.ReadWriteSeeker.(*mem.File).Buf) {
		t.Failf("finding vectors changed the file")
	}
	t.Count("vectors_read", 200)
	t.Distinct(before)
}

func main() {
	h.Main("C13", func(c *h.C) {
		c.Rule("index files of generated data, ordered indexes and vector stores opened and read in every way the code offers, several readings of one handle taking turns at random (iterators both ways, lookups, the directory); writes that reach the storage are counted and everything read is compared with an independent decoding; distinct by the file read")
		c.Each(c.N(500, 10000), "index", index)
		c.Each(c.N(150, 3000), "trees", trees)
		c.Each(c.N(60, 1000), "vectors", vectors)
	})
}
