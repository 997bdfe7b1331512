// Package tr makes ordered indexes over generated keys, next to a sorted list
// of what they should hold.
package tr

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"

	"verif/dg"
	"verif/h"
	"verif/mem"
)

// Compare is the order keys should have.
func Compare(a, b pointer.ReferencedValue) int {
	if c := bytes.Compare(a.Value, b.Value); c != 0 {
		return c
	}
	switch x, y := a.DataPointer, b.DataPointer; {
	case x.Offset < y.Offset:
		return -1
	case x.Offset > y.Offset:
		return 1
	case x.Length < y.Length:
		return -1
	case x.Length > y.Length:
		return 1
	}
	return 0
}

type Pair struct {
	Key pointer.ReferencedValue
	Rec pointer.MemoryPointer
}

// Shape says what keys look like.
type Shape struct {
	Width   int // 0: by reference
	Values  int // distinct values, roughly
	BigDP   bool
	Order   string
	ByValue bool // many entries per value
}

func (s Shape) String() string {
	return fmt.Sprintf("width=%d values=%d big=%v order=%s", s.Width, s.Values, s.BigDP, s.Order)
}

type identity struct{}

func (identity) Parse(b []byte) []byte { return bytes.Clone(b) }

// RandShape draws a shape.
func RandShape(t *h.T) Shape {
	s := Shape{Order: []string{"random", "random", "ascending", "descending", "clustered", "zigzag"}[t.R.Intn(6)]}
	switch t.R.Intn(10) {
	case 0:
		s.Width = 1 // nothing inline, as for null
	case 1:
		s.Width = 2
	case 2, 3:
		s.Width = 9
	case 4:
		s.Width = 4
	case 5:
		s.Width = 200 + t.R.Intn(300)
	case 6:
		s.Width = 600 + t.R.Intn(500)
	default:
		s.Width = 0
	}
	s.Values = 1 + t.R.Intn(2000)
	if t.R.Intn(3) == 0 {
		s.Values = 1 + t.R.Intn(10)
	}
	s.BigDP = s.Width != 0 && t.R.Intn(2) == 0
	return s
}

// Gen makes n distinct keys of the shape in the order to insert them, and the
// data that those stored by reference refer to.
func Gen(t *h.T, s Shape, n int) ([]Pair, []byte) {
	seen := map[string]bool{}
	var data []byte
	if s.Width == 0 {
		data = make([]byte, 200+n*4)
		alpha := []byte("ab\x00\xff0123456789abcdefghijklmnopqrstuvwxyz")
		k := 1 + t.R.Intn(len(alpha))
		for i := range data {
			data[i] = alpha[t.R.Intn(k)]
		}
	}
	pool := make([][]byte, s.Values)
	for i := range pool {
		w := s.Width - 1
		if w < 0 {
			break
		}
		v := make([]byte, w)
		t.R.Read(v)
		if t.R.Intn(2) == 0 { // differ only at the end
			for j := 0; j < w-1; j++ {
				v[j] = 0x40
			}
		}
		pool[i] = v
	}
	var ps []Pair
	for tries := 0; len(ps) < n && tries < 20*n; tries++ {
		var p Pair
		dp := &p.Key.DataPointer
		if s.Width == 0 {
			l := t.R.Intn(12)
			switch t.R.Intn(12) {
			case 0:
				l = 0
			case 1:
				l = t.R.Intn(120)
			}
			dp.Offset = uint64(t.R.Intn(len(data) - l))
			dp.Length = uint32(l)
			p.Key.Value = bytes.Clone(data[dp.Offset : dp.Offset+uint64(l)])
		} else {
			p.Key.Value = bytes.Clone(pool[t.R.Intn(len(pool))])
			switch {
			case s.BigDP && t.R.Intn(2) == 0:
				dp.Offset = t.R.Uint64() >> t.R.Intn(64)
				dp.Length = t.R.Uint32() >> t.R.Intn(32)
			default:
				dp.Offset = uint64(t.R.Intn(40 * n))
				dp.Length = uint32(t.R.Intn(40))
			}
		}
		id := fmt.Sprint(p.Key.Value, *dp)
		if seen[id] {
			continue
		}
		seen[id] = true
		switch t.R.Intn(4) {
		case 0:
			p.Rec = pointer.MemoryPointer{Offset: t.R.Uint64() >> t.R.Intn(64), Length: t.R.Uint32() >> t.R.Intn(32)}
		default:
			p.Rec = pointer.MemoryPointer{Offset: uint64(len(ps) * 57), Length: uint32(t.R.Intn(4000))}
		}
		ps = append(ps, p)
	}
	sorted := func() { sort.Slice(ps, func(i, j int) bool { return Compare(ps[i].Key, ps[j].Key) < 0 }) }
	switch s.Order {
	case "ascending":
		sorted()
	case "descending":
		sorted()
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
	case "clustered":
		sorted()
		k := 1 + t.R.Intn(len(ps))
		ps = append(append([]Pair{}, ps[k:]...), ps[:k]...)
	case "zigzag":
		sorted()
		var z []Pair
		for i, j := 0, len(ps)-1; i <= j; i, j = i+1, j-1 {
			z = append(z, ps[i])
			if i != j {
				z = append(z, ps[j])
			}
		}
		ps = z
	}
	return ps, data
}

// Bed is a file with one or more ordered indexes.
type Bed struct {
	T     *h.T
	F     *mem.File
	PF    *pagefile.PageFile
	Trees []*Tree
	moved bool
}

// Far makes what is added from here on be past where 31 or 32 bits reach: the
// pages, and the data of keys stored by reference.
func (b *Bed) Far() {
	n := mem.Sizes[b.T.R.Intn(len(mem.Sizes))]
	b.F.Far(n)
	b.Open()
	b.T.Count("far_files", 1)
	b.T.Logf("the file goes on at %d", n)
}

// Move takes keys stored by reference, and their data, to a far place. It does
// that once.
func (b *Bed) Move(s Shape, ps []Pair, data []byte) []byte {
	if s.Width != 0 || b.moved {
		return data
	}
	b.moved = true
	t := b.T
	n := dg.Bases[t.R.Intn(len(dg.Bases))]
	far, free, err := mem.Region(n + len(data))
	t.NoErr(err, "memory")
	t.Cleanup(free)
	copy(far[n:], data)
	for i := range ps {
		ps[i].Key.DataPointer.Offset += uint64(n)
	}
	t.Count("far_data", 1)
	t.Logf("the data starts at %d", n)
	return far[:len(far):len(far)]
}

type Tree struct {
	Bed   *Bed
	Index int
	Shape Shape
	Data  []byte
	Model []Pair // sorted
	BP    *bptree.BPTree
}

func NewBed(t *h.T) *Bed {
	b := &Bed{T: t, F: mem.New(nil)}
	b.Open()
	return b
}

func (b *Bed) Open() {
	pf, err := pagefile.NewPageFile(b.F)
	b.T.NoErr(err, "NewPageFile")
	root, err := linkedpage.NewMultiBPTree(pf, 0)
	b.T.NoErr(err, "NewMultiBPTree")
	b.PF = pf
	lps, err := root.Collect()
	b.T.NoErr(err, "Collect")
	for i := range b.Trees {
		b.bind(b.Trees[i], lps[i])
	}
}

func (b *Bed) bind(tree *Tree, lp *linkedpage.LinkedPage) {
	tree.BP = lp.BPTree(&bptree.BPTree{Data: tree.Data, DataParser: identity{}, Width: uint16(tree.Shape.Width)})
}

func (b *Bed) Add(s Shape, data []byte) *Tree {
	root, err := linkedpage.NewMultiBPTree(b.PF, 0)
	b.T.NoErr(err, "NewMultiBPTree")
	for {
		next, err := root.Next()
		if errors.Is(err, io.EOF) {
			break
		}
		b.T.NoErr(err, "Next")
		root = next
	}
	lp, err := root.AddNext()
	b.T.NoErr(err, "AddNext")
	tree := &Tree{Bed: b, Index: len(b.Trees), Shape: s, Data: data}
	b.Trees = append(b.Trees, tree)
	b.bind(tree, lp)
	return tree
}

func (tr *Tree) find(k pointer.ReferencedValue) int {
	return sort.Search(len(tr.Model), func(i int) bool { return Compare(tr.Model[i].Key, k) >= 0 })
}

func (tr *Tree) Insert(p Pair) {
	// the tree gets its own copy
	k := p.Key
	k.Value = bytes.Clone(k.Value)
	tr.Bed.T.NoErr(tr.BP.Insert(k, p.Rec), "Insert %v", short(p.Key))
	i := tr.find(p.Key)
	tr.Model = append(tr.Model, Pair{})
	copy(tr.Model[i+1:], tr.Model[i:])
	tr.Model[i] = p
}

func short(k pointer.ReferencedValue) string {
	v := k.Value
	if len(v) > 40 {
		v = append(append([]byte{}, v[:20]...), v[len(v)-20:]...)
	}
	return fmt.Sprintf("{%x (%d bytes) at %d+%d}", v, len(k.Value), k.DataPointer.Offset, k.DataPointer.Length)
}

func Same(a, b pointer.ReferencedValue) bool {
	return bytes.Equal(a.Value, b.Value) && a.DataPointer == b.DataPointer
}

// Target draws something to seek: a stored key, next to one, or anything.
func (tr *Tree) Target() pointer.ReferencedValue {
	r := tr.Bed.T.R
	var k pointer.ReferencedValue
	if len(tr.Model) > 0 {
		k = tr.Model[r.Intn(len(tr.Model))].Key
		k.Value = bytes.Clone(k.Value)
	}
	switch r.Intn(9) {
	case 0, 1:
	case 2:
		k.DataPointer = pointer.MemoryPointer{}
	case 3:
		k.DataPointer = pointer.MemoryPointer{Offset: ^uint64(0)}
	case 4:
		k.DataPointer.Offset += uint64(r.Intn(3)) - 1
	case 5:
		k.DataPointer.Length += uint32(r.Intn(3)) - 1
	case 6:
		if len(k.Value) > 0 {
			k.Value[r.Intn(len(k.Value))] += byte(r.Intn(3)) - 1
		}
	case 7:
		if tr.Shape.Width != 0 && r.Intn(2) == 0 {
			r.Read(k.Value)
		} else {
			k.Value = append(k.Value, byte(r.Intn(256)))
		}
	case 8:
		k.Value = k.Value[:r.Intn(len(k.Value)+1)]
	}
	return k
}

// CheckSeek seeks k and walks from there.
func (tr *Tree) CheckSeek(k pointer.ReferencedValue, steps int) {
	t := tr.Bed.T
	i := tr.find(k)
	it, err := tr.BP.Iter(k)
	t.NoErr(err, "Iter")
	dir := 1
	if t.R.Intn(2) == 0 {
		dir, i = -1, i-1
	}
	walked := 0
	for first := true; ; first = false {
		var ok bool
		if dir > 0 {
			ok = it.Next()
		} else {
			ok = it.Prev()
		}
		t.NoErr(it.Err(), "iterating")
		want := i >= 0 && i < len(tr.Model)
		if ok != want {
			t.Failf("after seeking %s and %d steps (direction %d) an iterator says %v at entry %d of %d", short(k), walked, dir, ok, i, len(tr.Model))
		}
		if !ok {
			break
		}
		if !Same(it.Key(), tr.Model[i].Key) || it.Pointer() != tr.Model[i].Rec {
			t.Failf("after seeking %s and %d steps (direction %d) an iterator is at %s -> %v, not at %s -> %v (entry %d of %d)",
				short(k), walked, dir, short(it.Key()), it.Pointer(), short(tr.Model[i].Key), tr.Model[i].Rec, i, len(tr.Model))
		}
		if walked++; walked > steps {
			break
		}
		if !first && t.R.Intn(9) == 0 {
			dir = -dir
			t.Count("turns", 1)
		}
		i += dir
	}
	t.Count("seeks", 1)
	t.Count("steps", walked)
}

func (tr *Tree) CheckFind(k pointer.ReferencedValue) {
	t := tr.Bed.T
	i := tr.find(k)
	got, rec, err := tr.BP.Find(k)
	t.NoErr(err, "Find")
	var want Pair
	if i < len(tr.Model) {
		want = tr.Model[i]
	}
	if !Same(got, want.Key) || rec != want.Rec {
		t.Failf("Find %s gives %s -> %v, not %s -> %v", short(k), short(got), rec, short(want.Key), want.Rec)
	}
	in, err := tr.BP.Contains(k)
	t.NoErr(err, "Contains")
	if want := i < len(tr.Model) && bytes.Equal(tr.Model[i].Key.Value, k.Value); in != want {
		t.Failf("Contains %s is %v", short(k), in)
	}
	t.Count("finds", 1)
}

// CheckAll walks over everything both ways.
func (tr *Tree) CheckAll() {
	t := tr.Bed.T
	it, err := tr.BP.Iter(pointer.ReferencedValue{})
	t.NoErr(err, "Iter")
	for i := 0; ; i++ {
		if ok := it.Next(); ok != (i < len(tr.Model)) {
			t.Failf("iterating forward ends after %d of %d entries (%v)", i, len(tr.Model), it.Err())
		} else if !ok {
			break
		}
		if !Same(it.Key(), tr.Model[i].Key) || it.Pointer() != tr.Model[i].Rec {
			t.Failf("entry %d of %d is %s -> %v, not %s -> %v", i, len(tr.Model), short(it.Key()), it.Pointer(), short(tr.Model[i].Key), tr.Model[i].Rec)
		}
	}
	t.NoErr(it.Err(), "iterating forward")
	end := pointer.ReferencedValue{Value: bytes.Repeat([]byte{0xff}, 1300), DataPointer: pointer.MemoryPointer{Offset: ^uint64(0)}}
	it, err = tr.BP.Iter(end)
	t.NoErr(err, "Iter")
	for i := len(tr.Model) - 1; ; i-- {
		if ok := it.Prev(); ok != (i >= 0) {
			t.Failf("iterating backward ends before entry %d of %d (%v)", i, len(tr.Model), it.Err())
		} else if !ok {
			break
		}
		if !Same(it.Key(), tr.Model[i].Key) || it.Pointer() != tr.Model[i].Rec {
			t.Failf("backward, entry %d of %d is %s -> %v, not %s -> %v", i, len(tr.Model), short(it.Key()), it.Pointer(), short(tr.Model[i].Key), tr.Model[i].Rec)
		}
	}
	t.NoErr(it.Err(), "iterating backward")
	t.Count("full_walks", 1)
}

// CheckRefused offers a key that is there and ones of the wrong width.
func (tr *Tree) CheckRefused() {
	t := tr.Bed.T
	before := bytes.Clone(tr.Bed.F.Buf)
	if len(tr.Model) > 0 {
		p := tr.Model[t.R.Intn(len(tr.Model))]
		if err := tr.BP.Insert(p.Key, pointer.MemoryPointer{Offset: 1, Length: 2}); err == nil {
			t.Failf("%s was inserted twice", short(p.Key))
		}
	}
	if w := tr.Shape.Width; w > 0 {
		n := t.R.Intn(w + 3)
		if t.R.Intn(3) == 0 { // whole multiples of what two bytes count are no better
			n = w - 1 + (1+t.R.Intn(2))<<16
		}
		if n != w-1 {
			if err := tr.BP.Insert(pointer.ReferencedValue{Value: make([]byte, n), DataPointer: pointer.MemoryPointer{Offset: 1 << 62}}, pointer.MemoryPointer{}); err == nil {
				t.Failf("a key of %d bytes was inserted into an index of %d byte keys", n, w-1)
			}
		}
	}
	if !bytes.Equal(before, tr.Bed.F.Buf) {
		t.Failf("a refused insertion changed the file")
	}
	t.Count("refused", 1)
}
