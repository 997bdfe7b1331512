// E04: vectors and neighbourhoods stored through the vector page manager.
package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/pkg/vectorpage"

	"verif/h"
	"verif/mem"
	"verif/vx"
)

type root struct{ mp pointer.MemoryPointer }

func (r *root) Root() (pointer.MemoryPointer, error)   { return r.mp, nil }
func (r *root) SetRoot(mp pointer.MemoryPointer) error { r.mp = mp; return nil }
func (r *root) Metadata() ([]byte, error)              { return nil, nil }
func (r *root) SetMetadata([]byte) error               { return nil }

const neighbours = 8

type stored struct {
	p    hnsw.Point
	near string // the neighbourhood, as the graph had it
}

// neighbourhood is what must be stored of a vertex: the nearest first, with
// the level of each.
func neighbourhood(t *h.T, g *hnsw.Hnsw, id uint) string {
	f, err := g.Neighborhood(id)
	t.NoErr(err, "Neighborhood %d", id)
	b, err := f.Flush(neighbours)
	t.NoErr(err, "Flush")
	// the distances stored neighbours have, by the graph
	q, err := f.GetFriendsAtLevel(0)
	t.NoErr(err, "level 0")
	ps, err := vx.Drain(q)
	t.NoErr(err, "level 0")
	at := map[uint]float32{}
	for _, p := range ps {
		at[p.Id] = p.Dist
	}
	for i := 0; i < neighbours && i < len(ps); i++ {
		n := uint(binary.BigEndian.Uint32(b[5*i+1:]))
		if d, ok := at[n]; !ok || d != ps[i].Dist {
			t.Failf("neighbour %d of %d is flushed as %d", i, id, n)
		}
	}
	return string(b)
}

// add stores a sequence of vectors: as many as many says, if it does.
func add(t *h.T, many int) {
	rand.Seed(t.R.Int63())
	d := 1 + t.R.Intn(8)
	if t.R.Intn(6) == 0 {
		d = 50 + t.R.Intn(250)
	}
	n := 1 + t.R.Intn(120)
	if t.R.Intn(8) == 0 {
		n = 600
	}
	m, ef := 4+t.R.Intn(20), 2+t.R.Intn(12)
	if many > 0 {
		d, n, m, ef = 1+t.R.Intn(3), many, 4+t.R.Intn(4), 2+t.R.Intn(4)
	}
	pool := 1 + t.R.Intn(2*n)
	pts := make([]hnsw.Point, pool)
	for j := range pts {
		p := make(hnsw.Point, d)
		for k := range p {
			p[k] = float32(t.R.NormFloat64())
			if t.R.Intn(30) == 0 {
				p[k] = float32(math.Copysign(0, -1))
			}
		}
		pts[j] = p
	}
	fa, fb := mem.New(nil), mem.New(nil)
	pfa, err := pagefile.NewPageFile(fa)
	t.NoErr(err, "NewPageFile")
	pfb := pfa
	if t.R.Intn(2) == 0 {
		pfb, err = pagefile.NewPageFile(fb)
		t.NoErr(err, "NewPageFile")
	}
	ra, rb := &root{}, &root{}
	vt := btree.NewBTree(ra, pfa, uint64(d))
	nt := &bptree.BPTree{PageFile: pfb, MetaPage: rb, Width: 5*neighbours + 1}
	g := hnsw.NewHnsw(d, m, ef, pts[0])
	vp := vectorpage.NewVectorPageManager(vt, nt, g)
	model := map[uint]stored{}
	check := func(what string, vt *btree.BTree, nt *bptree.BPTree) {
		for id, s := range model {
			k, p, err := vt.Find(pointer.ReferencedId{Value: id})
			if err != nil || k.Value != id || len(p) != d {
				t.Failf("%s: vector %d of %d: %v %v (%d dimensions)", what, id, len(model), k, err, len(p))
			}
			for j := range p {
				if math.Float32bits(p[j]) != math.Float32bits(s.p[j]) {
					t.Failf("%s: vector %d is stored as %v, not %v", what, id, p, s.p)
				}
			}
			k2, _, err := nt.Find(pointer.ReferencedValue{Value: []byte(s.near), DataPointer: pointer.MemoryPointer{Offset: uint64(id)}})
			if err != nil || string(k2.Value) != s.near || k2.DataPointer.Offset != uint64(id) {
				t.Failf("%s: the neighbourhood %v of %d is stored as %v of %d (%v)", what, []byte(s.near), id, k2.Value, k2.DataPointer.Offset, err)
			}
		}
		// by identifier: each once
		it, err := nt.Iter(pointer.ReferencedValue{})
		t.NoErr(err, "Iter")
		seen := map[uint64]bool{}
		for it.Next() {
			k := it.Key()
			id := k.DataPointer.Offset
			if s, ok := model[uint(id)]; !ok || seen[id] || s.near != string(k.Value) {
				t.Failf("%s: under %d (known: %v, before: %v) the neighbourhood %v is stored, not %v", what, id, ok, seen[id], k.Value, []byte(s.near))
			}
			seen[id] = true
		}
		t.NoErr(it.Err(), "iterating")
		if len(seen) != len(model) {
			t.Failf("%s: %d neighbourhoods of %d vectors are stored", what, len(seen), len(model))
		}
		if _, _, err := vt.Find(pointer.ReferencedId{Value: uint(len(model) + 1)}); len(model) > 0 && err == nil {
			t.Failf("%s: vector %d is found, it was not inserted", what, len(model)+1)
		}
		t.Count("vectors_checked", len(model))
	}
	same := 0
	for j := 0; j < n; j++ {
		p := append(hnsw.Point{}, pts[t.R.Intn(pool)]...)
		id := g.GenerateId()
		t.Logf("add %d", id)
		keep := append(hnsw.Point{}, p...)
		t.NoErr(vp.AddNode(p), "AddNode %d", id)
		if g.GenerateId() != id+1 {
			t.Failf("after adding %d the next identifier is %d", id, g.GenerateId())
		}
		s := stored{keep, neighbourhood(t, g, id)}
		for _, o := range model {
			if many > 0 {
				break
			}
			if o.near == s.near {
				same++
				break
			}
		}
		model[id] = s
		if j < 10 || many == 0 && t.R.Intn(20) == 0 || many > 0 && t.R.Intn(many/3) == 0 {
			check("after adding", vt, nt)
		}
		if t.R.Intn(15) == 0 {
			if err := vp.AddNode(make(hnsw.Point, d+1)); err == nil {
				t.Failf("a vector of %d dimensions was stored among those of %d", d+1, d)
			}
			if g.GenerateId() != id+1 {
				t.Failf("a refused vector was given an identifier")
			}
		}
	}
	check("at the end", vt, nt)
	// from the bytes alone
	qa, err := pagefile.NewPageFile(mem.New(fa.Buf))
	t.NoErr(err, "reopening")
	qb := qa
	if pfa != pfb {
		qb, err = pagefile.NewPageFile(mem.New(fb.Buf))
		t.NoErr(err, "reopening")
	}
	check("opened afresh", btree.NewBTree(ra, qa, uint64(d)), &bptree.BPTree{PageFile: qb, MetaPage: rb, Width: 5*neighbours + 1})
	t.Count("added", n)
	t.Count("equal_neighbourhoods", same)
	t.Max("max_pages", (len(fa.Buf)+len(fb.Buf))/4096)
	t.Distinct(fa.Buf)
	t.Sample(map[string]any{"case": t.Name, "vectors": n, "dimensions": d, "distinct": pool, "equal_neighbourhoods": same})
}

func main() {
	h.Main("E04", func(c *h.C) {
		c.Rule("random vectors, many equal, are added through the manager; after insertions every vector is looked up by its identifier in the vector tree and every neighbourhood found under its identifier in the other, also when opened afresh; distinct: sequences")
		// one after another: the graph draws levels from a source they share
		each := func(n int, name string, run func(t *h.T)) {
			for i := 0; i < n; i++ {
				c.Case(fmt.Sprintf("%s/%d", name, i), run)
			}
		}
		each(c.N(150, 3000), "add", func(t *h.T) { add(t, 0) })
		each(c.N(4, 60), "many", func(t *h.T) { add(t, 1100+t.R.Intn(4000)) })
		each(c.N(1, 4), "most", func(t *h.T) { add(t, 66000+t.R.Intn(1000)) })
	})
}
