// B03: the vector store, compared with a map, and its stored form decoded.
package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"sort"

	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"

	"verif/h"
	"verif/mem"
)

type entry struct {
	dp  pointer.MemoryPointer
	vec []float32
}

type store struct {
	t     *h.T
	f     *mem.File
	pf    *pagefile.PageFile
	lp    *linkedpage.LinkedPage
	bt    *btree.BTree
	dim   int
	model map[hnsw.Id]entry
	ids   []hnsw.Id
}

func (s *store) open(first bool) {
	pf, err := pagefile.NewPageFile(s.f)
	s.t.NoErr(err, "NewPageFile")
	root, err := linkedpage.NewMultiBPTree(pf, 0)
	s.t.NoErr(err, "NewMultiBPTree")
	if first {
		s.lp, err = root.AddNext()
	} else {
		s.lp, err = root.Next()
	}
	s.t.NoErr(err, "slot")
	s.pf = pf
	s.bt = s.lp.BTree(btree.NewBTree(nil, nil, uint64(s.dim)))
}

func bits(v []float32) string {
	b := make([]byte, 0, 4*len(v))
	for _, x := range v {
		b = binary.LittleEndian.AppendUint32(b, math.Float32bits(x))
	}
	return string(b)
}

func (s *store) float() float32 {
	r := s.t.R
	switch r.Intn(8) {
	case 0:
		return math.Float32frombits(r.Uint32())
	case 1:
		return []float32{0, float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), math.MaxFloat32, math.SmallestNonzeroFloat32, -1}[r.Intn(8)]
	case 2:
		return float32(r.Intn(20))
	}
	return float32(r.NormFloat64() * 100)
}

func (s *store) vector(n int) hnsw.Point {
	v := make(hnsw.Point, n)
	for i := range v {
		v[i] = s.float()
	}
	return v
}

func (s *store) get(id hnsw.Id) {
	t := s.t
	k, v, err := s.bt.Find(pointer.ReferencedId{Value: id})
	want, ok := s.model[id]
	t.Count("lookups", 1)
	if !ok {
		// an empty store answers with nothing instead
		if err == nil && (len(v) != 0 || len(s.model) > 0) {
			t.Failf("identifier %d, which was not stored, has %v", id, v)
		}
		t.Count("missing", 1)
		return
	}
	t.NoErr(err, "Find %d of %d", id, len(s.model))
	if k.Value != id || k.DataPointer != want.dp {
		t.Failf("identifier %d is found as %v, with %v", id, k, want.dp)
	}
	if bits(v) != bits(want.vec) {
		t.Failf("identifier %d has %x, %x was stored", id, bits(v), bits(want.vec))
	}
}

// stored reads all ids and vectors from the bytes of the file.
func (s *store) stored() {
	t := s.t
	root, err := s.lp.Root()
	t.NoErr(err, "Root")
	if root.Length == 0 {
		return
	}
	var ids []uint64
	depth := 0
	seen := map[uint64]bool{}
	var walk func(off uint64, d int, lo, hi *uint64)
	walk = func(off uint64, d int, lo, hi *uint64) {
		pg := s.f.Raw().Page(off)
		if pg == nil || seen[off] {
			t.Failf("bad or repeated node at %d", off)
		}
		seen[off] = true
		n := int(int32(binary.LittleEndian.Uint32(pg)))
		leaf := n < 0
		if leaf {
			n = -n
		}
		if n == 0 || n > 2000 {
			t.Failf("node at %d has %d keys", off, n)
		}
		m := 4
		uv := func() uint64 {
			v, k := binary.Uvarint(pg[m:])
			if k <= 0 {
				t.Failf("node at %d runs past its page", off)
			}
			m += k
			return v
		}
		var own []uint64
		for i := 0; i < n; i++ {
			o, l, v := uv(), uv(), uv()
			if i > 0 && own[i-1] >= v {
				t.Failf("node at %d: identifier %d follows %d", off, v, own[i-1])
			}
			if lo != nil && v < *lo || hi != nil && v >= *hi {
				t.Failf("node at %d: identifier %d is out of bounds", off, v)
			}
			own = append(own, v)
			if w, ok := s.model[hnsw.Id(v)]; leaf && (!ok || w.dp.Offset != o || uint64(w.dp.Length) != l) {
				t.Failf("identifier %d is stored with %d+%d", v, o, l)
			}
		}
		var kids []uint64
		if !leaf {
			for i := 0; i <= n; i++ {
				kids = append(kids, uv())
			}
		}
		if d := uv(); d != uint64(s.dim) {
			t.Failf("node at %d has dimension %d", off, d)
		}
		if m+4*n*s.dim > 4096 {
			t.Failf("node at %d runs past its page", off)
		}
		for i := 0; i < n; i++ {
			v := string(pg[m : m+4*s.dim])
			m += 4 * s.dim
			if v != bits(s.model[hnsw.Id(own[i])].vec) {
				t.Failf("identifier %d is stored with another vector", own[i])
			}
		}
		t.Count("nodes_decoded", 1)
		if leaf {
			if depth == 0 {
				depth = d
			}
			if d != depth {
				t.Failf("leaves at depths %d and %d", d, depth)
			}
			ids = append(ids, own...)
			return
		}
		for i, k := range kids {
			l, r := lo, hi
			if i > 0 {
				l = &own[i-1]
			}
			if i < n {
				r = &own[i]
			}
			walk(k, d+1, l, r)
		}
	}
	walk(root.Offset, 1, nil, nil)
	if len(ids) != len(s.model) {
		t.Failf("%d vectors are stored, %d were inserted", len(ids), len(s.model))
	}
	if want := 2 + len(seen); want != len(s.f.Buf)/4096 {
		t.Failf("the file has %d pages, %d are in use", len(s.f.Buf)/4096, want)
	}
	if s.f.Stray > 0 {
		t.Failf("a page nobody has was written")
	}
	t.Max("max_depth", depth)
}

func (s *store) insert(id hnsw.Id) {
	e := entry{vec: s.vector(s.dim)}
	switch s.t.R.Intn(3) {
	case 0:
		e.dp = pointer.MemoryPointer{Offset: s.t.R.Uint64() >> s.t.R.Intn(64), Length: s.t.R.Uint32()}
	case 1:
		e.dp = pointer.MemoryPointer{Offset: uint64(s.t.R.Intn(9999)), Length: uint32(s.t.R.Intn(99))}
	}
	v := append(hnsw.Point{}, e.vec...)
	s.t.NoErr(s.bt.Insert(pointer.ReferencedId{Value: id, DataPointer: e.dp}, v), "Insert %d", id)
	s.model[id] = e
	s.ids = append(s.ids, id)
	s.t.Count("inserted", 1)
}

func (s *store) refused() {
	t := s.t
	before := bytes.Clone(s.f.Buf)
	if len(s.ids) > 0 {
		if err := s.bt.Insert(pointer.ReferencedId{Value: s.ids[t.R.Intn(len(s.ids))]}, s.vector(s.dim)); err == nil {
			t.Failf("an identifier was stored twice")
		}
	}
	n := t.R.Intn(2*s.dim + 2)
	if n == s.dim {
		n++
	}
	if err := s.bt.Insert(pointer.ReferencedId{Value: 1<<40 + hnsw.Id(t.R.Intn(100))}, s.vector(n)); err == nil {
		t.Failf("a vector of dimension %d was stored among those of %d", n, s.dim)
	}
	if !bytes.Equal(before, s.f.Buf) {
		t.Failf("a refused insertion changed the file")
	}
	t.Count("refused", 1)
}

func main() {
	h.Main("B03", func(c *h.C) {
		c.Rule("stores of 0 to about 2000 vectors of 1 to 480 dimensions with any bit patterns, identifiers in ascending, descending or random order and of any size; non-trivial: several nodes")
		run := func(t *h.T, far bool) {
			s := &store{t: t, f: mem.New(nil), model: map[hnsw.Id]entry{}}
			s.dim = []int{1, 2, 3, 8, 16, 64, 128, 256, 400, 480}[t.R.Intn(10)]
			if t.R.Intn(3) == 0 {
				s.dim = 1 + t.R.Intn(480)
			}
			n := t.R.Intn(300)
			if t.R.Intn(6) == 0 {
				n = t.R.Intn(2000)
			}
			big := t.R.Intn(3) == 0
			seen := map[hnsw.Id]bool{}
			var ids []hnsw.Id
			for len(ids) < n {
				id := hnsw.Id(t.R.Intn(4 * n))
				if big {
					id = hnsw.Id(t.R.Uint64() >> t.R.Intn(64))
				}
				if !seen[id] {
					seen[id] = true
					ids = append(ids, id)
				}
			}
			switch t.R.Intn(3) {
			case 0:
				sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			case 1:
				sort.Slice(ids, func(i, j int) bool { return ids[i] > ids[j] })
			}
			t.Logf("dimension %d, %d vectors", s.dim, n)
			s.open(true)
			if far {
				size := mem.Sizes[t.R.Intn(len(mem.Sizes))]
				t.Logf("the file goes on at %d", size)
				s.f.Far(size)
				s.open(false)
				t.Count("far_files", 1)
			}
			s.get(3)
			for i, id := range ids {
				s.insert(id)
				s.get(id)
				s.get(s.ids[t.R.Intn(len(s.ids))])
				s.get(id + 1)
				if i < 30 || t.R.Intn(50) == 0 {
					s.stored()
					s.refused()
				}
				if t.R.Intn(80) == 0 {
					s.open(false)
				}
			}
			s.open(false)
			s.stored()
			for _, id := range ids {
				s.get(id)
			}
			if len(s.f.Buf) > 4*4096 {
				t.Distinct(s.f.Buf)
			}
			t.Max("max_vectors", n)
			t.Max("max_dimension", s.dim)
			t.Sample(map[string]any{"case": t.Name, "dimension": s.dim, "vectors": n, "pages": len(s.f.Buf) / 4096})
		}
		c.Each(c.N(120, 2000), "store", func(t *h.T) { run(t, false) })
		c.Each(c.N(20, 300), "far", func(t *h.T) { run(t, true) })
		c.Each(c.N(60, 300), "large", func(t *h.T) {
			s := &store{t: t, f: mem.New(nil), model: map[hnsw.Id]entry{}, dim: 450 + t.R.Intn(700)}
			s.open(true)
			// whether it fits is the store's to say, but it has to keep to it
			before := bytes.Clone(s.f.Buf)
			v := s.vector(s.dim)
			if err := s.bt.Insert(pointer.ReferencedId{Value: ^hnsw.Id(0)}, v); err != nil {
				if !bytes.Equal(before, s.f.Buf) {
					t.Failf("a refused insertion of dimension %d changed the file", s.dim)
				}
				if s.dim < 480 {
					t.Failf("a vector of dimension %d was refused: %v", s.dim, err)
				}
				t.Count("refused", 1)
				return
			}
			s.model[^hnsw.Id(0)] = entry{vec: v}
			for i := 0; i < 40; i++ {
				s.insert(hnsw.Id(t.R.Uint64()))
				s.stored()
			}
			for id := range s.model {
				s.get(id)
			}
			t.Distinct("large", s.dim)
		})
	})
}
