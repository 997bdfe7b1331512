// E02: vector searches against exhaustive search.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"slices"

	"github.com/kevmo314/appendable/pkg/hnsw"

	"verif/h"
	"verif/vx"
)

func gen(t *h.T, d int, kind string, i int) hnsw.Point {
	p := make(hnsw.Point, d)
	for j := range p {
		switch kind {
		case "uniform":
			p[j] = t.R.Float32()
		case "grid":
			p[j] = float32(t.R.Intn(3))
		case "line":
			p[j] = float32(i)
		case "backward":
			p[j] = -float32(i)
		case "same":
			p[j] = 1.5
		case "clusters":
			p[j] = float32(10*(i%3)) + t.R.Float32()
		case "scales":
			p[j] = float32(t.R.NormFloat64() * math.Pow(10, float64(t.R.Intn(9)-4)))
		}
	}
	return p
}

var kinds = []string{"uniform", "grid", "line", "backward", "same", "clusters", "scales"}

// search runs a query and checks what must hold of any answer.
func search(t *h.T, g *hnsw.Hnsw, pts []hnsw.Point, q hnsw.Point, k int) []vx.Pair {
	keep := slices.Clone(q)
	r, err := g.KnnSearch(q, k)
	t.NoErr(err, "KnnSearch")
	if !slices.Equal(keep, q) {
		t.Failf("a search changed its query")
	}
	got, err := vx.Drain(r)
	t.NoErr(err, "the result")
	if len(got) > k || len(got) != r.Len() {
		t.Failf("%d results were asked for, there are %d (%d)", k, r.Len(), len(got))
	}
	seen := map[uint]bool{}
	for i, p := range got {
		if int(p.Id) >= len(pts) || seen[p.Id] {
			t.Failf("result %d of %v is not one of %d vectors, or a second time", i, got, len(pts))
		}
		seen[p.Id] = true
		if w := vx.Dist(pts[p.Id], q); !vx.Close(p.Dist, w) {
			t.Failf("vector %d is at %v from the query, not at %v", p.Id, w, p.Dist)
		}
		if i > 0 && got[i-1].Dist > p.Dist {
			t.Failf("%v comes before %v", got[i-1], p)
		}
	}
	t.Count("searches", 1)
	t.Count("results", len(got))
	return got
}

func nearest(pts []hnsw.Point, q hnsw.Point) []float64 {
	var ds []float64
	for _, p := range pts {
		ds = append(ds, vx.Dist(p, q))
	}
	slices.Sort(ds)
	return ds
}

// refused offers vectors and queries of the wrong dimension.
func refused(t *h.T, g *hnsw.Hnsw, d, n int) {
	for _, w := range []int{0, d - 1, d + 1, 2 * d} {
		if w == d || w < 0 {
			continue
		}
		if r, err := g.KnnSearch(make(hnsw.Point, w), 3); err == nil {
			t.Failf("a query of %d dimensions is answered with %d results by a collection of %d dimensions", w, r.Len(), d)
		}
		if id, err := g.InsertVector(make(hnsw.Point, w)); err == nil {
			t.Failf("a vector of %d dimensions is inserted as %d into a collection of %d dimensions", w, id, d)
		}
	}
	// a collection that could hold no vector is none
	for _, c := range [][2]int{{0, 0}, {-1, 0}, {d, d + 1}, {d, d - 1}, {d + 1, d}} {
		var g *hnsw.Hnsw
		func() {
			defer func() { recover() }()
			g = hnsw.NewHnsw(c[0], 4, 4, make(hnsw.Point, c[1]))
		}()
		if g != nil {
			t.Failf("there is a collection of %d dimensions that starts at a vector of %d", c[0], c[1])
		}
	}
	if id := g.GenerateId(); int(id) != n {
		t.Failf("after refused vectors the next identifier is %d, not %d", id, n)
	}
	t.Count("refused", 1)
}

func build(t *h.T, d, ef, m, n int, kind string) (*hnsw.Hnsw, []hnsw.Point) {
	rand.Seed(t.R.Int63())
	pts := []hnsw.Point{gen(t, d, kind, 0)}
	g := hnsw.NewHnsw(d, ef, m, slices.Clone(pts[0]))
	for len(pts) < n {
		p := gen(t, d, kind, len(pts))
		if kind != "uniform" && t.R.Intn(6) == 0 {
			p = slices.Clone(pts[t.R.Intn(len(pts))])
		}
		id, err := g.InsertVector(slices.Clone(p))
		t.NoErr(err, "InsertVector %d", len(pts))
		if int(id) != len(pts) {
			t.Failf("vector %d was given the identifier %d", len(pts), id)
		}
		pts = append(pts, p)
		t.Count("inserted", 1)
	}
	return g, pts
}

func main() {
	h.Main("E02", func(c *h.C) {
		c.Rule("collections of generated vectors are searched and compared with an exhaustive search: exactly while no larger than the neighbour limit (searched with as many candidates), by average recall for uniform ones; distinct: collections")
		c.Assume("no component is NaN or infinite", "the neighbour limit is at least 2")
		for i := 0; i < c.N(600, 12000); i++ {
			c.Case(fmt.Sprintf("exact/%d", i), func(t *h.T) {
				d := 1 + t.R.Intn(6)
				m := 2 + t.R.Intn(30)
				often := 1
				switch i % 100 {
				case 7: // many dimensions
					d = 100 + t.R.Intn(2000)
				case 57: // many vectors and links
					m = 150 + t.R.Intn(350)
					often = 20
				}
				n := 1 + t.R.Intn(m)
				if t.R.Intn(2) == 0 || often > 1 {
					n = m
				}
				kind := kinds[t.R.Intn(len(kinds))]
				rand.Seed(t.R.Int63())
				ef := n + t.R.Intn(10)
				t.Logf("%d vectors of %d dimensions, %s, limit %d, %d candidates", n, d, kind, m, ef)
				pts := []hnsw.Point{gen(t, d, kind, 0)}
				g := hnsw.NewHnsw(d, ef, m, slices.Clone(pts[0]))
				check := func() {
					k := t.R.Intn(n + 3)
					q := gen(t, d, kind, t.R.Intn(n+2)-1)
					if t.R.Intn(3) == 0 {
						q = slices.Clone(pts[t.R.Intn(len(pts))])
					}
					got := search(t, g, pts, q, k)
					want := nearest(pts, q)
					if len(got) != min(k, len(pts)) {
						t.Failf("the %d nearest of %d vectors are %d", k, len(pts), len(got))
					}
					for i, p := range got {
						if !vx.Close(p.Dist, want[i]) {
							t.Failf("nearest %d of %d vectors is at %v, %v was found at %v (searching %v)", i, len(pts), want[i], p.Id, p.Dist, q)
						}
					}
					t.Count("exact_searches", 1)
				}
				check()
				for len(pts) < n {
					p := gen(t, d, kind, len(pts))
					if t.R.Intn(8) == 0 {
						p = slices.Clone(pts[t.R.Intn(len(pts))])
					}
					id, err := g.InsertVector(slices.Clone(p))
					t.NoErr(err, "InsertVector")
					if int(id) != len(pts) {
						t.Failf("vector %d was given the identifier %d", len(pts), id)
					}
					pts = append(pts, p)
					if t.R.Intn(often) == 0 {
						check()
					}
					if t.R.Intn(6*often) == 0 {
						refused(t, g, d, len(pts))
					}
				}
				check()
				t.Max("max_exact", n)
				t.Max("max_dimensions", d)
				t.Distinct("exact", i, n, d, kind)
				t.Sample(map[string]any{"case": t.Name, "vectors": n, "dimensions": d, "kind": kind, "limit": m})
			})
		}
		// beyond the limit: what is found is true
		for i := 0; i < c.N(120, 2500); i++ {
			c.Case(fmt.Sprintf("large/%d", i), func(t *h.T) {
				d, m := 1+t.R.Intn(8), 2+t.R.Intn(12)
				kind := kinds[t.R.Intn(len(kinds))]
				if i%20 == 9 {
					d = 100 + t.R.Intn(2000)
				}
				g, pts := build(t, d, 1+t.R.Intn(40), m, 50+t.R.Intn(300), kind)
				t.Max("max_dimensions", d)
				for j := 0; j < 20; j++ {
					search(t, g, pts, gen(t, d, kind, t.R.Intn(len(pts))), t.R.Intn(30))
				}
				refused(t, g, d, len(pts))
				t.Max("max_vectors", len(pts))
				t.Distinct("large", i)
			})
		}
		// nearly all of the nearest are found
		recall := func(t *h.T, runs, ef, m, n, k, questions int) {
			found, asked, first, queries := 0, 0, 0, 0
			for run := 0; run < runs; run++ {
				d := 2 + run%7
				g, pts := build(t, d, ef, m, n, "uniform")
				for j := 0; j < questions; j++ {
					q := gen(t, d, "uniform", 0)
					want := nearest(pts, q)
					got := search(t, g, pts, q, k)
					for _, p := range got {
						if float64(p.Dist) <= want[k-1]*(1+1e-5) {
							found++
						}
					}
					if len(got) > 0 && vx.Close(got[0].Dist, want[0]) {
						first++
					}
					asked += k
					queries++
				}
				t.Beat()
			}
			t.Count(fmt.Sprintf("recall_permille_%d_of_%d", k, n), found*1000/asked)
			t.Count(fmt.Sprintf("nearest_permille_of_%d", n), first*1000/queries)
			if found*1000/asked < Floor || first*1000/queries < Floor {
				t.Failf("of the nearest %d vectors %d of %d were found, the nearest %d times of %d (the floor is %d in 1000)", k, found, asked, first, queries, Floor)
			}
			t.Max("max_vectors", n)
		}
		c.Case("recall", func(t *h.T) { recall(t, c.N(8, 60), 100, 16, 1000, 10, 50) })
		c.Case("recall of many vectors", func(t *h.T) { recall(t, c.N(2, 20), 100, 16, 12000, 10, 100) })
		c.Case("recall of many neighbours", func(t *h.T) { recall(t, c.N(4, 30), 600, 100, 1500, 400, 20) })
	})
}

const Floor = 980
