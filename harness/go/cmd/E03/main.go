// E03: neighbour lists against a model, and the graphs that insertion builds.
package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"

	"github.com/kevmo314/appendable/pkg/hnsw"

	"verif/h"
	"verif/vx"
)

type model struct {
	levels []map[uint]float32
	top    map[uint]int
}

func newModel(top int) *model {
	m := &model{top: map[uint]int{}}
	for i := 0; i <= top; i++ {
		m.levels = append(m.levels, map[uint]float32{})
	}
	return m
}

func (m *model) link(level int, id uint, d float32) {
	for i := 0; i <= level; i++ {
		m.levels[i][id] = d
	}
	if l, ok := m.top[id]; !ok || level > l {
		m.top[id] = level
	}
}

func check(t *h.T, f *hnsw.Friends, m *model) {
	if f.TopLevel() != len(m.levels)-1 || f.NumLevels() != len(m.levels) {
		t.Failf("a vertex of level %d has levels up to %d, %d in all", len(m.levels)-1, f.TopLevel(), f.NumLevels())
	}
	for l := 0; l < len(m.levels)+3; l++ {
		if f.HasLevel(l) != (l < len(m.levels)) {
			t.Failf("a vertex of %d levels says %v to having level %d", len(m.levels), f.HasLevel(l), l)
		}
		q, err := f.GetFriendsAtLevel(l)
		if l >= len(m.levels) {
			if err == nil {
				t.Failf("a vertex of %d levels has neighbours at level %d", len(m.levels), l)
			}
			continue
		}
		t.NoErr(err, "GetFriendsAtLevel %d", l)
		ps, err := vx.Drain(q)
		t.NoErr(err, "neighbours at level %d", l)
		if len(ps) != len(m.levels[l]) || q.Len() != len(ps) {
			t.Failf("at level %d there are %d neighbours %v, %d were linked", l, len(ps), ps, len(m.levels[l]))
		}
		for i, p := range ps {
			if d, ok := m.levels[l][p.Id]; !ok || d != p.Dist {
				t.Failf("at level %d the neighbour %d is at %v, it was linked at %v (%v)", l, p.Id, p.Dist, d, ok)
			}
			if i > 0 && ps[i-1].Dist > p.Dist {
				t.Failf("at level %d the neighbours come as %v", l, ps)
			}
		}
		t.Count("lists", 1)
	}
}

func flush(t *h.T, f *hnsw.Friends, m *model, n int) {
	b, err := f.Flush(n)
	t.NoErr(err, "Flush")
	if len(b) != 5*n {
		t.Failf("%d neighbours flush to %d bytes", n, len(b))
	}
	// expected distances, nearest first
	ps, err := vx.Drain(level0(t, f))
	t.NoErr(err, "neighbours")
	seen := map[uint]bool{}
	for i := 0; i < n; i++ {
		e := b[5*i : 5*i+5]
		id := uint(binary.BigEndian.Uint32(e[1:]))
		if i >= len(ps) {
			if e[0] != 0 || id != 0 {
				t.Failf("of %d neighbours, number %d is flushed as %v", len(ps), i, e)
			}
			continue
		}
		d, ok := m.levels[0][id]
		if !ok || seen[id] || d != ps[i].Dist {
			t.Failf("neighbour %d of %d is flushed as %d at %v (linked: %v, before: %v), the distance should be %v", i, len(ps), id, d, ok, seen[id], ps[i].Dist)
		}
		if int(e[0]) != m.top[id]&0xff {
			t.Failf("neighbour %d is flushed with level %d, it was linked at %d", id, e[0], m.top[id])
		}
		seen[id] = true
	}
	t.Count("flushes", 1)
}

func level0(t *h.T, f *hnsw.Friends) *hnsw.DistHeap {
	q, err := f.GetFriendsAtLevel(0)
	t.NoErr(err, "level 0")
	return q
}

func refuses(f func()) (ok bool) {
	defer func() { ok = recover() != nil }()
	f()
	return
}

func main() {
	h.Main("E03", func(c *h.C) {
		c.Rule("random links at random levels into neighbour lists compared with sets per level after each; graphs built by insertion, every link of every vertex examined after each insertion and search; distinct: link sequences and graphs")
		c.Each(c.N(1500, 60000), "lists", func(t *h.T) {
			top := t.R.Intn(8)
			seldom := 1
			many := t.R.Intn(150) == 0
			if many {
				top = t.R.Intn(3)
				seldom = 40
			}
			if t.R.Intn(100) == 0 {
				top = 100 + t.R.Intn(156)
				seldom = 10
			}
			f, m := hnsw.NewFriends(top), newModel(top)
			check(t, f, m)
			ids, n := 1+t.R.Intn(30), 1+t.R.Intn(50)
			if many {
				ids, n = 300+t.R.Intn(1000), 400+t.R.Intn(600)
			}
			t.Max("max_neighbours", n)
			t.Max("max_list_level", top)
			ties := t.R.Intn(2) == 0
			var copies []func()
			sig := fmt.Sprint(top, ";")
			for i := 0; i < n; i++ {
				l, id := t.R.Intn(top+1), uint(t.R.Intn(ids))
				if t.R.Intn(20) == 0 {
					id += 1 << 31
				}
				d := t.R.Float32()
				if ties {
					d = float32(t.R.Intn(3))
				}
				// a link between two vectors has one distance
				if old, ok := m.levels[0][id]; ok {
					d = old
				}
				t.Logf("link %d at level %d, distance %v", id, l, d)
				f.InsertFriendsAtLevel(l, id, d)
				m.link(l, id, d)
				sig += fmt.Sprint(l, id, d, ";")
				t.Count("links", 1)
				if t.R.Intn(seldom) > 0 && i < n-1 {
					continue
				}
				check(t, f, m)
				flush(t, f, m, t.R.Intn(12))
				if many {
					flush(t, f, m, t.R.Intn(len(m.levels[0])+3))
				}
				check(t, f, m)
				if t.R.Intn(8) == 0 {
					cp := level0(t, f).Clone()
					want, _ := vx.Drain(cp)
					// what is done to a copy does not show, and vice versa
					other := level0(t, f).Clone()
					for j := t.R.Intn(5); j > 0 && !other.IsEmpty(); j-- {
						other.PopMaxItem()
					}
					other.Insert(uint(t.R.Intn(ids)), -5)
					check(t, f, m)
					copies = append(copies, func() {
						got, err := vx.Drain(cp)
						t.NoErr(err, "a copy")
						if fmt.Sprint(got) != fmt.Sprint(want) && !ties {
							t.Failf("a copy changed from %v to %v", want, got)
						}
						if len(got) != len(want) {
							t.Failf("a copy changed from %v to %v", want, got)
						}
					})
					t.Count("copies", 1)
				}
				if t.R.Intn(10) == 0 {
					l := top + 1 + t.R.Intn(3)
					if !refuses(func() { f.InsertFriendsAtLevel(l, id, d) }) {
						t.Failf("a vertex of level %d was linked at level %d", top, l)
					}
					check(t, f, m)
				}
			}
			for _, f := range copies {
				f()
			}
			t.Distinct(sig)
			t.Sample(map[string]any{"case": t.Name, "levels": top + 1, "neighbours": len(m.levels[0])})
		})
		// graphs
		for i := 0; i < c.N(60, 1500); i++ {
			c.Case(fmt.Sprintf("graph/%d", i), func(t *h.T) {
				rand.Seed(t.R.Int63())
				d, m := 1+t.R.Intn(5), 2+t.R.Intn(12)
				n := 2 + t.R.Intn(150)
				switch i % 20 {
				case 3: // many dimensions
					d, n = 100+t.R.Intn(1500), 2+t.R.Intn(40)
				case 13: // many links
					m = 80 + t.R.Intn(150)
					n = m + 50
				}
				pts := make([]hnsw.Point, 0, n)
				point := func() hnsw.Point {
					if len(pts) > 0 && t.R.Intn(8) == 0 {
						return append(hnsw.Point{}, pts[t.R.Intn(len(pts))]...)
					}
					p := make(hnsw.Point, d)
					for j := range p {
						p[j] = t.R.Float32() * 10
					}
					return p
				}
				pts = append(pts, point())
				ef := 1 + t.R.Intn(30)
				if m > 50 {
					ef = 2 * m
				}
				g := hnsw.NewHnsw(d, ef, m, pts[0])
				tops := map[uint]int{}
				examine := func() {
					links := 0
					for id := range pts {
						f, err := g.Neighborhood(uint(id))
						t.NoErr(err, "vector %d", id)
						if top, ok := tops[uint(id)]; ok && top != f.TopLevel() {
							t.Failf("the top level of vertex %d went from %d to %d", id, top, f.TopLevel())
						}
						tops[uint(id)] = f.TopLevel()
						for l := 0; l <= f.TopLevel(); l++ {
							q, err := f.GetFriendsAtLevel(l)
							t.NoErr(err, "vector %d level %d", id, l)
							ps, err := vx.Drain(q)
							t.NoErr(err, "vector %d level %d", id, l)
							for _, p := range ps {
								links++
								if int(p.Id) >= len(pts) {
									t.Failf("vertex %d links to %d, only %d were inserted", id, p.Id, len(pts))
								}
								if w := vx.Dist(pts[id], pts[p.Id]); !vx.Close(p.Dist, w) {
									t.Failf("the link from %d to %d is %v long, not %v", id, p.Id, p.Dist, w)
								}
								if o, err := g.Neighborhood(p.Id); err != nil || o.TopLevel() < l {
									t.Failf("at level %d, vertex %d links to %d, whose top level is lower (%v)", l, id, p.Id, err)
								}
							}
						}
					}
					if _, err := g.Neighborhood(uint(len(pts))); err == nil {
						t.Failf("an identifier that was not given out has neighbours")
					}
					t.Count("links_examined", links)
				}
				examine()
				for len(pts) < n {
					p := point()
					watch := len(pts) < 40 || t.R.Intn(6) == 0
					var before [][]map[uint]float32
					if watch {
						before = links(t, g, len(pts))
					}
					pts = append(pts, p)
					id, err := g.InsertVector(p)
					t.NoErr(err, "InsertVector")
					if int(id) != len(pts)-1 {
						t.Failf("vector %d was given the identifier %d", len(pts)-1, id)
					}
					f, err := g.Neighborhood(id)
					t.NoErr(err, "a new vector")
					if q, _ := f.GetFriendsAtLevel(0); q.IsEmpty() {
						t.Failf("the new vector %d has no neighbours", id)
					}
					if watch {
						inserted(t, before, links(t, g, len(pts)), m)
					}
					if len(pts) < 30 || t.R.Intn(10) == 0 {
						examine()
					}
					if t.R.Intn(5) == 0 {
						before := fmt.Sprint(g.GenerateId())
						lists := snapshot(t, g, len(pts))
						_, err := g.KnnSearch(point(), t.R.Intn(10))
						t.NoErr(err, "KnnSearch")
						if lists != snapshot(t, g, len(pts)) || before != fmt.Sprint(g.GenerateId()) {
							t.Failf("a search changed the graph")
						}
						t.Count("searches", 1)
					}
				}
				examine()
				top := 0
				for _, l := range tops {
					top = max(top, l)
				}
				t.Max("max_level", top)
				t.Distinct("graph", i, n, d)
			})
		}
	})
}

// links is what each vertex is linked to at each level, and how far it is.
func links(t *h.T, g *hnsw.Hnsw, n int) [][]map[uint]float32 {
	out := make([][]map[uint]float32, n)
	for id := range out {
		f, err := g.Neighborhood(uint(id))
		t.NoErr(err, "vector %d", id)
		for l := 0; l <= f.TopLevel(); l++ {
			q, err := f.GetFriendsAtLevel(l)
			t.NoErr(err, "vector %d level %d", id, l)
			ps, err := vx.Drain(q)
			t.NoErr(err, "vector %d level %d", id, l)
			at := map[uint]float32{}
			for _, p := range ps {
				at[p.Id] = p.Dist
			}
			out[id] = append(out[id], at)
		}
	}
	return out
}

// inserted judges what the insertion of the last vertex did to the links.
func inserted(t *h.T, before, after [][]map[uint]float32, limit int) {
	id := uint(len(before))
	highest := 0
	for _, ls := range before {
		highest = max(highest, len(ls)-1)
	}
	for l, at := range after[id] {
		if l <= highest && len(at) == 0 {
			t.Failf("the new vertex %d has no links at level %d of %d", id, l, highest)
		}
		for v, d := range at {
			if v == id {
				t.Failf("vertex %d is linked to itself", id)
			}
			if _, ok := after[v][l][id]; ok {
				t.Count("mutual_links", 1)
				continue
			}
			// only nearer ones, as many as there may be, take its place
			if len(after[v][l]) < limit {
				t.Failf("vertex %d links to %d at level %d, which has %d links of %d and none back", id, v, l, len(after[v][l]), limit)
			}
			for o, e := range after[v][l] {
				if e > d {
					t.Failf("vertex %d does not link back to %d at level %d (%v), but to %d (%v)", v, id, l, d, o, e)
				}
			}
		}
	}
	// a vertex of one level is linked there only, and what it is linked to is cut to the limit
	if len(after[id]) == 1 {
		for v := range after[id][0] {
			if n := len(after[v][0]); n > limit {
				t.Failf("inserting %d left vertex %d with %d links at level 0, where there may be %d", id, v, n, limit)
			}
			t.Count("limits_judged", 1)
		}
	}
	for v, ls := range before {
		if len(ls) != len(after[v]) {
			t.Failf("inserting %d changed the levels of vertex %d from %d to %d", id, v, len(ls), len(after[v]))
		}
		for l, old := range ls {
			now := after[v][l]
			for o := range now {
				if _, ok := old[o]; !ok && o != id {
					t.Failf("inserting %d linked vertex %d to %d at level %d", id, v, o, l)
				}
			}
			for o, d := range old {
				if _, ok := now[o]; ok {
					continue
				}
				t.Count("dropped_links", 1)
				if len(now) < limit {
					t.Failf("inserting %d dropped the link from %d to %d at level %d, where there are %d of %d", id, v, o, l, len(now), limit)
				}
				for k, e := range now {
					if e > d {
						t.Failf("inserting %d dropped the link from %d to %d at level %d (%v), but not to %d (%v)", id, v, o, l, d, k, e)
					}
				}
			}
		}
	}
	t.Count("insertions_judged", 1)
}

func snapshot(t *h.T, g *hnsw.Hnsw, n int) string {
	s := ""
	for id := 0; id < n; id++ {
		f, err := g.Neighborhood(uint(id))
		t.NoErr(err, "vector %d", id)
		for l := 0; l <= f.TopLevel(); l++ {
			q, _ := f.GetFriendsAtLevel(l)
			ps, _ := vx.Drain(q)
			s += fmt.Sprint(id, l, ps, ";")
		}
	}
	return s
}
