// E01: the double-ended priority queue against a sorted multiset.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/kevmo314/appendable/pkg/hnsw"

	"verif/h"
	"verif/vx"
)

type model struct {
	heap *hnsw.DistHeap
	m    map[uint]float32
}

func (q *model) bounds() (lo, hi float32) {
	lo, hi = float32(math.Inf(1)), float32(math.Inf(-1))
	for _, d := range q.m {
		lo, hi = min(lo, d), max(hi, d)
	}
	return
}

func check(t *h.T, q *model) {
	if q.heap.Len() != len(q.m) || q.heap.IsEmpty() != (len(q.m) == 0) {
		t.Failf("the queue has %d items (empty: %v), not %d", q.heap.Len(), q.heap.IsEmpty(), len(q.m))
	}
	mi, err1 := q.heap.PeekMinItem()
	ma, err2 := q.heap.PeekMaxItem()
	if len(q.m) == 0 {
		if err1 == nil || err2 == nil {
			t.Failf("an empty queue yields %v and %v", mi, ma)
		}
		return
	}
	t.NoErr(err1, "PeekMinItem")
	t.NoErr(err2, "PeekMaxItem")
	lo, hi := q.bounds()
	id, d := vx.Item(mi)
	if w, ok := q.m[id]; !ok || d != w || d != lo {
		t.Failf("the smallest is %d at %v, not at %v", id, d, lo)
	}
	id, d = vx.Item(ma)
	if w, ok := q.m[id]; !ok || d != w || d != hi {
		t.Failf("the largest is %d at %v, not at %v", id, d, hi)
	}
	t.Count("peeks", 2)
}

func drain(t *h.T, q *model) {
	for len(q.m) > 0 {
		pop(t, q, t.R.Intn(2) == 0)
	}
	check(t, q)
	if _, err := q.heap.PopMinItem(); err == nil {
		t.Failf("an empty queue yields a smallest item")
	}
	if _, err := q.heap.PopMaxItem(); err == nil {
		t.Failf("an empty queue yields a largest item")
	}
}

func pop(t *h.T, q *model, least bool) {
	lo, hi := q.bounds()
	var it *hnsw.Item
	var err error
	want := hi
	if least {
		it, err = q.heap.PopMinItem()
		want = lo
	} else {
		it, err = q.heap.PopMaxItem()
	}
	if len(q.m) == 0 {
		if err == nil {
			t.Failf("an empty queue yields an item")
		}
		return
	}
	t.NoErr(err, "removing (least: %v)", least)
	id, d := vx.Item(it)
	w, ok := q.m[id]
	if !ok || w != d || d != want {
		t.Failf("removed %d at %v (least: %v) from %d items; it was at %v (%v), the end is at %v", id, d, least, len(q.m), w, ok, want)
	}
	delete(q.m, id)
	t.Count("removed", 1)
}

func main() {
	h.Main("E01", func(c *h.C) {
		c.Rule("random sequences of insert, update, remove at either end, peek and copy with few or many distinct distances; every answer is compared with a map; distinct: sequences")
		c.Assume("distances are not NaN")
		c.Each(c.N(4000, 200000), "ops", func(t *h.T) {
			q := &model{hnsw.NewDistHeap(), map[uint]float32{}}
			all := []*model{q}
			ids := 1 + t.R.Intn(60)
			// the ids are any numbers, sometimes with the same low bits
			base, step := []uint{0, 0, 1 << 16, 1 << 31, 1<<32 - 5, 1 << 63, math.MaxUint - 70}[t.R.Intn(7)], uint(1)
			if base == 0 && t.R.Intn(2) == 0 {
				step = []uint{1 << 8, 1 << 16, 1 << 32, 1 << 53}[t.R.Intn(4)]
			}
			kinds := t.R.Intn(3)
			dist := func() float32 {
				switch kinds {
				case 0:
					return float32(t.R.Intn(4))
				case 1:
					return []float32{0, 1, -1, math.MaxFloat32, float32(math.Inf(1)), 1e-45, float32(math.Inf(-1)), -0.5}[t.R.Intn(8)]
				}
				return float32(t.R.NormFloat64() * 100)
			}
			n := 1 + t.R.Intn(200)
			push := 3 + t.R.Intn(6)
			sig := ""
			for i := 0; i < n; i++ {
				q := all[t.R.Intn(len(all))]
				switch k := t.R.Intn(10); {
				case k < push:
					id, d := base+step*uint(t.R.Intn(ids)), dist()
					if _, ok := q.m[id]; ok {
						t.Count("updates", 1)
					}
					t.Logf("insert %d at %v", id, d)
					q.heap.Insert(id, d)
					q.m[id] = d
					sig += fmt.Sprint(id, d, ";")
				case k == 9 && len(all) < 4:
					t.Logf("clone")
					m := map[uint]float32{}
					for id, d := range q.m {
						m[id] = d
					}
					all = append(all, &model{q.heap.Clone(), m})
					t.Count("copies", 1)
				default:
					least := t.R.Intn(2) == 0
					t.Logf("remove, least %v", least)
					pop(t, q, least)
					sig += "-"
				}
				for _, q := range all {
					check(t, q)
				}
			}
			for _, q := range all {
				ps, err := vx.Drain(q.heap)
				t.NoErr(err, "draining a copy")
				if len(ps) != len(q.m) {
					t.Failf("a copy yields %d items, not %d", len(ps), len(q.m))
				}
				for i, p := range ps {
					if i > 0 && ps[i-1].Dist > p.Dist {
						t.Failf("a copy yields %v before %v", ps[i-1], p)
					}
					if d, ok := q.m[p.Id]; !ok || d != p.Dist {
						t.Failf("a copy yields %v, it is at %v (%v)", p, d, ok)
					}
				}
				check(t, q)
				drain(t, q)
			}
			t.Max("max_items", len(q.m))
			t.Distinct(sig)
			t.Count("operations", n)
			t.Sample(map[string]any{"case": t.Name, "operations": n, "queues": len(all)})
		})
		// large queues
		c.Each(c.N(40, 1000), "large", func(t *h.T) {
			q := &model{hnsw.NewDistHeap(), map[uint]float32{}}
			n := 500 + t.R.Intn(1500)
			for i := 0; i < n; i++ {
				id := uint(t.R.Intn(n))
				d := float32(t.R.Intn(n / 2))
				q.heap.Insert(id, d)
				q.m[id] = d
			}
			t.Max("max_items", len(q.m))
			check(t, q)
			drain(t, q)
			t.Distinct("large", n)
		})
		// very large ones, emptied from both ends, with changes in between
		c.Each(c.N(6, 60), "huge", func(t *h.T) {
			q := hnsw.NewDistHeap()
			n := 1<<(12+t.Index()%6) + t.R.Intn(9000)
			ds := make([]float32, n)
			kinds := []int{n * 10, n / 10, 3}[t.R.Intn(3)]
			sorted := t.R.Intn(3)
			for i := range ds {
				ds[i] = float32(t.R.Intn(kinds))
				if sorted > 0 {
					ds[i] = float32(i) * float32(2*sorted-3)
				}
				q.Insert(uint(i), ds[i])
			}
			for k := n / 5; k > 0; k-- {
				i := t.R.Intn(n)
				ds[i] = float32(t.R.Intn(n))
				q.Insert(uint(i), ds[i])
			}
			order := append([]float32{}, ds...)
			sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
			seen := make([]bool, n)
			bias := 1 + t.R.Intn(9)
			for lo, hi := 0, n-1; lo <= hi; {
				if q.Len() != hi-lo+1 {
					t.Failf("the queue has %d items, not %d", q.Len(), hi-lo+1)
				}
				pop, want := q.PopMinItem, order[lo]
				least := t.R.Intn(10) < bias
				if least {
					lo++
				} else {
					pop, want = q.PopMaxItem, order[hi]
					hi--
				}
				it, err := pop()
				t.NoErr(err, "removing")
				id, d := vx.Item(it)
				if id >= uint(n) || seen[id] || ds[id] != d || d != want {
					t.Failf("removed %d at %v (least: %v) with %d left of %d; the end is at %v (removed before: %v)", id, d, least, hi-lo+1, n, want, id < uint(n) && seen[id])
				}
				seen[id] = true
			}
			if !q.IsEmpty() {
				t.Failf("the queue is not empty in the end")
			}
			t.Count("removed", n)
			t.Max("max_items", n)
			t.Distinct("huge", n)
		})
	})
}
