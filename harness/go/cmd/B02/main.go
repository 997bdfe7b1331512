// B02: what is stored of ordered indexes, decoded and checked after insertions.
package main

import (
	"fmt"

	"verif/h"
	"verif/raw"
	"verif/tr"
)

// check decodes every tree of the file from its bytes and compares it with
// what was inserted, and accounts for every page.
func check(b *tr.Bed) {
	t := b.T
	slots, pages, err := b.F.Raw().Directory()
	t.NoErr(err, "stored directory")
	owner := map[uint64]string{0: "the free list"}
	own := func(who string, ps []uint64) {
		for _, p := range ps {
			if o, ok := owner[p]; ok {
				t.Failf("page %d belongs to %s and to %s", p, o, who)
			}
			owner[p] = who
		}
	}
	own("the directory", pages)
	own("the free pages", raw.FreeList(b.F.Buf))
	for i, tree := range b.Trees {
		s := slots[i]
		if s.RootLen == 0 {
			if len(tree.Model) > 0 {
				t.Failf("index %d has no root, %d keys were inserted", i, len(tree.Model))
			}
			continue
		}
		st, err := b.F.Raw().ReadTree(s.RootOff, tree.Shape.Width, func(off uint64, n uint32) (string, error) {
			if off+uint64(n) > uint64(len(tree.Data)) {
				return "", fmt.Errorf("key at %d+%d is outside the data", off, n)
			}
			return string(tree.Data[off : off+uint64(n)]), nil
		})
		if err != nil {
			t.Failf("index %d (%v) after %d keys: %v", i, tree.Shape, len(tree.Model), err)
		}
		own(fmt.Sprintf("index %d", i), st.Pages)
		if len(st.Entries) != len(tree.Model) {
			t.Failf("index %d stores %d entries, %d were inserted", i, len(st.Entries), len(tree.Model))
		}
		for k, e := range st.Entries {
			w := tree.Model[k]
			if e.Value != string(w.Key.Value) || e.KeyOff != w.Key.DataPointer.Offset || e.KeyLen != w.Key.DataPointer.Length ||
				e.RecOff != w.Rec.Offset || e.RecLen != w.Rec.Length {
				t.Failf("index %d: entry %d of %d is stored as %v, %v -> %v was inserted", i, k, len(st.Entries), e, w.Key, w.Rec)
			}
		}
		t.Max("max_depth", st.Depth)
		t.Max("max_keys", len(st.Entries))
		t.Count("nodes_decoded", len(st.Pages))
	}
	if b.F.Stray > 0 {
		t.Failf("a page nobody has was written")
	}
	if len(b.F.Buf)%raw.PageSize != 0 {
		t.Failf("the file is %d bytes", len(b.F.Buf))
	}
	if n := len(b.F.Buf) / raw.PageSize; n != len(owner) {
		t.Failf("%d of %d pages belong to nothing", n-len(owner), n)
	}
	t.Count("trees_checked", len(b.Trees))
}

func main() {
	h.Main("B02", func(c *h.C) {
		c.Rule("one to twenty ordered indexes of random shapes grow in one file, interleaved; the file is decoded after every insertion at first and at intervals later, and reopened; non-trivial: some index has several nodes")
		file := func(t *h.T, far bool) {
			b := tr.NewBed(t)
			if far {
				b.Far()
			}
			type todo struct {
				tree *tr.Tree
				ps   []tr.Pair
			}
			var work []todo
			k := 1 + t.R.Intn(3)
			if t.R.Intn(5) == 0 {
				k = 1 + t.R.Intn(20)
			}
			total := 0
			for j := 0; j < k; j++ {
				s := tr.RandShape(t)
				n := 1 + t.R.Intn(600)
				if t.R.Intn(10) == 0 {
					n = 3000
				}
				if s.Width > 100 {
					n = 1 + n/4
				}
				if k > 3 {
					n = 1 + n/10
				}
				ps, data := tr.Gen(t, s, n)
				if far {
					data = b.Move(s, ps, data)
				}
				t.Logf("index %d: %v, %d keys", j, s, len(ps))
				work = append(work, todo{b.Add(s, data), ps})
				total += len(ps)
			}
			n := 0
			check(b)
			for len(work) > 0 {
				j := t.R.Intn(len(work))
				w := &work[j]
				burst := 1 + t.R.Intn(4)
				for ; burst > 0 && len(w.ps) > 0; burst-- {
					w.tree.Insert(w.ps[0])
					w.ps = w.ps[1:]
					n++
				}
				if n < 60 || n%(1+total/20) == 0 {
					check(b)
				}
				if t.R.Intn(100) == 0 {
					b.Open()
					t.Count("reopened", 1)
				}
				if len(w.ps) == 0 {
					work = append(work[:j], work[j+1:]...)
				}
			}
			check(b)
			b.Open()
			for _, tree := range b.Trees {
				tree.CheckAll()
				for j := 0; j < 10; j++ {
					tree.CheckSeek(tree.Target(), 20)
					tree.CheckFind(tree.Target())
				}
			}
			t.Count("inserted", n)
			if len(b.F.Buf)/4096 > 2+2*len(b.Trees) {
				t.Distinct(b.F.Buf)
			}
			t.Sample(map[string]any{"case": t.Name, "indexes": len(b.Trees), "keys": n, "pages": len(b.F.Buf) / 4096})
		}
		c.Each(c.N(90, 1500), "file", func(t *h.T) { file(t, false) })
		// pages and keys past where 31 and 32 bits reach
		c.Each(c.N(24, 300), "far", func(t *h.T) { file(t, true) })
		// nodes filled to the last byte: keys sized so that some node comes to
		// every size around a page
		c.Each(c.N(40, 400), "full", func(t *h.T) {
			b := tr.NewBed(t)
			s := tr.Shape{Width: 1 + t.R.Intn(300), Values: 500, BigDP: true, Order: "random"}
			ps, data := tr.Gen(t, s, 60+t.R.Intn(200))
			tree := b.Add(s, data)
			for _, p := range ps {
				tree.Insert(p)
				check(b)
			}
			tree.CheckAll()
			t.Distinct(b.F.Buf)
		})
	})
}
