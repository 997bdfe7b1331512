// B01: every lookup in an ordered index, compared with a sorted list.
package main

import (
	"verif/h"
	"verif/tr"
)

func main() {
	h.Main("B01", func(c *h.C) {
		c.Rule("ordered indexes of 0 to several thousand keys of random shape (inline widths, by reference, many or few values, insertion order), with seeks in both directions to stored keys and their neighbourhood, finds and refused insertions while they grow; non-trivial: several nodes")
		run := func(t *h.T, far bool) {
			b := tr.NewBed(t)
			if far {
				b.Far()
			}
			s := tr.RandShape(t)
			n := t.R.Intn(400)
			if t.R.Intn(6) == 0 {
				n = 1500 + t.R.Intn(2500)
			}
			if t.R.Intn(8) == 0 {
				n = t.R.Intn(4)
			}
			if s.Width > 100 {
				n /= 3
			}
			ps, data := tr.Gen(t, s, n+1)
			if far {
				data = b.Move(s, ps, data)
			}
			tree := b.Add(s, data)
			t.Logf("%v, %d keys", s, len(ps))
			tree.CheckAll()
			tree.CheckFind(tree.Target())
			every := 1 + len(ps)/40
			for k, p := range ps {
				tree.Insert(p)
				if k%every == 0 {
					for j := 0; j < 4; j++ {
						tree.CheckSeek(tree.Target(), 3+t.R.Intn(30))
						tree.CheckFind(tree.Target())
					}
					tree.CheckRefused()
				}
			}
			tree.CheckAll()
			for j := 0; j < 60; j++ {
				tree.CheckSeek(tree.Target(), 3+t.R.Intn(60))
				tree.CheckFind(tree.Target())
			}
			// around every node boundary there is a key to miss
			for _, p := range tree.Model {
				k := p.Key
				tree.CheckFind(k)
				k.DataPointer.Offset++
				tree.CheckFind(k)
				if len(tree.Model) < 500 || t.R.Intn(20) == 0 {
					tree.CheckSeek(k, 2)
				}
			}
			t.Count("inserted", len(ps))
			t.Max("max_keys", len(ps))
			if len(b.F.Buf) > 6*4096 {
				t.Distinct(s, len(ps), b.F.Buf)
			}
			t.Sample(map[string]any{"case": t.Name, "shape": s.String(), "keys": len(ps), "pages": len(b.F.Buf) / 4096})
		}
		c.Each(c.N(180, 2500), "tree", func(t *h.T) { run(t, false) })
		// pages and keys past where 31 and 32 bits reach
		c.Each(c.N(30, 400), "far", func(t *h.T) { run(t, true) })
	})
}
