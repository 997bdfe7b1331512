// B04: the space an index takes against what it holds.
package main

import (
	"encoding/binary"
	"fmt"

	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
	"verif/raw"
	"verif/tr"
)

const page = 4096

func uv(v uint64) int { return len(binary.AppendUvarint(nil, v)) }

// most is how many nodes of a tree there may be over n things of at most size
// bytes each, when nodes (but one per level) are at least a third full.
func most(n, size int) int {
	fit := (page - 16) / size
	return 2 + 3*n/max(fit, 1)
}

// judge compares the nodes of an ordered index with its entries.
func judge(t *h.T, what string, st *raw.Tree, inline bool) {
	entry, key := 0, 0
	for _, e := range st.Entries {
		k := uv(e.KeyOff) + uv(uint64(e.KeyLen))
		if inline {
			k += len(e.Value)
		}
		key = max(key, k)
		entry = max(entry, k+uv(e.RecOff)+uv(uint64(e.RecLen)))
	}
	leaves := len(st.Leaves)
	inner := len(st.Pages) - leaves
	if m := most(len(st.Entries), entry); leaves > m {
		t.Failf("%s: %d entries of at most %d bytes are spread over %d leaves, %d are enough were they a third full", what, len(st.Entries), entry, leaves, m)
	}
	if m := most(len(st.Pages), key+5) + st.Depth; inner > m {
		t.Failf("%s: %d nodes with keys of at most %d bytes have %d nodes above them, %d are enough were they a third full", what, len(st.Pages), key, inner, m)
	}
	// depth: a third of a page, or two, at every level
	need, reach := 1, 1
	for wide := max((page-16)/(key+5)/3, 2); reach < leaves; reach *= wide {
		need++
	}
	if st.Depth > need+1 {
		t.Failf("%s: %d entries are %d levels deep, %d were expected", what, len(st.Entries), st.Depth, need)
	}
	t.Count("trees_judged", 1)
	t.Count("nodes_judged", len(st.Pages))
	if leaves >= 4 {
		t.Count("trees_of_many_leaves", 1)
		t.Max("most_leaves", leaves)
		t.Max("most_percent_of_allowed_leaves", 100*leaves/most(len(st.Entries), entry))
		if inner >= 4 {
			t.Max("most_percent_of_allowed_inner", 100*inner/(most(len(st.Pages), key+5)+st.Depth))
		}
	}
	t.Max("max_depth", st.Depth)
}

// directory is the pages there may be for so many slots.
func directory(t *h.T, slots, pages int) {
	if m := max(1, (slots+14)/15); pages > m {
		t.Failf("%d slots take %d pages of the directory, %d are enough", slots, pages, m)
	}
	t.Max("most_slots", slots)
}

func trees(t *h.T) {
	b := tr.NewBed(t)
	k := 1
	if t.R.Intn(4) == 0 {
		k = 2 + t.R.Intn(30)
	}
	var work [][]tr.Pair
	total := 0
	for j := 0; j < k; j++ {
		s := tr.RandShape(t)
		n := 200 + t.R.Intn(3000)
		if k > 1 {
			n /= k
		}
		if s.Width > 100 {
			n = 40 + n/8
		}
		ps, data := tr.Gen(t, s, n)
		t.Logf("index %d: %v, %d keys", j, s, len(ps))
		b.Add(s, data)
		work = append(work, ps)
		total += len(ps)
	}
	// without entries nothing but the directory
	check := func() {
		slots, pages, err := raw.Directory(b.F.Buf)
		t.NoErr(err, "directory")
		directory(t, len(slots), len(pages))
		all := 1 + len(pages) + len(raw.FreeList(b.F.Buf))
		for i, tree := range b.Trees {
			if slots[i].RootLen == 0 {
				continue
			}
			st, err := raw.ReadTree(b.F.Buf, slots[i].RootOff, tree.Shape.Width, func(off uint64, n uint32) (string, error) {
				return string(tree.Data[off : off+uint64(n)]), nil
			})
			t.NoErr(err, "tree %d", i)
			judge(t, fmt.Sprintf("index %d (%v)", i, tree.Shape), st, tree.Shape.Width != 0)
			all += len(st.Pages)
		}
		if n := len(b.F.Buf) / page; n > all {
			t.Failf("the file has %d pages, %d are in use", n, all)
		}
	}
	check()
	done := 0
	for done < total {
		j := t.R.Intn(k)
		for burst := 1 + t.R.Intn(200); burst > 0 && len(work[j]) > 0; burst-- {
			b.Trees[j].Insert(work[j][0])
			work[j] = work[j][1:]
			done++
		}
		if t.R.Intn(12) == 0 {
			check()
		}
		if t.R.Intn(40) == 0 {
			b.Open()
			t.Count("reopened", 1)
		}
	}
	check()
	t.Count("keys_inserted", total)
	t.Distinct(b.F.Buf)
}

// refill allocates and frees pages at random; the file never grows while a page is free.
func refill(t *h.T) {
	f := mem.New(nil)
	pf, err := pagefile.NewPageFile(f)
	t.NoErr(err, "NewPageFile")
	var live []int64
	peak := 0
	for range 60 + t.R.Intn(900) {
		if t.R.Intn(5) < 3 && len(live)-peak < 400 || len(live) == 0 {
			off, err := pf.NewPage([]byte{1})
			t.NoErr(err, "NewPage")
			live = append(live, off)
			t.Count("pages_allocated", 1)
		} else {
			i := t.R.Intn(len(live))
			if len(live) > peak {
				peak = len(live)
			}
			// the list of free pages has room for so many
			if peak-len(live) >= 500 {
				continue
			}
			t.NoErr(pf.FreePage(live[i]), "FreePage")
			live = append(live[:i], live[i+1:]...)
			t.Count("pages_freed", 1)
		}
		if len(live) > peak {
			peak = len(live)
		}
		if n := len(f.Buf) / page; n > peak+1 {
			t.Failf("the file has %d pages, of which never more than %d were in use", n, peak+1)
		}
		if t.R.Intn(50) == 0 {
			pf, err = pagefile.NewPageFile(f)
			t.NoErr(err, "NewPageFile")
			t.Count("reopened", 1)
		}
	}
	t.Distinct(f.Buf)
}

func vectors(t *h.T) {
	dim := []int{1, 2, 3, 8, 50, 100, 200, 300, 400, 480}[t.R.Intn(10)]
	n := 50 + t.R.Intn(60000/(dim+20))
	f := mem.New(nil)
	pf, err := pagefile.NewPageFile(f)
	t.NoErr(err, "NewPageFile")
	root, err := linkedpage.NewMultiBPTree(pf, 0)
	t.NoErr(err, "NewMultiBPTree")
	lp, err := root.AddNext()
	t.NoErr(err, "AddNext")
	bt := lp.BTree(btree.NewBTree(nil, nil, uint64(dim)))
	order := t.R.Perm(n)
	kind := []string{"random", "ascending", "descending"}[t.R.Intn(3)]
	entry := 0
	for i := range n {
		id := order[i]
		switch kind {
		case "ascending":
			id = i
		case "descending":
			id = n - 1 - i
		}
		dp := pointer.MemoryPointer{Offset: uint64(t.R.Intn(1000)), Length: uint32(t.R.Intn(100))}
		v := make(hnsw.Point, dim)
		for j := range v {
			v[j] = float32(t.R.NormFloat64())
		}
		t.NoErr(bt.Insert(pointer.ReferencedId{Value: hnsw.Id(id), DataPointer: dp}, v), "Insert")
		entry = max(entry, 4*dim+uv(uint64(id))+uv(dp.Offset)+uv(uint64(dp.Length))+4)
		// every node holds vectors of its own or copies of those below
		fit := max((page-16)/entry, 1)
		allowed := 2 + 2*(i+1)
		if fit >= 6 {
			allowed = 0
			for left := i + 1; left > 1; left = left * 3 / fit {
				allowed += 2 + 3*left/fit
			}
			allowed = max(allowed, 2)
		}
		if nodes := len(f.Buf)/page - 2; nodes > allowed {
			t.Failf("%d vectors of %d dimensions inserted in %s order take %d nodes, %d are enough were they a third full", i+1, dim, kind, nodes, allowed)
		} else if i > 100 && fit >= 6 {
			t.Max("most_percent_of_allowed_vector_nodes", 100*nodes/allowed)
		}
	}
	t.Count("vectors_inserted", n)
	t.Distinct(f.Buf)
}

// index judges an index file of generated data, built in steps.
func index(t *h.T) {
	conf := dg.RandConf(t.R)
	d := dg.JSONL(t.R, conf, 20+t.R.Intn(300))
	f := mem.New(nil)
	search := dg.Search(t.R, d)
	x, err := ix.Open(f, 0, search)
	t.NoErr(err, "NewIndexFile")
	for at := 0; at < len(d.Bytes); {
		at = min(len(d.Bytes), at+1+t.R.Intn(len(d.Bytes)))
		t.NoErr(x.Synchronize(d.Bytes[:at]), "Synchronize")
		if t.R.Intn(3) == 0 {
			x, err = ix.Open(f, 0, search)
			t.NoErr(err, "NewIndexFile")
		}
	}
	got, err := dg.Read(f.Buf, d.Bytes, 0)
	t.NoErr(err, "decoding")
	slots, pages, err := raw.Directory(f.Buf)
	t.NoErr(err, "directory")
	directory(t, len(slots), len(pages))
	all := 1 + len(pages)
	for _, fd := range got.Fields {
		if fd.Tree == nil {
			continue
		}
		all += len(fd.Tree.Pages)
		judge(t, fmt.Sprintf("%q of type %d", fd.Meta.Name, fd.Meta.Type), fd.Tree, fd.Meta.Width != 0)
	}
	if n := len(f.Buf) / page; n > all {
		t.Failf("the file has %d pages, %d are in use", n, all)
	}
	t.Count("index_files", 1)
	t.Count("lines_indexed", len(d.Lines))
	t.Distinct(f.Buf)
}

func main() {
	h.Main("B04", func(c *h.C) {
		c.Rule("ordered indexes, vector stores, page allocations and whole index files; the pages they take counted against what their contents need; distinct by the stored bytes")
		c.Each(c.N(120, 2500), "trees", trees)
		c.Each(c.N(60, 1200), "vectors", vectors)
		c.Each(c.N(120, 3000), "refill", refill)
		c.Each(c.N(60, 1500), "index", index)
	})
}
