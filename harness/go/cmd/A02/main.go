// A02: the slot directory, monitored against a list of slots.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"

	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"

	"verif/h"
	"verif/mem"
)

// 253 bytes and more run into the next slot, see the known finding.
const maxMeta = 252

type slot struct {
	root pointer.MemoryPointer
	meta []byte
}

type dir struct {
	t     *h.T
	f     *mem.File
	pf    *pagefile.PageFile
	root  *linkedpage.LinkedPage
	slots []slot
	lp    []*linkedpage.LinkedPage // handles in the order added, from this opening
	other map[int64][]byte         // pages allocated for something else
}

func (d *dir) open() {
	pf, err := pagefile.NewPageFile(d.f)
	d.t.NoErr(err, "NewPageFile")
	root, err := linkedpage.NewMultiBPTree(pf, 0)
	d.t.NoErr(err, "NewMultiBPTree")
	d.pf, d.root = pf, root
	lp, err := root.Collect()
	d.t.NoErr(err, "Collect")
	if len(lp) != len(d.slots) {
		d.t.Failf("the directory lists %d slots, %d were added", len(lp), len(d.slots))
	}
	d.lp = lp
}

func (d *dir) add() {
	t := d.t
	last := d.root
	if len(d.lp) > 0 {
		last = d.lp[len(d.lp)-1]
		if t.R.Intn(6) == 0 && len(d.lp) > 1 {
			at := d.root
			if k := t.R.Intn(len(d.lp)); k > 0 {
				at = d.lp[k-1]
			}
			before := bytes.Clone(d.f.Buf)
			if _, err := at.AddNext(); err == nil {
				t.Failf("a slot was added in the middle of the directory")
			}
			if !bytes.Equal(before, d.f.Buf) {
				t.Failf("refusing to add a slot in the middle changed the file")
			}
			t.Count("refused", 1)
		}
	}
	next, err := last.AddNext()
	t.NoErr(err, "AddNext after %d slots", len(d.slots))
	t.Logf("add slot %d", len(d.slots))
	d.lp = append(d.lp, next)
	d.slots = append(d.slots, slot{meta: []byte{}})
	d.checkSlot(len(d.slots)-1, next)
	t.Count("added", 1)
}

func (d *dir) set() {
	t := d.t
	if len(d.slots) == 0 {
		return
	}
	i := t.R.Intn(len(d.slots))
	if t.R.Intn(2) == 0 {
		mp := pointer.MemoryPointer{Offset: t.R.Uint64(), Length: t.R.Uint32()}
		t.Logf("slot %d: root %v", i, mp)
		t.NoErr(d.lp[i].SetRoot(mp), "SetRoot")
		d.slots[i].root = mp
	} else {
		n := t.R.Intn(maxMeta + 1)
		switch t.R.Intn(6) {
		case 0:
			n = maxMeta
		case 1:
			n = 0
		}
		b := make([]byte, n)
		t.R.Read(b)
		if t.R.Intn(4) == 0 {
			for i := range b {
				b[i] = 0xff
			}
		}
		t.Logf("slot %d: %d bytes of metadata", i, n)
		t.NoErr(d.lp[i].SetMetadata(b), "SetMetadata of %d bytes", n)
		d.slots[i].meta = b
		t.Max("max_metadata", n)
	}
	t.Count("written", 1)
	d.checkSlot(i, d.lp[i])
}

func (d *dir) refuse() {
	t := d.t
	before := bytes.Clone(d.f.Buf)
	if len(d.slots) > 0 {
		i := t.R.Intn(len(d.slots))
		if err := d.lp[i].SetMetadata(make([]byte, 256+t.R.Intn(300))); err == nil {
			t.Failf("oversized metadata was accepted")
		}
	}
	if err := d.root.SetMetadata([]byte("x")); err == nil {
		t.Failf("the directory itself accepted metadata")
	}
	if err := d.root.SetRoot(pointer.MemoryPointer{Offset: 1}); err == nil {
		t.Failf("the directory itself accepted a root")
	}
	if _, err := d.root.Metadata(); err == nil {
		t.Failf("the directory itself has metadata")
	}
	if _, err := d.root.Root(); err == nil {
		t.Failf("the directory itself has a root")
	}
	if !bytes.Equal(before, d.f.Buf) {
		t.Failf("a refused write changed the file")
	}
	t.Count("refused", 1)
}

func (d *dir) checkSlot(i int, lp *linkedpage.LinkedPage) {
	root, err := lp.Root()
	d.t.NoErr(err, "Root of slot %d", i)
	if root != d.slots[i].root {
		d.t.Failf("slot %d of %d: root is %v, %v was stored", i, len(d.slots), root, d.slots[i].root)
	}
	md, err := lp.Metadata()
	d.t.NoErr(err, "Metadata of slot %d", i)
	if !bytes.Equal(md, d.slots[i].meta) {
		d.t.Failf("slot %d of %d: metadata is %x, %x was stored", i, len(d.slots), md, d.slots[i].meta)
	}
	d.t.Count("slots_read", 1)
}

// checkAll walks the directory and compares it, and what is stored, with the
// slots added.
func (d *dir) checkAll() {
	i := 0
	for lp := d.root; ; i++ {
		next, err := lp.Next()
		if errors.Is(err, io.EOF) {
			break
		}
		d.t.NoErr(err, "Next after %d slots", i)
		if i >= len(d.slots) {
			d.t.Failf("the directory lists more than the %d slots added", len(d.slots))
		}
		d.checkSlot(i, next)
		lp = next
	}
	if i != len(d.slots) {
		d.t.Failf("walking the directory finds %d slots, %d were added", i, len(d.slots))
	}
	stored, pages, err := d.f.Raw().Directory()
	d.t.NoErr(err, "stored directory")
	if len(stored) != len(d.slots) {
		d.t.Failf("%d slots are stored, %d were added", len(stored), len(d.slots))
	}
	for i, s := range stored {
		if s.RootOff != d.slots[i].root.Offset || s.RootLen != d.slots[i].root.Length || !bytes.Equal(s.Meta, d.slots[i].meta) {
			d.t.Failf("slot %d is stored as root %d+%d, metadata %x", i, s.RootOff, s.RootLen, s.Meta)
		}
	}
	for _, p := range pages {
		if d.other[int64(p)] != nil {
			d.t.Failf("directory page %d was allocated for something else", p)
		}
	}
	if d.f.Stray > 0 {
		d.t.Failf("a page nobody has was written")
	}
	for off, want := range d.other {
		if !bytes.Equal(d.f.Get(off, 4096), want) {
			d.t.Failf("page %d, which is not the directory's, changed", off)
		}
	}
	d.t.Max("max_slots", len(d.slots))
	d.t.Max("max_pages", len(pages))
}

func main() {
	h.Main("A02", func(c *h.C) {
		c.Rule("random sequences of adding slots, writing roots and metadata (0 to 252 bytes) to any slot, refused writes, unrelated page allocations and reopenings; non-trivial: the directory spans more than one page")
		ops := func(t *h.T, far int64) {
			d := &dir{t: t, f: mem.New(nil), other: map[int64][]byte{}}
			d.open()
			if far > 0 {
				d.f.Far(far)
				d.open()
			}
			ops := 20 + t.R.Intn(150)
			for k := 0; k < ops; k++ {
				switch x := t.R.Intn(20); {
				case x < 6:
					d.add()
				case x < 16:
					d.set()
				case x == 16:
					d.refuse()
				case x == 17:
					p := make([]byte, 4096)
					t.R.Read(p)
					off, err := d.pf.NewPage(p)
					t.NoErr(err, "NewPage")
					d.other[off] = p
				case x == 18:
					d.open()
					t.Count("reopened", 1)
				default:
					d.checkAll()
				}
			}
			d.checkAll()
			d.open()
			d.checkAll()
			if len(d.slots) > 15 {
				t.Distinct(d.f.Buf)
			}
			t.Sample(map[string]any{"case": t.Name, "operations": ops, "slots": len(d.slots)})
		}
		c.Each(c.N(400, 4000), "ops", func(t *h.T) { ops(t, 0) })
		c.Each(c.N(40, 400), "far", func(t *h.T) {
			ops(t, mem.Sizes[t.R.Intn(len(mem.Sizes))])
			t.Count("far_directories", 1)
		})
		// directories of many pages
		c.Each(c.N(10, 100), "many", func(t *h.T) {
			d := &dir{t: t, f: mem.New(nil), other: map[int64][]byte{}}
			d.open()
			n := []int{225, 256, 300, 700, 1100, 2000, 4200, 16, 257, 70000}[t.Index()%10]
			if n == 70000 && !c.Thorough {
				n = 5000
			}
			for len(d.slots) < n {
				d.add()
				if t.R.Intn(4) == 0 {
					d.set()
				}
				if t.R.Intn(n) == 0 {
					d.refuse()
					d.open()
					t.Count("reopened", 1)
				}
				if len(d.slots)%512 == 0 {
					t.Beat()
				}
			}
			d.checkAll()
			d.open()
			for k := 0; k < 200; k++ {
				d.set()
			}
			d.add()
			d.checkAll()
			t.Distinct(d.f.Buf)
			t.Count("large_directories", 1)
		})
		// typed metadata goes through the same slots
		c.Each(c.N(30, 300), "typed", func(t *h.T) {
			d := &dir{t: t, f: mem.New(nil), other: map[int64][]byte{}}
			d.open()
			for k := 0; k < 33; k++ {
				d.add()
			}
			for k := 0; k < 60; k++ {
				i := t.R.Intn(len(d.slots))
				b := make([]byte, t.R.Intn(maxMeta+1))
				t.R.Read(b)
				t.NoErr(d.lp[i].MarshalMetadata(blob{&b}), "MarshalMetadata")
				d.slots[i].meta = b
				var got []byte
				t.NoErr(d.lp[i].UnmarshalMetadata(blob{&got}), "UnmarshalMetadata")
				if !bytes.Equal(got, b) {
					t.Failf("metadata is %x, %x was stored", got, b)
				}
			}
			d.checkAll()
			t.Distinct(d.f.Buf)
		})
		c.Finding("metadata-253-255", func(t *h.T) string {
			f := mem.New(nil)
			pf, err := pagefile.NewPageFile(f)
			t.NoErr(err, "NewPageFile")
			root, err := linkedpage.NewMultiBPTree(pf, 0)
			t.NoErr(err, "NewMultiBPTree")
			a, err := root.AddNext()
			t.NoErr(err, "AddNext")
			b, err := a.AddNext()
			t.NoErr(err, "AddNext")
			want := pointer.MemoryPointer{Offset: binary.LittleEndian.Uint64([]byte("abcdefgh")), Length: 7}
			t.NoErr(b.SetRoot(want), "SetRoot")
			t.NoErr(a.SetMetadata(bytes.Repeat([]byte{0xee}, 255)), "SetMetadata")
			got, err := b.Root()
			t.NoErr(err, "Root")
			if got != want {
				return "255 bytes of metadata in a slot overwrite the root pointer of the next slot"
			}
			return ""
		})
	})
}

type blob struct{ b *[]byte }

func (b blob) MarshalBinary() ([]byte, error) { return *b.b, nil }
func (b blob) UnmarshalBinary(p []byte) error { *b.b = bytes.Clone(p); return nil }
