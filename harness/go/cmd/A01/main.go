// A01: the page allocator, monitored against a model of which pages are in use
// and which are free, with every write it makes checked against that model.
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/kevmo314/appendable/pkg/mmap"
	"github.com/kevmo314/appendable/pkg/pagefile"

	"verif/h"
	"verif/mem"
)

const page = 4096

type model struct {
	t     *h.T
	f     *mem.File
	pf    *pagefile.PageFile
	data  map[int64][]byte // pages in use
	used  []int64
	free  []int64 // oldest first
	touch int64   // the page the current operation may write, besides page 0
}

func (m *model) onWrite(off int64, p []byte) {
	for o := off / page; len(p) > 0 && o <= (off+int64(len(p))-1)/page; o++ {
		if o == 0 {
			continue
		}
		if _, ok := m.data[o*page]; ok && m.touch != o*page {
			m.t.Failf("a write of %d bytes at %d lands in page %d, which is in use", len(p), off, o*page)
		}
	}
}

func (m *model) alloc() {
	t := m.t
	var data []byte
	switch t.R.Intn(5) {
	case 0:
	case 1:
		data = make([]byte, page)
	default:
		data = make([]byte, t.R.Intn(page+1))
	}
	t.R.Read(data)
	if t.R.Intn(40) == 0 {
		before := bytes.Clone(m.f.Buf)
		if _, err := m.pf.NewPage(make([]byte, page+1+t.R.Intn(100))); err == nil {
			t.Failf("a page was allocated for more than a page of data")
		}
		if !bytes.Equal(before, m.f.Buf) {
			t.Failf("a refused allocation changed the file")
		}
		t.Count("refused", 1)
	}
	size := m.f.Size()
	off, err := m.pf.NewPage(data)
	t.Logf("NewPage(%d bytes) = %d, %v", len(data), off, err)
	t.NoErr(err, "NewPage")
	if off <= 0 || off%page != 0 {
		t.Failf("allocated page at %d", off)
	}
	if _, ok := m.data[off]; ok {
		t.Failf("page %d was handed out while in use", off)
	}
	if len(m.free) > 0 {
		if off != m.free[0] {
			t.Failf("page %d was handed out, the oldest free one is %d (of %d)", off, m.free[0], len(m.free))
		}
		m.free = m.free[1:]
		t.Count("reused", 1)
		if m.f.Size() != size {
			t.Failf("the file grew from %d to %d bytes to reuse a page", size, m.f.Size())
		}
	} else {
		if off != size || m.f.Size() != size+page {
			t.Failf("page %d was added to a file of %d bytes, now %d", off, size, m.f.Size())
		}
		t.Count("grown", 1)
	}
	full := make([]byte, page)
	copy(full, data)
	if n := m.pf.PageCount(); n*page != m.f.Size() {
		t.Failf("%d pages are counted in a file of %d bytes", n, m.f.Size())
	}
	if n := m.pf.LastPage(); n*page != m.f.Size() {
		t.Failf("%d pages are in a file of %d bytes, by the last one", n, m.f.Size())
	}
	// pages by number are behind the one with the free list
	for _, i := range []int64{off/page - 1, t.R.Int63n(1 << (1 + t.R.Intn(50))), -1 - t.R.Int63n(1<<40)} {
		p, err := m.pf.Page(int(i))
		if (err == nil) != (i >= 0) || i >= 0 && p != (i+1)*page {
			t.Failf("page number %d is at %d (%v)", i, p, err)
		}
	}
	if off >= 1<<32 {
		t.Count("pages_past_4g", 1)
	}
	m.data[off] = full
	m.used = append(m.used, off)
	m.check(off)
	if m.f.Stray > 0 {
		t.Failf("a page nobody has was written")
	}
}

func (m *model) check(off int64) {
	if m.f.Size() < off+page {
		m.t.Failf("page %d is past the end of the file", off)
	}
	if !bytes.Equal(m.f.Get(off, page), m.data[off]) {
		m.t.Failf("the contents of page %d, which is in use, changed", off)
	}
}

func (m *model) freeOne() {
	t := m.t
	refuse := func(what string, off int64) {
		before := bytes.Clone(m.f.Buf[:page])
		if err := m.pf.FreePage(off); err == nil {
			t.Failf("freeing %s (%d) was accepted", what, off)
		}
		if !bytes.Equal(before, m.f.Buf[:page]) {
			t.Failf("refusing to free %s (%d) changed the recorded free pages", what, off)
		}
		t.Count("refused", 1)
	}
	switch t.R.Intn(12) {
	case 0:
		if len(m.free) > 0 {
			refuse("a free page", m.free[t.R.Intn(len(m.free))])
		}
		return
	case 1:
		refuse("an unaligned offset", int64(t.R.Intn(len(m.used)+2))*page+1+int64(t.R.Intn(page-1)))
		return
	case 2:
		refuse("the bookkeeping page", 0)
		return
	case 3: // pages that are not the file's
		refuse("a page before the file", -page*(1+t.R.Int63n(9)))
		refuse("a page past the file", (m.f.Size()+page-1)/page*page+page*t.R.Int63n(1<<uint(t.R.Intn(50))))
		return
	}
	if len(m.used) == 0 {
		return
	}
	i := t.R.Intn(len(m.used))
	off := m.used[i]
	if len(m.free) == 512 {
		refuse("a page while 512 are free", off)
		return
	}
	err := m.pf.FreePage(off)
	t.Logf("FreePage(%d) = %v", off, err)
	t.NoErr(err, "FreePage(%d) with %d free", off, len(m.free))
	m.used[i] = m.used[len(m.used)-1]
	m.used = m.used[:len(m.used)-1]
	delete(m.data, off)
	m.free = append(m.free, off)
	t.Count("freed", 1)
	t.Max("max_free", len(m.free))
}

// brim reopens the file with exactly k pages free, wherever in the ring they
// are, and uses them all.
func (m *model) brim(k int) {
	for len(m.used) <= k {
		m.alloc()
	}
	for len(m.free) < k {
		m.freeOne()
	}
	m.reopen()
	if k == 512 {
		off := m.used[0]
		if err := m.pf.FreePage(off); err == nil {
			m.t.Failf("freeing page %d was accepted with %d pages free, after reopening", off, k)
		}
		m.t.Count("refused", 1)
	}
	if m.t.R.Intn(2) == 0 {
		m.reopen()
	}
	for len(m.free) > 0 {
		m.alloc()
	}
	m.alloc() // the file grows again
	m.t.Count("brims", 1)
}

func (m *model) reopen() {
	for off := range m.data {
		m.check(off)
	}
	m.f.OnWrite = nil
	f := m.f.Clone()
	f.OnWrite = m.onWrite
	pf, err := pagefile.NewPageFile(f)
	m.t.Logf("reopen with %d free, %d in use: %v", len(m.free), len(m.used), err)
	m.t.NoErr(err, "reopen")
	if n := pf.PageCount(); n*page != m.f.Size() {
		m.t.Failf("%d pages are counted in a file of %d bytes, reopened", n, m.f.Size())
	}
	m.f, m.pf = f, pf
	m.t.Count("reopened", 1)
}

func main() {
	h.Main("A01", func(c *h.C) {
		c.Rule("random sequences of allocations, frees (valid, double, unaligned, of page 0, beyond 512) and reopenings, in phases that fill, drain and wrap the free ring, and with exactly as many free as there is room for; non-trivial: a page was reused after a reopening")
		run := func(name string, ops int, far int64, brims []int, bias func(i int) (alloc, free, reopen int)) {
			c.Case(name, func(t *h.T) {
				m := &model{t: t, f: mem.New(nil), data: map[int64][]byte{}}
				m.f.OnWrite = m.onWrite
				pf, err := pagefile.NewPageFile(m.f)
				t.NoErr(err, "NewPageFile")
				m.pf = pf
				if len(m.f.Buf) != page {
					t.Failf("a new file is %d bytes", len(m.f.Buf))
				}
				if far > 0 {
					for k := t.R.Intn(5); k > 0; k-- {
						m.alloc()
					}
					m.f.Far(far)
					m.reopen()
				}
				reopened := 0
				for i := 0; i < ops; i++ {
					a, f, r := bias(i)
					switch x := t.R.Intn(a + f + r); {
					case x < a:
						m.alloc()
					case x < a+f:
						m.freeOne()
					default:
						m.reopen()
						reopened++
					}
					for k := 0; k < 3 && len(m.used) > 0; k++ {
						m.check(m.used[t.R.Intn(len(m.used))])
					}
					if i%64 == 0 {
						t.Beat()
					}
				}
				m.reopen()
				// the free pages come back in order, then the file grows
				for n := len(m.free) + 1; n > 0; n-- {
					m.alloc()
				}
				m.reopen()
				for _, k := range brims {
					m.brim(k)
				}
				if reopened > 0 {
					t.Distinct(name)
				}
				t.Sample(map[string]any{"case": name, "operations": ops, "pages": m.f.Size() / page})
			})
		}
		for i := 0; i < c.N(150, 1500); i++ {
			run(fmt.Sprintf("mixed/%d", i), 150+i%7*50, 0, nil, func(int) (int, int, int) { return 40, 35, 2 })
		}
		for i := 0; i < c.N(8, 80); i++ {
			p := 300 + 100*(i%6)
			run(fmt.Sprintf("waves/%d", i), 6*p, 0, nil, func(k int) (int, int, int) {
				if k/p%2 == 0 {
					return 100, 10, 0
				}
				return 10, 100, 1
			})
		}
		for i := 0; i < c.N(4, 30); i++ {
			// fill the ring to the brim and go round it
			run(fmt.Sprintf("full/%d", i), 3200+i*100, 0, []int{512, 1, 511, 512, 2, 510, 512}, func(k int) (int, int, int) {
				switch {
				case k < 750:
					return 1, 0, 0
				case k < 1500:
					return 0, 1, 0
				default:
					return 100, 110, 2
				}
			})
		}
		// pages past where 31 and 32 bits reach
		for i := 0; i < c.N(24, 240); i++ {
			size := []int64{1<<31 - 3*page, 1<<32 - 20*page, 1 << 32, 5<<30 + page, 1 << 40}[i%5]
			run(fmt.Sprintf("far/%d", i), 200, size, nil, func(int) (int, int, int) { return 40, 35, 3 })
		}
		// the same through a memory mapped file on disk
		c.Each(c.N(6, 40), "mmap", func(t *h.T) {
			path := fmt.Sprintf("%s/a01-%s", t.Dir, strings.ReplaceAll(t.Name, "/", "-"))
			defer os.Remove(path)
			var free, used []int64
			marks := map[int64]byte{}
			for round := 0; round < 6; round++ {
				f, err := mmap.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
				t.NoErr(err, "open")
				pf, err := pagefile.NewPageFile(f)
				t.NoErr(err, "NewPageFile")
				for k := 0; k < 60; k++ {
					if t.R.Intn(2) == 0 && len(used) > 0 {
						j := t.R.Intn(len(used))
						t.NoErr(pf.FreePage(used[j]), "FreePage")
						free = append(free, used[j])
						delete(marks, used[j])
						used = append(used[:j], used[j+1:]...)
						continue
					}
					b := byte(1 + t.R.Intn(255))
					off, err := pf.NewPage([]byte{b, b})
					t.NoErr(err, "NewPage")
					if _, ok := marks[off]; ok || off == 0 {
						t.Failf("page %d was handed out while in use", off)
					}
					if len(free) > 0 {
						if off != free[0] {
							t.Failf("page %d was handed out, the oldest free one is %d", off, free[0])
						}
						free = free[1:]
					}
					used = append(used, off)
					marks[off] = b
				}
				t.NoErr(f.Close(), "close")
				b, err := os.ReadFile(path)
				t.NoErr(err, "read")
				for off, mk := range marks {
					if int(off)+page > len(b) || b[off] != mk || b[off+1] != mk || b[off+2] != 0 {
						t.Failf("page %d on disk does not hold what was put there", off)
					}
				}
				t.Count("disk_pages_checked", len(marks))
			}
			t.Distinct(t.Name)
		})
	})
}
