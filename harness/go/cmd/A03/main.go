// A03: a memory-mapped file, compared operation by operation with an ordinary
// file given the same operations.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"

	"github.com/kevmo314/appendable/pkg/mmap"
	"golang.org/x/sys/unix"

	"verif/h"
)

type pair struct {
	t    *h.T
	path string
	m    *mmap.MemoryMappedFile
	ref  *os.File
	ro   bool
	far  bool    // too large to compare all of it
	at   []int64 // where it was written
}

func (p *pair) pos() {
	a, err := p.m.Seek(0, io.SeekCurrent)
	p.t.NoErr(err, "Seek(0, current)")
	b, _ := p.ref.Seek(0, io.SeekCurrent)
	if a != b {
		p.t.Failf("the position is %d, in an ordinary file %d", a, b)
	}
}

// windows compares what is around where a large file was written, and its end.
func (p *pair) windows() {
	n := p.size()
	got := p.m.Bytes()
	disk, err := os.Open(p.path)
	p.t.NoErr(err, "mapped file")
	defer disk.Close()
	fi, err := disk.Stat()
	p.t.NoErr(err, "stat")
	if fi.Size() != n || int64(len(got)) != n {
		p.t.Failf("the view holds %d bytes, the file on disk %d, the ordinary file %d", len(got), fi.Size(), n)
	}
	at := append([]int64{n, 0, 1 << 31, 1 << 32, n % (1 << 32), n % (1 << 31)}, p.at...)
	if len(at) > 40 {
		at = append(at[:10], at[len(at)-30:]...)
	}
	for _, off := range at {
		off = max(0, min(off-4200, n-30000))
		w, d := make([]byte, 30000), make([]byte, 30000)
		k, err := p.ref.ReadAt(w, off)
		if err != io.EOF {
			p.t.NoErr(err, "reference file")
		}
		disk.ReadAt(d, off)
		if !bytes.Equal(got[off:off+int64(k)], w[:k]) {
			p.t.Failf("the view holds other bytes around %d", off)
		}
		if !bytes.Equal(d, w) {
			p.t.Failf("the file on disk holds other bytes around %d", off)
		}
	}
	p.t.Count("windows_compared", len(at))
	p.t.Max("max_size", int(n))
}

func (p *pair) contents() {
	if p.far {
		p.windows()
		return
	}
	want, err := os.ReadFile(p.ref.Name())
	p.t.NoErr(err, "reference file")
	if got := p.m.Bytes(); !bytes.Equal(got, want) {
		p.t.Failf("the view holds %s", diff(got, want))
	}
	disk, err := os.ReadFile(p.path)
	p.t.NoErr(err, "mapped file")
	if !bytes.Equal(disk, want) {
		p.t.Failf("the file on disk holds %s", diff(disk, want))
	}
	p.t.Count("contents_compared", 1)
	p.t.Max("max_size", len(want))
}

func diff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("%d bytes, the ordinary file %d, first different at %d", len(got), len(want), i)
}

func (p *pair) size() int64 {
	fi, err := p.ref.Stat()
	p.t.NoErr(err, "stat")
	return fi.Size()
}

// somewhere picks a position around the interesting ones.
func (p *pair) somewhere() int64 {
	n := p.size()
	if n < 20 {
		return p.t.R.Int63n(n + 20)
	}
	switch p.t.R.Intn(6) {
	case 0:
		return n
	case 1:
		return n - int64(p.t.R.Intn(20))
	case 2:
		return n + int64(p.t.R.Intn(9000))
	case 3:
		return n / 4096 * 4096
	default:
		return int64(p.t.R.Int63n(n + 1))
	}
}

func (p *pair) length() int {
	switch p.t.R.Intn(4) {
	case 0:
		return 1 + p.t.R.Intn(4)
	case 1:
		return 4095 + p.t.R.Intn(3)
	case 2:
		return 1 + p.t.R.Intn(20000)
	}
	return 1 + p.t.R.Intn(300)
}

func (p *pair) step() {
	t := p.t
	switch op := t.R.Intn(10); op {
	case 0, 1: // Write
		b := make([]byte, p.length())
		t.R.Read(b)
		off, _ := p.ref.Seek(0, io.SeekCurrent)
		p.at = append(p.at, off)
		p.write("Write", b, func() (int, error) { return p.m.Write(b) }, func() (int, error) { return p.ref.Write(b) })
	case 2, 3: // WriteAt
		b := make([]byte, p.length())
		t.R.Read(b)
		off := p.somewhere()
		p.at = append(p.at, off)
		p.write(fmt.Sprintf("WriteAt %d", off), b, func() (int, error) { return p.m.WriteAt(b, off) }, func() (int, error) { return p.ref.WriteAt(b, off) })
	case 4: // Read
		n := p.length()
		a, b := make([]byte, n), make([]byte, n)
		t.Logf("Read %d", n)
		x, err := p.m.Read(a)
		y, err2 := io.ReadFull(p.ref, b)
		if x != y || !bytes.Equal(a[:x], b[:y]) {
			t.Failf("Read of %d returned %d bytes, of an ordinary file %d (or other ones)", n, x, y)
		}
		switch {
		case err != nil && err != io.EOF:
			t.Failf("Read: %v", err)
		case err == io.EOF && x == n:
			t.Failf("Read of %d returned all of it and an end of file", n)
		case err == nil && x == 0:
			t.Failf("Read at the end returned no end of file")
		}
		_ = err2
		t.Count("reads", 1)
	case 5, 6: // ReadAt
		n := p.length()
		off := p.somewhere()
		if t.R.Intn(12) == 0 {
			off = -1 - int64(t.R.Intn(5000))
		}
		a, b := make([]byte, n), make([]byte, n)
		t.Logf("ReadAt %d+%d", off, n)
		x, err := p.m.ReadAt(a, off)
		y, err2 := p.ref.ReadAt(b, off)
		if x != y || !bytes.Equal(a[:x], b[:y]) {
			t.Failf("ReadAt %d+%d returned %d bytes, of an ordinary file %d (or other ones)", off, n, x, y)
		}
		if (err == nil) != (err2 == nil) || errors.Is(err, io.EOF) != errors.Is(err2, io.EOF) {
			t.Failf("ReadAt %d+%d returned %v, of an ordinary file %v", off, n, err, err2)
		}
		t.Count("reads", 1)
	case 7, 8: // Seek
		whence := t.R.Intn(3)
		off := p.somewhere()
		switch whence {
		case io.SeekCurrent:
			cur, _ := p.ref.Seek(0, io.SeekCurrent)
			off -= cur
		case io.SeekEnd:
			off -= p.size()
		}
		if t.R.Intn(12) == 0 {
			off = -1 - t.R.Int63n(1<<40)
		}
		if t.R.Intn(40) == 0 {
			whence = 3 + t.R.Intn(5)
		}
		t.Logf("Seek %d from %d", off, whence)
		before, _ := p.ref.Seek(0, io.SeekCurrent)
		x, err := p.m.Seek(off, whence)
		y, err2 := int64(0), error(errors.New("invalid"))
		if whence <= 2 {
			y, err2 = p.ref.Seek(off, whence)
		}
		if err2 == nil && y > p.size() {
			// a mapping has nothing past its end to seek to
			if err == nil && x != y {
				t.Failf("Seek %d from %d went to %d", off, whence, x)
			}
			if err != nil {
				p.ref.Seek(before, io.SeekStart)
			}
			t.Count("seeks_past_end", 1)
			break
		}
		if (err == nil) != (err2 == nil) {
			t.Failf("Seek %d from %d returned %v, of an ordinary file %v", off, whence, err, err2)
		}
		if err == nil && x != y {
			t.Failf("Seek %d from %d went to %d, of an ordinary file to %d", off, whence, x, y)
		}
		if err != nil {
			p.ref.Seek(before, io.SeekStart)
			t.Count("refused", 1)
		}
		t.Count("seeks", 1)
	case 9: // negative writes
		off := -1 - t.R.Int63n(9000)
		if t.R.Intn(2) == 0 { // and ones no file reaches
			off = []int64{math.MaxInt64 - t.R.Int63n(5), math.MaxInt64 - t.R.Int63n(1<<20), 1<<62 + t.R.Int63n(1<<60)}[t.R.Intn(3)]
		}
		t.Logf("WriteAt %d", off)
		if n, err := p.m.WriteAt([]byte("abc"), off); err == nil || n != 0 {
			t.Failf("a write at %d wrote %d bytes", off, n)
		}
		t.Count("refused", 1)
	}
	p.pos()
	if t.R.Intn(4) == 0 {
		p.contents()
	}
}

func (p *pair) write(what string, b []byte, m, ref func() (int, error)) {
	t := p.t
	t.Logf("%s, %d bytes", what, len(b))
	n, err := m()
	if p.ro {
		if err == nil || n != 0 {
			t.Failf("%s to a read-only mapping wrote %d bytes (%v)", what, n, err)
		}
		t.Count("refused", 1)
		return
	}
	n2, err2 := ref()
	t.NoErr(err2, "reference write")
	if err != nil || n != n2 {
		t.Failf("%s of %d bytes wrote %d (%v), to an ordinary file %d", what, len(b), n, err, n2)
	}
	t.Count("writes", 1)
}

func (p *pair) open(t *h.T, how int) {
	var err error
	switch how {
	case 0:
		p.m, err = mmap.OpenFile(p.path, os.O_RDWR|os.O_CREATE, 0o666)
	case 1:
		p.m, err = mmap.Open(p.path)
	case 2:
		p.m, err = mmap.OpenFile(p.path, os.O_RDONLY, 0)
		p.ro = true
	case 3:
		var f *os.File
		f, err = os.OpenFile(p.path, os.O_RDWR, 0)
		t.NoErr(err, "open")
		p.m, err = mmap.NewMemoryMappedFile(f, unix.PROT_READ)
		p.ro = true
	case 4:
		var f *os.File
		f, err = os.OpenFile(p.path, os.O_RDWR, 0)
		t.NoErr(err, "open")
		p.m, err = mmap.NewMemoryMappedFile(f, unix.PROT_READ|unix.PROT_WRITE)
	}
	t.NoErr(err, "open %d", how)
	t.Logf("open %d", how)
	_, err = p.ref.Seek(0, io.SeekStart)
	t.NoErr(err, "rewind")
}

func main() {
	h.Main("A03", func(c *h.C) {
		c.Rule("random reads, writes and seeks around positions of interest, on files of 0 to several hundred kilobytes, opened in every way and reopened; non-trivial: something was written or refused")
		c.Each(c.N(250, 4000), "ops", func(t *h.T) {
			dir, err := os.MkdirTemp(t.Dir, "mmap")
			t.NoErr(err, "scratch")
			defer os.RemoveAll(dir)
			var init []byte
			switch t.R.Intn(4) {
			case 0:
			case 1:
				init = make([]byte, 4096*(1+t.R.Intn(3)))
			default:
				init = make([]byte, 1+t.R.Intn(20000))
			}
			t.R.Read(init)
			p := &pair{t: t, path: filepath.Join(dir, "m")}
			t.NoErr(os.WriteFile(p.path, init, 0o666), "write")
			t.NoErr(os.WriteFile(filepath.Join(dir, "r"), init, 0o666), "write")
			p.ref, err = os.OpenFile(filepath.Join(dir, "r"), os.O_RDWR, 0)
			t.NoErr(err, "open")
			defer p.ref.Close()
			how := []int{}
			for s := 0; s < 1+t.R.Intn(3); s++ {
				p.ro = false
				how = append(how, t.R.Intn(5))
				p.open(t, how[s])
				for k := 10 + t.R.Intn(60); k > 0; k-- {
					p.step()
				}
				p.contents()
				t.NoErr(p.m.Close(), "Close")
				disk, err := os.ReadFile(p.path)
				t.NoErr(err, "read")
				want, _ := os.ReadFile(p.ref.Name())
				if !bytes.Equal(disk, want) {
					t.Failf("after closing the file holds %s", diff(disk, want))
				}
				t.Count("opened", 1)
			}
			final, _ := os.ReadFile(p.path)
			if !bytes.Equal(final, init) || p.ro {
				t.Distinct(final, how)
			}
			t.Sample(map[string]any{"case": t.Name, "initial_size": len(init), "final_size": len(final), "opened_as": how})
		})
		// files past where 31 and 32 bits reach, most of which takes no space
		for i := 0; i < c.N(8, 60); i++ {
			c.Case(fmt.Sprintf("far/%d", i), func(t *h.T) {
				dir, err := os.MkdirTemp(t.Dir, "mmap")
				t.NoErr(err, "scratch")
				defer os.RemoveAll(dir)
				p := &pair{t: t, path: filepath.Join(dir, "m"), far: true}
				size := []int64{1<<31 - 3000, 1<<32 - 9000, 1 << 32, 5<<30 + 4096}[i%4]
				for _, f := range []string{"m", "r"} {
					f := filepath.Join(dir, f)
					t.NoErr(os.WriteFile(f, []byte("start"), 0o666), "write")
					t.NoErr(os.Truncate(f, size), "truncate")
				}
				p.ref, err = os.OpenFile(filepath.Join(dir, "r"), os.O_RDWR, 0)
				t.NoErr(err, "open")
				defer p.ref.Close()
				for s := 0; s < 2; s++ {
					p.ro = false
					p.open(t, t.R.Intn(5))
					for k := 60; k > 0; k-- {
						p.step()
					}
					p.contents()
					t.NoErr(p.m.Close(), "Close")
				}
				t.Count("far_files", 1)
				t.Distinct(t.Name, p.at)
			})
		}
		// appending page by page, as an index file grows
		c.Case("grow", func(t *h.T) {
			path := filepath.Join(t.Dir, "grow")
			defer os.Remove(path)
			m, err := mmap.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)
			t.NoErr(err, "open")
			var want []byte
			for i := 0; i < t.N(1500, 8000); i++ {
				b := make([]byte, 4096)
				t.R.Read(b)
				_, err := m.Seek(0, io.SeekEnd)
				t.NoErr(err, "Seek")
				n, err := m.Write(b)
				if err != nil || n != len(b) {
					t.Failf("page %d: wrote %d bytes (%v)", i, n, err)
				}
				want = append(want, b...)
				k := t.R.Intn(len(want) - 15)
				x := make([]byte, 16)
				if _, err := m.ReadAt(x, int64(k)); err != nil || !bytes.Equal(x, want[k:k+16]) {
					t.Failf("page %d: other bytes at %d (%v)", i, k, err)
				}
				t.R.Read(x)
				if _, err := m.WriteAt(x, int64(k)); err != nil {
					t.Failf("page %d: %v", i, err)
				}
				copy(want[k:], x)
				if i%50 == 0 && !bytes.Equal(m.Bytes(), want) {
					t.Failf("page %d: other contents", i)
				}
			}
			t.NoErr(m.Close(), "Close")
			disk, _ := os.ReadFile(path)
			if !bytes.Equal(disk, want) {
				t.Failf("after closing the file holds %s", diff(disk, want))
			}
			t.Distinct(want)
			t.Count("pages_grown", len(want)/4096)
		})
	})
}
