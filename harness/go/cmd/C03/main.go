// C03: data files that grow while they are indexed, in any number of steps.
package main

import (
	"bytes"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/mmap"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
)

// store is where the index is kept: in memory or in a mapped file.
type store interface {
	open(t *h.T) io.ReadWriteSeeker
	close(t *h.T)
	bytes(t *h.T) []byte
}

type inMemory struct{ f *mem.File }

func (s *inMemory) open(t *h.T) io.ReadWriteSeeker { return s.f }
func (s *inMemory) close(t *h.T)                   {}
func (s *inMemory) bytes(t *h.T) []byte            { return s.f.Buf }

type mapped struct {
	path string
	f    *mmap.MemoryMappedFile
}

func (s *mapped) open(t *h.T) io.ReadWriteSeeker {
	f, err := mmap.OpenFile(s.path, os.O_RDWR|os.O_CREATE, 0o666)
	t.NoErr(err, "mmap.OpenFile")
	s.f = f
	return f
}
func (s *mapped) close(t *h.T) { t.NoErr(s.f.Close(), "Close") }
func (s *mapped) bytes(t *h.T) []byte {
	b, err := os.ReadFile(s.path)
	t.NoErr(err, "reading the index file")
	return b
}

func run(t *h.T, d *dg.Doc, search []string) {
	var s store = &inMemory{mem.New(nil)}
	if t.R.Intn(4) == 0 {
		p := filepath.Join(t.Dir, strings.ReplaceAll(t.Name, "/", "-")+".index")
		defer os.Remove(p)
		s = &mapped{path: p}
		t.Count("mapped_files", 1)
	}
	full := d.Bytes
	t.Logf("%q search %q", ix.Head(full), search)
	var cuts []int
	steps := 1 + t.R.Intn(6)
	if t.R.Intn(8) == 0 {
		steps = 40
	}
	for i := 0; i < steps; i++ {
		n := t.R.Intn(len(full) + 1)
		switch t.R.Intn(3) {
		case 0: // around a line break
			if len(d.Lines) > 0 {
				n = d.Lines[t.R.Intn(len(d.Lines))].End + t.R.Intn(3) - 1
			}
		case 1: // one more than before
			if len(cuts) > 0 {
				n = cuts[len(cuts)-1] + 1
			}
		}
		cuts = append(cuts, max(0, min(n, len(full))))
	}
	if len(full) <= 300 && t.R.Intn(6) == 0 {
		cuts = nil // byte by byte
		for i := 0; i <= len(full); i++ {
			cuts = append(cuts, i)
		}
	}
	cuts = append(cuts, len(full))
	sort.Ints(cuts)

	var x *appendable.IndexFile
	open := func() {
		var err error
		x, err = ix.Open(s.open(t), d.Format, search)
		t.NoErr(err, "opening the index file")
	}
	open()
	reopens := 0
	for k, n := range cuts {
		data := bytes.Clone(full[:n])
		t.Logf("synchronize %d bytes", n)
		t.NoErr(x.Synchronize(data), "Synchronize of %d bytes", n)
		lines := d.Complete(n)
		if len(cuts) < 50 || k%17 == 0 || k == len(cuts)-1 {
			p := d.Prefix(lines)
			p.Bytes = data
			want := p.Expect(search)
			if n < d.Body {
				want.Meta.ReadOffset = 0 // the header is not complete either
			}
			got, err := dg.Read(s.bytes(t), data, d.Format)
			if err != nil {
				t.Failf("after %d bytes the index cannot be decoded: %v", n, err)
			}
			if m := dg.Diff(got, want); m != "" {
				t.Failf("after %d bytes (%d lines, step %d): %s", n, lines, k, m)
			}
			t.Count("indexes_compared", 1)
		}
		if t.R.Intn(4) == 0 { // nothing new
			before := bytes.Clone(s.bytes(t))
			t.NoErr(x.Synchronize(data), "Synchronize again")
			if !bytes.Equal(before, s.bytes(t)) {
				t.Failf("synchronizing %d bytes again changed the index", n)
			}
			t.Count("repeats", 1)
		}
		if m := n - 1 - t.R.Intn(5); t.R.Intn(4) == 0 && m >= 0 { // shorter than before
			md, err := x.Metadata()
			t.NoErr(err, "Metadata")
			before := bytes.Clone(s.bytes(t))
			err = x.Synchronize(bytes.Clone(full[:m]))
			if short := uint64(m) < md.ReadOffset; short && err == nil {
				t.Failf("a data file of %d bytes was accepted, %d were indexed", m, md.ReadOffset)
			} else if !short && err != nil {
				t.Failf("a data file of %d bytes was refused, %d were indexed: %v", m, md.ReadOffset, err)
			} else if short {
				t.Count("shrunken", 1)
			}
			if !bytes.Equal(before, s.bytes(t)) {
				t.Failf("a shorter data file changed the index")
			}
		}
		if t.R.Intn(2) == 0 {
			s.close(t)
			open()
			reopens++
		}
		t.Count("steps", 1)
	}
	s.close(t)
	once := mem.New(nil)
	t.NoErr(ix.Build(once, full, d.Format, search), "Synchronize at once")
	a, err := dg.Read(s.bytes(t), full, d.Format)
	t.NoErr(err, "decoding")
	b, err := dg.Read(once.Buf, full, d.Format)
	t.NoErr(err, "decoding")
	if m := dg.Diff(a, b); m != "" {
		t.Failf("in %d steps, against at once: %s", len(cuts), m)
	}
	t.Count("reopens", reopens)
	if len(d.Lines) > 1 && len(cuts) > 2 {
		t.Distinct(full, cuts)
	}
	t.Sample(map[string]any{"case": t.Name, "lines": len(d.Lines), "bytes": len(full), "steps": len(cuts), "reopens": reopens})
}

func main() {
	h.Main("C03", func(c *h.C) {
		c.Rule("generated JSON Lines and CSV files synchronized in 1 to several hundred steps at arbitrary cuts (byte by byte, around line breaks, inside tokens), index in memory or mapped, reopened at random; the stored index is decoded and compared after the steps and with indexing at once; non-trivial: several lines and steps")
		jsonl := func(t *h.T, n int) {
			conf := dg.RandConf(t.R)
			d := dg.JSONL(t.R, conf, n)
			var search []string
			if t.R.Intn(4) == 0 {
				search = conf.Names[:1]
				for _, l := range d.Lines {
					for _, v := range l.Vals {
						if d.Expands(v) || v.Type == dg.String && len(v.Str) > 400 {
							search = nil
						}
					}
				}
			}
			run(t, d, search)
		}
		c.Each(c.N(700, 15000), "jsonl", func(t *h.T) { jsonl(t, t.R.Intn(14)) })
		c.Each(c.N(400, 8000), "csv", func(t *h.T) { run(t, dg.CSV(t.R, dg.RandCSVConf(t.R), t.R.Intn(14)), nil) })
		c.Each(c.N(16, 300), "jsonl-long", func(t *h.T) { jsonl(t, 150+t.R.Intn(200)) })
		c.Each(c.N(12, 300), "csv-long", func(t *h.T) { run(t, dg.CSV(t.R, dg.RandCSVConf(t.R), 150+t.R.Intn(200)), nil) })
		// something far larger than is usual
		c.Each(c.N(18, 180), "extreme", func(t *h.T) {
			d, kind := dg.Extreme(t.R, t.Index())
			if t.Index()%3 == 2 {
				d, kind = dg.ExtremeCSV(t.R, t.Index()/3)
			}
			t.Count("extreme_"+kind, 1)
			run(t, d, nil)
		})
		// line by line, very often
		c.Each(c.N(2, 8), "steps", func(t *h.T) {
			d := &dg.Doc{}
			x, f := (*appendable.IndexFile)(nil), mem.New(nil)
			n := 66000 + t.R.Intn(500)
			data := bytes.Repeat([]byte("{}\n"), n+9)[:0]
			for i := 0; i < n; i++ {
				start := len(data)
				l := dg.Line{Start: start, End: start + 2}
				if i%2000 == 7 || i > n-3 {
					data = append(data, "{\"a\":7}\n"...)
					l.End = len(data) - 1
					l.Vals = []dg.Val{{Path: "a", Type: dg.Number, Num: 7, Start: start + 5, End: start + 6}}
				} else {
					data = append(data, "{}\n"...)
				}
				d.Lines = append(d.Lines, l)
				if x == nil || t.Index() == 1 && i%100 == 0 {
					var err error
					x, err = ix.Open(f, 0, nil)
					t.NoErr(err, "opening")
				}
				t.NoErr(x.Synchronize(data), "Synchronize %d lines", i+1)
			}
			d.Bytes = data
			ix.Check(t, f.Buf, d, nil)
			t.Count("steps", n)
			t.Distinct(t.Name)
		})
		// growing past where 31 and 32 bits reach
		c.Each(c.N(40, 600), "far", func(t *h.T) {
			if t.R.Intn(2) == 0 {
				ix.Far(t, dg.CSV(t.R, dg.RandCSVConf(t.R), 1+t.R.Intn(40)), nil)
			} else {
				ix.Far(t, dg.JSONL(t.R, dg.RandConf(t.R), 1+t.R.Intn(40)), nil)
			}
		})
	})
}
