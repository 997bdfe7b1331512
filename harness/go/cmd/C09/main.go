// C09: independent builders and readers at the same time, under the race
// detector.
//
// While they run, the threads share nothing of the harness: each records the
// times of its own storage operations, and they are put in order afterwards, so
// that the monitor adds no synchronization that could hide a race.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/mmap"
	"github.com/kevmo314/appendable/pkg/ngram"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"

	"verif/dg"
	"verif/h"
	"verif/mem"
	"verif/raw"
	"verif/vx"
)

// slow is storage that gives way to other threads.
type slow struct {
	*mem.File
	r     *rand.Rand
	times []int64
}

func (s *slow) yield() {
	if len(s.times) < 3000 {
		s.times = append(s.times, time.Now().UnixNano())
	}
	switch s.r.Intn(800) {
	case 0:
		time.Sleep(time.Duration(s.r.Intn(60)) * time.Microsecond)
	case 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20:
		runtime.Gosched()
	}
}
func (s *slow) Read(p []byte) (int, error)  { s.yield(); return s.File.Read(p) }
func (s *slow) Write(p []byte) (int, error) { s.yield(); return s.File.Write(p) }
func (s *slow) Seek(o int64, w int) (int64, error) {
	if s.r.Intn(8) == 0 {
		s.yield()
	}
	return s.File.Seek(o, w)
}

type job struct {
	name string
	run  func(s *slow) error
	s    *slow
	err  error
}

// together runs the jobs at the same time.
func together(t *h.T, jobs []*job) {
	var start, done sync.WaitGroup
	start.Add(1)
	for i, j := range jobs {
		j.s = &slow{File: mem.New(nil), r: rand.New(rand.NewSource(t.R.Int63() + int64(i)))}
		done.Add(1)
		go func() {
			defer done.Done()
			defer func() {
				if r := recover(); r != nil {
					j.err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			debug.SetPanicOnFault(true)
			start.Wait()
			j.err = j.run(j.s)
		}()
	}
	start.Done()
	done.Wait()
	type ev struct {
		at int64
		by int
	}
	var evs []ev
	for i, j := range jobs {
		if j.err != nil {
			t.Failf("%s: %v", j.name, j.err)
		}
		for _, at := range j.s.times {
			evs = append(evs, ev{at, i})
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	f := fnv.New64a()
	switches := 0
	for i, e := range evs {
		f.Write([]byte{byte(e.by)})
		if i > 0 && evs[i-1].by != e.by {
			switches++
		}
	}
	t.Count("storage_events", len(evs))
	t.Count("switches_between_threads", switches)
	t.Count("jobs", len(jobs))
	t.Distinct(f.Sum64())
	t.Sample(map[string]any{"case": t.Name, "jobs": len(jobs), "storage_events": len(evs), "switches": switches})
}

func builder(d *dg.Doc, search []string, handler appendable.DataHandler, cuts []int) func(*slow) error {
	return func(s *slow) error {
		x, err := appendable.NewIndexFile(s, handler, search)
		if err != nil {
			return err
		}
		for _, n := range cuts {
			if err := x.Synchronize(d.Bytes[:n]); err != nil {
				return err
			}
		}
		got, err := dg.Read(s.Buf, d.Bytes, d.Format)
		if err != nil {
			return err
		}
		if m := dg.Diff(got, d.Expect(search)); m != "" {
			return errors.New(m)
		}
		return nil
	}
}

func cutsOf(r *rand.Rand, d *dg.Doc) []int {
	var c []int
	for k := r.Intn(4); k > 0; k-- {
		c = append(c, r.Intn(len(d.Bytes)+1))
	}
	sort.Ints(c)
	return append(c, len(d.Bytes))
}

func document(t *h.T) (*dg.Doc, []string) {
	if t.R.Intn(3) == 0 {
		return dg.CSV(t.R, dg.RandCSVConf(t.R), 20+t.R.Intn(60)), nil
	}
	conf := dg.RandConf(t.R)
	conf.Unicode, conf.Long, conf.Lone = 0, false, false
	d := dg.JSONL(t.R, conf, 10+t.R.Intn(40))
	var search []string
	if t.R.Intn(2) == 0 {
		for _, l := range d.Lines {
			for _, v := range l.Vals {
				if v.Type == dg.String {
					search = []string{v.Path}
				}
			}
		}
	}
	return d, search
}

// reader reads everything of a finished index through the repository's code.
func reader(d *dg.Doc, want *raw.Index, f io.ReadWriteSeeker, handler appendable.DataHandler, r *rand.Rand) error {
	x, err := appendable.NewIndexFile(f, handler, nil)
	if err != nil {
		return err
	}
	m, err := x.Metadata()
	if err != nil {
		return err
	}
	if m.Entries != want.Meta.Entries || m.ReadOffset != want.Meta.ReadOffset {
		return fmt.Errorf("metadata is %+v, not %+v", m, want.Meta)
	}
	lp, err := x.Indexes()
	for i, w := range want.Fields {
		if err != nil {
			return fmt.Errorf("index %d: %w", i, err)
		}
		if w.Tree != nil {
			width := w.Meta.Width
			if d.Format == 1 {
				width = 0
			}
			tree := lp.BPTree(&bptree.BPTree{Data: d.Bytes, DataParser: handler, Width: width})
			es := w.Tree.Entries
			it, err := tree.Iter(pointer.ReferencedValue{})
			if err != nil {
				return err
			}
			for k, e := range es {
				if !it.Next() {
					return fmt.Errorf("index %d ends after %d of %d entries: %v", i, k, len(es), it.Err())
				}
				if it.Key().DataPointer.Offset != e.KeyOff || it.Pointer().Offset != e.RecOff || string(it.Key().Value) != e.Value {
					return fmt.Errorf("index %d: entry %d is %v, not %v", i, k, it.Key(), e)
				}
			}
			if it.Next() {
				return fmt.Errorf("index %d has more than %d entries", i, len(es))
			}
			for k := 0; k < 20; k++ {
				e := es[r.Intn(len(es))]
				key, rec, err := tree.Find(pointer.ReferencedValue{Value: []byte(e.Value), DataPointer: pointer.MemoryPointer{Offset: e.KeyOff, Length: e.KeyLen}})
				if err != nil {
					return err
				}
				if key.DataPointer.Offset != e.KeyOff || rec.Offset != e.RecOff {
					return fmt.Errorf("index %d: %v is found as %v -> %v", i, e, key, rec)
				}
			}
		}
		lp, err = lp.Next()
	}
	if !errors.Is(err, io.EOF) {
		return fmt.Errorf("after %d indexes: %v", len(want.Fields), err)
	}
	return nil
}

func grams(text string) func(*slow) error {
	words := func(ts []ngram.Token) string {
		var sb strings.Builder
		for _, t := range ts {
			fmt.Fprintf(&sb, "%s@%d+%d ", t.Word, t.Offset, t.Length)
		}
		return sb.String()
	}
	first := map[int]string{}
	for n := 1; n <= 3; n++ {
		first[n] = words(ngram.Shuffle(ngram.BuildNgram(text, n)))
	}
	return func(s *slow) error {
		for k := 0; k < 30; k++ {
			n := 1 + k%3
			ts := ngram.BuildNgram(text, n)
			want := dg.Grams(text, n)
			if len(ts) != len(want) {
				return fmt.Errorf("%q has %d %d-grams, not %d", text, len(ts), n, len(want))
			}
			for i := range ts {
				if ts[i].Word != want[i].Word {
					return fmt.Errorf("%q: %d-gram %d is %q, not %q", text, n, i, ts[i].Word, want[i].Word)
				}
			}
			if got := words(ngram.Shuffle(ts)); got != first[n] {
				return fmt.Errorf("%q shuffled is %s, was %s", text, got, first[n])
			}
			s.yield()
		}
		return nil
	}
}

// vectors builds a graph and a vector store of its own.
func vectors(seed int64) func(*slow) error {
	return func(s *slow) error {
		r := rand.New(rand.NewSource(seed))
		dim := 1 + r.Intn(8)
		vec := func() hnsw.Point {
			p := make(hnsw.Point, dim)
			for i := range p {
				p[i] = float32(r.Intn(100))
			}
			return p
		}
		pts := []hnsw.Point{vec()}
		g := hnsw.NewHnsw(dim, 64, 16, pts[0])
		pf, err := pagefile.NewPageFile(s)
		if err != nil {
			return err
		}
		store := &btree.BTree{PageFile: pf, MetaPage: &root{}, VectorDim: uint64(dim)}
		for i := 0; i < 15; i++ {
			p := vec()
			id, err := g.InsertVector(p)
			if err != nil {
				return err
			}
			if int(id) != len(pts) {
				return fmt.Errorf("vector %d has identifier %d", len(pts), id)
			}
			pts = append(pts, p)
			if err := store.Insert(pointer.ReferencedId{Value: id}, p); err != nil {
				return err
			}
		}
		for i := 1; i < len(pts); i++ {
			_, v, err := store.Find(pointer.ReferencedId{Value: uint(i)})
			if err != nil || !reflect.DeepEqual([]float32(v), []float32(pts[i])) {
				return fmt.Errorf("vector %d is %v, not %v (%v)", i, v, pts[i], err)
			}
			res, err := g.KnnSearch(pts[i], 3)
			if err != nil {
				return err
			}
			min, err := res.PeekMinItem()
			if err != nil {
				return err
			}
			if _, d := vx.Item(min); d != 0 {
				return fmt.Errorf("the nearest to vector %d is at %v", i, d)
			}
		}
		return nil
	}
}

type root struct{ p pointer.MemoryPointer }

func (m *root) Root() (pointer.MemoryPointer, error) { return m.p, nil }
func (m *root) SetRoot(p pointer.MemoryPointer) error {
	m.p = p
	return nil
}

func main() {
	h.Main("C09", func(c *h.C) {
		c.Rule("8 to 16 threads at once, each building, growing or reading an index, a vector store or n-grams of its own (handlers are shared, storage yields at random), under the Go race detector, results compared with building alone; distinct: orders of storage operations across threads")
		c.Assume("a data race is seen when both accesses run, whatever their order; races between accesses no case performs are not")
		shared := handlers.JSONLHandler{}
		sharedCSV := handlers.CSVHandler{}
		handler := func(f byte) appendable.DataHandler {
			if f == 1 {
				return sharedCSV
			}
			return shared
		}
		for i := 0; i < c.N(40, 1500); i++ {
			c.Case(fmt.Sprintf("mixed/%d", i), func(t *h.T) {
				var jobs []*job
				for k := 0; k < 8+t.R.Intn(8); k++ {
					switch t.R.Intn(6) {
					case 0:
						jobs = append(jobs, &job{name: "n-grams", run: grams(dg.Text(t.R, 10+t.R.Intn(30), 1, false))})
					case 1:
						jobs = append(jobs, &job{name: "vectors", run: vectors(t.R.Int63())})
					default:
						d, search := document(t)
						jobs = append(jobs, &job{name: fmt.Sprintf("index of format %d searching %q", d.Format, search), run: builder(d, search, handler(d.Format), cutsOf(t.R, d))})
					}
				}
				together(t, jobs)
				t.Count("builders", len(jobs))
			})
		}
		for i := 0; i < c.N(24, 800); i++ {
			c.Case(fmt.Sprintf("readers/%d", i), func(t *h.T) {
				d, search := document(t)
				f := mem.New(nil)
				x, err := appendable.NewIndexFile(f, handler(d.Format), search)
				t.NoErr(err, "NewIndexFile")
				t.NoErr(x.Synchronize(d.Bytes), "Synchronize")
				want := d.Expect(search)
				path := filepath.Join(t.Dir, strings.ReplaceAll(t.Name, "/", "-"))
				t.NoErr(os.WriteFile(path, f.Buf, 0o644), "write")
				defer os.Remove(path)
				dpath := path + ".data"
				t.NoErr(os.WriteFile(dpath, d.Bytes, 0o644), "write")
				defer os.Remove(dpath)
				var jobs []*job
				for k := 0; k < 10; k++ {
					kind := k % 3
					seed := t.R.Int63()
					jobs = append(jobs, &job{name: fmt.Sprintf("reader kind %d", kind), run: func(s *slow) error {
						r := rand.New(rand.NewSource(seed))
						switch kind {
						case 0: // own handle in memory
							s.File = mem.New(f.Buf)
							return reader(d, want, s, handler(d.Format), r)
						case 1: // a mapping of its own, of the data as well
							m, err := mmap.OpenFile(path, os.O_RDONLY, 0)
							if err != nil {
								return err
							}
							defer m.Close()
							df, err := mmap.OpenFile(dpath, os.O_RDONLY, 0)
							if err != nil {
								return err
							}
							defer df.Close()
							own := *d
							own.Bytes = df.Bytes()
							return reader(&own, want, m, handler(d.Format), r)
						default: // a file handle of its own
							m, err := os.Open(path)
							if err != nil {
								return err
							}
							defer m.Close()
							return reader(d, want, m, handler(d.Format), r)
						}
					}})
				}
				together(t, jobs)
				after, err := os.ReadFile(path)
				t.NoErr(err, "read")
				if !bytes.Equal(after, f.Buf) {
					t.Failf("reading changed the index file")
				}
				t.Count("readers", len(jobs))
			})
		}
		// mapped files that grow at the same time
		for i := 0; i < c.N(6, 120); i++ {
			c.Case(fmt.Sprintf("mapped/%d", i), func(t *h.T) {
				var jobs []*job
				for k := 0; k < 8; k++ {
					d, search := document(t)
					path := filepath.Join(t.Dir, fmt.Sprintf("%s-%d", strings.ReplaceAll(t.Name, "/", "-"), k))
					defer os.Remove(path)
					cuts := cutsOf(t.R, d)
					jobs = append(jobs, &job{name: "mapped builder", run: func(s *slow) error {
						m, err := mmap.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)
						if err != nil {
							return err
						}
						x, err := appendable.NewIndexFile(m, handler(d.Format), search)
						if err != nil {
							return err
						}
						for _, n := range cuts {
							if err := x.Synchronize(d.Bytes[:n]); err != nil {
								return err
							}
							s.yield()
						}
						if err := m.Close(); err != nil {
							return err
						}
						b, err := os.ReadFile(path)
						if err != nil {
							return err
						}
						got, err := dg.Read(b, d.Bytes, d.Format)
						if err != nil {
							return err
						}
						if m := dg.Diff(got, d.Expect(search)); m != "" {
							return errors.New(m)
						}
						return nil
					}})
				}
				together(t, jobs)
			})
		}
	})
}
