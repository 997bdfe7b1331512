// C11: the diagnostics of the indexer (benchmark lines, timings, debug log,
// profile) tell the truth and change nothing.
package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/kevmo314/appendable/pkg/appendable"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
)

// report is one benchmark line with what was true when it was written.
type report struct {
	micros, bytes, pages int64
	storage              int64 // size of the index at that time
	after                int64 // microseconds since the file was set, when it was written
}

// sink receives the benchmark lines.
type sink struct {
	t     *h.T
	f     *mem.File
	start time.Time
	text  strings.Builder
	at    []int // for every write, the length of text after it
	size  []int64
	when  []int64
}

func (s *sink) Write(p []byte) (int, error) {
	s.text.Write(p)
	s.at = append(s.at, s.text.Len())
	s.size = append(s.size, s.f.Size())
	s.when = append(s.when, time.Since(s.start).Microseconds())
	return len(p), nil
}

var line = regexp.MustCompile(`^(\d+),(\d+),(\d+)$`)

// parse reads the text of a benchmark file.
func parse(t *h.T, text string) []report {
	var rs []report
	if text == "" {
		return nil
	}
	if !strings.HasSuffix(text, "\n") {
		t.Failf("the benchmark file ends within a line: %q", clip(text))
	}
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		m := line.FindStringSubmatch(l)
		if m == nil {
			t.Failf("the benchmark line %q is not three numbers", l)
		}
		var r report
		r.micros, _ = strconv.ParseInt(m[1], 10, 64)
		r.bytes, _ = strconv.ParseInt(m[2], 10, 64)
		r.pages, _ = strconv.ParseInt(m[3], 10, 64)
		rs = append(rs, r)
	}
	return rs
}

// check compares reports with the lines of d numbered from..to. The size of the
// storage is known in the library runs.
func check(t *h.T, rs []report, d *dg.Doc, from, to int) {
	if len(rs) != to-from {
		t.Failf("%d benchmark lines for %d newly indexed records", len(rs), to-from)
	}
	var last report
	for i, r := range rs {
		if end := int64(d.Lines[from+i].End + 1); r.bytes != end {
			t.Failf("benchmark line %d says that %d bytes are indexed, record %d ends at %d", i, r.bytes, from+i, end)
		}
		if r.micros < last.micros {
			t.Failf("benchmark line %d says %d µs, the one before it %d", i, r.micros, last.micros)
		}
		if r.pages < last.pages {
			t.Failf("benchmark line %d says %d pages, the one before it %d: an index never shrinks", i, r.pages, last.pages)
		}
		if r.storage != 0 {
			if r.pages != r.storage/4096 {
				t.Failf("benchmark line %d says %d pages, the index has %d", i, r.pages, r.storage/4096)
			}
			if r.micros > r.after {
				t.Failf("benchmark line %d says that %d µs passed, at most %d did", i, r.micros, r.after)
			}
		}
		last = r
	}
	t.Count("benchmark_lines", len(rs))
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}

// library runs a history of synchronizations with and without a benchmark file.
func library(t *h.T, d *dg.Doc) {
	plain, timed := mem.New(nil), mem.New(nil)
	at, steps := 0, 1+t.R.Intn(4)
	done, total := 0, 0
	for k := 0; k < steps; k++ {
		if k == 1 && t.R.Intn(3) == 0 { // a large index
			size := append([]int64{1 << 28, 1<<28 + 5*4096, 1 << 30}, mem.Sizes...)[t.R.Intn(3+len(mem.Sizes))]
			plain.Far(size)
			timed.Far(size)
			t.Logf("the index goes on at %d", size)
			t.Count("far_indexes", 1)
		}
		at += t.R.Intn(len(d.Bytes) - at + 1)
		if k == steps-1 {
			at = len(d.Bytes)
		}
		data := d.Bytes[:at:at]
		lines := d.Complete(at)
		bad := false
		if t.R.Intn(4) == 0 && d.Format == 0 {
			start := 0
			if lines > 0 {
				start = d.Lines[lines-1].End + 1
			}
			data = append(bytes.Clone(data[:start]), []string{"{\"a\":\"b\n", "[1]\n{}\n", "bad\n{}\n"}[t.R.Intn(3)]...)
			bad = true
		}
		t.Logf("synchronizing %d bytes, bad line: %v", len(data), bad)
		for _, f := range []*mem.File{plain, timed} {
			x, err := ix.Open(f, d.Format, nil)
			t.NoErr(err, "Open")
			s := &sink{t: t, f: f, start: time.Now()}
			if f == timed {
				x.SetBenchmarkFile(s)
			}
			n := 1 + t.R.Intn(2)
			if f == plain {
				n = 1
			}
			for ; n > 0; n-- { // a repeated synchronization has nothing new
				if err := x.Synchronize(data); (err != nil) != bad {
					t.Failf("Synchronize: %v, bad line: %v", err, bad)
				}
			}
			if f == plain {
				continue
			}
			rs := parse(t, s.text.String())
			if len(s.at) == len(rs) {
				for i := range rs {
					rs[i].storage, rs[i].after = s.size[i], s.when[i]
				}
			} else {
				t.Count("buffered", 1)
			}
			if d.Format == 0 {
				check(t, rs, d, done, lines)
			} else if len(rs) != 0 {
				t.Failf("%d benchmark lines for a CSV file", len(rs))
			}
			total += len(rs)
		}
		if !bytes.Equal(plain.Buf, timed.Buf) {
			t.Failf("the index made with a benchmark file differs from the one made without, from byte %d on", differ(plain.Buf, timed.Buf))
		}
		done = lines
	}
	t.Count("indexes_compared", steps)
	if total > 0 {
		t.Distinct(d.Bytes, steps)
	}
	t.Sample(map[string]any{"case": t.Name, "synchronizations": steps, "benchmark_lines": total, "bytes": len(d.Bytes)})
}

// far is library for a file whose records come after others, past where 31 or
// 32 bits reach.
func far(t *h.T, d *dg.Doc) {
	base := dg.Bases[t.R.Intn(len(dg.Bases))]
	head := ix.Head(d.Bytes)
	d, free, err := d.Far(base)
	t.NoErr(err, "memory")
	t.Cleanup(free)
	t.Logf("at %d: %q", base, head)
	plain, timed := mem.New(nil), mem.New(nil)
	done, total := 0, 0
	for n := base; n < len(d.Bytes); {
		from := n
		n += 1 + t.R.Intn(len(d.Bytes)-n)
		lines := d.Complete(n)
		for _, f := range []*mem.File{plain, timed} {
			x, err := ix.Open(f, 0, nil)
			t.NoErr(err, "Open")
			if from == base {
				t.NoErr(x.SetMetadata(&appendable.FileMeta{Version: appendable.CurrentVersion, ReadOffset: uint64(base)}), "SetMetadata")
			}
			s := &sink{t: t, f: f, start: time.Now()}
			if f == timed {
				x.SetBenchmarkFile(s)
			}
			t.NoErr(x.Synchronize(d.Bytes[:n:n]), "Synchronize")
			if f == timed {
				rs := parse(t, s.text.String())
				if len(s.at) == len(rs) {
					for i := range rs {
						rs[i].storage, rs[i].after = s.size[i], s.when[i]
					}
				}
				check(t, rs, d, done, lines)
				total += len(rs)
			}
		}
		if !bytes.Equal(plain.Buf, timed.Buf) {
			t.Failf("the index made with a benchmark file differs from the one made without, from byte %d on", differ(plain.Buf, timed.Buf))
		}
		done = lines
	}
	if total > 0 {
		t.Distinct(head, base)
	}
	t.Count("far_documents", 1)
}

func differ(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// tool runs the command-line tool.
func tool(t *h.T, dir string, args ...string) (string, error) {
	cmd := exec.Command(os.Getenv("H_CLI"), args...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	t.Beat()
	t.Count("runs", 1)
	if cmd.ProcessState == nil {
		t.Failf("cannot run the tool: %v", err)
	}
	t.Logf("%q: %v\n%s", args, err, clip(string(out)))
	return string(out), err
}

var took = regexp.MustCompile(`(?m)msg="([^"]*)" duration=(\S+)$`)

// command runs the tool over a growing file twice: plainly and with diagnostics.
func command(t *h.T, d *dg.Doc, search []string) {
	dir := filepath.Join(t.Dir, strings.ReplaceAll(t.Name, "/", "-"))
	t.NoErr(os.Mkdir(dir, 0o755), "mkdir")
	defer os.RemoveAll(dir)
	name := func(s string) string { return filepath.Join(dir, s) }
	at, steps, done := 0, 1+t.R.Intn(3), 0
	var flags []string
	for k := 0; k < steps; k++ {
		at += t.R.Intn(len(d.Bytes) - at + 1)
		if k == steps-1 {
			at = len(d.Bytes)
		}
		data := d.Bytes[:at]
		lines := d.Complete(at)
		t.NoErr(os.WriteFile(name("data"), data, 0o644), "writing the data file")
		args := []string{"-jsonl"}
		if d.Format == 1 {
			args[0] = "-csv"
		}
		for _, s := range search {
			args = append(args, "-s", s)
		}
		_, err := tool(t, dir, append(append([]string{}, args...), "-i", name("plain"), name("data"))...)
		t.NoErr(err, "the plain run")
		which := 1 + t.R.Intn(15)
		if which&1 != 0 {
			args = append(args, "-b", name("bench"))
			if t.R.Intn(2) == 0 { // whatever it held is replaced
				t.NoErr(os.WriteFile(name("bench"), []byte(strings.Repeat("9,9,9\n", t.R.Intn(3000))), 0o644), "write")
			}
		}
		if which&2 != 0 {
			args = append(args, "-t")
		}
		if which&4 != 0 {
			args = append(args, "-debug")
		}
		if which&8 != 0 {
			args = append(args, "-pprof", name("profile"))
		}
		flags = append(flags, fmt.Sprint(which))
		start := time.Now()
		out, err := tool(t, dir, append(args, "-i", name("watched"), name("data"))...)
		wall := time.Since(start)
		t.NoErr(err, "the run with diagnostics")
		a, err := os.ReadFile(name("plain"))
		t.NoErr(err, "reading the index")
		b, err := os.ReadFile(name("watched"))
		t.NoErr(err, "reading the index")
		if !bytes.Equal(a, b) {
			t.Failf("the index made with diagnostics %v differs from the one made without, from byte %d on", args, differ(a, b))
		}
		if got, err := os.ReadFile(name("data")); err != nil || !bytes.Equal(got, data) {
			t.Failf("the data file changed (%v)", err)
		}
		if which&1 != 0 {
			text, err := os.ReadFile(name("bench"))
			t.NoErr(err, "reading the benchmark file")
			rs := parse(t, string(text))
			if d.Format == 0 {
				check(t, rs, d, done, lines)
				if n := len(rs); n > 0 {
					if rs[n-1].pages != int64(len(b)/4096) {
						t.Failf("the last benchmark line says %d pages, the index has %d", rs[n-1].pages, len(b)/4096)
					}
					if rs[n-1].micros > wall.Microseconds() {
						t.Failf("the last benchmark line says %d µs, the whole run took %d", rs[n-1].micros, wall.Microseconds())
					}
				}
			} else if len(rs) != 0 {
				t.Failf("%d benchmark lines for a CSV file", len(rs))
			}
			t.NoErr(os.Remove(name("bench")), "remove")
		}
		times := map[string]time.Duration{}
		for _, m := range took.FindAllStringSubmatch(out, -1) {
			v, err := time.ParseDuration(m[2])
			if err != nil || v < 0 || v > wall {
				t.Failf("%q took %s, in a run of %v", m[1], m[2], wall)
			}
			times[m[1]] = v
		}
		if which&2 != 0 {
			var sum, most time.Duration
			for _, v := range times {
				sum += v
				most = max(most, v)
			}
			if len(times) != 3 {
				t.Failf("-t reports %d times, not those of opening, writing and all:\n%s", len(times), clip(out))
			}
			if sum-most > most {
				t.Failf("the parts take longer than the whole: %v", times)
			}
			t.Count("timings", 1)
		} else if len(times) != 0 {
			t.Failf("times are reported unasked:\n%s", clip(out))
		}
		if debug := strings.Contains(out, "level=DEBUG"); debug && which&4 == 0 {
			t.Failf("debug output unasked:\n%s", clip(out))
		} else if debug {
			t.Count("debug_logs", 1)
		} else if which&4 != 0 && d.Format == 1 {
			t.Failf("no debug output although asked for:\n%s", clip(out))
		}
		if which&8 != 0 {
			f, err := os.ReadFile(name("profile"))
			t.NoErr(err, "reading the profile")
			z, err := gzip.NewReader(bytes.NewReader(f))
			if err == nil {
				_, err = io.Copy(io.Discard, z)
			}
			if err != nil {
				t.Failf("the profile of %d bytes is not complete: %v", len(f), err)
			}
			t.NoErr(os.Remove(name("profile")), "remove")
			t.Count("profiles", 1)
		}
		es, err := os.ReadDir(dir)
		t.NoErr(err, "ReadDir")
		if len(es) != 3 {
			t.Failf("the tool left %v", es)
		}
		t.Count("indexes_compared", 1)
		done = lines
	}
	t.Distinct(d.Bytes, flags)
	t.Sample(map[string]any{"case": t.Name, "runs": steps, "diagnostics": flags, "bytes": len(d.Bytes)})
}

func main() {
	h.Main("C11", func(c *h.C) {
		c.Rule("histories of synchronizations of generated files (some ending in a bad line), with and without a benchmark file, and runs of the built tool with and without -b, -t, -debug and -pprof in every combination; the bytes of both indexes are compared and every benchmark line with the record, the size of the index and the clock; non-trivial: benchmark lines were written, or the tool ran")
		c.Each(c.N(600, 12000), "library", func(t *h.T) {
			conf := dg.RandConf(t.R)
			n := t.R.Intn(30)
			if t.R.Intn(10) == 0 {
				n, conf.Long = 200+t.R.Intn(300), false
			}
			library(t, dg.JSONL(t.R, conf, n))
		})
		c.Each(c.N(40, 600), "far", func(t *h.T) { far(t, dg.JSONL(t.R, dg.RandConf(t.R), 1+t.R.Intn(20))) })
		c.Each(c.N(60, 1000), "library-csv", func(t *h.T) { library(t, dg.CSV(t.R, dg.RandCSVConf(t.R), t.R.Intn(20))) })
		c.Each(c.N(150, 2000), "tool", func(t *h.T) {
			conf := dg.RandConf(t.R)
			d := dg.JSONL(t.R, conf, t.R.Intn(25))
			var search []string
			if t.R.Intn(3) == 0 {
				search = dg.Search(t.R, d)
			}
			for _, s := range search {
				if s == "" || strings.Contains(s, "\x00") {
					search = nil
					break
				}
			}
			command(t, d, search)
		})
		c.Each(c.N(40, 400), "tool-csv", func(t *h.T) { command(t, dg.CSV(t.R, dg.RandCSVConf(t.R), t.R.Intn(20)), nil) })
	})
}
