// C08: the command-line tool, run on real files.
package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
	"verif/raw"
)

type cli struct {
	t      *h.T
	dir    string
	format byte
	search []string
	extra  []string
}

func (c *cli) index() string { return filepath.Join(c.dir, "out.index") }
func (c *cli) data() string  { return filepath.Join(c.dir, "data file") }

// run runs the tool on data and tells if it succeeded.
func (c *cli) run(data []byte) bool {
	c.t.NoErr(os.WriteFile(c.data(), data, 0o444), "writing the data file")
	ok := c.exec(len(data), func() bool {
		got, err := os.ReadFile(c.data())
		c.t.NoErr(err, "reading the data file")
		return bytes.Equal(got, data)
	})
	os.Chmod(c.data(), 0o644)
	return ok
}

// exec runs the tool on a data file of n bytes, which same tells to be as it was.
func (c *cli) exec(n int, same func() bool) bool {
	t := c.t
	args := []string{"-jsonl"}
	if c.format == 1 {
		args[0] = "-csv"
	}
	args = append(args, "-i", c.index())
	for _, s := range c.search {
		args = append(args, "-s", s)
	}
	args = append(args, c.extra...)
	args = append(args, c.data())
	before, err := os.Stat(c.data())
	t.NoErr(err, "stat")
	cmd := exec.Command(os.Getenv("H_CLI"), args...)
	cmd.Dir = c.dir
	out, err := cmd.CombinedOutput()
	t.Beat()
	t.Count("runs", 1)
	if cmd.ProcessState == nil {
		t.Failf("cannot run the tool: %v", err)
	}
	if !cmd.ProcessState.Exited() {
		t.Failf("the tool was killed: %v\n%s", err, clip(out))
	}
	if s := string(out); strings.Contains(s, "fatal error:") || strings.Contains(s, "runtime error:") || strings.Contains(s, "SIGSEGV") || strings.Contains(s, "SIGBUS") {
		t.Failf("the tool crashed:\n%s", clip(out))
	}
	t.Logf("%q on %d bytes: %v\n%s", args, n, err, clip(out))
	if err != nil && len(bytes.TrimSpace(out)) == 0 {
		t.Failf("%q failed without a word", args)
	}
	after, serr := os.Stat(c.data())
	t.NoErr(serr, "stat")
	if !same() || !after.ModTime().Equal(before.ModTime()) || after.Mode() != before.Mode() {
		t.Failf("the tool changed the data file")
	}
	return err == nil
}

// far runs the tool on a file that goes on where 31 and 32 bits end, or past,
// with an index that may, too. What is before counts as indexed before.
func far(t *h.T, d *dg.Doc) {
	c, done := newCLI(t, d.Format)
	defer done()
	base := dg.Bases[t.R.Intn(len(dg.Bases))]
	head := d.Body
	if d.Format == 0 {
		head = 0
	}
	start, rest := d.Bytes[:head], d.Bytes[head:]
	d, free, err := d.Far(base)
	t.NoErr(err, "memory")
	t.Cleanup(free)
	d.Before = t.R.Intn(3)

	f := mem.New(nil)
	x, err := ix.Open(f, d.Format, nil)
	t.NoErr(err, "opening")
	t.NoErr(x.SetMetadata(&appendable.FileMeta{Version: appendable.CurrentVersion, Format: appendable.Format(d.Format), ReadOffset: uint64(base), Entries: uint64(d.Before)}), "SetMetadata")
	t.NoErr(os.WriteFile(c.index(), f.Buf, 0o644), "writing the index")
	r := raw.File{GapAt: uint64(len(f.Buf))}
	if t.R.Intn(2) == 0 {
		size := mem.Sizes[t.R.Intn(len(mem.Sizes)-1)]
		t.NoErr(os.Truncate(c.index(), size), "truncate")
		r.Gap = uint64(size) - r.GapAt
	}
	for at := 0; at < len(rest); {
		at += 1 + t.R.Intn(len(rest)-at)
		if t.R.Intn(2) == 0 {
			at = len(rest)
		}
		file, err := os.Create(c.data())
		t.NoErr(err, "create")
		_, err = file.Write(start)
		t.NoErr(err, "write")
		_, err = file.WriteAt(rest[:at], int64(base))
		t.NoErr(err, "write")
		t.NoErr(file.Close(), "close")
		if !c.exec(base+at, func() bool {
			file, err := os.Open(c.data())
			t.NoErr(err, "open")
			defer file.Close()
			fi, err := file.Stat()
			t.NoErr(err, "stat")
			a, b := make([]byte, len(start)), make([]byte, at)
			_, err = file.ReadAt(a, 0)
			t.NoErr(err, "read")
			_, err = file.ReadAt(b, int64(base))
			t.NoErr(err, "read")
			return fi.Size() == int64(base+at) && bytes.Equal(a, start) && bytes.Equal(b, rest[:at])
		}) {
			t.Failf("the tool failed on a good file of %d bytes", base+at)
		}
		// the index, less its gap
		file, err = os.Open(c.index())
		t.NoErr(err, "open")
		fi, err := file.Stat()
		t.NoErr(err, "stat")
		if fi.Size() < int64(r.GapAt+r.Gap) {
			t.Failf("the index has become %d bytes", fi.Size())
		}
		b := make([]byte, fi.Size()-int64(r.Gap))
		_, err = file.ReadAt(b[:r.GapAt], 0)
		t.NoErr(err, "read")
		if n := len(b) - int(r.GapAt); n > 0 {
			_, err = file.ReadAt(b[r.GapAt:], int64(r.GapAt+r.Gap))
			t.NoErr(err, "read")
		}
		file.Close()
		ix.CheckFile(t, &mem.File{Buf: b, GapAt: int64(r.GapAt), Gap: int64(r.Gap)}, d.Prefix(d.Complete(base+at)), nil)
	}
	t.Count("far_files", 1)
	t.Distinct(rest, base)
}

func clip(b []byte) string {
	if len(b) > 1500 {
		b = b[:1500]
	}
	return string(b)
}

func (c *cli) check(d *dg.Doc) []byte {
	b, err := os.ReadFile(c.index())
	c.t.NoErr(err, "reading the index")
	ix.Check(c.t, b, d, c.search)
	return b
}

func newCLI(t *h.T, format byte) (*cli, func()) {
	dir := filepath.Join(t.Dir, strings.ReplaceAll(t.Name, "/", "-"))
	t.NoErr(os.Mkdir(dir, 0o755), "mkdir")
	c := &cli{t: t, dir: dir, format: format}
	for _, k := range t.R.Perm(16) {
		switch k {
		case 0, 1:
			c.extra = append(c.extra, "-t")
		case 2:
			c.extra = append(c.extra, "-debug")
		case 3:
			c.extra = append(c.extra, "-b", filepath.Join(dir, "bench"))
		case 4:
			c.extra = append(c.extra, "-pprof", filepath.Join(dir, "prof"))
		}
		if t.R.Intn(6) == 0 {
			break
		}
	}
	return c, func() { os.RemoveAll(dir) }
}

// series runs the tool on a growing file, sometimes with a bad line at its end.
func series(t *h.T, d *dg.Doc, search []string) {
	c, done := newCLI(t, d.Format)
	defer done()
	c.search = search
	steps := 1 + t.R.Intn(4)
	at := 0
	var last []byte
	for k := 0; k < steps; k++ {
		n := at + t.R.Intn(len(d.Bytes)-at+1)
		if k == steps-1 {
			n = len(d.Bytes)
		}
		at = n
		data := d.Bytes[:n]
		lines := d.Complete(n)
		p := d.Prefix(lines)
		p.Bytes = data
		if n < d.Body {
			p.Body = 0
		}
		if t.R.Intn(4) == 0 && n > d.Body {
			// the rest of the last line turns out to be bad
			start := d.Body
			if lines > 0 {
				start = d.Lines[lines-1].End + 1
			}
			bad := append(bytes.Clone(data[:start]), []string{"{\"a\":\"b", "\"bad", "a\"b,c"}[t.R.Intn(3)]+"\n"+"{}\n"...)
			q := *p
			q.Bytes = bad
			if c.run(bad) {
				t.Failf("the tool reported success on a file with a bad line")
			}
			c.check(&q)
			t.Count("bad_lines", 1)
		}
		if !c.run(data) {
			t.Failf("the tool failed on a good file of %d bytes (step %d)", n, k)
		}
		b := c.check(p)
		if t.R.Intn(3) == 0 {
			if !c.run(data) {
				t.Failf("the tool failed on a file it had indexed")
			}
			again := c.check(p)
			if !bytes.Equal(b, again) {
				t.Failf("running the tool again changed the index")
			}
			t.Count("repeats", 1)
		}
		last = b
	}
	s := sha256.Sum256(last)
	t.Distinct(s[:], steps)
	t.Sample(map[string]any{"case": t.Name, "lines": len(d.Lines), "runs": steps, "flags": c.extra, "search": search})
}

// searchable picks fields to search: some the data has, some it has not.
func searchable(t *h.T, names []string) []string {
	var search []string
	for _, k := range append(t.R.Perm(len(names)+2), t.R.Intn(len(names))) {
		s := []string{"name", "no such, field"}[k%2]
		if k < len(names) {
			s = names[k]
		}
		if strings.Contains(s, "\x00") {
			continue
		}
		search = append(search, s)
		if t.R.Intn(2) == 0 {
			break
		}
	}
	return search
}

func main() {
	h.Main("C08", func(c *h.C) {
		c.Rule("the built tool run one to several times on generated files that grow (JSON Lines and CSV, cut anywhere, with bad lines, search fields and every flag); exit status, data file and decoded index are checked after every run")
		jsonl := func(t *h.T, n int) {
			conf := dg.RandConf(t.R)
			d := dg.JSONL(t.R, conf, n)
			var search []string
			if t.R.Intn(2) == 0 {
				search = searchable(t, conf.Names)
				for _, l := range d.Lines {
					for _, v := range l.Vals {
						if d.Expands(v) || len(v.Str) > 500 {
							search = nil
						}
					}
				}
			}
			series(t, d, search)
		}
		c.Each(c.N(250, 4000), "jsonl", func(t *h.T) { jsonl(t, t.R.Intn(20)) })
		c.Each(c.N(150, 2500), "csv", func(t *h.T) { series(t, dg.CSV(t.R, dg.RandCSVConf(t.R), t.R.Intn(20)), nil) })
		c.Each(c.N(8, 80), "large", func(t *h.T) {
			conf := dg.RandConf(t.R)
			conf.Long = false
			d := dg.JSONL(t.R, conf, 500+t.R.Intn(1500))
			series(t, d, nil)
		})
		// many fields, all of them searched
		c.Each(c.N(6, 80), "searched", func(t *h.T) {
			conf := dg.RandConf(t.R)
			conf.Types = []uint16{dg.String, dg.String, dg.Null}
			conf.MaxFields, conf.MaxDepth, conf.Unicode, conf.Long, conf.Pool = 30, t.R.Intn(2), 0, false, nil
			for i := 20 + t.R.Intn(150); i > 0; i-- {
				conf.Names = append(conf.Names, fmt.Sprint("f", i, strings.Repeat("n", t.R.Intn(2)*t.R.Intn(180))))
			}
			d := dg.JSONL(t.R, conf, 3+t.R.Intn(8))
			search := slices.DeleteFunc(slices.Clone(conf.Names), func(s string) bool { return strings.Contains(s, "\x00") })
			t.R.Shuffle(len(search), func(i, j int) { search[i], search[j] = search[j], search[i] })
			if d.AnyExpands(search) {
				return
			}
			t.Max("max_search_flags", len(search))
			series(t, d, search)
		})
		// lines far larger or deeper than usual
		c.Each(c.N(13, 130), "extreme", func(t *h.T) {
			d, kind := dg.Extreme(t.R, t.Index())
			if t.Index()%13 >= 8 {
				d, kind = dg.ExtremeCSV(t.R, t.Index()%13-8)
			}
			t.Count("extreme_"+kind, 1)
			series(t, d, nil)
		})
		// as many runs as there are lines, and more
		c.Each(c.N(2, 20), "often", func(t *h.T) {
			var d *dg.Doc
			if t.Index()%2 == 0 {
				conf := dg.RandConf(t.R)
				conf.Long = false
				d = dg.JSONL(t.R, conf, 300)
			} else {
				d = dg.CSV(t.R, dg.RandCSVConf(t.R), 300)
			}
			cl, done := newCLI(t, d.Format)
			defer done()
			cl.extra = nil
			for i := 0; i <= len(d.Lines); i++ {
				p := d.Prefix(i)
				if !cl.run(p.Bytes) {
					t.Failf("the tool failed on run %d of a good file", i)
				}
				if i%40 == 0 || i == len(d.Lines) {
					cl.check(p)
				}
			}
			t.Max("max_runs", len(d.Lines)+1)
		})
		// no room for the index
		c.Each(c.N(30, 400), "full", func(t *h.T) {
			var d *dg.Doc
			if t.R.Intn(2) == 0 {
				conf := dg.RandConf(t.R)
				conf.Long = false
				d = dg.JSONL(t.R, conf, 5+t.R.Intn(600))
			} else {
				d = dg.CSV(t.R, dg.RandCSVConf(t.R), 5+t.R.Intn(300))
			}
			cl, done := newCLI(t, d.Format)
			defer done()
			cl.extra = nil
			if !cl.run(d.Bytes) {
				t.Failf("the tool failed on a good file")
			}
			size := len(cl.check(d))
			for range 3 {
				t.NoErr(os.Remove(cl.index()), "removing the index")
				kb := t.R.Intn(size / 1024)
				args := []string{"-c", fmt.Sprintf("ulimit -f %d; exec \"$@\"", kb), "sh", os.Getenv("H_CLI"), []string{"-jsonl", "-csv"}[d.Format], "-i", cl.index(), cl.data()}
				cmd := exec.Command("bash", args...)
				cmd.Dir = cl.dir
				out, err := cmd.CombinedOutput()
				t.Beat()
				if err == nil {
					t.Failf("the tool reported success with room for %d of the %d bytes of the index:\n%s", kb*1024, size, clip(out))
				}
				if cmd.ProcessState == nil || cmd.ProcessState.ExitCode() == 127 {
					t.Failf("cannot run the tool: %v", err)
				}
				if cmd.ProcessState.Exited() && len(bytes.TrimSpace(out)) == 0 {
					t.Failf("the tool failed without a word where there was no room")
				}
				if got, err := os.ReadFile(cl.data()); err != nil || !bytes.Equal(got, d.Bytes) {
					t.Failf("the tool changed the data file where there was no room")
				}
				t.Count("without_room", 1)
				os.Remove(cl.index())
				if !cl.run(d.Bytes) {
					t.Failf("the tool failed on a good file")
				}
				cl.check(d)
			}
		})
		// misuse is refused and creates nothing
		c.Each(c.N(16, 200), "far", func(t *h.T) {
			if t.R.Intn(2) == 0 {
				far(t, dg.CSV(t.R, dg.RandCSVConf(t.R), 1+t.R.Intn(30)))
			} else {
				far(t, dg.JSONL(t.R, dg.RandConf(t.R), 1+t.R.Intn(30)))
			}
		})
		c.Case("misuse", func(t *h.T) {
			cl, done := newCLI(t, 0)
			defer done()
			data := []byte("{\"a\":1}\n")
			t.NoErr(os.WriteFile(cl.data(), data, 0o444), "write")
			for _, args := range [][]string{
				{}, {"-jsonl"}, {"-i", cl.index(), cl.data()}, {"-jsonl", "-i", cl.index(), cl.data(), "more"},
				{"-jsonl", "-i", cl.index(), filepath.Join(cl.dir, "absent")}, {"-nonsense", cl.data()},
				{"-jsonl", "-i", filepath.Join(cl.dir, "no", "dir"), cl.data()},
			} {
				cmd := exec.Command(os.Getenv("H_CLI"), args...)
				cmd.Dir = cl.dir
				out, err := cmd.CombinedOutput()
				if err == nil {
					t.Failf("%q succeeded:\n%s", args, clip(out))
				}
				if len(bytes.TrimSpace(out)) == 0 {
					t.Failf("%q fails without a word", args)
				}
				es, err := os.ReadDir(cl.dir)
				t.NoErr(err, "ReadDir")
				if len(es) != 1 {
					t.Failf("%q left %v", args, es)
				}
				if got, _ := os.ReadFile(cl.data()); !bytes.Equal(got, data) {
					t.Failf("%q changed the data file", args)
				}
				t.Distinct(fmt.Sprint(args))
				t.Count("misuses", 1)
			}
			// an index of the other kind
			if !cl.run(data) {
				t.Failf("the tool failed on %q", data)
			}
			before, _ := os.ReadFile(cl.index())
			other := *cl
			other.format = 1
			if other.run(data) {
				t.Failf("a JSON Lines index was accepted as a CSV one")
			}
			if after, _ := os.ReadFile(cl.index()); !bytes.Equal(before, after) {
				t.Failf("opening a JSON Lines index as CSV changed it")
			}
			// a file shorter than what is indexed
			if cl.run(nil) {
				t.Failf("an emptied data file was accepted")
			}
			if after, _ := os.ReadFile(cl.index()); !bytes.Equal(before, after) {
				t.Failf("an emptied data file changed the index")
			}
		})
	})
}
