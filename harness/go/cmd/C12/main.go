// C12: the same data gives the same index file, byte for byte.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/kevmo314/appendable/pkg/mmap"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
)

func document(t *h.T, r *rand.Rand) (*dg.Doc, []string) {
	if r.Intn(30) == 0 { // something far larger than is usual
		d, _ := dg.Extreme(r, r.Intn(100))
		if r.Intn(3) == 0 {
			d, _ = dg.ExtremeCSV(r, r.Intn(100))
		}
		if len(d.Lines) < 5000 { // it is indexed dozens of times
			t.Count("extreme_documents", 1)
			return d, nil
		}
	}
	n := r.Intn(25)
	if r.Intn(12) == 0 {
		n = 150 + r.Intn(200)
	}
	if r.Intn(4) == 0 {
		return dg.CSV(r, dg.RandCSVConf(r), n), nil
	}
	conf := dg.RandConf(r)
	if n > 100 {
		conf.Long = false
	}
	d := dg.JSONL(r, conf, n)
	if r.Intn(2) == 0 {
		s := dg.Search(r, d)
		if d.AnyExpands(s) {
			s = nil // the known finding of C06
		}
		return d, s
	}
	return d, nil
}

func same(t *h.T, how string, got, want []byte) {
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		t.Failf("%s: the index of %d bytes differs from the first one of %d bytes from byte %d on (page %d, %d bytes into it)", how, len(got), len(want), i, i/4096, i%4096)
	}
	t.Count("compared", 1)
	t.Count("bytes_compared", len(want))
}

func cuts(t *h.T, n int) []int {
	var c []int
	for k := t.R.Intn(6); k > 0; k-- {
		c = append(c, t.R.Intn(n+1))
	}
	c = append(c, n)
	sort.Ints(c)
	return c
}

// times is how often one document is indexed in one way: an order drawn at
// random has to come out differently.
const times = 3

func one(t *h.T) {
	d, search := document(t, t.R)
	t.Logf("search %q\n%q", search, ix.Head(d.Bytes))
	first := mem.New(nil)
	t.NoErr(ix.Build(first, d.Bytes, d.Format, search), "Synchronize")
	want := bytes.Clone(first.Buf)
	for k := 0; k < times; k++ {
		f := mem.New(nil)
		t.NoErr(ix.Build(f, bytes.Clone(d.Bytes), d.Format, search), "Synchronize")
		same(t, "indexed again", f.Buf, want)
	}
	{ // the data is part of something larger
		off := t.R.Intn(5000)
		big := make([]byte, off+len(d.Bytes)+t.R.Intn(5000))
		t.R.Read(big)
		copy(big[off:], d.Bytes)
		f := mem.New(nil)
		t.NoErr(ix.Build(f, big[off:off+len(d.Bytes)], d.Format, search), "Synchronize")
		same(t, "indexed out of a larger buffer", f.Buf, want)
	}
	{ // something else is indexed in between, sometimes with a failure
		f := mem.New(nil)
		for _, n := range cuts(t, len(d.Bytes)) {
			x, err := ix.Open(f, d.Format, search)
			t.NoErr(err, "Open")
			other, s := document(t, t.R)
			g := mem.New(nil)
			if t.R.Intn(3) == 0 {
				at := 5 + t.R.Intn(400)
				g.FailAt = func(k mem.Kind, n int) bool { return n >= at }
			}
			t.NoErr(x.Synchronize(d.Bytes[:n:n]), "Synchronize")
			ix.Build(g, other.Bytes, other.Format, s)
			t.NoErr(x.Synchronize(d.Bytes[:n:n]), "Synchronize")
			t.Count("others_between", 1)
		}
		same(t, "indexed in steps, others in between", f.Buf, want)
	}
	if t.R.Intn(2) == 0 { // on a thread of its own while others work
		done := make(chan error, 4)
		fs := make([]*mem.File, 4)
		for k := range fs {
			fs[k] = mem.New(nil)
			go func() {
				defer func() {
					if r := recover(); r != nil {
						done <- fmt.Errorf("panic: %v", r)
					}
				}()
				if k%2 == 0 {
					runtime.Gosched()
				}
				done <- ix.Build(fs[k], d.Bytes, d.Format, search)
			}()
		}
		for range fs {
			t.NoErr(<-done, "Synchronize")
		}
		for _, f := range fs {
			same(t, "indexed on several threads", f.Buf, want)
		}
	}
	if t.R.Intn(2) == 0 { // in a mapped file
		p := filepath.Join(t.Dir, strings.ReplaceAll(t.Name, "/", "-")+".index")
		defer os.Remove(p)
		for _, n := range cuts(t, len(d.Bytes)) {
			m, err := mmap.OpenFile(p, os.O_RDWR|os.O_CREATE, 0o666)
			t.NoErr(err, "OpenFile")
			x, err := ix.Open(m, d.Format, search)
			t.NoErr(err, "Open")
			t.NoErr(x.Synchronize(d.Bytes[:n:n]), "Synchronize")
			t.NoErr(m.Close(), "Close")
		}
		b, err := os.ReadFile(p)
		t.NoErr(err, "ReadFile")
		same(t, "indexed in a mapped file", b, want)
	}
	if len(d.Lines) > 1 {
		t.Distinct(d.Bytes, search)
	}
	t.Count("lines", len(d.Lines))
	t.Sample(map[string]any{"case": t.Name, "lines": len(d.Lines), "search": search, "index_bytes": len(want)})
}

// processes indexes with the tool, in processes of different surroundings.
func processes(t *h.T) {
	d, search := document(t, t.R)
	for _, s := range search {
		if s == "" || strings.ContainsRune(s, 0) {
			search = nil
			break
		}
	}
	ref := mem.New(nil)
	t.NoErr(ix.Build(ref, d.Bytes, d.Format, search), "Synchronize")
	root := filepath.Join(t.Dir, strings.ReplaceAll(t.Name, "/", "-"))
	t.NoErr(os.Mkdir(root, 0o755), "mkdir")
	defer os.RemoveAll(root)
	envs := [][]string{
		{"TZ=Pacific/Auckland", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "GOMAXPROCS=1"},
		{"TZ=UTC", "LANG=C", "GOGC=1", "HOME=/nonexistent", "GOMAXPROCS=3"},
		{"GODEBUG=madvdontneed=1,randautoseed=0", "GOGC=off"},
	}
	for k, env := range envs {
		dir := filepath.Join(root, []string{"a", "some where else", "z-" + strings.Repeat("long", 30)}[k])
		t.NoErr(os.Mkdir(dir, 0o755), "mkdir")
		data := filepath.Join(dir, []string{"data", "データ.csv", "x.jsonl"}[k])
		index := filepath.Join(dir, []string{"index", "i.dat", "données"}[k])
		for _, n := range cuts(t, len(d.Bytes)) {
			t.NoErr(os.WriteFile(data, d.Bytes[:n], []os.FileMode{0o600, 0o444, 0o644}[k]), "write")
			t.NoErr(os.Chmod(data, 0o644), "chmod")
			old := time.Unix(int64(t.R.Intn(1<<31)), 0)
			t.NoErr(os.Chtimes(data, old, old), "chtimes")
			args := []string{"-jsonl"}
			if d.Format == 1 {
				args[0] = "-csv"
			}
			for _, s := range search {
				args = append(args, "-s", s)
			}
			cmd := exec.Command(os.Getenv("H_CLI"), append(args, "-i", index, data)...)
			cmd.Env = env
			cmd.Dir = []string{root, dir, "/"}[k]
			out, err := cmd.CombinedOutput()
			t.NoErr(err, "the tool:\n%s", out)
			t.Beat()
			t.Count("processes", 1)
		}
		b, err := os.ReadFile(index)
		t.NoErr(err, "ReadFile")
		same(t, fmt.Sprintf("indexed by the tool with %q", env), b, ref.Buf)
	}
	t.Distinct(d.Bytes, search)
}

func main() {
	h.Main("C12", func(c *h.C) {
		c.Rule("one generated file, JSON Lines with and without search fields or CSV, indexed many times: again, out of a larger buffer, in steps with others indexed (or failing) in between, on several threads, in a mapped file, by the tool in processes with other environments, places, names and times; the index files are compared byte by byte; distinct by data and search fields")
		c.Each(c.N(400, 9000), "here", one)
		c.Each(c.N(60, 900), "processes", processes)
	})
}
