// C14: a file that is not an index to go on with is refused and left as it was.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/mmap"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
)

const page = 4096

// base is an index to start from, of the first lines of a document.
type base struct {
	d      *dg.Doc
	search []string
	at     int // how much of the data it covers
	buf    []byte
}

func begin(t *h.T) *base {
	b := &base{}
	n := 1 + t.R.Intn(25)
	if t.R.Intn(3) == 0 {
		b.d = dg.CSV(t.R, dg.RandCSVConf(t.R), n)
	} else {
		conf := dg.RandConf(t.R)
		conf.Long = false
		b.d = dg.JSONL(t.R, conf, n)
		if s := dg.Search(t.R, b.d); t.R.Intn(2) == 0 && !b.d.AnyExpands(s) {
			b.search = s
		}
	}
	f := mem.New(nil)
	t.NoErr(ix.Build(f, b.d.Bytes[:1+t.R.Intn(len(b.d.Bytes))], b.d.Format, b.search), "Synchronize")
	b.buf = f.Buf
	b.at = int(binary.LittleEndian.Uint64(b.buf[slot0+3:]))
	return b
}

// text is n bytes that are not an index's.
func text(r *rand.Rand, d *dg.Doc, n int) []byte {
	var out []byte
	word := "the quick brown fox jumps over the lazy dog\n"
	for len(out) < n {
		switch r.Intn(4) {
		case 0:
			out = append(out, word...)
		case 1:
			out = append(out, fmt.Sprintf("%q,%d\n", word[:r.Intn(20)], r.Int63())...)
		default:
			out = append(out, bytes.ToValidUTF8(bytes.Map(func(c rune) rune {
				if c < 32 && c != '\n' && c != '\t' {
					return ' '
				}
				return c
			}, d.Bytes), nil)...)
			out = append(out, '\n')
		}
	}
	return out[:n]
}

// slot0 is where the metadata of the file is: a byte of length and the metadata.
const slot0 = page + 9 + 12

// wrong is a file that must be refused, and the format to ask for.
func (b *base) wrong(t *h.T) (what string, buf []byte, format byte) {
	r := t.R
	buf, format = bytes.Clone(b.buf), b.d.Format
	odd := func(n int) int { // not a whole number of pages
		if n%page == 0 {
			n++
		}
		return n
	}
	switch k := r.Intn(12); k {
	case 0, 1:
		return "an index of the other format", buf, 1 - format
	case 2:
		v := []byte{0, 1, 2, 126, 127, 253, 254, byte(r.Intn(255))}[r.Intn(8)]
		if v >= appendable.CurrentVersion {
			v++
		}
		buf[slot0+1] = v
		return fmt.Sprintf("an index of version %d", v), buf, format
	case 3:
		f := []byte{2, 3, 127, 128, 255, byte(2 + r.Intn(254))}[r.Intn(6)]
		buf[slot0+2] = f
		return fmt.Sprintf("an index of format %d", f), buf, format
	case 4:
		n := byte(r.Intn(11))
		buf[slot0] = n
		return fmt.Sprintf("an index with %d bytes of metadata", n), buf, format
	case 5:
		n := odd(1 + r.Intn(len(buf)-1))
		if r.Intn(4) == 0 {
			n = []int{1, 2, 255, 256, 4000, 4095, 4097, 8191}[r.Intn(8)]
		}
		return fmt.Sprintf("an index cut to %d of %d bytes", n, len(buf)), buf[:n], format
	case 6:
		n := 1 + r.Intn(page-1)
		return fmt.Sprintf("an index with %d bytes after it", n), append(buf, make([]byte, n)...), format
	case 7:
		n := odd(1 + r.Intn(page))
		return fmt.Sprintf("a text of %d bytes", n), text(r, b.d, n), format
	case 8:
		n := odd(1 + r.Intn(10*page))
		return fmt.Sprintf("a text of %d bytes", n), text(r, b.d, n), format
	case 9:
		n := page * (1 + r.Intn(4))
		return fmt.Sprintf("a text of %d bytes", n), text(r, b.d, n), format
	case 10:
		n := 1 + r.Intn(page-1)
		return fmt.Sprintf("%d zero bytes", n), make([]byte, n), format
	default:
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			buf[8*i+1] = byte(1 + r.Intn(255))
			buf[8*i] = byte(1 + r.Intn(255)) // no multiple of a page
		}
		return "an index with a damaged list of free pages", buf, format
	}
}

// good makes sure that the index the wrong one was made from is accepted.
func (b *base) good(t *h.T) {
	f := mem.New(b.buf)
	t.NoErr(ix.Build(f, b.d.Bytes, b.d.Format, b.search), "going on with the index")
	ix.Check(t, f.Buf, b.d, b.search)
	t.Count("continued", 1)
}

func library(t *h.T) {
	b := begin(t)
	what, buf, format := b.wrong(t)
	t.Logf("%s, asked for as format %d", what, format)
	t.Count("refused: "+kind(what), 1)
	f := mem.New(buf)
	writes := 0
	f.OnWrite = func(int64, []byte) { writes++ }
	for i := 0; i < 2; i++ {
		if _, err := ix.Open(f, format, b.search); err == nil {
			t.Failf("%s is opened", what)
		}
		if writes != 0 || !bytes.Equal(f.Buf, buf) {
			t.Failf("%s is refused after %d writes to it; it is %d bytes, was %d", what, writes, len(f.Buf), len(buf))
		}
	}
	t.Distinct(what, buf, format)
	t.Sample(map[string]any{"case": t.Name, "what": what, "bytes": len(buf), "writes": writes})
	if t.R.Intn(4) == 0 { // from a mapping
		p := filepath.Join(t.Dir, strings.ReplaceAll(t.Name, "/", "-"))
		t.NoErr(os.WriteFile(p, buf, 0o644), "write")
		defer os.Remove(p)
		m, err := mmap.OpenFile(p, os.O_RDWR, 0)
		t.NoErr(err, "OpenFile")
		_, err = ix.Open(m, format, b.search)
		t.NoErr(m.Close(), "Close")
		if err == nil {
			t.Failf("%s is opened from a mapping", what)
		}
		got, err := os.ReadFile(p)
		t.NoErr(err, "ReadFile")
		if !bytes.Equal(got, buf) {
			t.Failf("%s is refused, but has changed in its mapping", what)
		}
		t.Count("mapped", 1)
	}
	b.good(t)
}

// shorter gives an index data that has become shorter than what it covers.
func shorter(t *h.T) {
	b := begin(t)
	f := mem.New(b.buf)
	writes := 0
	f.OnWrite = func(int64, []byte) { writes++ }
	x, err := ix.Open(f, b.d.Format, b.search)
	t.NoErr(err, "Open")
	covered := b.at
	for i := 0; i < 3 && covered > 0; i++ {
		n := []int{0, covered - 1, t.R.Intn(covered)}[i]
		if i == 2 && t.R.Intn(2) == 0 {
			x, err = ix.Open(f, b.d.Format, nil)
			t.NoErr(err, "Open")
		}
		if err := x.Synchronize(b.d.Bytes[:n]); err == nil {
			t.Failf("%d of %d bytes of data that are indexed are accepted", n, covered)
		}
		if writes != 0 || !bytes.Equal(f.Buf, b.buf) {
			t.Failf("data of %d bytes is refused, but the index of %d bytes has changed", n, covered)
		}
		t.Count("refused: shorter data", 1)
	}
	t.Distinct("shorter", b.buf)
	// and the whole data as if nothing had been
	x, err = ix.Open(f, b.d.Format, b.search)
	t.NoErr(err, "Open")
	t.NoErr(x.Synchronize(b.d.Bytes), "Synchronize")
	ix.Check(t, f.Buf, b.d, b.search)
}

// blank opens what has nothing in it: that is where an index begins.
func blank(t *h.T) {
	b := begin(t)
	f := mem.New(nil)
	if t.R.Intn(2) == 0 {
		f = mem.New(make([]byte, page))
	}
	t.NoErr(ix.Build(f, b.d.Bytes, b.d.Format, b.search), "beginning an index")
	ix.Check(t, f.Buf, b.d, b.search)
	t.Count("begun", 1)
	t.Distinct("blank", f.Buf)
}

type state struct {
	sum  [32]byte
	size int64
	mode os.FileMode
	mod  time.Time
}

func look(t *h.T, p string) *state {
	fi, err := os.Stat(p)
	if os.IsNotExist(err) {
		return nil
	}
	t.NoErr(err, "stat")
	s := &state{size: fi.Size(), mode: fi.Mode()}
	if fi.IsDir() {
		return &state{mode: fi.Mode()}
	}
	b, err := os.ReadFile(p)
	t.NoErr(err, "read")
	s.sum = sha256.Sum256(b)
	return s
}

func same(a, b *state) bool {
	return a == nil && b == nil || a != nil && b != nil && *a == *b
}

// command runs the tool on what it must refuse.
func command(t *h.T) {
	b := begin(t)
	dir := filepath.Join(t.Dir, strings.ReplaceAll(t.Name, "/", "-"))
	t.NoErr(os.Mkdir(dir, 0o755), "mkdir")
	defer os.RemoveAll(dir)
	index, data := filepath.Join(dir, "an index"), filepath.Join(dir, "some.data")
	write := func(p string, c []byte) { t.NoErr(os.WriteFile(p, c, 0o644), "write") }
	write(data, b.d.Bytes)
	flags := []string{"-jsonl", "-csv"}
	format := b.d.Format
	what := ""
	args := func() []string { return []string{flags[format], "-i", index, data} }
	var argv []string
	absent := false // the index is not there, and must not be after
	switch k := t.R.Intn(12); k {
	case 0, 1, 2, 3, 4, 5:
		var buf []byte
		what, buf, format = b.wrong(t)
		write(index, buf)
		argv = args()
	case 6:
		write(index, b.buf)
		n := t.R.Intn(max(1, b.at))
		if b.at == 0 { // nothing is indexed
			t.Count("trivial", 1)
			return
		}
		what = "data shorter than what is indexed"
		write(data, b.d.Bytes[:n])
		argv = args()
	case 7, 8:
		// the data is its own index, under its own or another name
		what = "the data as its own index"
		n := []int{0, len(b.d.Bytes), page, 2 * page, 3 * page, 5000}[t.R.Intn(6)]
		switch t.R.Intn(3) {
		case 0:
			write(data, text(t.R, b.d, n))
		case 1:
			write(data, b.buf) // it even is an index
		}
		switch t.R.Intn(3) {
		case 0:
			index = data
		case 1:
			t.NoErr(os.Link(data, index), "link")
			what += " (another link)"
		default:
			t.NoErr(os.Symlink(data, index), "symlink")
			what += " (a symbolic link)"
		}
		argv = args()
	case 9:
		what = "no data file"
		absent = t.R.Intn(2) == 0
		if !absent {
			write(index, b.buf)
		}
		t.NoErr(os.Remove(data), "remove")
		argv = args()
	case 10:
		what = "a folder for data or index"
		if t.R.Intn(2) == 0 {
			write(index, b.buf)
			t.NoErr(os.Remove(data), "remove")
			t.NoErr(os.Mkdir(data, 0o755), "mkdir")
		} else {
			t.NoErr(os.Mkdir(index, 0o755), "mkdir")
		}
		argv = args()
	default:
		absent = t.R.Intn(2) == 0
		if !absent {
			write(index, b.buf)
		}
		switch t.R.Intn(5) {
		case 0:
			what, argv = "no format", []string{"-i", index, data}
		case 1:
			what, argv = "no files", []string{flags[format], "-i", index}
		case 2:
			what, argv = "two data files", []string{flags[format], "-i", index, data, data}
		case 3:
			what, argv = "an unknown option", []string{flags[format], "-nosuch", "-i", index, data}
		default:
			what, argv = "no index", []string{flags[format], data}
		}
	}
	if t.R.Intn(3) == 0 && len(b.search) > 0 && !strings.Contains(b.search[0], "\x00") {
		argv = append([]string{"-s", b.search[0]}, argv...)
	}
	di, dd := look(t, index), look(t, data)
	cmd := exec.Command(os.Getenv("H_CLI"), argv...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	t.Beat()
	t.Logf("%s: %q: %v\n%s", what, argv, err, clip(out))
	if cmd.ProcessState == nil {
		t.Failf("cannot run the tool: %v", err)
	}
	if !cmd.ProcessState.Exited() {
		t.Failf("%s: the tool was killed: %v", what, err)
	}
	if s := string(out); strings.Contains(s, "fatal error:") || strings.Contains(s, "runtime error:") || strings.Contains(s, "SIGSEGV") || strings.Contains(s, "SIGBUS") {
		t.Failf("%s: the tool crashed:\n%s", what, clip(out))
	}
	if err == nil {
		t.Failf("%s: the tool exits as if it had done its work", what)
	}
	if len(bytes.TrimSpace(out)) == 0 {
		t.Failf("%s: the tool fails without a word", what)
	}
	if !same(dd, look(t, data)) {
		t.Failf("%s: the data file has changed", what)
	}
	if !same(di, look(t, index)) {
		t.Failf("%s: the index file has changed", what)
	}
	if absent {
		t.Count("not_created", 1)
	}
	t.Count("runs", 1)
	t.Count("run: "+kind(what), 1)
	t.Distinct("command", what, b.buf)
}

// kind is what it is without the numbers.
func kind(what string) string {
	return strings.Join(strings.Fields(strings.Map(func(c rune) rune {
		if c >= '0' && c <= '9' {
			return -1
		}
		return c
	}, what)), " ")
}

func clip(b []byte) []byte { return b[:min(len(b), 1500)] }

func main() {
	h.Main("C14", func(c *h.C) {
		c.Rule("files that are no index to go on with (the other format, other versions and formats, damaged metadata or free lists, cut or extended by part of a page, texts of any size), indexes asked to go on with shorter data, and wrong uses of the command line; each must be refused with an error, with no write to storage and no byte, size or mode of a file changed, and the good index it was made from must then be continued exactly; distinct by file and request")
		c.Each(c.N(3000, 60000), "library", library)
		c.Each(c.N(500, 10000), "shorter", shorter)
		c.Each(c.N(200, 3000), "blank", blank)
		c.Each(c.N(700, 8000), "command", command)
	})
}
