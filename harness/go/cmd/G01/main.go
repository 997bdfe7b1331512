// G01: the converter from JSON Lines to one JSON array, run on real files.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verif/dg"
	"verif/h"
)

func value(r *rand.Rand, buf []byte, depth int) []byte {
	space := func() {
		if r.Intn(6) == 0 {
			buf = append(buf, " \t"[r.Intn(2)])
		}
	}
	k := r.Intn(10)
	if depth <= 0 {
		k = r.Intn(6)
	}
	switch k {
	case 0:
		return append(buf, []string{"null", "true", "false"}[r.Intn(3)]...)
	case 1, 2:
		s, _ := dg.Num(r)
		return append(buf, s...)
	case 3, 4, 5:
		return dg.Quote(r, buf, dg.Text(r, r.Intn(12), 2, false), r.Intn(3))
	case 6, 7:
		buf = append(buf, '[')
		for i, n := 0, r.Intn(4); i < n; i++ {
			if i > 0 {
				buf = append(buf, ',')
			}
			space()
			buf = value(r, buf, depth-1)
			space()
		}
		return append(buf, ']')
	}
	return object(r, buf, depth)
}

func object(r *rand.Rand, buf []byte, depth int) []byte {
	buf = append(buf, '{')
	seen := map[string]bool{}
	for i, n := 0, r.Intn(5); i < n; i++ {
		name := []string{"a", "b", "B", "", "__proto__", "$serde_json::private::Number", "name", dg.Text(r, 4, 2, false)}[r.Intn(8)]
		if seen[name] || name == "$serde_json::private::Number" {
			continue
		}
		if len(seen) > 0 {
			buf = append(buf, ',')
		}
		seen[name] = true
		buf = dg.Quote(r, buf, name, r.Intn(3))
		buf = append(buf, ':')
		buf = value(r, buf, depth-1)
	}
	return append(buf, '}')
}

func decode(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err == nil {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

func integer(s string) *big.Int {
	if strings.ContainsAny(s, ".eE") {
		return nil
	}
	i, ok := new(big.Int).SetString(s, 10)
	if !ok || !i.IsInt64() && !i.IsUint64() || i.Sign() == 0 && s[0] == '-' {
		return nil
	}
	return i
}

// diff tells how got differs from want.
func diff(path string, got, want any) string {
	switch w := want.(type) {
	case json.Number:
		g, ok := got.(json.Number)
		if !ok {
			break
		}
		if i := integer(string(w)); i != nil {
			if j := integer(string(g)); j == nil || i.Cmp(j) != 0 {
				return fmt.Sprintf("%s is %s, not %s", path, g, w)
			}
			return ""
		}
		a, _ := strconv.ParseFloat(string(g), 64)
		b, _ := strconv.ParseFloat(string(w), 64)
		// the reader of numbers is off by the last bit at times
		if a != b && math.Nextafter(a, b) != b && math.Nextafter(math.Nextafter(a, b), b) != b {
			return fmt.Sprintf("%s is %s, not %s", path, g, w)
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			break
		}
		for i := range w {
			if s := diff(fmt.Sprintf("%s[%d]", path, i), g[i], w[i]); s != "" {
				return s
			}
		}
		return ""
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w) {
			break
		}
		for k := range w {
			v, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s has no %q", path, k)
			}
			if s := diff(fmt.Sprintf("%s[%q]", path, k), v, w[k]); s != "" {
				return s
			}
		}
		return ""
	default:
		if got == want {
			return ""
		}
	}
	return fmt.Sprintf("%s is %.300v, not %.300v", path, got, want)
}

type file struct {
	data  string
	mtime int64
}

func files(t *h.T, dir string) map[string]file {
	m := map[string]file{}
	err := filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		m[p] = file{string(b), info.ModTime().UnixNano()}
		return err
	})
	t.NoErr(err, "listing the directory")
	return m
}

type run struct {
	t        *h.T
	dir      string
	name     string
	absolute bool
}

// convert runs the tool and returns what it wrote.
func (c *run) convert(data []byte) (string, []byte, bool) {
	t := c.t
	in := filepath.Join(c.dir, c.name)
	t.NoErr(os.MkdirAll(filepath.Dir(in), 0o755), "mkdir")
	t.NoErr(os.WriteFile(in, data, 0o644), "writing the input")
	before := files(t, c.dir)
	arg := c.name
	if c.absolute {
		arg = in
	}
	cmd := exec.Command(os.Getenv("H_RUST"), "-f", arg)
	cmd.Dir = c.dir
	out, err := cmd.CombinedOutput()
	t.Beat()
	t.Count("runs", 1)
	if cmd.ProcessState == nil {
		t.Failf("cannot run the tool: %v", err)
	}
	if !cmd.ProcessState.Exited() || strings.Contains(string(out), "panicked at") {
		t.Failf("the tool crashed on %s: %v\n%.1000s", c.name, err, out)
	}
	t.Logf("%s, %d bytes: %v\n%.1000s", c.name, len(data), err, out)
	if err != nil && len(bytes.TrimSpace(out)) == 0 {
		t.Failf("the tool failed on %s and did not say why", c.name)
	}
	after := files(t, c.dir)
	if after[in] != before[in] {
		t.Failf("the tool changed its input %s", c.name)
	}
	var changed []string
	for p, f := range after {
		if f != before[p] {
			changed = append(changed, p)
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			t.Failf("the tool removed %s", p)
		}
	}
	sort.Strings(changed)
	if err != nil {
		if len(changed) > 0 {
			t.Failf("the tool failed on %s and changed %v", c.name, changed)
		}
		return "", nil, false
	}
	if len(changed) != 1 || filepath.Dir(changed[0]) != filepath.Dir(in) {
		t.Failf("converting %s wrote %v, not one file next to it", c.name, changed)
	}
	return changed[0], []byte(after[changed[0]].data), true
}

func newRun(t *h.T) (*run, func()) {
	dir := filepath.Join(t.Dir, strings.ReplaceAll(t.Name, "/", "-"))
	t.NoErr(os.Mkdir(dir, 0o755), "mkdir")
	names := []string{"data.jsonl", "data.jsonl", "a b.jsonl", "data.jsonl.jsonl", "jsonl", "jsonl.data", "x.json", "data", "sub/data.jsonl", "set.jsonl/part.jsonl", "set.jsonl/part", "my.jsonl.bak", "é.jsonl", "a.jsonld", "data.JSONL", "data.ndjson", "jsonlines.jsonl", ".jsonl"}
	c := &run{t: t, dir: dir, name: names[t.R.Intn(len(names))], absolute: t.R.Intn(2) == 0}
	// others that are none of its business
	for _, n := range []string{"other.jsonl", "y.json"} {
		t.NoErr(os.WriteFile(filepath.Join(dir, n), []byte("[7]\n"), 0o644), "write")
	}
	return c, func() { os.RemoveAll(dir) }
}

func lines(t *h.T, n int) ([][]byte, []any) {
	var ls [][]byte
	var vs []any
	for i := 0; i < n; i++ {
		var l []byte
		switch {
		case t.R.Intn(5) == 0:
			l = value(t.R, nil, 3)
		case t.R.Intn(30) == 0:
			d := 1 + t.R.Intn(100)
			l = []byte(strings.Repeat("[", d) + strings.Repeat("]", d))
		default:
			l = object(t.R, nil, 3)
		}
		v, err := decode(l)
		t.NoErr(err, "decoding the generated %q", l)
		ls = append(ls, l)
		vs = append(vs, v)
	}
	return ls, vs
}

func join(t *h.T, ls [][]byte, end bool) []byte {
	nl := []string{"\n", "\n", "\r\n"}[t.R.Intn(3)]
	var buf []byte
	for i, l := range ls {
		buf = append(buf, l...)
		if i < len(ls)-1 || end {
			buf = append(buf, nl...)
		}
	}
	return buf
}

func main() {
	h.Main("G01", func(c *h.C) {
		c.Rule("the built converter run on generated files (objects and other values, all kinds of names); exit status, input and the array written are checked after every run")
		c.Each(c.N(600, 8000), "good", func(t *h.T) {
			r, done := newRun(t)
			defer done()
			n := t.R.Intn(12)
			if t.R.Intn(20) == 0 {
				n = t.R.Intn(3000)
			}
			var last string
			for k := 0; k < 1+t.R.Intn(2); k++ {
				ls, vs := lines(t, n)
				data := join(t, ls, n > 0 && t.R.Intn(4) > 0)
				path, out, ok := r.convert(data)
				if !ok {
					t.Failf("the tool failed on the good file %q", clip(data))
				}
				if last != "" && path != last {
					t.Failf("converting %s again wrote %s, not %s", r.name, path, last)
				}
				last = path
				got, err := decode(out)
				if err != nil {
					t.Failf("the output is no JSON: %v\n%q\nof %q", err, clip(out), clip(data))
				}
				if vs == nil {
					vs = []any{}
				}
				if s := diff("output", got, vs); s != "" {
					t.Failf("%s\ninput %q\noutput %q", s, clip(data), clip(out))
				}
				t.Count("records_compared", n)
				t.Distinct(data, r.name)
			}
			t.Sample(map[string]any{"case": t.Name, "file": r.name, "lines": n})
		})
		// very many lines, and very long ones
		c.Each(c.N(6, 60), "extreme", func(t *h.T) {
			r, done := newRun(t)
			defer done()
			var ls [][]byte
			var vs []any
			n := []int{140000, 66000, 20, 1}[t.Index()%4] + t.R.Intn(3000)
			if n > 4000 {
				for i := range n {
					l := []byte(fmt.Sprintf(`{"i":%d}`, i))
					if t.R.Intn(200) == 0 {
						l = object(t.R, nil, 2)
					}
					v, err := decode(l)
					t.NoErr(err, "decoding the generated %q", l)
					ls, vs = append(ls, l), append(vs, v)
				}
			} else {
				ls, vs = lines(t, n%40+1)
				k := t.R.Intn(len(ls))
				long := []string{strings.Repeat("x", 1<<21), strings.Repeat("\u00e9\"", 1<<17), strings.Repeat(" ", 70000)}[t.R.Intn(3)]
				list := make([]any, 70000)
				for i := range list {
					list[i] = json.Number(strconv.Itoa(i))
				}
				vs[k] = map[string]any{"long": long, "list": list, long[:69999]: json.Number("1")}
				b, err := json.Marshal(vs[k])
				t.NoErr(err, "marshal")
				ls[k] = b
			}
			data := join(t, ls, t.R.Intn(2) == 0)
			_, out, ok := r.convert(data)
			if !ok {
				t.Failf("the tool failed on a good file of %d lines and %d bytes", len(ls), len(data))
			}
			got, err := decode(out)
			if err != nil {
				t.Failf("the output is no JSON: %v", err)
			}
			if s := diff("output", got, vs); s != "" {
				t.Failf("%.600s\ninput of %d lines and %d bytes", s, len(ls), len(data))
			}
			t.Count("records_compared", len(ls))
			t.Max("most_lines", len(ls))
			t.Distinct(len(data), r.name)
		})
		c.Each(c.N(250, 3000), "bad", func(t *h.T) {
			r, done := newRun(t)
			defer done()
			ls, _ := lines(t, 1+t.R.Intn(8))
			if t.R.Intn(12) == 0 { // far on
				for range 3000 {
					ls = append(ls, []byte("{}"))
				}
			}
			i := t.R.Intn(len(ls))
			if t.R.Intn(2) == 0 {
				i = len(ls) - 1
			}
			switch t.R.Intn(6) {
			case 0: // cut short
				l := object(t.R, nil, 3)
				ls[i] = l[:len(l)-1]
			case 1: // two on a line
				ls[i] = append(append(ls[i], ' '), "{}"...)
			case 2:
				ls[i] = []byte([]string{"{a:1}", "{'a':1}", "nul", "[1,]", "{\"a\":}", "01", "+1", "1.", ".5", "NaN", "\"\\x\"", "\"\t\"", "{\"a\" 1}", "}", "// x", "{\"a\":1,}"}[t.R.Intn(16)])
			case 3: // invalid UTF-8
				ls[i] = []byte("{\"a\":\"\xff\xfe\"}")
			case 4:
				ls[i] = append([]byte("x"), ls[i]...)
			case 5:
				ls[i] = append(ls[i], ',')
			}
			data := join(t, ls, true)
			if path, out, ok := r.convert(data); ok {
				t.Failf("the bad file %q was converted to %s: %q", clip(data), path, clip(out))
			}
			t.Count("bad_lines", 1)
			t.Distinct(data, r.name)
		})
		c.Case("misuse", func(t *h.T) {
			r, done := newRun(t)
			defer done()
			before := len(files(t, r.dir))
			for _, args := range [][]string{{}, {"-f"}, {"-f", "absent.jsonl"}, {"-f", "."}, {"-x", "other.jsonl"}} {
				cmd := exec.Command(os.Getenv("H_RUST"), args...)
				cmd.Dir = r.dir
				out, err := cmd.CombinedOutput()
				if err == nil || len(out) == 0 || strings.Contains(string(out), "panicked at") {
					t.Failf("%q gave %v and %q", args, err, out)
				}
			}
			if n := len(files(t, r.dir)); n != before {
				t.Failf("misuse left %d files, not %d", n, before)
			}
		})
	})
}

func clip(b []byte) []byte {
	if len(b) > 700 {
		b = b[:700]
	}
	return b
}
