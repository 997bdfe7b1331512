// C04: lines that cannot be indexed, at every place in a file.
package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"math/rand"
	"strconv"
	"strings"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
)

const maxName = 236

// badJSON tells if a line cannot be indexed.
func badJSON(line []byte) bool {
	if !json.Valid(line) {
		return true
	}
	if t := bytes.TrimLeft(line, " \t\r\n"); len(t) == 0 || t[0] != '{' {
		return true
	}
	dec := json.NewDecoder(bytes.NewReader(line))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return true
	}
	return badValue(v, -1)
}

func badValue(v any, prefix int) bool {
	switch v := v.(type) {
	case json.Number:
		_, err := strconv.ParseFloat(string(v), 64)
		return err != nil
	case []any:
		for _, e := range v {
			if badValue(e, -1<<30) {
				return true
			}
		}
	case map[string]any:
		for k, e := range v {
			n := prefix + 1 + len(k)
			if n > maxName || badValue(e, n) {
				return true
			}
		}
	}
	return false
}

func badCSV(line []byte, cols int) bool {
	rec, err := csv.NewReader(bytes.NewReader(line)).Read()
	return err != nil || len(rec) > cols
}

func badHeader(line []byte) bool {
	rec, err := csv.NewReader(bytes.NewReader(line)).Read()
	for _, s := range rec {
		if len(s) > maxName {
			return true
		}
	}
	return err != nil
}

func mutate(r *rand.Rand, line []byte) []byte {
	b := bytes.Clone(line)
	for k := 1 + r.Intn(2); k > 0; k-- {
		if len(b) == 0 {
			return []byte("{")
		}
		i := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b = b[:i]
		case 2:
			b[i] = byte(r.Intn(256))
		case 3:
			c := "{}[]\",:\\x01eE-+.tfn \x00\x1f"[r.Intn(22)]
			b = append(b[:i], append([]byte{c}, b[i:]...)...)
		case 4:
			b = append(b, b[i:]...)
		case 5:
			b = b[i:]
		}
	}
	return bytes.ReplaceAll(b, []byte("\n"), []byte(" "))
}

func special(r *rand.Rand) string {
	long := strings.Repeat("k", maxName+1+r.Intn(60))
	if r.Intn(4) == 0 { // in fewer characters than bytes
		long = strings.Repeat([]string{"é", "日", "😀"}[r.Intn(3)], 119)
		return []string{
			`{"q":1,"` + long + `":1}`, `{"q":{"a":1},"` + long + `":{}}`, `{"a":1,"x":{"b":0,"y":{"` + long + `":null}}}`, `{"b":"v","` + long[:232] + `":{"a":1,"aéaé":1}}`,
			`{"b":1,"\u00e9` + long + `":1}`, `{"b":1,"` + strings.Repeat("\\u65e5", 79) + `":1}`,
		}[r.Intn(6)]
	}
	if r.Intn(6) == 0 { // far on in a line, or far down
		n := []int{60, 300, 2000, 7000, 8000}[r.Intn(5)]
		var many strings.Builder
		for i := 0; i < n; i++ {
			many.WriteString(`"f` + strconv.Itoa(i) + `":` + []string{"1", `"x"`, "null", "[[]]", `{"k":true}`}[i%5] + ",")
		}
		end := []string{`"z"}`, `"z":}`, `"z":1e999}`, `"z":{"` + long + `":0}}`, `"z":[1,]}`, `}`, `"z":1}}`, `"z":{}} {}`, `"z":[]}x`, `"z":"\x"}`}[r.Intn(10)]
		return []string{
			`{` + many.String() + end,
			`{"a":1,` + strings.Repeat(" ", 50*n) + end,
			`{"a":"` + strings.Repeat("long ", 20*n) + `",` + end,
			`{"a":` + strings.Repeat("[", n) + strings.Repeat("]", n-1) + `,"b":0}`,
			`{"a":` + strings.Repeat("[", n) + strings.Repeat("]", n+1) + `,"b":0}`,
			`{"a":0,"b":` + strings.Repeat(`{"":`, 60) + `1e999` + strings.Repeat("}", 61),
			strings.Repeat(`{"":`, 238) + `1` + strings.Repeat("}", 238),
			`{"a":0,"b":` + strings.Repeat("[", 10001) + strings.Repeat("]", 10001) + `}`,
		}[r.Intn(8)]
	}
	return []string{
		``, ` `, `1`, `"x"`, `null`, `true`, `[]`, `[{"a":1}]`, `{} {}`, `{}{}`, `{}x`, `{"a":1}}`, `{"a":1`, `{"a"}`, `{"a":}`, `{"a":1,}`, `{,}`,
		`{"a":1 "b":2}`, `{a:1}`, `{"a":1,"b"`, `{"a":[1,2}`, `{"a":[1,2]`, `{"a":{"b":1}`, `{"a":1e999}`, `{"b":2,"a":-1e400}`, `{"a":[1e999]}`, `{"a":01}`, `{"a":1.}`,
		`{"a":.5}`, `{"a":+1}`, `{"a":tru}`, `{"a":nul}`, `{"a":"\x"}`, `{"a":"\u12"}`, "{\"a\":\"\t\"}", `{"a":"x}`, `{"a":NaN}`, `{"a":1}//`, `}`, `]`, `{"a":]}`, `{"a":}}`, "\xef\xbb\xbf{}",
		`{"ok":1,"` + long + `":1}`, `{"` + long[:maxName-1] + `":{"xx":1}}`, `{"x":{"y":{"` + long + `":null}}}`, `{"q":1,"` + long + `":{}}`, `{"q":{"a":1},"` + long + `":[]}`,
	}[r.Intn(47)]
}

func jsonl(t *h.T, n int) {
	conf := dg.RandConf(t.R)
	conf.Lone = false
	d := dg.JSONL(t.R, conf, n)
	var search []string
	if t.R.Intn(5) == 0 && !conf.Long {
		search = conf.Names[:1]
		for _, l := range d.Lines {
			for _, v := range l.Vals {
				if d.Expands(v) {
					search = nil
				}
			}
		}
	}
	run(t, d, search, func(line []byte) []byte {
		for {
			b := mutate(t.R, line)
			if t.R.Intn(3) == 0 {
				b = []byte(special(t.R))
			}
			if badJSON(b) {
				return b
			}
		}
	})
}

func csvs(t *h.T, n int) {
	conf := dg.RandCSVConf(t.R)
	d := dg.CSV(t.R, conf, n)
	run(t, d, nil, func(line []byte) []byte {
		for {
			b := mutate(t.R, line)
			switch t.R.Intn(4) {
			case 0:
				b = append(bytes.Clone(bytes.TrimRight(line, "\r")), strings.Repeat(",x", len(conf.Header))...)
			case 2:
				if t.R.Intn(8) == 0 { // far on in a line
					b = []byte(strings.Repeat("x", 70000*t.R.Intn(2)) + strings.Repeat(" ", 1<<16) + `"`)
				}
			case 1:
				b = []byte([]string{"", "\r", `"`, `"a`, `a"b`, `"a"b`, `"a""`, `a,"`, `1,"x`, `"x","`}[t.R.Intn(10)])
			}
			if badCSV(b, len(conf.Header)) {
				return b
			}
		}
	})
}

// run puts a bad line before some of the lines of d and synchronizes.
func run(t *h.T, d *dg.Doc, search []string, bad func(line []byte) []byte) {
	f := mem.New(nil)
	x, err := ix.Open(f, d.Format, search)
	t.NoErr(err, "NewIndexFile")
	t.Logf("%q search %q", ix.Head(d.Bytes), search)
	at := 0
	met := 0
	for k := 1 + t.R.Intn(3); k > 0 && at <= len(d.Lines); k-- {
		line := at + t.R.Intn(len(d.Lines)-at+1)
		good := []byte(`{"a":1}`)
		start := len(d.Bytes)
		if d.Format == 1 {
			good = []byte("x")
		}
		var rest []byte
		if line < len(d.Lines) {
			l := d.Lines[line]
			good, start, rest = d.Bytes[l.Start:l.End], l.Start, d.Bytes[l.End:]
		}
		b := bad(good)
		data := bytes.Clone(d.Bytes[:start])
		data = append(data, b...)
		if len(rest) > 0 {
			data = append(data, rest...)
		} else {
			data = append(data, '\n')
		}
		t.Logf("line %d is %q", line, b)
		// with or without the good lines first
		if t.R.Intn(3) == 0 {
			t.NoErr(x.Synchronize(bytes.Clone(d.Bytes[:start])), "Synchronize the good lines")
		}
		for try := 1 + t.R.Intn(3); try > 0; try-- {
			err := x.Synchronize(data)
			if err == nil {
				t.Failf("line %d was accepted: %q", line, b)
			}
			p := d.Prefix(line)
			p.Bytes = data
			got, err := dg.Read(f.Buf, data, d.Format)
			if err != nil {
				t.Failf("after the rejected line %d %q the index cannot be decoded: %v", line, b, err)
			}
			if m := dg.Diff(got, p.Expect(search)); m != "" {
				t.Failf("after the rejected line %d %q: %s", line, b, m)
			}
			t.Count("rejections", 1)
			if t.R.Intn(3) == 0 {
				x, err = ix.Open(f, d.Format, search)
				t.NoErr(err, "reopening")
			}
		}
		t.Distinct(b, line)
		met++
		at = line
		if t.R.Intn(3) == 0 {
			break
		}
	}
	t.NoErr(x.Synchronize(d.Bytes), "Synchronize the corrected file")
	ix.Check(t, f.Buf, d, search)
	t.Sample(map[string]any{"case": t.Name, "lines": len(d.Lines), "bad_lines": met})
}

// header tries CSV headers that cannot be used.
func header(t *h.T) {
	d := dg.CSV(t.R, dg.RandCSVConf(t.R), t.R.Intn(4))
	good := d.Bytes[:d.Body]
	var b []byte
	for b == nil || !badHeader(b) {
		b = mutate(t.R, bytes.TrimRight(good, "\n"))
		switch t.R.Intn(4) {
		case 0:
			b = []byte([]string{"", "\r", `"`, `a,"b`, `a"b`, `"a"b,c`}[t.R.Intn(6)])
		case 1:
			many := strings.Repeat("ok,", []int{0, 1, 15, 16, 63, 130, 300, 1000}[t.R.Intn(8)])
			b = []byte(many + strings.Repeat([]string{"n", "é", "日", "😀", `""`}[t.R.Intn(5)], maxName+1+t.R.Intn(30)) + strings.Repeat(",k", t.R.Intn(4)))
			if bytes.Contains(b, []byte(`""`)) {
				b = []byte(many + `"` + strings.Repeat(`""`, maxName+1+t.R.Intn(3)) + `"`)
			}
		}
	}
	data := append(append(bytes.Clone(b), '\n'), d.Bytes[d.Body:]...)
	t.Logf("header %q", b)
	f := mem.New(nil)
	x, err := ix.Open(f, 1, nil)
	t.NoErr(err, "NewIndexFile")
	for i := 0; i < 2; i++ {
		if err := x.Synchronize(data); err == nil {
			t.Failf("the header %q was accepted", b)
		}
		got, err := dg.Read(f.Buf, data, 1)
		t.NoErr(err, "decoding")
		if len(got.Fields) > 0 || got.Meta.ReadOffset != 0 || got.Meta.Entries != 0 {
			t.Failf("after the rejected header %q the index holds %d fields, metadata %+v", b, len(got.Fields), got.Meta)
		}
		t.Count("rejections", 1)
	}
	t.NoErr(x.Synchronize(d.Bytes), "Synchronize the corrected file")
	ix.Check(t, f.Buf, d, nil)
	t.Distinct(b)
}

// noise throws anything at the indexer: it may refuse but not crash, and what
// it keeps is whole.
func noise(t *h.T, format byte) {
	n := t.R.Intn(300)
	data := make([]byte, n)
	alpha := []byte("{}[]\":,\n\r\\ 10eE.-+tfnua\x00\xff")
	if t.R.Intn(3) == 0 {
		t.R.Read(data)
	} else {
		for i := range data {
			data[i] = alpha[t.R.Intn(len(alpha))]
		}
	}
	t.Logf("%q", data)
	f := mem.New(nil)
	err := ix.Build(f, data, format, []string{"a", ""})
	got, derr := dg.Read(f.Buf, data, format)
	if derr != nil {
		t.Failf("after %q (%v) the index cannot be decoded: %v", data, err, derr)
	}
	// the lines before the first bad one, and only those, are counted
	off, lines := 0, 0
	for {
		i := bytes.IndexByte(data[off:], '\n')
		if i < 0 {
			break
		}
		line := data[off : off+i]
		if format == 0 && badJSON(line) || format == 1 && off == 0 && badHeader(line) || format == 1 && off > 0 && badCSV(line, cols(data)) {
			break
		}
		off += i + 1
		lines++
	}
	if format == 1 && lines > 0 {
		lines--
	}
	if got.Meta.ReadOffset != uint64(off) || got.Meta.Entries != uint64(lines) {
		t.Failf("after %q (%v) %d bytes and %d lines are indexed, not %d and %d", data, err, got.Meta.ReadOffset, got.Meta.Entries, off, lines)
	}
	if bad := bytes.IndexByte(data[off:], '\n') >= 0; bad != (err != nil) {
		t.Failf("after %q: error %v", data, err)
	}
	t.Count("noise", 1)
	t.Distinct(data)
}

func cols(data []byte) int {
	line, _, _ := bytes.Cut(data, []byte("\n"))
	rec, _ := csv.NewReader(bytes.NewReader(line)).Read()
	return len(rec)
}

func main() {
	h.Main("C04", func(c *h.C) {
		c.Rule("generated files with one to three bad lines (mutations of good lines and hand-picked ones) at random places, retried, corrected and carried on; plus files of noise; the stored index is decoded and compared after every rejection; distinct: bad lines and their places")
		c.Each(c.N(2500, 50000), "jsonl", func(t *h.T) { jsonl(t, t.R.Intn(10)) })
		c.Each(c.N(1500, 30000), "csv", func(t *h.T) { csvs(t, t.R.Intn(10)) })
		c.Each(c.N(20, 400), "jsonl-long", func(t *h.T) { jsonl(t, 100+t.R.Intn(200)) })
		c.Each(c.N(300, 3000), "header", header)
		c.Each(c.N(2500, 80000), "noise", func(t *h.T) { noise(t, 0) })
		c.Each(c.N(2000, 40000), "noise-csv", func(t *h.T) { noise(t, 1) })
	})
}
