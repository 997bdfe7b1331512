// C01: indexes of generated JSON Lines files, decoded and compared with the
// values the generator put into them.
package main

import (
	"bytes"
	"fmt"
	"strconv"

	"github.com/kevmo314/appendable/pkg/appendable"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
)

func run(t *h.T, d *dg.Doc, rest string) {
	data := append(append([]byte{}, d.Bytes...), rest...)
	t.Logf("%q", ix.Head(data))
	f := mem.New(nil)
	t.NoErr(ix.Build(f, data, 0, nil), "Synchronize")
	d.Bytes = data
	ix.Check(t, f.Buf, d, nil)
	vals := 0
	for _, l := range d.Lines {
		vals += len(l.Vals)
	}
	t.Count("values", vals)
	t.Max("max_lines", len(d.Lines))
	if vals > 1 {
		t.Distinct(data)
	}
	t.Sample(map[string]any{"case": t.Name, "lines": len(d.Lines), "values": vals, "bytes": len(data), "start": clip(string(data))})
}

func clip(s string) string {
	if len(s) > 150 {
		return s[:150]
	}
	return s
}

func main() {
	h.Main("C01", func(c *h.C) {
		c.Rule("files of generated JSON objects (nesting, whitespace, escapes, number forms, names with dots, quotes and colons, mixed types, arrays, CR LF, broken Unicode), indexed once; every stored entry is compared with the byte ranges the generator recorded; non-trivial: more than one value")
		c.Each(c.N(1200, 30000), "small", func(t *h.T) {
			n := t.R.Intn(12)
			d := dg.JSONL(t.R, dg.RandConf(t.R), n)
			rest := ""
			if t.R.Intn(3) == 0 {
				rest = []string{" ", "{", "{}", `{"a":1}`, "\r", "{\"a\":\"x", "garbage"}[t.R.Intn(7)]
			}
			run(t, d, rest)
		})
		c.Each(c.N(60, 1200), "medium", func(t *h.T) {
			run(t, dg.JSONL(t.R, dg.RandConf(t.R), 100+t.R.Intn(300)), "")
		})
		c.Each(c.N(6, 60), "large", func(t *h.T) {
			conf := dg.RandConf(t.R)
			conf.Long = false
			conf.Names = []string{"a", "b", "c"}
			run(t, dg.JSONL(t.R, conf, 3000+t.R.Intn(3000)), "")
		})
		// three levels, by ascending and by scattered values
		c.Each(c.N(2, 12), "tall", func(t *h.T) {
			d := &dg.Doc{}
			for i, n := 0, 40000+t.R.Intn(8000); i < n; i++ {
				start := len(d.Bytes)
				f := float64(i)
				if t.R.Intn(8) == 0 {
					f = float64(t.R.Intn(1000)) / 4
				}
				text := strconv.FormatFloat(f, 'g', -1, 64)
				d.Bytes = fmt.Appendf(d.Bytes, "{\"v\": %s}\n", text)
				d.Lines = append(d.Lines, dg.Line{Start: start, End: len(d.Bytes) - 1, Vals: []dg.Val{{Path: "v", Type: dg.Number, Num: f, Start: start + 5, End: start + 6 + len(text)}}})
			}
			run(t, d, "")
		})
		// one field, every value type following every other
		c.Case("alternating", func(t *h.T) {
			conf := dg.Conf{MaxFields: 1, Names: []string{"v"}, Types: []uint16{0, 3, 4, 5, 6, 7}, MaxDepth: 2}
			d := dg.JSONL(t.R, conf, 2000)
			run(t, d, "")
		})
		// long lines and deep nesting
		c.Each(c.N(6, 40), "deep", func(t *h.T) {
			conf := dg.Conf{MaxFields: 2, Names: []string{"n", "m"}, Types: []uint16{4, 4, 4, 3, 0, 5}, MaxDepth: 90, Spaces: t.R.Intn(3)}
			run(t, dg.JSONL(t.R, conf, 30), "")
		})
		c.Each(c.N(4, 20), "wide", func(t *h.T) {
			var names []string
			for i := 0; i < 60; i++ {
				names = append(names, fmt.Sprintf("field%d", i))
			}
			conf := dg.Conf{MaxFields: 60, Names: names, Types: []uint16{0, 3, 6, 7, 5, 4}, MaxDepth: 1, Unicode: 1}
			run(t, dg.JSONL(t.R, conf, 12), "")
		})
		// names as long as they may be that differ in one byte only
		c.Each(c.N(4, 20), "long names", func(t *h.T) {
			var names []string
			b := bytes.Repeat([]byte{'n'}, appendable.MaxFieldNameLength-t.R.Intn(3))
			for _, at := range []int{0, 1, 127, 128, 199, 200, 223, 224, len(b) - 2, len(b) - 1} {
				x := bytes.Clone(b)
				x[at] = 'm'
				names = append(names, string(x))
			}
			names = append(names, string(b), string(b[:len(b)-1]))
			conf := dg.Conf{MaxFields: 12, MaxPath: len(b), Names: names, Types: []uint16{0, 3, 6, 7}, MaxDepth: 1}
			run(t, dg.JSONL(t.R, conf, 20), "")
		})
		// something far larger than is usual
		c.Each(c.N(27, 270), "extreme", func(t *h.T) {
			d, kind := dg.Extreme(t.R, t.Index())
			t.Count("extreme_"+kind, 1)
			run(t, d, "")
		})
		// data past where 31 and 32 bits reach, in an index that may be, too
		c.Each(c.N(60, 900), "far", func(t *h.T) {
			ix.Far(t, dg.JSONL(t.R, dg.RandConf(t.R), 1+t.R.Intn(60)), nil)
		})
	})
}
