// C02: indexes of generated CSV files, decoded and compared with the fields
// the generator put into them.
package main

import (
	"bytes"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
)

func run(t *h.T, d *dg.Doc, rest string) {
	data := append(append([]byte{}, d.Bytes...), rest...)
	t.Logf("%q", ix.Head(data))
	d.Bytes = data
	f := mem.New(nil)
	x, err := ix.Open(f, 1, nil)
	t.NoErr(err, "NewIndexFile")
	// in one or several steps
	if t.R.Intn(2) == 0 {
		for k := t.R.Intn(4); k > 0; k-- {
			n := t.R.Intn(len(data) + 1)
			if m, err := x.Metadata(); err != nil || uint64(n) < m.ReadOffset {
				continue
			}
			t.Logf("synchronize %d of %d bytes", n, len(data))
			t.NoErr(x.Synchronize(bytes.Clone(data[:n])), "Synchronize the first %d bytes", n)
			t.Count("extra_steps", 1)
			if t.R.Intn(2) == 0 {
				x, err = ix.Open(f, 1, nil)
				t.NoErr(err, "reopening")
			}
		}
	}
	t.NoErr(x.Synchronize(data), "Synchronize")
	ix.Check(t, f.Buf, d, nil)
	vals := 0
	for _, l := range d.Lines {
		vals += len(l.Vals)
	}
	t.Count("fields", vals)
	t.Max("max_lines", len(d.Lines))
	if vals > 1 {
		t.Distinct(data)
	}
	s := string(data)
	if len(s) > 150 {
		s = s[:150]
	}
	t.Sample(map[string]any{"case": t.Name, "lines": len(d.Lines), "fields": vals, "start": s})
}

func main() {
	h.Main("C02", func(c *h.C) {
		c.Rule("generated CSV files (quoting, doubled quotes, commas, empty and short fields, number and boolean spellings, CR LF, Unicode), indexed in one or several steps; every stored entry is compared with the byte ranges the generator recorded; non-trivial: more than one field")
		c.Each(c.N(1500, 30000), "small", func(t *h.T) {
			d := dg.CSV(t.R, dg.RandCSVConf(t.R), t.R.Intn(12))
			rest := ""
			if t.R.Intn(3) == 0 {
				rest = []string{"x", "1,2", "\"", "\r", ",,"}[t.R.Intn(5)]
			}
			run(t, d, rest)
		})
		c.Each(c.N(60, 1200), "medium", func(t *h.T) {
			run(t, dg.CSV(t.R, dg.RandCSVConf(t.R), 100+t.R.Intn(400)), "")
		})
		c.Each(c.N(6, 60), "large", func(t *h.T) {
			conf := dg.RandCSVConf(t.R)
			conf.Header = []string{"a", "b"}
			run(t, dg.CSV(t.R, conf, 4000+t.R.Intn(3000)), "")
		})
		// something far larger than is usual
		c.Each(c.N(15, 150), "extreme", func(t *h.T) {
			d, kind := dg.ExtremeCSV(t.R, t.Index())
			t.Count("extreme_"+kind, 1)
			run(t, d, "")
		})
		// data past where 31 and 32 bits reach, in an index that may be, too
		c.Each(c.N(60, 900), "far", func(t *h.T) {
			ix.Far(t, dg.CSV(t.R, dg.RandCSVConf(t.R), 1+t.R.Intn(60)), nil)
		})
	})
}
