// C06: the n-gram postings of searchable fields.
package main

import (
	"bytes"
	"fmt"
	"slices"
	"strings"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
)

func draw(t *h.T, conf dg.Conf, lines int) (*dg.Doc, []string) {
	d := dg.JSONL(t.R, conf, lines)
	fields := dg.Search(t.R, d)
	for tries := 0; d.AnyExpands(fields); tries++ {
		if tries > 20 {
			conf.Unicode = 0
		}
		conf.Pool = nil
		d = dg.JSONL(t.R, conf, lines)
		fields = dg.Search(t.R, d)
	}
	return d, fields
}

func run(t *h.T, conf dg.Conf, lines int) {
	d, fields := draw(t, conf, lines)
	check(t, d, fields)
}

func check(t *h.T, d *dg.Doc, fields []string) {
	t.Logf("%q searching %q", ix.Head(d.Bytes), fields)
	f := mem.New(nil)
	x, err := ix.Open(f, 0, fields)
	t.NoErr(err, "NewIndexFile")
	for at := 0; at < len(d.Lines); {
		at += 1 + t.R.Intn(len(d.Lines)-at)
		if t.R.Intn(2) == 0 {
			at = len(d.Lines)
		}
		p := d.Prefix(at)
		t.NoErr(x.Synchronize(bytes.Clone(p.Bytes)), "Synchronize %d lines", at)
		ix.Check(t, f.Buf, p, fields)
		if t.R.Intn(2) == 0 {
			x, err = ix.Open(f, 0, fields)
			t.NoErr(err, "reopening")
			t.Count("reopened", 1)
		}
	}
	grams, values := 0, 0
	for _, x := range d.Expect(fields).Fields {
		if x.Meta.Type >= dg.Trigram && x.Tree != nil {
			grams += len(x.Tree.Entries)
		}
	}
	for _, l := range d.Lines {
		for _, v := range l.Vals {
			for _, s := range fields {
				if v.Path == s && v.Type == dg.String {
					values++
				}
			}
		}
	}
	t.Count("postings", grams)
	t.Count("searched_texts", values)
	if grams > 3 {
		t.Distinct(d.Bytes, strings.Join(fields, "\x00"))
	}
	t.Sample(map[string]any{"case": t.Name, "fields": fields, "texts": values, "postings": grams})
}

func main() {
	h.Main("C06", func(c *h.C) {
		c.Rule("generated JSON Lines files with one to three searchable fields, some nested, some absent, some of mixed type; every stored posting is compared with an independent n-gram model of the texts; non-trivial: more than three postings")
		c.Assume("no searched text is longer in compatibility decomposition than its JSON text (known finding)")
		c.Each(c.N(900, 20000), "small", func(t *h.T) {
			conf := dg.RandConf(t.R)
			conf.Types = append(append([]uint16{}, conf.Types...), dg.String, dg.String)
			run(t, conf, 1+t.R.Intn(12))
		})
		// texts past where 31 and 32 bits reach, in an index that may be, too
		c.Each(c.N(50, 800), "far", func(t *h.T) {
			conf := dg.RandConf(t.R)
			conf.Types = append(append([]uint16{}, conf.Types...), dg.String, dg.String)
			d, fields := draw(t, conf, 1+t.R.Intn(20))
			ix.Far(t, d, fields)
		})
		c.Each(c.N(30, 500), "medium", func(t *h.T) {
			conf := dg.RandConf(t.R)
			conf.Long = false
			run(t, conf, 60+t.R.Intn(100))
		})
		c.Each(c.N(8, 100), "long", func(t *h.T) {
			conf := dg.RandConf(t.R)
			conf.Long = true
			conf.Types = []uint16{dg.String, dg.String, dg.Null}
			run(t, conf, 8)
		})
		// texts with the same n-grams 256 and 65536 letters apart
		c.Each(c.N(3, 40), "very-long", func(t *h.T) {
			conf := dg.RandConf(t.R)
			conf.Types = []uint16{dg.String}
			conf.Names = []string{"t", "u"}
			conf.MaxFields, conf.MaxDepth, conf.Unicode = 1, 0, 0
			for i := 0; i < 2; i++ {
				letters := []string{"a", "ab", "xyz ", "0-9"}[t.R.Intn(4)]
				text := make([]byte, 66000+t.R.Intn(3000))
				for j := range text {
					text[j] = '.'
					if j < 500 || j > 65500 || t.R.Intn(100) == 0 {
						text[j] = letters[t.R.Intn(len(letters))]
					}
				}
				conf.Pool = append(conf.Pool, string(text))
			}
			var d *dg.Doc
			for d == nil || len(d.Bytes) < 65000 {
				d = dg.JSONL(t.R, conf, 3)
			}
			t.Count("very_long_texts", 1)
			check(t, d, conf.Names)
		})
		// many fields searched, given in any order, some twice
		c.Each(c.N(6, 80), "many", func(t *h.T) {
			conf := dg.RandConf(t.R)
			conf.Types = []uint16{dg.String, dg.String, dg.String, dg.Null, dg.Object}
			conf.MaxFields, conf.MaxDepth, conf.Unicode, conf.Long, conf.Pool = 30, t.R.Intn(2), 0, false, nil
			for i := 20 + t.R.Intn(200); i > 0; i-- {
				conf.Names = append(conf.Names, fmt.Sprint("f", i, strings.Repeat("n", t.R.Intn(2)*t.R.Intn(60))))
			}
			d := dg.JSONL(t.R, conf, 3+t.R.Intn(10))
			fields := append(dg.Search(t.R, d), conf.Names...)
			t.R.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
			if d.AnyExpands(fields) {
				return
			}
			t.Max("max_fields", len(fields))
			check(t, d, fields)
		})
		// records that are far larger or deeper than usual around the texts
		c.Each(c.N(27, 270), "extreme", func(t *h.T) {
			d, kind := dg.Extreme(t.R, t.Index())
			fields := append(dg.Search(t.R, d), dg.Search(t.R, d)...)
			size := map[string]int{}
			for _, l := range d.Lines {
				for _, v := range l.Vals {
					if v.Type == dg.String {
						size[v.Path] += len(v.Str)
					}
				}
			}
			fields = slices.DeleteFunc(fields, func(f string) bool { return size[f] > 70000 })
			if d.AnyExpands(fields) {
				return
			}
			t.Count("extreme_"+kind, 1)
			check(t, d, fields)
		})
		c.Finding("expanding-text", func(t *h.T) string {
			data := []byte(strings.Repeat("{\"t\":\"㎯㎯㎯㎯㎯\"}\n", 2))
			if err := ix.Build(mem.New(nil), data, 0, []string{"t"}); err != nil {
				return fmt.Sprintf("two lines with the text ㎯㎯㎯㎯㎯ cannot be indexed for search: %v", err)
			}
			return ""
		})
	})
}
