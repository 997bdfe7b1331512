// C05: the catalogue of fields and the file metadata.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
	"verif/raw"
)

// accessors compares what the index file's own methods say with d.
func accessors(t *h.T, x *appendable.IndexFile, want *raw.Index) {
	m, err := x.Metadata()
	t.NoErr(err, "Metadata")
	if got := (raw.FileMeta{Version: byte(m.Version), Format: byte(m.Format), ReadOffset: m.ReadOffset, Entries: m.Entries}); got != want.Meta {
		t.Failf("Metadata is %+v, not %+v", got, want.Meta)
	}
	empty, err := x.IsEmpty()
	t.NoErr(err, "IsEmpty")
	if empty != (len(want.Fields) == 0) {
		t.Failf("IsEmpty is %v with %d indexes", empty, len(want.Fields))
	}
	var names []string
	seen := map[string]bool{}
	for _, f := range want.Fields {
		if !seen[f.Meta.Name] {
			seen[f.Meta.Name] = true
			names = append(names, f.Meta.Name)
		}
	}
	got, err := x.IndexFieldNames()
	t.NoErr(err, "IndexFieldNames")
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", names) {
		t.Failf("IndexFieldNames is %q, not %q", got, names)
	}
	next, err := x.Indexes()
	for i, f := range want.Fields {
		if err != nil {
			t.Failf("index %d of %d: %v", i, len(want.Fields), err)
		}
		buf, err2 := next.Metadata()
		t.NoErr(err2, "index metadata")
		var m appendable.IndexMeta
		t.NoErr(m.UnmarshalBinary(buf), "index metadata")
		if g := (raw.IndexMeta{Type: uint16(m.FieldType), Width: m.Width, Name: m.FieldName, Total: m.TotalFieldValueLength}); g != f.Meta {
			t.Failf("index %d is %+v, not %+v", i, g, f.Meta)
		}
		next, err = next.Next()
	}
	if !errors.Is(err, io.EOF) {
		t.Failf("after %d indexes: %v", len(want.Fields), err)
	}
	t.Count("accessor_checks", 1)
}

func file(t *h.T, d *dg.Doc, search []string) {
	f := mem.New(nil)
	x, err := ix.Open(f, d.Format, search)
	t.NoErr(err, "NewIndexFile")
	empty := *d
	empty.Lines, empty.Body = nil, 0
	accessors(t, x, empty.Expect(search))
	for at := 0; ; {
		p := d.Prefix(at)
		if d.Format == 1 || at > 0 || t.R.Intn(2) == 0 {
			t.NoErr(x.Synchronize(bytes.Clone(p.Bytes)), "Synchronize %d lines", at)
			want := p.Expect(search)
			accessors(t, x, want)
			ix.Check(t, f.Buf, p, search)
			// looking for what is there creates nothing
			if len(want.Fields) > 0 {
				before := bytes.Clone(f.Buf)
				w := want.Fields[t.R.Intn(len(want.Fields))].Meta
				_, m, err := x.FindOrCreateIndex(w.Name, appendable.FieldType(w.Type))
				t.NoErr(err, "FindOrCreateIndex")
				if m.FieldName != w.Name || uint16(m.FieldType) != w.Type || m.Width != w.Width || m.TotalFieldValueLength != w.Total {
					t.Failf("FindOrCreateIndex(%q, %d) gives %+v", w.Name, w.Type, m)
				}
				if !bytes.Equal(before, f.Buf) {
					t.Failf("finding an index changed the file")
				}
			}
		}
		if at == len(d.Lines) {
			break
		}
		at += 1 + t.R.Intn(len(d.Lines)-at)
		if t.R.Intn(2) == 0 {
			x, err = ix.Open(f, d.Format, search)
			t.NoErr(err, "reopening")
			t.Count("reopened", 1)
		}
	}
	t.Distinct(d.Bytes)
	t.Max("max_indexes", len(d.Expect(search).Fields))
}

// totals continues an index in which an index has a very large total.
func totals(t *h.T, d *dg.Doc, search []string) {
	f := mem.New(nil)
	x, err := ix.Open(f, 0, search)
	t.NoErr(err, "NewIndexFile")
	at := 1 + t.R.Intn(len(d.Lines)-1)
	t.NoErr(x.Synchronize(bytes.Clone(d.Prefix(at).Bytes)), "Synchronize %d lines", at)
	more := map[string]uint64{}
	for _, w := range d.Prefix(at).Expect(search).Fields {
		if t.R.Intn(2) == 0 {
			continue
		}
		page, m, err := x.FindOrCreateIndex(w.Meta.Name, appendable.FieldType(w.Meta.Type))
		t.NoErr(err, "FindOrCreateIndex")
		n := []uint64{1<<16 - 1, 1<<31 - 2, 1<<32 - 2, 1 << 32, 1<<32 + 77, 1 << 53, 1<<63 - 2}[t.R.Intn(7)]
		m.TotalFieldValueLength += n
		t.NoErr(page.MarshalMetadata(m), "storing a total")
		more[fmt.Sprint(w.Meta.Type, w.Meta.Name)] = n
		t.Logf("%q of type %d has %d more", w.Meta.Name, w.Meta.Type, n)
	}
	for {
		if t.R.Intn(2) == 0 {
			x, err = ix.Open(f, 0, search)
			t.NoErr(err, "reopening")
		}
		want := d.Prefix(at).Expect(search)
		for i := range want.Fields {
			m := &want.Fields[i].Meta
			m.Total += more[fmt.Sprint(m.Type, m.Name)]
		}
		accessors(t, x, want)
		t.Count("large_totals", len(more))
		if at == len(d.Lines) {
			break
		}
		at += 1 + t.R.Intn(len(d.Lines)-at)
		t.NoErr(x.Synchronize(bytes.Clone(d.Prefix(at).Bytes)), "Synchronize %d lines", at)
	}
	if len(more) > 0 {
		t.Distinct("totals", d.Bytes)
	}
}

// foreign opens files that are not what the handler reads.
func foreign(t *h.T, version, format byte, as byte) {
	d := dg.JSONL(t.R, dg.RandConf(t.R), t.R.Intn(4))
	f := mem.New(nil)
	t.NoErr(ix.Build(f, d.Bytes, 0, nil), "Synchronize")
	slots, _, err := raw.Directory(f.Buf)
	t.NoErr(err, "directory")
	at := slots[0].Page + 9 + 13
	if int(f.Buf[at]) != 1 || int(f.Buf[at+1]) != 0 {
		t.Failf("a new file has version %d and format %d", f.Buf[at], f.Buf[at+1])
	}
	f.Buf[at], f.Buf[at+1] = version, format
	before := bytes.Clone(f.Buf)
	x, err := ix.Open(f, as, nil)
	ok := version == 1 && format == as
	if ok != (err == nil) {
		t.Failf("a file with version %d and format %d opened as format %d: %v", version, format, as, err)
	}
	if err != nil && x != nil {
		t.Failf("an index file was returned with the error %v", err)
	}
	if !bytes.Equal(before, f.Buf) {
		t.Failf("opening a file with version %d and format %d as format %d changed it", version, format, as)
	}
	t.Distinct("foreign", version, format, as)
	t.Count("foreign_files", 1)
}

func main() {
	h.Main("C05", func(c *h.C) {
		c.Rule("files with few to several hundred fields of mixed types, indexed in steps with reopenings; the stored catalogue and the accessor methods are compared after each step; some with totals or offsets beyond 32 bits; files of every version and format byte are opened as either kind")
		c.Each(c.N(400, 8000), "jsonl", func(t *h.T) { file(t, dg.JSONL(t.R, dg.RandConf(t.R), t.R.Intn(15)), nil) })
		c.Each(c.N(300, 6000), "searched", func(t *h.T) {
			conf := dg.RandConf(t.R)
			conf.Types = append(append([]uint16{}, conf.Types...), dg.String, dg.String)
			d := dg.JSONL(t.R, conf, 1+t.R.Intn(15))
			search := dg.Search(t.R, d)
			for tries := 0; d.AnyExpands(search); tries++ {
				if tries > 20 {
					conf.Unicode = 0
				}
				conf.Pool = nil
				d = dg.JSONL(t.R, conf, 1+t.R.Intn(15))
				search = dg.Search(t.R, d)
			}
			file(t, d, search)
		})
		c.Each(c.N(150, 3000), "totals", func(t *h.T) {
			conf := dg.RandConf(t.R)
			conf.Unicode = 0 // no text expands
			d := dg.JSONL(t.R, conf, 2+t.R.Intn(15))
			var search []string
			if t.R.Intn(2) == 0 {
				search = dg.Search(t.R, d)
			}
			totals(t, d, search)
		})
		// something far larger than is usual
		c.Each(c.N(9, 120), "extreme", func(t *h.T) {
			d, kind := dg.Extreme(t.R, t.Index())
			if t.Index()%3 == 2 {
				d, kind = dg.ExtremeCSV(t.R, t.Index()/3)
			}
			t.Count("extreme_"+kind, 1)
			file(t, d, nil)
		})
		// data past where 31 and 32 bits reach
		c.Each(c.N(40, 600), "far", func(t *h.T) {
			if t.R.Intn(3) == 0 {
				ix.Far(t, dg.CSV(t.R, dg.RandCSVConf(t.R), 1+t.R.Intn(15)), nil)
			} else {
				ix.Far(t, dg.JSONL(t.R, dg.RandConf(t.R), 1+t.R.Intn(15)), nil)
			}
		})
		c.Each(c.N(200, 4000), "csv", func(t *h.T) { file(t, dg.CSV(t.R, dg.RandCSVConf(t.R), t.R.Intn(15)), nil) })
		c.Each(c.N(12, 150), "many", func(t *h.T) {
			conf := dg.RandConf(t.R)
			conf.Names = nil
			for i := 0; i < 20+t.R.Intn(150); i++ {
				n := t.R.Intn(20)
				if t.R.Intn(8) == 0 {
					n = 190
				}
				conf.Names = append(conf.Names, fmt.Sprint(i, strings.Repeat("x", n)))
			}
			conf.MaxFields, conf.MaxDepth = 12, 1
			file(t, dg.JSONL(t.R, conf, 12+t.R.Intn(10)), nil)
		})
		c.Each(c.N(6, 60), "many-csv", func(t *h.T) {
			conf := dg.RandCSVConf(t.R)
			conf.Header = nil
			for i := 0; i < 20+t.R.Intn(80); i++ {
				conf.Header = append(conf.Header, fmt.Sprint("col", i))
			}
			file(t, dg.CSV(t.R, conf, 8), nil)
		})
		// names up to the longest that fits
		for n := 225; n <= 240; n++ {
			c.Case(fmt.Sprintf("name/%d", n), func(t *h.T) {
				name := strings.Repeat("é", n/2) + strings.Repeat("x", n%2)
				line := `{"` + name + `":"v","o":1}`
				f := mem.New(nil)
				x, err := ix.Open(f, 0, nil)
				t.NoErr(err, "NewIndexFile")
				one := []byte(strings.Repeat(line+"\n", 200))
				err = x.Synchronize(one)
				if (err == nil) != (n <= 236) {
					t.Failf("a name of %d bytes: %v", n, err)
				}
				if err == nil {
					d := &dg.Doc{Bytes: one}
					for i := 0; i < 200; i++ {
						s := i * (len(line) + 1)
						k := s + len(name) + 4
						d.Lines = append(d.Lines, dg.Line{Start: s, End: s + len(line), Vals: []dg.Val{
							{Path: name, Type: dg.String, Str: "v", Start: k, End: k + 3},
							{Path: "o", Type: dg.Number, Num: 1, Start: k + 8, End: k + 9}}})
					}
					accessors(t, x, d.Expect(nil))
					ix.Check(t, f.Buf, d, nil)
				}
				t.Distinct("name", n)
			})
		}
		for v := 0; v < 256; v++ {
			for _, as := range []byte{0, 1} {
				c.Case(fmt.Sprintf("version/%d/%d", v, as), func(t *h.T) { foreign(t, byte(v), byte(t.R.Intn(2)), as) })
				c.Case(fmt.Sprintf("format/%d/%d", v, as), func(t *h.T) { foreign(t, 1, byte(v), as) })
			}
		}
	})
}
