// Package ix synchronizes index files with the repository's code.
package ix

import (
	"bytes"
	"io"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"

	"verif/dg"
	"verif/h"
	"verif/mem"
)

func Handler(format byte) appendable.DataHandler {
	if format == 1 {
		return handlers.CSVHandler{}
	}
	return handlers.JSONLHandler{}
}

// Open opens an index file over storage.
func Open(f io.ReadWriteSeeker, format byte, search []string) (*appendable.IndexFile, error) {
	return appendable.NewIndexFile(f, Handler(format), search)
}

// Build makes an index of data in one go.
func Build(f *mem.File, data []byte, format byte, search []string) error {
	x, err := Open(f, format, search)
	if err != nil {
		return err
	}
	return x.Synchronize(data)
}

// Check compares the index in buf with what it should be for d.
func Check(t *h.T, buf []byte, d *dg.Doc, search []string) {
	CheckFile(t, &mem.File{Buf: buf}, d, search)
}

// CheckFile is Check for a file that may have a gap.
func CheckFile(t *h.T, f *mem.File, d *dg.Doc, search []string) {
	t.Beat()
	if f.Stray > 0 {
		t.Failf("a page nobody has was written")
	}
	got, err := dg.ReadFile(f.Raw(), d.Bytes, d.Format)
	if err != nil {
		t.Failf("the index cannot be decoded: %v", err)
	}
	if s := dg.Diff(got, d.Expect(search)); s != "" {
		t.Failf("%s", s)
	}
	// what is found at a key range is the key
	handler := Handler(d.Format)
	for _, l := range d.Lines {
		for _, v := range l.Vals {
			if v.Type == dg.Object || v.Type == dg.Array || v.Type != dg.String && d.Format == 1 {
				continue
			}
			if key := handler.Parse(d.Bytes[v.Start:v.End]); string(key) != v.Key() {
				t.Failf("the value %s of %q is read as %q, not as its key %q", d.Bytes[v.Start:v.End], v.Path, key, v.Key())
			}
		}
	}
	n := 0
	for _, f := range got.Fields {
		if f.Tree != nil {
			n += len(f.Tree.Entries)
			t.Max("max_depth", f.Tree.Depth)
		}
	}
	t.Count("entries_compared", n)
	t.Count("indexes_compared", len(got.Fields))
	t.Count("lines_indexed", len(d.Lines))
}

// Far indexes d, moved to where 31 and 32 bits end or past, in some steps, and
// checks the index. What is before it counts as indexed before. The index file,
// too, may go on at such a place.
func Far(t *h.T, d *dg.Doc, search []string) {
	base := dg.Bases[t.R.Intn(len(dg.Bases))]
	head := Head(d.Bytes)
	d, free, err := d.Far(base)
	t.NoErr(err, "memory")
	t.Cleanup(free)
	d.Before = []int{0, 1, 1<<31 - 2, 1<<32 - 2, 1 << 40}[t.R.Intn(5)]
	t.Logf("at %d, %d records before, search %q: %q", base, d.Before, search, head)
	f := mem.New(nil)
	x, err := Open(f, d.Format, search)
	t.NoErr(err, "opening")
	t.NoErr(x.SetMetadata(&appendable.FileMeta{Version: appendable.CurrentVersion, Format: appendable.Format(d.Format), ReadOffset: uint64(base), Entries: uint64(d.Before)}), "SetMetadata")
	if t.R.Intn(2) == 0 {
		size := mem.Sizes[t.R.Intn(len(mem.Sizes))]
		f.Far(size)
		t.Logf("the index goes on at %d", size)
		t.Count("far_indexes", 1)
		x, err = Open(f, d.Format, search)
		t.NoErr(err, "reopening")
	}
	for n := base; n < len(d.Bytes); {
		n += 1 + t.R.Intn(len(d.Bytes)-n)
		if t.R.Intn(2) == 0 {
			n = len(d.Bytes)
		}
		t.NoErr(x.Synchronize(d.Bytes[:n:n]), "Synchronize of %d bytes", n)
		CheckFile(t, f, d.Prefix(d.Complete(n)), search)
		if t.R.Intn(3) == 0 {
			x, err = Open(f, d.Format, search)
			t.NoErr(err, "reopening")
		}
	}
	names, err := x.IndexFieldNames()
	t.NoErr(err, "IndexFieldNames")
	seen := map[string]bool{}
	for _, w := range d.Expect(search).Fields {
		if !seen[w.Meta.Name] {
			if len(seen) >= len(names) || names[len(seen)] != w.Meta.Name {
				t.Failf("the names of indexed fields are %q, %q is not where it should be", names, w.Meta.Name)
			}
			seen[w.Meta.Name] = true
		}
	}
	t.Count("far_documents", 1)
	t.Distinct(head, base)
}

// Head shows the start of the data in a replay file.
func Head(data []byte) string {
	if len(data) > 3000 {
		return string(data[:3000]) + "..."
	}
	return string(bytes.Clone(data))
}
