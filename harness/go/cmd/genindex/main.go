// genindex serves the repository's Go side to checks of the client: one JSON
// request per line, one JSON answer per line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"os"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/encoding"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/ngram"
	"github.com/kevmo314/appendable/pkg/pointer"

	"verif/dg"
	"verif/ix"
	"verif/mem"
	"verif/raw"
)

type request struct {
	Op     string
	Data   []byte
	Index  []byte
	Search []string
	Texts  []string
	Min    int
	Max    int
	Ints   []uint64
	Format byte
	Name   string
	Type   uint16
	Insert []entry

	Version        byte
	Width          uint16
	Offset         uint64
	Entries, Total uint64

	// how many bytes of the data are left out, at which place, and how long the
	// index is before it grows from GapAt on
	Base  int
	At    int
	Size  int64
	GapAt int64

	Fan []int
}

type entry struct {
	V  []byte
	KO uint64
	KL uint32
	RO uint64
	RL uint32
}

type field struct {
	Name    string
	Type    uint16
	Width   uint16
	Total   uint64
	Depth   int
	Entries []entry
	Leaves  []int
	Most    int
}

type answer struct {
	Err     string
	Index   []byte
	Tokens  [][][2]any
	Entries uint64
	Offset  uint64
	Version byte
	Format  byte
	Fields  []field
	Sizes   []int
	Pages   int // of the directory

	FileMeta, IndexMeta []byte

	GapAt int64
	Depth int
}

func handle(q request) (a answer) {
	defer func() {
		if r := recover(); r != nil {
			a = answer{Err: fmt.Sprint("panic: ", r)}
		}
	}()
	if q.Base > 0 {
		data, free, err := mem.Region(q.Base + len(q.Data))
		if err != nil {
			return answer{Err: err.Error()}
		}
		defer free()
		copy(data, q.Data[:q.At])
		copy(data[q.At+q.Base:], q.Data[q.At:])
		q.Data = data
	}
	fail := func(err error) answer { return answer{Err: err.Error()} }
	switch q.Op {
	case "index":
		f := mem.New(q.Index)
		if err := ix.Build(f, q.Data, q.Format, q.Search); err != nil {
			a.Err = err.Error()
		}
		a.Index = f.Buf
	case "far":
		// data with a gap that counts as indexed; the index, less what is between
		// GapAt and Size
		f := mem.New(nil)
		x, err := ix.Open(f, 0, q.Search)
		if err != nil {
			return fail(err)
		}
		if err := x.Synchronize(q.Data[:q.At:q.At]); err != nil {
			return fail(err)
		}
		m, err := x.Metadata()
		if err != nil {
			return fail(err)
		}
		m.ReadOffset = uint64(q.At + q.Base)
		if err := x.SetMetadata(m); err != nil {
			return fail(err)
		}
		a.GapAt = int64(len(f.Buf))
		f.Far(q.Size)
		if err := ix.Build(f, q.Data, 0, q.Search); err != nil {
			return fail(err)
		}
		a.Index = f.Buf
	case "sparse": // the same index, its trees tall for having small nodes
		x, err := dg.Read(q.Index, q.Data, q.Format)
		if err != nil {
			return fail(err)
		}
		i := 0
		a.Index, a.Depth = raw.Sparse(q.Index, x, func() int { i++; return q.Fan[i%len(q.Fan)] })
	case "shape": // of the directory and the trees
		x, err := dg.Read(q.Index, q.Data, q.Format)
		if err != nil {
			return fail(err)
		}
		_, pages, err := raw.Directory(q.Index)
		if err != nil {
			return fail(err)
		}
		a.Pages = len(pages)
		for _, f := range x.Fields {
			o := field{Name: f.Meta.Name, Type: f.Meta.Type}
			if f.Tree != nil {
				o.Depth, o.Leaves, o.Most = f.Tree.Depth, f.Tree.Leaves, f.Tree.Most
			}
			a.Fields = append(a.Fields, o)
		}
	case "decode":
		file := raw.File{Buf: q.Index}
		if q.Size > 0 {
			file.GapAt, file.Gap = uint64(q.GapAt), uint64(q.Size-q.GapAt)
		}
		x, err := dg.ReadFile(file, q.Data, q.Format)
		if err != nil {
			return fail(err)
		}
		a = answer{Entries: x.Meta.Entries, Offset: x.Meta.ReadOffset, Version: x.Meta.Version, Format: x.Meta.Format}
		for _, f := range x.Fields {
			o := field{Name: f.Meta.Name, Type: f.Meta.Type, Width: f.Meta.Width, Total: f.Meta.Total}
			if f.Tree == nil {
				f.Tree = &raw.Tree{}
			}
			o.Depth = f.Tree.Depth
			for _, e := range f.Tree.Entries {
				o.Entries = append(o.Entries, entry{[]byte(e.Value), e.KeyOff, e.KeyLen, e.RecOff, e.RecLen})
			}
			a.Fields = append(a.Fields, o)
		}
	case "tree":
		// entries with pointers of the caller's choice, in an index file
		f := mem.New(q.Index)
		x, err := ix.Open(f, q.Format, nil)
		if err != nil {
			return fail(err)
		}
		page, meta, err := x.FindOrCreateIndex(q.Name, appendable.FieldType(q.Type))
		if err != nil {
			return fail(err)
		}
		if q.Width > 0 { // another than the indexer gives such a field
			meta.Width = q.Width
			b, err := meta.MarshalBinary()
			if err != nil {
				return fail(err)
			}
			if err := page.SetMetadata(b); err != nil {
				return fail(err)
			}
		}
		for _, e := range q.Insert {
			if err := page.BPTree(&bptree.BPTree{Data: q.Data, DataParser: handlers.JSONLHandler{}, Width: meta.Width}).Insert(
				pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: e.KO, Length: e.KL}, Value: e.V},
				pointer.MemoryPointer{Offset: e.RO, Length: e.RL},
			); err != nil {
				return fail(err)
			}
		}
		a.Index = f.Buf
	case "metadata":
		var err error
		if a.FileMeta, err = (&appendable.FileMeta{Version: appendable.Version(q.Version), Format: appendable.Format(q.Format), ReadOffset: q.Offset, Entries: q.Entries}).MarshalBinary(); err != nil {
			return fail(err)
		}
		m := &appendable.IndexMeta{FieldName: q.Name, FieldType: appendable.FieldType(q.Type), Width: q.Width, TotalFieldValueLength: q.Total}
		if a.IndexMeta, err = m.MarshalBinary(); err != nil {
			return fail(err)
		}
	case "tokens":
		for _, s := range q.Texts {
			var ts [][2]any
			for n := q.Min; n <= q.Max; n++ {
				for _, g := range ngram.BuildNgram(s, n) {
					ts = append(ts, [2]any{n, g.Word})
				}
			}
			a.Tokens = append(a.Tokens, ts)
		}
	case "sizes":
		for _, n := range q.Ints {
			a.Sizes = append(a.Sizes, encoding.SizeVarint(n))
		}
	default:
		a.Err = "no such operation"
	}
	return
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 100})))
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			return
		}
		var q request
		var a answer
		if err := json.Unmarshal(line, &q); err != nil {
			a.Err = err.Error()
		} else {
			a = handle(q)
		}
		b, _ := json.Marshal(a)
		out.Write(append(b, '\n'))
		out.Flush()
	}
}
