// C07: the binary codecs of the metadata and of numbers.
package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/encoding"

	"verif/h"
	"verif/raw"
)

func edge(t *h.T) uint64 {
	v := uint64(1) << t.R.Intn(64)
	switch t.R.Intn(4) {
	case 0:
		v--
	case 1:
		v += uint64(t.R.Intn(3))
	case 2:
		v = t.R.Uint64() >> t.R.Intn(64)
	}
	return v
}

func uvarint(v uint64) []byte {
	var b []byte
	for ; v >= 0x80; v >>= 7 {
		b = append(b, byte(v)|0x80)
	}
	return append(b, byte(v))
}

func le(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	return b
}

func fileMeta(t *h.T) {
	m := appendable.FileMeta{Version: appendable.Version(t.R.Intn(256)), Format: appendable.Format(t.R.Intn(2)), ReadOffset: edge(t), Entries: edge(t)}
	b, err := m.MarshalBinary()
	t.NoErr(err, "MarshalBinary")
	want := append([]byte{byte(m.Version), byte(m.Format)}, le(m.ReadOffset, 8)...)
	want = append(want, uvarint(m.Entries)...)
	if !bytes.Equal(b, want) {
		t.Failf("%+v is written as %x, not %x", m, b, want)
	}
	if r, err := raw.ParseFileMeta(b); err != nil || r.Entries != m.Entries {
		t.Failf("%+v is written as %x (%v)", m, b, err)
	}
	var got appendable.FileMeta
	if t.R.Intn(2) == 0 {
		// read where another was before
		got = appendable.FileMeta{Version: appendable.Version(t.R.Intn(256)), Format: appendable.Format(t.R.Intn(2)), ReadOffset: edge(t), Entries: edge(t)}
	}
	t.NoErr(got.UnmarshalBinary(b), "UnmarshalBinary")
	if got != m {
		t.Failf("%+v is read back as %+v", m, got)
	}
	for n := range b {
		var g appendable.FileMeta
		if err := g.UnmarshalBinary(bytes.Clone(b[:n])); err == nil {
			t.Failf("the first %d of %d bytes of %+v are read as %+v", n, len(b), m, g)
		}
	}
	// a format nobody knows
	b[1] = byte(2 + t.R.Intn(254))
	var g appendable.FileMeta
	if err := g.UnmarshalBinary(b); err == nil {
		t.Failf("format %d is accepted", b[1])
	}
	t.Distinct(want)
	t.Count("file_descriptions", 1)
}

func indexMeta(t *h.T) {
	n := t.R.Intn(40)
	switch t.R.Intn(6) {
	case 0:
		n = 0
	case 1:
		n = 200 + t.R.Intn(120)
	case 2:
		n = []int{255, 256, 257, 32767, 32768, 65535}[t.R.Intn(6)]
	}
	name := make([]byte, n)
	t.R.Read(name)
	m := appendable.IndexMeta{FieldName: string(name), FieldType: appendable.FieldType(t.R.Intn(256)), Width: uint16(edge(t)), TotalFieldValueLength: edge(t)}
	b, err := m.MarshalBinary()
	t.NoErr(err, "MarshalBinary")
	want := le(uint64(m.FieldType), 2)
	want = append(want, le(uint64(m.Width), 2)...)
	want = append(want, le(uint64(n), 2)...)
	want = append(want, name...)
	want = append(want, uvarint(m.TotalFieldValueLength)...)
	if !bytes.Equal(b, want) {
		t.Failf("an index description with a name of %d bytes and total %d is written as %d bytes, not %d", n, m.TotalFieldValueLength, len(b), len(want))
	}
	var got appendable.IndexMeta
	if t.R.Intn(2) == 0 {
		got = appendable.IndexMeta{FieldName: "before", FieldType: appendable.FieldType(t.R.Intn(256)), Width: uint16(edge(t)), TotalFieldValueLength: edge(t)}
	}
	t.NoErr(got.UnmarshalBinary(bytes.Clone(b)), "UnmarshalBinary")
	if got != m {
		t.Failf("an index description with a name of %d bytes, type %d, width %d and total %d is read back with %d, %d, %d, %d", n, m.FieldType, m.Width, m.TotalFieldValueLength, len(got.FieldName), got.FieldType, got.Width, got.TotalFieldValueLength)
	}
	step := 1 + len(b)/500
	for k := 0; k < len(b); k += step {
		c := k
		if t.R.Intn(20) == 0 {
			c = len(b) - 1 - t.R.Intn(min(12, len(b)))
		}
		var g appendable.IndexMeta
		if err := g.UnmarshalBinary(bytes.Clone(b[:c])); err == nil {
			t.Failf("the first %d of %d bytes of an index description are read as %+v", c, len(b), g)
		}
	}
	t.Distinct(want)
	t.Count("index_descriptions", 1)
}

func damaged(t *h.T) {
	b := make([]byte, t.R.Intn(40))
	t.R.Read(b)
	if t.R.Intn(2) == 0 {
		for i := range b {
			b[i] = []byte{0, 0, 1, 0x7f, 0x80, 0xff}[t.R.Intn(6)]
		}
	}
	t.Logf("%x", b)
	var f appendable.FileMeta
	var x appendable.IndexMeta
	e1 := f.UnmarshalBinary(bytes.Clone(b))
	e2 := x.UnmarshalBinary(bytes.Clone(b))
	if len(b) < 11 && e1 == nil {
		t.Failf("%x is read as %+v", b, f)
	}
	if len(b) < 7 && e2 == nil {
		t.Failf("%x is read as %+v", b, x)
	}
	// what was read can be written and read again
	if e1 == nil {
		c, err := f.MarshalBinary()
		t.NoErr(err, "MarshalBinary")
		var g appendable.FileMeta
		t.NoErr(g.UnmarshalBinary(c), "UnmarshalBinary")
		if g != f {
			t.Failf("%x is read as %+v and then as %+v", b, f, g)
		}
	}
	if e2 == nil {
		c, err := x.MarshalBinary()
		t.NoErr(err, "MarshalBinary")
		var g appendable.IndexMeta
		t.NoErr(g.UnmarshalBinary(c), "UnmarshalBinary")
		if g != x {
			t.Failf("%x is read as %+v and then as %+v", b, x, g)
		}
	}
	t.Count("damaged", 1)
	// a number of more than 64 bits, or one that does not end, is no number
	tail := bytes.Repeat([]byte{0x80 | byte(t.R.Intn(128))}, 9+t.R.Intn(4))
	if t.R.Intn(3) > 0 {
		tail = append(tail, byte(2+t.R.Intn(126)))
	}
	if err := new(appendable.FileMeta).UnmarshalBinary(append(append(make([]byte, 1), byte(t.R.Intn(2)), 1, 2, 3, 4, 5, 6, 7, 8), tail...)); err == nil {
		t.Failf("entries of %x are read", tail)
	}
	if err := new(appendable.IndexMeta).UnmarshalBinary(append([]byte{0, 0, 0, 0, 1, 0, 'a'}, tail...)); err == nil {
		t.Failf("a total length of %x is read", tail)
	}
	t.Count("overflowing_numbers", 1)
}

func size(t *h.T, v uint64) {
	if got, want := encoding.SizeVarint(v), len(uvarint(v)); got != want {
		t.Failf("SizeVarint(%d) is %d, not %d", v, got, want)
	}
	t.Count("numbers", 1)
}

func main() {
	h.Main("C07", func(c *h.C) {
		c.Rule("descriptions with boundary and random values of every part, compared with an independent encoding, read back, cut at every byte; damaged bytes; sizes of all boundary and many random numbers")
		c.Each(c.N(6000, 300000), "file", fileMeta)
		c.Each(c.N(4000, 100000), "index", indexMeta)
		c.Each(c.N(20000, 1000000), "damaged", damaged)
		c.Case("sizes", func(t *h.T) {
			for s := 0; s < 64; s++ {
				for d := uint64(0); d < 5; d++ {
					size(t, uint64(1)<<s+d-2)
				}
			}
			for i := 0; i < c.N(300000, 5000000); i++ {
				size(t, edge(t))
			}
			size(t, math.MaxUint64)
		})
		c.Case("widths", func(t *h.T) {
			want := map[appendable.FieldType]uint16{0: 0, 1: 9, 2: 9, 3: 9, 4: 0, 5: 0, 6: 2, 7: 1, 8: 4, 9: 3, 10: 2}
			for ft, w := range want {
				if g := appendable.DetermineType(ft); g != w {
					t.Failf("type %d has width %d, not %d", ft, g, w)
				}
			}
			t.Distinct(fmt.Sprint(want), strings.Repeat("w", len(want)))
		})
	})
}
