// Package raw reads an index file from its bytes alone. It shares no code with
// the repository, so that what a monitor sees is what is stored.
package raw

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
)

const PageSize = 4096
const slotStride = 265

type Slot struct {
	Page    uint64
	Index   int
	RootOff uint64
	RootLen uint32
	Meta    []byte
}

type FileMeta struct {
	Version, Format byte
	ReadOffset      uint64
	Entries         uint64
}

type IndexMeta struct {
	Type  uint16
	Width uint16
	Name  string
	Total uint64
}

// File is the bytes of an index file, less a gap of zeros.
type File struct {
	Buf        []byte
	GapAt, Gap uint64
}

func (f File) size() uint64 { return uint64(len(f.Buf)) + f.Gap }

// Page is the page at off, nil if it is not one of the file's.
func (f File) Page(off uint64) []byte {
	if off%PageSize != 0 || off == 0 || off > f.size() || f.size()-off < PageSize {
		return nil
	}
	if f.Gap > 0 && off >= f.GapAt {
		if off < f.GapAt+f.Gap {
			return nil
		}
		off -= f.Gap
	}
	return f.Buf[off : off+PageSize]
}

// Directory lists the slots in order, and the pages they are on.
func Directory(buf []byte) ([]Slot, []uint64, error) { return File{Buf: buf}.Directory() }

func (f File) Directory() ([]Slot, []uint64, error) {
	var slots []Slot
	var pages []uint64
	seen := map[uint64]bool{}
	off := uint64(PageSize)
	for {
		pg := f.Page(off)
		if pg == nil {
			return nil, nil, fmt.Errorf("directory page at %d is outside the file (%d bytes)", off, f.size())
		}
		if seen[off] {
			return nil, nil, fmt.Errorf("directory page at %d is linked twice", off)
		}
		seen[off] = true
		pages = append(pages, off)
		count := int(pg[8])
		if count > 15 {
			return nil, nil, fmt.Errorf("directory page at %d has %d slots", off, count)
		}
		for i := 0; i < count; i++ {
			s := pg[9+i*slotStride:]
			n := int(s[12])
			if 13+n > len(s) {
				return nil, nil, fmt.Errorf("slot %d of page %d overruns it", i, off)
			}
			slots = append(slots, Slot{
				Page: off, Index: i,
				RootOff: binary.LittleEndian.Uint64(s), RootLen: binary.LittleEndian.Uint32(s[8:]),
				Meta: bytes.Clone(s[13 : 13+n]),
			})
		}
		next := binary.LittleEndian.Uint64(pg)
		if next == ^uint64(0) {
			return slots, pages, nil
		}
		if count != 15 {
			return nil, nil, fmt.Errorf("directory page at %d links on with %d slots", off, count)
		}
		off = next
	}
}

// FreeList lists the pages recorded as free, oldest first.
func FreeList(buf []byte) []uint64 {
	var free []uint64
	for i := 0; i < 512; i++ {
		o := binary.LittleEndian.Uint64(buf[i*8:])
		if o == 0 {
			break
		}
		free = append(free, o)
	}
	return free
}

func ParseFileMeta(b []byte) (FileMeta, error) {
	if len(b) < 11 {
		return FileMeta{}, fmt.Errorf("file metadata is %d bytes", len(b))
	}
	e, n := binary.Uvarint(b[10:])
	if n <= 0 || 10+n != len(b) {
		return FileMeta{}, fmt.Errorf("file metadata is %d bytes with a %d byte entry count", len(b), n)
	}
	return FileMeta{b[0], b[1], binary.LittleEndian.Uint64(b[2:]), e}, nil
}

func ParseIndexMeta(b []byte) (IndexMeta, error) {
	if len(b) < 7 {
		return IndexMeta{}, fmt.Errorf("index metadata is %d bytes", len(b))
	}
	l := int(binary.LittleEndian.Uint16(b[4:]))
	if len(b) < 6+l+1 {
		return IndexMeta{}, fmt.Errorf("index metadata is %d bytes with a name of %d", len(b), l)
	}
	t, n := binary.Uvarint(b[6+l:])
	if n <= 0 || 6+l+n != len(b) {
		return IndexMeta{}, errors.New("index metadata does not end at its total length")
	}
	return IndexMeta{binary.LittleEndian.Uint16(b), binary.LittleEndian.Uint16(b[2:]), string(b[6 : 6+l]), t}, nil
}

type Entry struct {
	KeyOff uint64
	KeyLen uint32
	Value  string
	RecOff uint64
	RecLen uint32
}

func (e Entry) String() string {
	return fmt.Sprintf("{%q at %d+%d -> %d+%d}", e.Value, e.KeyOff, e.KeyLen, e.RecOff, e.RecLen)
}

func CompareKeys(a, b Entry) int {
	switch {
	case a.Value != b.Value:
		if a.Value < b.Value {
			return -1
		}
		return 1
	case a.KeyOff != b.KeyOff:
		if a.KeyOff < b.KeyOff {
			return -1
		}
		return 1
	case a.KeyLen != b.KeyLen:
		if a.KeyLen < b.KeyLen {
			return -1
		}
		return 1
	}
	return 0
}

type Tree struct {
	Entries []Entry
	Pages   []uint64
	Leaves  []int // the number of entries of each leaf, in order
	Most    int   // the most keys of any node
	Depth   int
}

type node struct {
	leaf  bool
	keys  []Entry
	child []uint64
}

// Resolve gives the value of a key that is stored by reference.
type Resolve func(off uint64, n uint32) (string, error)

func parseNode(pg []byte, width int, resolve Resolve) (*node, error) {
	size := int64(int32(binary.LittleEndian.Uint32(pg)))
	n := &node{leaf: size < 0}
	if size < 0 {
		size = -size
	}
	if size == 0 {
		return nil, errors.New("node has no keys")
	}
	if size > PageSize {
		return nil, fmt.Errorf("node has %d keys", size)
	}
	m := 4
	var bad error
	uv := func() uint64 {
		v, k := binary.Uvarint(pg[m:])
		if k <= 0 {
			bad = errors.New("node runs past its page")
			return 0
		}
		m += k
		return v
	}
	for i := int64(0); i < size && bad == nil; i++ {
		var e Entry
		e.KeyOff = uv()
		l := uv()
		if l > 1<<32-1 {
			return nil, fmt.Errorf("key %d has length %d", i, l)
		}
		e.KeyLen = uint32(l)
		if width == 0 {
			v, err := resolve(e.KeyOff, e.KeyLen)
			if err != nil {
				return nil, fmt.Errorf("key %d: %w", i, err)
			}
			e.Value = v
		} else {
			if m+width-1 > len(pg) {
				return nil, errors.New("node runs past its page")
			}
			e.Value = string(pg[m : m+width-1])
			m += width - 1
		}
		n.keys = append(n.keys, e)
	}
	if n.leaf {
		for i := range n.keys {
			n.keys[i].RecOff = uv()
			n.keys[i].RecLen = uint32(uv())
		}
	} else {
		for i := int64(0); i <= size && bad == nil; i++ {
			n.child = append(n.child, uv())
		}
	}
	return n, bad
}

// ReadTree reads and checks the tree whose root is at off. Every page must be
// in the file, used once, its keys in order and within the bounds its
// ancestors give it, and every leaf at the same depth.
func ReadTree(buf []byte, off uint64, width int, resolve Resolve) (*Tree, error) {
	return File{Buf: buf}.ReadTree(off, width, resolve)
}

func (f File) ReadTree(off uint64, width int, resolve Resolve) (*Tree, error) {
	t := &Tree{}
	seen := map[uint64]bool{}
	var walk func(off uint64, depth int, lo, hi *Entry) error
	walk = func(off uint64, depth int, lo, hi *Entry) error {
		pg := f.Page(off)
		if pg == nil {
			return fmt.Errorf("node at %d is outside the file (%d bytes)", off, f.size())
		}
		if seen[off] {
			return fmt.Errorf("node at %d is linked twice", off)
		}
		if depth > 64 {
			return errors.New("tree is deeper than 64")
		}
		seen[off] = true
		t.Pages = append(t.Pages, off)
		n, err := parseNode(pg, width, resolve)
		if err != nil {
			return fmt.Errorf("node at %d: %w", off, err)
		}
		t.Most = max(t.Most, len(n.keys))
		for i, k := range n.keys {
			if i > 0 && CompareKeys(n.keys[i-1], k) >= 0 {
				return fmt.Errorf("node at %d: key %d %v is not above %v", off, i, k, n.keys[i-1])
			}
			if lo != nil && CompareKeys(k, *lo) < 0 {
				return fmt.Errorf("node at %d: key %v is below its bound %v", off, k, *lo)
			}
			if hi != nil && CompareKeys(k, *hi) >= 0 {
				return fmt.Errorf("node at %d: key %v is not below its bound %v", off, k, *hi)
			}
		}
		if n.leaf {
			if t.Depth == 0 {
				t.Depth = depth
			} else if t.Depth != depth {
				return fmt.Errorf("leaf at %d has depth %d, others %d", off, depth, t.Depth)
			}
			t.Entries = append(t.Entries, n.keys...)
			t.Leaves = append(t.Leaves, len(n.keys))
			return nil
		}
		for i, c := range n.child {
			l, r := lo, hi
			if i > 0 {
				l = &n.keys[i-1]
			}
			if i < len(n.keys) {
				r = &n.keys[i]
			}
			if err := walk(c, depth+1, l, r); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(off, 1, nil, nil); err != nil {
		return nil, err
	}
	return t, nil
}

// Field is one (name, type) index with its contents.
type Field struct {
	Slot Slot
	Meta IndexMeta
	Tree *Tree // nil if nothing was inserted
}

type Index struct {
	Meta   FileMeta
	Fields []Field
	Pages  int
}

// ReadIndex reads a whole index file and checks that each of its pages belongs
// to one structure. resolve gives values stored by reference; width overrides
// the width recorded for a field if it is not nil.
func ReadIndex(buf []byte, resolve func(m IndexMeta) Resolve, width func(m IndexMeta) int) (*Index, error) {
	return File{Buf: buf}.ReadIndex(resolve, width)
}

func (f File) ReadIndex(resolve func(m IndexMeta) Resolve, width func(m IndexMeta) int) (*Index, error) {
	buf := f.Buf
	if len(buf)%PageSize != 0 || len(buf) < 2*PageSize {
		return nil, fmt.Errorf("index file is %d bytes", len(buf))
	}
	slots, pages, err := f.Directory()
	if err != nil {
		return nil, err
	}
	owner := map[uint64]string{0: "free list"}
	own := func(who string, pages []uint64) error {
		for _, p := range pages {
			if o, ok := owner[p]; ok {
				return fmt.Errorf("page at %d belongs to %s and to %s", p, o, who)
			}
			owner[p] = who
		}
		return nil
	}
	if err := own("the directory", pages); err != nil {
		return nil, err
	}
	for _, p := range FreeList(buf) {
		if err := own("the free pages", []uint64{p}); err != nil {
			return nil, err
		}
	}
	if len(slots) == 0 {
		return nil, errors.New("index file has no file metadata")
	}
	idx := &Index{Pages: len(buf) / PageSize}
	if idx.Meta, err = ParseFileMeta(slots[0].Meta); err != nil {
		return nil, err
	}
	if slots[0].RootOff != 0 || slots[0].RootLen != 0 {
		return nil, errors.New("the file metadata slot has a root")
	}
	for i, s := range slots[1:] {
		m, err := ParseIndexMeta(s.Meta)
		if err != nil {
			return nil, fmt.Errorf("slot %d: %w", i+1, err)
		}
		x := Field{Slot: s, Meta: m}
		if s.RootLen != 0 {
			w := int(m.Width)
			if width != nil {
				w = width(m)
			}
			if x.Tree, err = f.ReadTree(s.RootOff, w, resolve(m)); err != nil {
				return nil, fmt.Errorf("index of %q type %d: %w", m.Name, m.Type, err)
			}
			if err := own(fmt.Sprintf("the index of %q type %d", m.Name, m.Type), x.Tree.Pages); err != nil {
				return nil, err
			}
		} else if s.RootOff != 0 {
			return nil, fmt.Errorf("index of %q type %d: empty root at %d", m.Name, m.Type, s.RootOff)
		}
		idx.Fields = append(idx.Fields, x)
	}
	if len(owner) != idx.Pages {
		return nil, fmt.Errorf("%d of %d pages belong to nothing", idx.Pages-len(owner), idx.Pages)
	}
	return idx, nil
}

// Sparse gives every tree of an index anew, with nodes of so few keys that the
// trees are tall: fan says how many each may have. The pages of the old trees
// stay behind. The second result is the height of the tallest.
func Sparse(buf []byte, x *Index, fan func() int) ([]byte, int) {
	buf = bytes.Clone(buf)
	tallest := 0
	for _, f := range x.Fields {
		if f.Tree == nil {
			continue
		}
		page := func(leaf bool, keys []Entry, child []uint64) uint64 {
			n := int32(len(keys))
			if leaf {
				n = -n
			}
			pg := binary.LittleEndian.AppendUint32(nil, uint32(n))
			for _, k := range keys {
				pg = binary.AppendUvarint(pg, k.KeyOff)
				pg = binary.AppendUvarint(pg, uint64(k.KeyLen))
				if f.Meta.Width > 0 {
					pg = append(pg, k.Value...)
				}
			}
			if leaf {
				for _, k := range keys {
					pg = binary.AppendUvarint(pg, k.RecOff)
					pg = binary.AppendUvarint(pg, uint64(k.RecLen))
				}
			}
			for _, c := range child {
				pg = binary.AppendUvarint(pg, c)
			}
			off := uint64(len(buf))
			buf = append(append(buf, pg...), make([]byte, PageSize-len(pg))...)
			return off
		}
		// the nodes of a level, each with the least key below it
		type sub struct {
			off   uint64
			least Entry
		}
		var level []sub
		for at := f.Tree.Entries; len(at) > 0; {
			n := min(len(at), fan())
			level = append(level, sub{page(true, at[:n], nil), at[0]})
			at = at[n:]
		}
		depth := 1
		for ; len(level) > 1; depth++ {
			var up []sub
			for len(level) > 0 {
				n := min(len(level), 1+fan())
				if len(level)-n == 1 { // an inner node has two children at least
					n++
				}
				var keys []Entry
				var child []uint64
				for i, c := range level[:n] {
					if i > 0 {
						keys = append(keys, c.least)
					}
					child = append(child, c.off)
				}
				up = append(up, sub{page(false, keys, child), level[0].least})
				level = level[n:]
			}
			level = up
		}
		tallest = max(tallest, depth)
		slot := buf[f.Slot.Page+9+uint64(f.Slot.Index)*slotStride:]
		binary.LittleEndian.PutUint64(slot, level[0].off)
		binary.LittleEndian.PutUint32(slot[8:], PageSize)
	}
	return buf, tallest
}
