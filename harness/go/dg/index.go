package dg

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"

	"verif/mem"
	"verif/raw"
)

// Gram is an n-gram of a text: where it starts and how far it reaches in the
// characters of the decomposed text.
type Gram struct {
	Word string
	At   int
	Len  int
}

// Grams are the n-grams of a text. After compatibility decomposition only
// ASCII counts; words are separated by white space, and within a word only its
// letters and digits count.
func Grams(text string, n int) []Gram {
	type ch struct {
		c  byte
		at int
	}
	var out []Gram
	var word []ch
	flush := func() {
		for i := 0; i+n <= len(word); i++ {
			g := Gram{At: word[i].at, Len: word[i+n-1].at - word[i].at + 1}
			for _, c := range word[i : i+n] {
				g.Word += string(c.c)
			}
			out = append(out, g)
		}
		word = nil
	}
	for at, c := range []rune(norm.NFKD.String(text)) {
		switch {
		case c >= '0' && c <= '9', c >= 'a' && c <= 'z':
			word = append(word, ch{byte(c), at})
		case c >= 'A' && c <= 'Z':
			word = append(word, ch{byte(c) + 'a' - 'A', at})
		case c == ' ', c >= '\t' && c <= '\r':
			flush()
		}
	}
	flush()
	return out
}

// Expands tells if decomposing the text of v may make it longer than it is
// written, so that positions of its n-grams run into what follows.
func (d *Doc) Expands(v Val) bool {
	return utf8.RuneCountInString(norm.NFKD.String(v.Str)) > v.End-v.Start
}

// AnyExpands is whether a text of one of the fields does.
func (d *Doc) AnyExpands(fields []string) bool {
	for _, l := range d.Lines {
		for _, v := range l.Vals {
			for _, f := range fields {
				if v.Path == f && v.Type == String && d.Expands(v) {
					return true
				}
			}
		}
	}
	return false
}

// Search picks one to three fields to search, most of them with texts.
func Search(r *rand.Rand, d *Doc) []string {
	paths := map[string]bool{}
	var names []string
	for _, l := range d.Lines {
		for _, v := range l.Vals {
			if !paths[v.Path] {
				paths[v.Path] = true
				names = append(names, v.Path)
			}
		}
	}
	for _, l := range d.Lines {
		for _, v := range l.Vals {
			if v.Type == String && paths[v.Path] {
				paths[v.Path] = false
				for k := 0; k < 6; k++ {
					names = append(names, v.Path)
				}
			}
		}
	}
	names = append(names, "absent", "")
	var s []string
	for k := 1 + r.Intn(3); k > 0; k-- {
		s = append(s, names[r.Intn(len(names))])
	}
	return s
}

func Width(typ uint16) uint16 {
	switch typ {
	case Number:
		return 9
	case Boolean, Unigram:
		return 2
	case Null:
		return 1
	case Bigram:
		return 3
	case Trigram:
		return 4
	}
	return 0
}

// Expect is the index that the lines of the document should have.
func (d *Doc) Expect(search []string) *raw.Index {
	x := &raw.Index{Meta: raw.FileMeta{Version: 1, Format: d.Format, Entries: uint64(d.Before + len(d.Lines)), ReadOffset: uint64(d.Body)}}
	if n := len(d.Lines); n > 0 {
		x.Meta.ReadOffset = uint64(d.Lines[n-1].End + 1)
	}
	at := map[string]int{}
	field := func(path string, typ uint16) *raw.Field {
		id := fmt.Sprintf("%d %s", typ, path)
		i, ok := at[id]
		if !ok {
			i = len(x.Fields)
			at[id] = i
			x.Fields = append(x.Fields, raw.Field{Meta: raw.IndexMeta{Type: typ, Width: Width(typ), Name: path}})
		}
		return &x.Fields[i]
	}
	add := func(f *raw.Field, e raw.Entry) {
		if f.Tree == nil {
			f.Tree = &raw.Tree{}
		}
		f.Tree.Entries = append(f.Tree.Entries, e)
	}
	searched := map[string]bool{}
	for _, s := range search {
		searched[s] = true
	}
	for _, l := range d.Lines {
		for _, v := range l.Vals {
			f := field(v.Path, v.Type)
			e := raw.Entry{KeyOff: uint64(v.Start), KeyLen: uint32(v.End - v.Start), RecOff: uint64(l.Start), RecLen: uint32(l.End - l.Start)}
			if d.Format == 1 {
				e.Value = v.Str
				add(f, e)
				continue
			}
			e.Value = v.Key()
			switch v.Type {
			case Object, Array:
				continue
			case String, Number:
				f.Meta.Total += uint64(e.KeyLen)
			case Boolean:
				f.Meta.Total++
			}
			add(f, e)
			if v.Type == String && d.Format == 0 && searched[v.Path] {
				for n, typ := range []uint16{Unigram, Bigram, Trigram} {
					f := field(v.Path, typ)
					for _, g := range Grams(v.Str, n+1) {
						f.Meta.Total += uint64(g.Len)
						add(f, raw.Entry{Value: g.Word, KeyOff: uint64(v.Start + g.At), KeyLen: uint32(len(v.Str)), RecOff: e.RecOff, RecLen: e.RecLen})
					}
				}
			}
		}
	}
	for _, f := range x.Fields {
		if f.Tree != nil {
			es := f.Tree.Entries
			sort.SliceStable(es, func(i, j int) bool { return raw.CompareKeys(es[i], es[j]) < 0 })
		}
	}
	return x
}

// JSONKey decodes the text of a JSON value, with whatever is around it.
func JSONKey(s string) (string, error) {
	s = strings.Trim(s, " \t\r\n")
	switch {
	case s == "":
		return "", fmt.Errorf("nothing there")
	case s == "null":
		return "", nil
	case s == "true":
		return "\x01", nil
	case s == "false":
		return "\x00", nil
	case s[0] == '"':
		if len(s) < 2 || s[len(s)-1] != '"' {
			return "", fmt.Errorf("%q is not a whole string", s)
		}
		return unquote(s[1 : len(s)-1])
	}
	f, err := strconv.ParseFloat(s, 64)
	return NumKey(f), err
}

func unquote(s string) (string, error) {
	var b []byte
	hex := func(i int) (rune, bool) {
		if i+6 > len(s) || s[i] != '\\' || s[i+1] != 'u' {
			return 0, false
		}
		u, err := strconv.ParseUint(s[i+2:i+6], 16, 16)
		return rune(u), err == nil
	}
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '"' || c < 32:
			return "", fmt.Errorf("%q has a bare %q", s, c)
		case c != '\\':
			r, n := utf8.DecodeRuneInString(s[i:])
			b = utf8.AppendRune(b, r)
			i += n
		case i+1 < len(s) && s[i+1] != 'u':
			k := strings.IndexByte(`"\/bfnrt`, s[i+1])
			if k < 0 {
				return "", fmt.Errorf("%q has a bad escape", s)
			}
			b = append(b, "\"\\/\b\f\n\r\t"[k])
			i += 2
		default:
			r, ok := hex(i)
			if !ok {
				return "", fmt.Errorf("%q has a bad escape", s)
			}
			i += 6
			if r >= 0xd800 && r < 0xdc00 {
				if lo, ok := hex(i); ok && lo >= 0xdc00 && lo < 0xe000 {
					r = (r-0xd800)<<10 + (lo - 0xdc00) + 0x10000
					i += 6
				}
			}
			b = utf8.AppendRune(b, r) // lone surrogates become U+FFFD
		}
	}
	return string(b), nil
}

// Read decodes an index file of data.
func Read(buf, data []byte, format byte) (*raw.Index, error) {
	return ReadFile(raw.File{Buf: buf}, data, format)
}

// Far moves the lines of the document to base, the header of CSV aside, and
// fills with zeros what is between. close gives the memory back.
func (d *Doc) Far(base int) (far *Doc, close func(), err error) {
	head := 0
	if d.Format == 1 {
		head = d.Body
	}
	b, close, err := mem.Region(base + len(d.Bytes) - head)
	if err != nil {
		return nil, nil, err
	}
	copy(b, d.Bytes[:head])
	copy(b[base:], d.Bytes[head:])
	far = &Doc{Format: d.Format, Header: d.Header, Bytes: b[:len(b):len(b)], Body: base}
	for _, l := range d.Lines {
		n := Line{Start: l.Start - head + base, End: l.End - head + base}
		for _, v := range l.Vals {
			v.Start += base - head
			v.End += base - head
			n.Vals = append(n.Vals, v)
		}
		far.Lines = append(far.Lines, n)
	}
	return far, close, nil
}

// Bases are where data is moved to: around where 31 and 32 bits end, and past.
var Bases = []int{1<<31 - 400, 1 << 31, 1<<32 - 4096, 1<<32 - 300, 1<<32 - 1, 1 << 32, 1<<32 + 7, 5<<30 + 12345}

// ReadFile is Read for a file with a gap.
func ReadFile(f raw.File, data []byte, format byte) (*raw.Index, error) {
	resolve := func(m raw.IndexMeta) raw.Resolve {
		return func(off uint64, n uint32) (string, error) {
			if off > uint64(len(data)) || uint64(n) > uint64(len(data))-off {
				return "", fmt.Errorf("key at %d+%d is outside the data file", off, n)
			}
			s := string(data[off : off+uint64(n)])
			if format == 1 {
				return CSVKey(s), nil
			}
			return JSONKey(s)
		}
	}
	width := func(m raw.IndexMeta) int { return int(m.Width) }
	if format == 1 {
		width = func(raw.IndexMeta) int { return 0 }
	}
	return f.ReadIndex(resolve, width)
}

// Diff says how an index differs from what it should be, or "".
func Diff(got, want *raw.Index) string {
	if got.Meta != want.Meta {
		return fmt.Sprintf("the file metadata is %+v, not %+v", got.Meta, want.Meta)
	}
	for i, w := range want.Fields {
		if i >= len(got.Fields) {
			return fmt.Sprintf("there is no index for %q type %d", w.Meta.Name, w.Meta.Type)
		}
		g := got.Fields[i]
		if g.Meta != w.Meta {
			return fmt.Sprintf("index %d is %+v, not %+v", i, g.Meta, w.Meta)
		}
		var ge, we []raw.Entry
		if g.Tree != nil {
			ge = g.Tree.Entries
		}
		if w.Tree != nil {
			we = w.Tree.Entries
		}
		for k := 0; k < len(ge) || k < len(we); k++ {
			switch {
			case k >= len(ge):
				return fmt.Sprintf("index of %q type %d lacks %v (%d entries, not %d)", w.Meta.Name, w.Meta.Type, we[k], len(ge), len(we))
			case k >= len(we):
				return fmt.Sprintf("index of %q type %d has %v (%d entries, not %d)", w.Meta.Name, w.Meta.Type, ge[k], len(ge), len(we))
			case ge[k] != we[k]:
				return fmt.Sprintf("index of %q type %d: entry %d of %d is %v, not %v", w.Meta.Name, w.Meta.Type, k, len(we), ge[k], we[k])
			}
		}
	}
	if len(got.Fields) > len(want.Fields) {
		m := got.Fields[len(want.Fields)].Meta
		return fmt.Sprintf("there is an index for %q type %d", m.Name, m.Type)
	}
	return ""
}
