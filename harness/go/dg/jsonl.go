// Package dg makes data files together with what an index of them should hold.
package dg

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"
)

const (
	String  = 0
	Number  = 3
	Object  = 4
	Array   = 5
	Boolean = 6
	Null    = 7
	Trigram = 8
	Bigram  = 9
	Unigram = 10
)

// Val is one value in a data file.
type Val struct {
	Path       string
	Type       uint16
	Start, End int // the key range: what follows the colon up to the end of the value
	Str        string
	Num        float64
	Bool       bool
}

// Key is what the value is indexed by.
func (v Val) Key() string {
	switch v.Type {
	case String:
		return v.Str
	case Number:
		return NumKey(v.Num)
	case Boolean:
		if v.Bool {
			return "\x01"
		}
		return "\x00"
	}
	return ""
}

func NumKey(f float64) string {
	return string(binary.BigEndian.AppendUint64(nil, math.Float64bits(f)))
}

// Line is one complete line.
type Line struct {
	Start, End int // without the newline
	Vals       []Val
}

// Doc is a data file. Rest is an incomplete line at its end.
type Doc struct {
	Format byte
	Header []string
	Bytes  []byte
	Lines  []Line
	Body   int // where the first record starts
	Before int // how many records there are before the first of Lines
}

// Conf says what JSON lines look like.
type Conf struct {
	Names      []string
	MaxFields  int
	MaxPath    int // the longest name of a field, at least 200
	MaxDepth   int
	Spaces     int // 0 none, 1 like a printer, 2 anything
	Escapes    int // 0 only where needed, 1 some, 2 many
	Unicode    int // 0 ASCII, 1 some, 2 anything
	Pool       []string
	Types      []uint16
	Long       bool
	CRLF       bool
	Lone       bool // lone surrogates and invalid UTF-8
	NoArrays   bool
	PlainText  bool
	RandNumber bool
}

var nameBits = []string{"a", "b", "id", "name", "x y", "ключ", "a.b", "", "é", "名", "tags", "A", "0", "a\"b", "a\\b", "\t", ":", "a:b", "{", "length", "b.c", "\u0000", "😀", "Type_1", "last, first", "k=v", "-i", "%s", "[0]", "a/b"}

// RandConf draws a style.
func RandConf(r *rand.Rand) Conf {
	c := Conf{MaxFields: 1 + r.Intn(8), MaxDepth: r.Intn(4), Spaces: r.Intn(3), Escapes: r.Intn(3), Unicode: r.Intn(3), CRLF: r.Intn(4) == 0, Long: r.Intn(6) == 0, Lone: r.Intn(5) == 0}
	n := 1 + r.Intn(9)
	for i := 0; i < n; i++ {
		s := nameBits[r.Intn(len(nameBits))]
		if r.Intn(3) == 0 {
			s = Text(r, 1+r.Intn(6), 1, false)
		}
		if r.Intn(25) == 0 {
			s = strings.Repeat("n", 50+r.Intn(20))
		}
		if i > 0 && r.Intn(3) == 0 {
			s = akin(r, c.Names[r.Intn(i)])
		}
		c.Names = append(c.Names, s)
	}
	for i := 0; i < 1+r.Intn(6); i++ {
		c.Pool = append(c.Pool, Text(r, r.Intn(12), c.Unicode, false))
	}
	all := []uint16{String, Number, Boolean, Null, Object, Array}
	if r.Intn(3) == 0 {
		c.Types = []uint16{all[r.Intn(4)], all[r.Intn(6)]}
	} else {
		c.Types = all
	}
	return c
}

// akin is a name that something careless takes for s.
func akin(r *rand.Rand, s string) string {
	switch r.Intn(9) {
	case 0, 1, 2:
		return s + []string{"0", "1", "10", "3", "8", "9"}[r.Intn(6)]
	case 3:
		return s + " "
	case 4:
		return " " + s
	case 5:
		return strings.ToUpper(s)
	case 6:
		return strings.ToLower(s)
	case 7:
		return s + s
	}
	if len(s) > 1 && s[len(s)-1] < 128 {
		return s[:len(s)-1]
	}
	return s + "."
}

var words = strings.Fields("the quick brown fox jumps over a lazy dog 42 data Index B2B x-ray o'clock e-mail 3.14 café naïve Ünder ABC zzz aa aaa")

var odd = []string{"\u00a0", "\u2003", "é", "e\u0301", "ﬁ", "Ⅷ", "²", "ß", "İ", "ı", "K", "Å", "한", "か\u3099", "😀", "𝒳", "\u0000", "\u001f", "\u007f", "\u2028", "\u200b", "½", "ǆ", "中", "Ω", "\ufeff", "\ufffd", "Ａ", "\u0345", "ſt", "¨", "½x"}

// Text makes up to n words or characters.
func Text(r *rand.Rand, n, uni int, lone bool) string {
	var sb strings.Builder
	switch r.Intn(4) {
	case 0: // words
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteString([]string{" ", "  ", "-", "\t", "\n", ". "}[r.Intn(6)])
			}
			w := words[r.Intn(len(words))]
			if uni == 0 {
				w = ascii(w)
			}
			sb.WriteString(w)
		}
	case 1: // few letters, so that they repeat
		for i := 0; i < n; i++ {
			sb.WriteByte("aAb1 "[r.Intn(5)])
		}
	default:
		for i := 0; i < n; i++ {
			switch k := r.Intn(10); {
			case uni > 0 && k == 0:
				sb.WriteString(odd[r.Intn(len(odd))])
			case uni > 1 && k < 4:
				c := rune(r.Intn(0x3000))
				if r.Intn(4) == 0 {
					c = rune(r.Intn(0x1ffff))
				}
				if c >= 0xd800 && c < 0xe000 {
					c = 'x'
				}
				sb.WriteRune(c)
			case k == 5:
				sb.WriteByte(" \t\n\"\\/:,{}[]"[r.Intn(12)])
			default:
				sb.WriteByte(byte(32 + r.Intn(95)))
			}
		}
	}
	return sb.String()
}

func ascii(s string) string {
	return strings.Map(func(c rune) rune {
		if c > 126 {
			return 'e'
		}
		return c
	}, s)
}

type writer struct {
	r    *rand.Rand
	c    Conf
	buf  []byte
	line *Line
}

func (w *writer) space() {
	switch w.c.Spaces {
	case 1:
		w.buf = append(w.buf, ' ')
	case 2:
		for w.r.Intn(3) == 0 {
			w.buf = append(w.buf, " \t\r"[w.r.Intn(3)])
		}
	case 3: // far more than anyone would
		if w.r.Intn(3) == 0 {
			n := []int{1, 130, 300, 600, 5000, 70000}[w.r.Intn(6)]
			w.buf = append(w.buf, strings.Repeat([]string{" ", "\t", " \r"}[w.r.Intn(3)], n)...)
		}
	}
}

// Quote writes s as a JSON string, escaping more than is needed if asked.
func Quote(r *rand.Rand, buf []byte, s string, escapes int) []byte {
	buf = append(buf, '"')
	for _, c := range s {
		must := c < 32 || c == '"' || c == '\\'
		want := must || escapes == 1 && r.Intn(12) == 0 || escapes == 2 && r.Intn(2) == 0
		if !want {
			buf = utf8.AppendRune(buf, c)
			continue
		}
		if i := strings.IndexRune("\"\\/\b\f\n\r\t", c); i >= 0 && c < 128 && r.Intn(3) > 0 {
			buf = append(buf, '\\', "\"\\/bfnrt"[i])
			continue
		}
		f := "\\u%04x"
		if r.Intn(2) == 0 {
			f = "\\u%04X"
		}
		if c >= 0x10000 {
			c -= 0x10000
			buf = fmt.Appendf(buf, f, 0xd800+(c>>10))
			buf = fmt.Appendf(buf, f, 0xdc00+(c&0x3ff))
			continue
		}
		buf = fmt.Appendf(buf, f, c)
	}
	return append(buf, '"')
}

// Num makes the text of a number and its value.
func Num(r *rand.Rand) (string, float64) {
	var s string
	switch r.Intn(12) {
	case 0:
		s = []string{"0", "-0", "0.0", "-0.0", "0e0", "1e-400", "-1E-400", "5e-324", "1.7976931348623157e308", "-1.7976931348623157E+308", "9007199254740993", "18446744073709551616", "0.1", "1e23", "2.2250738585072014E-308"}[r.Intn(15)]
	case 1:
		s = strconv.Itoa(r.Intn(10))
	case 2, 3:
		s = strconv.Itoa(r.Intn(2000) - 1000)
	case 4:
		s = strconv.FormatInt(int64(r.Uint64()), 10)
	case 5:
		s = strconv.FormatFloat(r.NormFloat64(), 'f', r.Intn(20), 64)
	case 6:
		s = strconv.FormatFloat(r.ExpFloat64()*math.Pow(10, float64(r.Intn(600)-300)), "eE"[r.Intn(2)], -1, 64)
	case 7:
		s = strconv.Itoa(r.Intn(100)) + "." + strings.Repeat("0", r.Intn(30)) + strconv.Itoa(r.Intn(100))
	case 8:
		s = strconv.Itoa(r.Intn(100)) + []string{"e", "E", "e+", "E-", "e-"}[r.Intn(5)] + strconv.Itoa(r.Intn(20))
	case 9:
		s = "1" + strings.Repeat("0", r.Intn(60))
	default:
		s = strconv.Itoa(r.Intn(20)) + []string{"", ".5", ".25", "e1"}[r.Intn(4)]
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return "1", 1
	}
	return s, f
}

func (w *writer) str() string {
	r := w.r
	if len(w.c.Pool) > 0 && r.Intn(3) == 0 {
		return w.c.Pool[r.Intn(len(w.c.Pool))]
	}
	n := r.Intn(10)
	if w.c.Long && r.Intn(5) == 0 {
		n = r.Intn(300)
		if r.Intn(10) == 0 {
			n = 5000
		}
	}
	return Text(r, n, w.c.Unicode, false)
}

// value writes a value of type typ and records it under path. start is the
// offset of what follows the colon.
func (w *writer) value(path string, typ uint16, depth int, record bool) {
	r := w.r
	start := len(w.buf)
	w.space()
	v := Val{Path: path, Type: typ, Start: start}
	at := -1
	if record {
		at = len(w.line.Vals)
		w.line.Vals = append(w.line.Vals, v)
	}
	switch typ {
	case String:
		v.Str = w.str()
		if w.c.Lone && r.Intn(4) == 0 {
			// what is not Unicode is read as the replacement character
			pre := w.str()
			w.buf = Quote(r, w.buf, pre, w.c.Escapes)
			w.buf = w.buf[:len(w.buf)-1]
			k := r.Intn(5)
			w.buf = append(w.buf, []string{"\\ud800", "\\uDFFF", "\\udc00\\ud800", "\xff", "\xc0\x80"}[k]...)
			n := []int{1, 1, 2, 1, 2}[k]
			v.Str = pre + strings.Repeat("\ufffd", n)
			w.buf = append(w.buf, '"')
		} else {
			w.buf = Quote(r, w.buf, v.Str, w.c.Escapes)
		}
	case Number:
		s, f := Num(r)
		v.Num = f
		w.buf = append(w.buf, s...)
	case Boolean:
		v.Bool = r.Intn(2) == 0
		w.buf = strconv.AppendBool(w.buf, v.Bool)
	case Null:
		w.buf = append(w.buf, "null"...)
	case Array:
		w.buf = append(w.buf, '[')
		w.space()
		for i, n := 0, r.Intn(4); i < n; i++ {
			if i > 0 {
				w.buf = append(w.buf, ',')
				w.space()
			}
			w.value("", w.typ(depth+1), depth+1, false)
			w.space()
		}
		w.buf = append(w.buf, ']')
	case Object:
		prefix := path + "."
		w.object(&prefix, depth+1, record)
	}
	v.End = len(w.buf)
	if record {
		w.line.Vals[at] = v
	}
}

func (w *writer) typ(depth int) uint16 {
	t := w.c.Types[w.r.Intn(len(w.c.Types))]
	if (t == Object || t == Array) && depth > w.c.MaxDepth || t == Array && w.c.NoArrays {
		return Null
	}
	return t
}

func (w *writer) object(prefix *string, depth int, record bool) {
	r := w.r
	w.buf = append(w.buf, '{')
	w.space()
	used := map[string]bool{}
	for n := r.Intn(w.c.MaxFields + 1); n > 0; n-- {
		name := w.c.Names[r.Intn(len(w.c.Names))]
		path := name
		if prefix != nil {
			path = *prefix + name
		}
		if used[name] || len(path) > 200 && len(path) > w.c.MaxPath {
			continue
		}
		if len(used) > 0 {
			w.buf = append(w.buf, ',')
			w.space()
		}
		used[name] = true
		w.buf = Quote(r, w.buf, name, w.c.Escapes)
		w.space()
		w.buf = append(w.buf, ':')
		w.value(path, w.typ(depth), depth, record)
		w.space()
	}
	w.buf = append(w.buf, '}')
}

// JSONL makes a file of n lines.
func JSONL(r *rand.Rand, c Conf, n int) *Doc {
	d := &Doc{}
	for i := 0; i < n; i++ {
		d.AddJSON(r, c)
	}
	return d
}

// AddJSON adds one line.
func (d *Doc) AddJSON(r *rand.Rand, c Conf) {
	w := &writer{r: r, c: c, buf: d.Bytes, line: &Line{Start: len(d.Bytes)}}
	w.space()
	w.object(nil, 0, true)
	w.space()
	if c.CRLF {
		w.buf = append(w.buf, '\r')
	}
	w.line.End = len(w.buf)
	d.Bytes = append(w.buf, '\n')
	d.Lines = append(d.Lines, *w.line)
}

// Prefix is the file as it was when it had n lines, plus whatever more.
func (d *Doc) Prefix(n int) *Doc {
	p := *d
	p.Lines = d.Lines[:n]
	if n < len(d.Lines) {
		p.Bytes = d.Bytes[:d.Lines[n].Start]
	}
	return &p
}

// Complete is how many lines of the file end within its first n bytes.
func (d *Doc) Complete(n int) int {
	k := 0
	for k < len(d.Lines) && d.Lines[k].End < n {
		k++
	}
	return k
}
