package dg

import (
	"math/rand"
	"strconv"
	"strings"
)

// CSVConf says what CSV lines look like.
type CSVConf struct {
	Header []string
	Quote  int // 0 where needed, 1 some, 2 most
	Short  bool
	CRLF   bool
	Kinds  []int
	Uni    int
	Pool   []string
}

func RandCSVConf(r *rand.Rand) CSVConf {
	c := CSVConf{Quote: r.Intn(3), Short: r.Intn(3) == 0, CRLF: r.Intn(3) == 0, Uni: r.Intn(3)}
	n := 1 + r.Intn(8)
	used := map[string]bool{}
	for len(c.Header) < n {
		s := nameBits[r.Intn(len(nameBits))]
		if r.Intn(2) == 0 {
			s = csvText(r, 1+r.Intn(5), 1)
		}
		if used[s] {
			continue
		}
		if s == "" && n == 1 {
			continue // a blank line is not a header
		}
		used[s] = true
		c.Header = append(c.Header, s)
	}
	for i := 0; i < 1+r.Intn(5); i++ {
		c.Pool = append(c.Pool, csvText(r, r.Intn(12), c.Uni))
	}
	if r.Intn(3) == 0 {
		c.Kinds = []int{r.Intn(5), r.Intn(5)}
	} else {
		c.Kinds = []int{0, 0, 1, 2, 3, 4}
	}
	return c
}

// csvText is text without line breaks.
func csvText(r *rand.Rand, n, uni int) string {
	s := Text(r, n, uni, false)
	return strings.Map(func(c rune) rune {
		if c == '\n' || c == '\r' {
			return '|'
		}
		return c
	}, s)
}

// Infer is the type of a field and its key.
func Infer(s string) (uint16, string) {
	if s == "" {
		return Null, ""
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		if s[0] == '-' && strings.Trim(s[1:], "0") == "" {
			f = 0 // an integer has no negative zero
		}
		return Number, NumKey(f)
	}
	switch s {
	case "1", "t", "T", "TRUE", "true", "True":
		return Boolean, "\x01"
	case "0", "f", "F", "FALSE", "false", "False":
		return Boolean, "\x00"
	}
	return String, s
}

func csvField(r *rand.Rand, c CSVConf) string {
	switch c.Kinds[r.Intn(len(c.Kinds))] {
	case 0:
		if len(c.Pool) > 0 && r.Intn(3) == 0 {
			return c.Pool[r.Intn(len(c.Pool))]
		}
		return csvText(r, r.Intn(8), c.Uni)
	case 1:
		s, _ := Num(r)
		return s
	case 2:
		return []string{"true", "false", "t", "F", "TRUE", "False", "1", "0", "tRue", "yes"}[r.Intn(10)]
	case 3:
		return ""
	}
	return []string{"+1", " 1", "1 ", "0x1p-2", "Inf", "-inf", "NaN", "nan", "1_000", ".5", "5.", "1e999", "-", "\"", "\"\"", "a\"b", "0x10", "007", "1e5", "null", " ", "''", "1,5", ",", "a\rb", "\rx", "y\r", "1\r"}[r.Intn(28)]
}

func writeCSV(r *rand.Rand, buf []byte, s string, quote int) []byte {
	must := strings.ContainsAny(s, "\",")
	want := must || quote == 1 && r.Intn(5) == 0 || quote == 2 && r.Intn(4) > 0
	if !want {
		return append(buf, s...)
	}
	buf = append(buf, '"')
	buf = append(buf, strings.ReplaceAll(s, `"`, `""`)...)
	return append(buf, '"')
}

// CSV makes a file with a header and n records.
func CSV(r *rand.Rand, c CSVConf, n int) *Doc {
	d := &Doc{Format: 1, Header: c.Header}
	for i, name := range c.Header {
		if i > 0 {
			d.Bytes = append(d.Bytes, ',')
		}
		d.Bytes = writeCSV(r, d.Bytes, name, c.Quote)
	}
	if c.CRLF {
		d.Bytes = append(d.Bytes, '\r')
	}
	d.Bytes = append(d.Bytes, '\n')
	d.Body = len(d.Bytes)
	for i := 0; i < n; i++ {
		d.AddCSV(r, c)
	}
	return d
}

func (d *Doc) AddCSV(r *rand.Rand, c CSVConf) {
	l := Line{Start: len(d.Bytes)}
	cols := len(c.Header)
	if c.Short && r.Intn(2) == 0 {
		cols = 1 + r.Intn(cols)
	}
	for i := 0; i < cols; i++ {
		if i > 0 {
			d.Bytes = append(d.Bytes, ',')
		}
		s := csvField(r, c)
		v := Val{Path: c.Header[i], Start: len(d.Bytes)}
		if cols == 1 && s == "" {
			s = "x" // a line with nothing on it is not a record
		}
		if i == cols-1 && !c.CRLF && strings.HasSuffix(s, "\r") {
			s += "z" // it would end the line
		}
		d.Bytes = writeCSV(r, d.Bytes, s, c.Quote)
		v.End = len(d.Bytes)
		var key string
		v.Type, key = Infer(s)
		v.Str = key
		l.Vals = append(l.Vals, v)
	}
	if c.CRLF {
		d.Bytes = append(d.Bytes, '\r')
	}
	l.End = len(d.Bytes)
	d.Bytes = append(d.Bytes, '\n')
	d.Lines = append(d.Lines, l)
}

// CSVKey is the key of a field as it is written.
func CSVKey(field string) string {
	if len(field) >= 2 && field[0] == '"' && field[len(field)-1] == '"' {
		field = strings.ReplaceAll(field[1:len(field)-1], `""`, `"`)
	}
	_, k := Infer(field)
	return k
}
