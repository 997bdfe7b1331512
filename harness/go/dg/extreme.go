package dg

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// Extreme makes a small number of lines of which something is far larger than
// is usual: nesting, width, values, the line itself or the number of lines.
// It returns what that is, different for successive n.
func Extreme(r *rand.Rand, n int) (*Doc, string) {
	kinds := []string{"objects", "arrays", "wide", "text", "number", "line", "lines", "sizes", "spaces"}
	kind := kinds[n%len(kinds)]
	c := Conf{Names: []string{"a", "b", "ö"}, MaxFields: 2, MaxDepth: 1, Spaces: r.Intn(3), Escapes: r.Intn(3), Types: []uint16{String, Number, Boolean, Null, Object, Array}}
	d := &Doc{}
	few := func() {
		for n := r.Intn(3); n > 0; n-- {
			d.AddJSON(r, c)
		}
	}
	// line writes one line by hand
	line := func(write func(w *writer)) {
		w := &writer{r: r, c: c, buf: d.Bytes, line: &Line{Start: len(d.Bytes)}}
		w.buf = append(w.buf, '{')
		write(w)
		w.buf = append(w.buf, '}')
		w.line.End = len(w.buf)
		d.Bytes = append(w.buf, '\n')
		d.Lines = append(d.Lines, *w.line)
	}
	scalar := func() uint16 { return []uint16{String, Number, Boolean, Null}[r.Intn(4)] }
	// field writes a member with a scalar value
	field := func(w *writer, name, path string, typ uint16) {
		w.buf = Quote(r, w.buf, name, c.Escapes)
		w.buf = append(w.buf, ':')
		w.value(path, typ, 9, true)
	}
	few()
	for n := 1 + r.Intn(2); n > 0; n-- {
		switch kind {
		case "objects":
			name := []string{"n", "", "ab"}[r.Intn(3)]
			depth := 10 + r.Intn(180/(len(name)+1))
			line(func(w *writer) {
				path := ""
				for i := 0; i < depth; i++ {
					if r.Intn(6) == 0 || i == depth-1 {
						field(w, "s", path+"s", scalar())
						w.buf = append(w.buf, ',')
					}
					w.buf = Quote(r, w.buf, name, c.Escapes)
					w.line.Vals = append(w.line.Vals, Val{Path: path + name, Type: Object})
					w.buf = append(w.buf, ": {"...)
					path += name + "."
				}
				field(w, "x", path+"x", scalar())
				for i := depth - 1; i >= 0; i-- {
					w.buf = append(w.buf, '}')
					path = path[:len(path)-len(name)-1]
					if r.Intn(6) == 0 {
						w.buf = append(w.buf, ',')
						field(w, "e", path+"e", scalar())
					}
				}
			})
		case "arrays":
			depth := []int{100, 127, 128, 129, 255, 256, 257, 1000, 5000}[r.Intn(9)]
			line(func(w *writer) {
				field(w, "a", "a", scalar())
				w.line.Vals = append(w.line.Vals, Val{Path: "v", Type: Array})
				w.buf = append(w.buf, `,"v":`...)
				w.buf = append(w.buf, strings.Repeat("[", depth)...)
				w.buf = append(w.buf, []string{"", "1", `"]"`, `{"a":[]}`}[r.Intn(4)]...)
				w.buf = append(w.buf, strings.Repeat("]", depth)...)
				w.buf = append(w.buf, `,`...)
				field(w, "b", "b", scalar())
				w.line.Vals = append(w.line.Vals, Val{Path: "w", Type: Array})
				w.buf = append(w.buf, `,"w":[`...)
				w.buf = append(w.buf, strings.Repeat(`{"a":[0]},[],`, depth)...)
				w.buf = append(w.buf, `1],`...)
				field(w, "c", "c", scalar())
			})
		case "wide":
			m := []int{127, 128, 255, 256, 257, 300, 600}[r.Intn(7)]
			line(func(w *writer) {
				for i := 0; i < m; i++ {
					if i > 0 {
						w.buf = append(w.buf, ',')
					}
					name := "f" + strconv.Itoa(i)
					field(w, name, name, scalar())
				}
			})
		case "text":
			m := []int{4095, 4096, 32768, 65535, 65536, 70000, 140000, 1 << 20}[r.Intn(8)] + r.Intn(3)
			c.Pool = []string{strings.Repeat(Text(r, 5, 1, false)+"x", m)[:m-4] + "good"}
			c.Pool[0] = strings.ToValidUTF8(c.Pool[0], "?")
			line(func(w *writer) {
				field(w, "a", "a", scalar())
				for i := 0; i < 6; i++ {
					w.buf = append(w.buf, ',')
					field(w, "t"+strconv.Itoa(i), "t"+strconv.Itoa(i), String)
				}
				w.buf = append(w.buf, ',')
				field(w, "b", "b", scalar())
			})
			c.Pool = nil
		case "number":
			m := []int{250, 4096, 65530, 70000, 200000}[r.Intn(5)]
			line(func(w *writer) {
				field(w, "a", "a", Number)
				for i := 0; i < 3; i++ {
					name := "n" + strconv.Itoa(i)
					text, f := "0."+strings.Repeat("0", m), 0.0
					switch r.Intn(3) {
					case 0:
						text, f = "3."+strings.Repeat("0", m), 3
					case 1:
						text, f = "-12.5"+strings.Repeat("0", m)+"e1", -125
					}
					w.buf = append(w.buf, `,"`+name+`":`...)
					w.line.Vals = append(w.line.Vals, Val{Path: name, Type: Number, Num: f, Start: len(w.buf), End: len(w.buf) + len(text)})
					w.buf = append(w.buf, text...)
				}
				w.buf = append(w.buf, ',')
				field(w, "b", "b", scalar())
			})
		case "line":
			m := []int{65500, 1 << 17, 1 << 20, 1<<24 + 5}[r.Intn(4)]
			line(func(w *writer) {
				field(w, "a", "a", scalar())
				w.buf = append(w.buf, strings.Repeat(" ", m)...)
				w.buf = append(w.buf, ',')
				field(w, "b", "b", scalar())
				w.buf = append(w.buf, strings.Repeat("\t", r.Intn(m))...)
			})
		case "lines":
			m := 65530 + r.Intn(20)
			for i := 0; i < m; i++ {
				if i%4000 == 0 {
					line(func(w *writer) { field(w, "a", "a", scalar()) })
					continue
				}
				d.Lines = append(d.Lines, Line{Start: len(d.Bytes), End: len(d.Bytes) + 2})
				d.Bytes = append(d.Bytes, "{}\n"...)
			}
			few()
			return d, kind
		case "spaces":
			// much of it, wherever it may be
			k := c
			k.Spaces, k.MaxFields, k.MaxDepth = 3, 4, 2
			d.AddJSON(r, k)
			d.AddJSON(r, k)
		case "sizes":
			// values and lines of every length around a power of two
			p := []int{126, 254, 4093, 16382}[r.Intn(4)]
			for i := 0; i < 6; i++ {
				c.Pool = []string{strings.Repeat("v", p-3+i)}
				line(func(w *writer) {
					for k := 0; k < 3; k++ {
						field(w, "p"+strconv.Itoa(k), "p"+strconv.Itoa(k), String)
						w.buf = append(w.buf, ',')
					}
					field(w, "q", "q", scalar())
				})
			}
			c.Pool = nil
		}
		few()
	}
	return d, kind
}

// ExtremeCSV is Extreme for CSV.
func ExtremeCSV(r *rand.Rand, n int) (*Doc, string) {
	kinds := []string{"wide", "text", "line", "lines", "sizes"}
	kind := kinds[n%len(kinds)]
	c := CSVConf{Header: []string{"a", "b", "c"}, Quote: r.Intn(3), Kinds: []int{0, 1, 2, 3, 4}, CRLF: r.Intn(2) == 0, Short: r.Intn(2) == 0}
	switch kind {
	case "wide":
		c.Header = nil
		for i := []int{127, 128, 255, 256, 257, 300, 600}[r.Intn(7)]; i > 0; i-- {
			c.Header = append(c.Header, fmt.Sprint("col", i))
		}
		c.Short = false
		return CSV(r, c, 1+r.Intn(2)), kind
	case "text":
		m := []int{4095, 4096, 32768, 65535, 65536, 70000, 140000, 1 << 20}[r.Intn(8)] + r.Intn(3)
		c.Pool = []string{strings.Repeat([]string{"x", "long text, ", "\"y\" "}[r.Intn(3)], m)[:m-4] + "good"}
		return CSV(r, c, 4), kind
	case "line":
		c.Kinds = []int{0}
		c.Header = c.Header[:0]
		for i := 0; i < 30; i++ {
			c.Header = append(c.Header, fmt.Sprint("col", i))
		}
		c.Pool = []string{strings.Repeat("z", 65536/20+r.Intn(20000))}
		return CSV(r, c, 2), kind
	case "lines":
		d := CSV(r, c, 3)
		for i, m := 0, 65530+r.Intn(20); i < m; i++ {
			s := len(d.Bytes)
			b := byte('k' + i%7)
			d.Bytes = append(d.Bytes, b, '\n')
			d.Lines = append(d.Lines, Line{Start: s, End: s + 1, Vals: []Val{{Path: "a", Start: s, End: s + 1, Type: String, Str: string(b)}}})
		}
		d.AddCSV(r, c)
		d.AddCSV(r, c)
		return d, kind
	}
	c.Kinds = []int{0}
	p := []int{126, 254, 4093, 16382}[r.Intn(4)]
	for i := 0; i < 8; i++ {
		c.Pool = append(c.Pool, strings.Repeat("v", p-3+i))
	}
	return CSV(r, c, 6), kind
}
