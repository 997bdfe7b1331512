// C10: storage operations and memory touched per appended record.
package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"unsafe"

	"github.com/kevmo314/appendable/pkg/appendable"
	"golang.org/x/sys/unix"

	"verif/dg"
	"verif/h"
	"verif/ix"
	"verif/mem"
	"verif/raw"
)

type ops struct{ reads, writes, seeks, readBytes, writeBytes int }

func (o ops) total() int { return o.reads + o.writes + o.seeks }

// moved is how many bytes were read and written.
func (o ops) moved() int { return o.readBytes + o.writeBytes }

func counted(f *mem.File, run func()) ops {
	o, b := f.Ops, f.Bytes
	run()
	return ops{f.Ops[0] - o[0], f.Ops[1] - o[1], f.Ops[2] - o[2], f.Bytes[0] - b[0], f.Bytes[1] - b[1]}
}

// grow indexes a growing file of lines of one shape and measures single
// appends at sizes far apart.
func grow(t *h.T, d *dg.Doc, add func(), sizes []int, search []string) {
	f := mem.New(nil)
	x, err := ix.Open(f, d.Format, search)
	t.NoErr(err, "NewIndexFile")
	base := -1
	baseOpen := -1
	var trail []string
	for _, n := range sizes {
		for len(d.Lines) < n {
			add()
		}
		t.NoErr(x.Synchronize(d.Bytes), "Synchronize")
		t.Beat()
		got, err := dg.Read(f.Buf, d.Bytes, d.Format)
		t.NoErr(err, "decoding")
		depth, entries, inline, pages := 0, 0, 0, 0
		for _, fd := range got.Fields {
			if fd.Tree == nil {
				continue
			}
			depth = max(depth, fd.Tree.Depth)
			entries += len(fd.Tree.Entries)
			pages += len(fd.Tree.Pages)
			w := int(fd.Meta.Width)
			if d.Format == 1 || w == 0 {
				w = 1
			}
			inline += len(fd.Tree.Entries) * (w - 1)
		}
		// at most some 20 bytes per entry and its value, in nodes that are at
		// least about half full, one page per index, and inner nodes
		if limit := len(got.Fields) + 4 + (entries*20+inline)*3/raw.PageSize; pages > limit {
			t.Failf("%d entries take %d pages, at most %d were expected", entries, pages, limit)
		}
		worst := 0
		for k := 0; k < 24; k++ {
			add()
			vals := d.Lines[len(d.Lines)-1].Vals
			inserts := 0
			for _, v := range vals {
				inserts++
				if v.Type == dg.String {
					for _, s := range search {
						if s == v.Path {
							inserts += 3 * len(v.Str)
						}
					}
				}
			}
			o := counted(f, func() { t.NoErr(x.Synchronize(d.Bytes), "Synchronize one more line") })
			// finding an index walks the catalogue, inserting one path
			fields := len(d.Expect(search).Fields)
			limit := 30 + len(vals)*(30+14*(fields+1)) + inserts*(12+15*(depth+1))
			if o.total() > limit {
				t.Failf("appending line %d (%d values, %d fields, depth %d) took %+v, at most %d operations were expected; before: %s", len(d.Lines), len(vals), fields, depth, o, limit, strings.Join(trail, "; "))
			}
			if o.moved() > limit*raw.PageSize {
				t.Failf("appending line %d moved %d bytes in %d operations", len(d.Lines), o.moved(), o.total())
			}
			worst = max(worst, o.total())
			t.Max("max_percent_of_limit", o.total()*100/limit)
			t.Count("appends_measured", 1)
		}
		idle := counted(f, func() { t.NoErr(x.Synchronize(d.Bytes), "Synchronize without news") })
		var y *appendable.IndexFile
		open := counted(f, func() { y, err = ix.Open(f, d.Format, search) })
		t.NoErr(err, "reopening")
		x = y
		if base < 0 {
			base, baseOpen = idle.total(), open.total()
		}
		if idle.moved() > 60*raw.PageSize || open.moved() > 80*raw.PageSize {
			t.Failf("with %d lines, synchronizing without news moved %d bytes and opening %d", len(d.Lines), idle.moved(), open.moved())
		}
		if idle.total() > base+4 || idle.total() > 60 {
			t.Failf("synchronizing without news took %+v with %d lines, %d operations at first", idle, len(d.Lines), base)
		}
		if open.total() > baseOpen+4 || open.total() > 80 {
			t.Failf("opening took %+v with %d lines, %d operations at first", open, len(d.Lines), baseOpen)
		}
		trail = append(trail, fmt.Sprintf("%d lines: worst %d, idle %d, open %d, depth %d, %d pages", len(d.Lines), worst, idle.total(), open.total(), depth, pages))
		t.Max("max_depth", depth)
		t.Max("max_lines", len(d.Lines))
		t.Distinct(t.Name, len(d.Lines), worst)
	}
	t.Sample(map[string]any{"case": t.Name, "trail": trail})
}

// large appends to an index whose file is much longer than what was put there.
func large(t *h.T) {
	var d *dg.Doc
	var add func()
	if t.R.Intn(4) == 0 {
		conf := dg.RandCSVConf(t.R)
		d = dg.CSV(t.R, conf, t.R.Intn(300))
		add = func() { d.AddCSV(t.R, conf) }
	} else {
		conf := dg.RandConf(t.R)
		conf.Long, conf.Lone = false, false
		d = dg.JSONL(t.R, conf, t.R.Intn(300))
		add = func() { d.AddJSON(t.R, conf) }
	}
	f := mem.New(nil)
	x, err := ix.Open(f, d.Format, nil)
	t.NoErr(err, "NewIndexFile")
	t.NoErr(x.Synchronize(d.Bytes), "Synchronize")
	before := counted(f, func() { x, err = ix.Open(f, d.Format, nil) })
	t.NoErr(err, "reopening")
	size := append([]int64{1 << 28, 1 << 30}, mem.Sizes[:5]...)[t.R.Intn(7)]
	f.Far(size)
	t.Logf("%d lines, the file goes on at %d", len(d.Lines), size)
	open := counted(f, func() { x, err = ix.Open(f, d.Format, nil) })
	t.NoErr(err, "opening the large index")
	idle := counted(f, func() { t.NoErr(x.Synchronize(d.Bytes), "Synchronize without news") })
	if open.total() > before.total()+4 || idle.total() > 60 || open.moved()+idle.moved() > 140*raw.PageSize {
		t.Failf("with an index file of %d bytes opening took %+v, %+v before, and synchronizing without news %+v", size, open, before, idle)
	}
	for range 60 {
		add()
		vals := len(d.Lines[len(d.Lines)-1].Vals)
		o := counted(f, func() { t.NoErr(x.Synchronize(d.Bytes), "Synchronize one more line") })
		fields := len(d.Expect(nil).Fields)
		limit := 30 + vals*(30+14*(fields+1)) + vals*(12+15*6)
		if o.total() > limit || o.moved() > limit*raw.PageSize {
			t.Failf("appending line %d (%d values, %d fields) to an index file of %d bytes took %+v, at most %d operations were expected", len(d.Lines), vals, fields, size, o, limit)
		}
		t.Count("appends_measured", 1)
	}
	if f.Stray > 0 {
		t.Failf("%d writes between the index and its end", f.Stray)
	}
	ix.CheckFile(t, f, d, nil)
	t.Count("large_files", 1)
	t.Distinct(t.Name, size, len(d.Bytes))
}

// untouched keeps the data that was indexed before out of reach: with keys that
// are all stored inline, appending has no reason to look at it.
func untouched(t *h.T, n int) {
	conf := dg.Conf{MaxFields: 4, Names: []string{"a", "b", "c"}, Types: []uint16{dg.Number, dg.Boolean, dg.Null, dg.Array, dg.Object}, MaxDepth: 2, Spaces: t.R.Intn(3)}
	d := dg.JSONL(t.R, conf, n)
	old := len(d.Bytes)
	for k := 0; k < 20; k++ {
		d.AddJSON(t.R, conf)
	}
	f := mem.New(nil)
	x, err := ix.Open(f, 0, nil)
	t.NoErr(err, "NewIndexFile")
	t.NoErr(x.Synchronize(d.Bytes[:old]), "Synchronize")
	page := os.Getpagesize()
	m, err := unix.Mmap(-1, 0, (len(d.Bytes)+page-1)/page*page, unix.PROT_READ|unix.PROT_WRITE, unix.MAP_ANON|unix.MAP_PRIVATE)
	t.NoErr(err, "mmap")
	defer unix.Munmap(m)
	copy(m, d.Bytes)
	hidden := max(0, old/page-1) * page
	if hidden > 0 {
		t.NoErr(unix.Mprotect(m[:hidden], unix.PROT_NONE), "mprotect")
	}
	for _, l := range d.Lines[n:] {
		t.Logf("synchronize up to %d, %d bytes are out of reach", l.End+1, hidden)
		t.NoErr(x.Synchronize(m[:l.End+1]), "Synchronize")
	}
	unix.Mprotect(m, unix.PROT_READ)
	ix.Check(t, f.Buf, d, nil)
	t.Count("bytes_out_of_reach", hidden)
	t.Distinct(d.Bytes)
}

// perNode is about how many keys a page holds, each at a place of its own.
const perNode = raw.PageSize / 18

var refs sync.Mutex

// touched is how many pages of m run looks at, -1 if the system cannot tell.
func touched(m []byte, run func()) int {
	refs.Lock()
	defer refs.Unlock()
	if os.WriteFile("/proc/self/clear_refs", []byte("1"), 0) != nil {
		run()
		return -1
	}
	run()
	smaps, err := os.ReadFile("/proc/self/smaps")
	if err != nil {
		return -1
	}
	lo := uintptr(unsafe.Pointer(unsafe.SliceData(m)))
	n, in, found := 0, false, false
	for _, l := range strings.Split(string(smaps), "\n") {
		var a, b uintptr
		if k, _ := fmt.Sscanf(l, "%x-%x ", &a, &b); k == 2 {
			in = a < lo+uintptr(len(m)) && b > lo
			if in && (a < lo || b > lo+uintptr(len(m))) {
				return -1 // merged with another mapping
			}
			found = found || in
		} else if k, _ := fmt.Sscanf(l, "Referenced: %d kB", &a); k == 1 && in {
			n += int(a) * 1024 / os.Getpagesize()
		}
	}
	if !found {
		return -1
	}
	return n
}

// looks measures how much of the data indexed before an append looks at, where
// keys are compared in the data file itself.
func looks(t *h.T, format byte, n, width int) {
	page := os.Getpagesize()
	size := ((n+64)*(width+100)/page + 2) * page
	// a page out of reach on either side keeps the mapping by itself
	all, err := unix.Mmap(-1, 0, size+2*page, unix.PROT_NONE, unix.MAP_ANON|unix.MAP_PRIVATE)
	t.NoErr(err, "mmap")
	defer unix.Munmap(all)
	m := all[page : page+size]
	t.NoErr(unix.Mprotect(m, unix.PROT_READ|unix.PROT_WRITE), "mprotect")
	unix.Madvise(m, unix.MADV_NOHUGEPAGE)
	at := 0
	if format == 1 {
		at += copy(m, "text,more\n")
	}
	text := make([]byte, width)
	values := 2
	line := func() {
		for i := range text {
			text[i] = byte('a' + t.R.Intn(26))
		}
		if format == 1 {
			at += copy(m[at:], fmt.Sprintf("%s,%d\n", text, t.R.Intn(1000)))
		} else {
			at += copy(m[at:], fmt.Sprintf("{\"text\":\"%s\",\"more\":%d}\n", text, t.R.Intn(1000)))
		}
	}
	for range n {
		line()
	}
	f := mem.New(nil)
	x, err := ix.Open(f, format, nil)
	t.NoErr(err, "NewIndexFile")
	t.NoErr(x.Synchronize(m[:at]), "Synchronize")
	t.Beat()
	got, err := dg.Read(f.Buf, m[:at], format)
	t.NoErr(err, "decoding")
	depth, largest := 0, 0
	for _, fd := range got.Fields {
		if fd.Tree != nil {
			depth = max(depth, fd.Tree.Depth)
			largest = max(largest, len(fd.Tree.Entries))
		}
	}
	if largest < n/2 {
		t.Failf("%d lines of distinct texts gave %d entries", n, largest)
	}
	worst := 0
	for range 16 {
		from := at
		line()
		own := (at-from)/page + 2
		got := touched(m, func() { t.NoErr(x.Synchronize(m[:at]), "Synchronize one more line") })
		if got < 0 {
			t.Count("looks_unknown", 1)
			continue
		}
		// nothing but the keys in the nodes on its path
		limit := own + 4 + values*(depth+1)*perNode
		if got > limit {
			t.Failf("appending to %d lines (depth %d) looked at %d of the %d pages of the data file, at most %d were expected", n, depth, got, at/page, limit)
		}
		worst = max(worst, got)
		t.Max("looks_max_percent_of_limit", got*100/limit)
		t.Max("looks_max_pages_of_data", at/page)
		t.Max("looks_max_pages_seen", got)
		t.Count("looks_measured", 1)
		if at/page*5 > limit*6 {
			t.Count("looks_decisive", 1)
		}
	}
	idle := touched(m, func() { t.NoErr(x.Synchronize(m[:at]), "Synchronize without news") })
	if idle > 4 {
		t.Failf("synchronizing without news looked at %d of the %d pages of the data file", idle, at/page)
	}
	open := touched(m, func() { _, err = ix.Open(f, format, nil) })
	t.NoErr(err, "reopening")
	if open > 4 {
		t.Failf("opening looked at %d pages of the data file", open)
	}
	t.Distinct(t.Name, n, worst)
}

func main() {
	h.Main("C10", func(c *h.C) {
		c.Rule("files of fixed line shapes grown to sizes a factor of ten apart; storage operations of single appends, of synchronizing without news and of opening are counted against bounds in the depth of the indexes; appends to index files of up to 5 GB, mostly empty; and appends with the earlier data made unreadable")
		c.Assume("the bounds are in counted storage operations (about 2 to 4 times what was measured), and cover the catalogue walk, which depends on the number of fields")
		sizes := []int{0, 30, 300, 3000}
		if c.Thorough {
			sizes = append(sizes, 30000)
		}
		shape := func(i int, t *h.T) dg.Conf {
			conf := dg.RandConf(t.R)
			conf.Long, conf.Lone = false, false
			switch i % 4 {
			case 0:
				conf.Names, conf.MaxFields, conf.MaxDepth = []string{"a"}, 1, 0
				conf.Types = []uint16{[]uint16{0, 3, 6, 7}[i/4%4]}
			case 1:
				conf.Names, conf.Types = []string{"a", "b"}, []uint16{dg.Number, dg.String}
			}
			return conf
		}
		c.Each(c.N(24, 160), "jsonl", func(t *h.T) {
			var i int
			fmt.Sscanf(t.Name, "jsonl/%d", &i)
			conf := shape(i, t)
			d := &dg.Doc{}
			s := sizes
			if i%4 == 0 {
				s = append(append([]int{}, sizes...), c.N(50000, 300000))
			}
			grow(t, d, func() { d.AddJSON(t.R, conf) }, s, nil)
		})
		c.Each(c.N(6, 40), "csv", func(t *h.T) {
			conf := dg.RandCSVConf(t.R)
			d := dg.CSV(t.R, conf, 0)
			grow(t, d, func() { d.AddCSV(t.R, conf) }, sizes, nil)
		})
		c.Each(c.N(4, 30), "search", func(t *h.T) {
			conf := dg.Conf{MaxFields: 1, Names: []string{"t"}, Types: []uint16{dg.String}}
			d := &dg.Doc{}
			grow(t, d, func() { d.AddJSON(t.R, conf) }, sizes[:3], []string{"t"})
		})
		c.Each(c.N(5, 40), "looks", func(t *h.T) {
			format := byte(1)
			if strings.HasSuffix(t.Name, "/0") {
				format = 0
			}
			looks(t, format, c.N(5000, 12000)+t.R.Intn(2000), 1200+t.R.Intn(800))
		})
		c.Each(c.N(60, 600), "large", large)
		c.Each(c.N(20, 200), "untouched", func(t *h.T) { untouched(t, 200+t.R.Intn(1500)) })
	})
}
