// D01: n-grams of texts against an independent model.
package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/kevmo314/appendable/pkg/ngram"

	"verif/dg"
	"verif/h"
)

func show(ts []ngram.Token) []string {
	var s []string
	for _, t := range ts {
		s = append(s, fmt.Sprintf("%s@%d+%d", t.Word, t.Offset, t.Length))
	}
	return s
}

func text(t *h.T) string {
	r := t.R
	switch r.Intn(8) {
	case 0: // invalid UTF-8
		b := make([]byte, r.Intn(40))
		for i := range b {
			b[i] = "ab 1\x80\xc3\xe2\xf0\xff\xed\xa0"[r.Intn(11)]
		}
		return string(b)
	case 1:
		return strings.Repeat(dg.Text(r, 1+r.Intn(3), 2, false), r.Intn(200))
	case 2: // every kind of break within and between words
		var sb strings.Builder
		for i := r.Intn(30); i > 0; i-- {
			sb.WriteString([]string{"a", "B", "0", "z", " ", "\t", "\v", "\f", "\r", "\n", "\u0085", "\u00a0", "\u2003", "-", "_", "'", "\u0301", "ﬁ", "①", "²", "\x00", "\x7f", "Å", "ß", "中"}[r.Intn(25)])
		}
		return sb.String()
	}
	return dg.Text(r, r.Intn(60), r.Intn(3), false)
}

func check(t *h.T, s string) {
	valid := utf8.ValidString(s)
	for n := 1; n <= 3; n++ {
		got := ngram.BuildNgram(s, n)
		want := dg.Grams(s, n)
		if len(got) != len(want) {
			t.Failf("%q has %d %d-grams %v, not %d", s, len(got), n, show(got), len(want))
		}
		for i := range got {
			if got[i].Word != want[i].Word {
				t.Failf("%q: %d-gram %d is %q, not %q", s, n, i, got[i].Word, want[i].Word)
			}
			if valid && (got[i].Offset != uint64(want[i].At) || got[i].Length != uint32(want[i].Len)) {
				t.Failf("%q: %d-gram %d %q is at %d+%d, not %d+%d", s, n, i, got[i].Word, got[i].Offset, got[i].Length, want[i].At, want[i].Len)
			}
		}
		again := show(ngram.BuildNgram(s, n))
		if fmt.Sprint(again) != fmt.Sprint(show(got)) {
			t.Failf("%q gives different %d-grams the second time", s, n)
		}
		before := show(got)
		a := show(ngram.Shuffle(got))
		if fmt.Sprint(before) != fmt.Sprint(show(got)) {
			t.Failf("shuffling the %d-grams of %q changed its argument", n, s)
		}
		b := show(ngram.Shuffle(got))
		if fmt.Sprint(a) != fmt.Sprint(b) {
			t.Failf("shuffling the %d-grams of %q gives %v and then %v", n, s, a, b)
		}
		sort.Strings(a)
		sort.Strings(before)
		if fmt.Sprint(a) != fmt.Sprint(before) {
			t.Failf("shuffling the %d-grams of %q lost some: %v", n, s, a)
		}
		t.Count("tokens", len(got))
	}
	t.Count("texts", 1)
	if len(s) > 3 {
		t.Distinct(s)
	}
}

func main() {
	h.Main("D01", func(c *h.C) {
		c.Rule("random texts of every script, breaks of every kind, invalid UTF-8, every single character alone and within a word; compared token by token with an independent model; non-trivial: more than three bytes")
		c.Each(c.N(8000, 400000), "text", func(t *h.T) {
			s := text(t)
			t.Logf("%q", s)
			check(t, s)
			t.Sample(map[string]any{"case": t.Name, "text": fmt.Sprintf("%.60q", s)})
		})
		// texts and words far longer than is usual
		c.Each(c.N(24, 400), "long", func(t *h.T) {
			n := []int{300, 4096, 66000, 140000}[t.Index()%4] + t.R.Intn(100)
			var sb strings.Builder
			for sb.Len() < n {
				switch t.R.Intn(3) {
				case 0:
					sb.WriteString(dg.Text(t.R, 20, t.R.Intn(3), false))
				case 1:
					sb.WriteString(strings.Repeat([]string{" ", "-", "\u00a0", ". "}[t.R.Intn(4)], t.R.Intn(n)))
				default:
					sb.WriteString(strings.Repeat([]string{"a", "Zy", "é", "0中"}[t.R.Intn(4)], t.R.Intn(n)))
				}
			}
			sb.WriteString(" end of it")
			s := sb.String()
			t.Logf("%.200q", s)
			check(t, s)
			t.Max("longest_text", len(s))
		})
		// every character, alone and inside a word
		c.Each(17*c.N(4, 16), "plane", func(t *h.T) {
			var k int
			fmt.Sscanf(t.Name, "plane/%d", &k)
			per := c.N(4, 16)
			plane, part := k/per, k%per
			for i := part; i < 0x10000; i += per {
				r := rune(plane<<16 | i)
				if !utf8.ValidRune(r) {
					continue
				}
				if plane > 2 && i%97 != 0 && plane != 14 {
					continue
				}
				got := ngram.BuildNgram("x"+string(r)+"Y z", 2)
				want := dg.Grams("x"+string(r)+"Y z", 2)
				if len(got) != len(want) {
					t.Failf("%q has 2-grams %v, not %v", "x"+string(r)+"Y z", show(got), want)
				}
				for i := range got {
					if got[i].Word != want[i].Word || got[i].Offset != uint64(want[i].At) || got[i].Length != uint32(want[i].Len) {
						t.Failf("%q has 2-grams %v, not %v", "x"+string(r)+"Y z", show(got), want)
					}
				}
				t.Count("characters", 1)
			}
			t.Beat()
		})
		// from several threads
		for k := 0; k < c.N(20, 200); k++ {
			c.Case(fmt.Sprintf("threads/%d", k), func(t *h.T) {
				var texts, first []string
				for i := 0; i < 8; i++ {
					s := dg.Text(t.R, 60, 1, false)
					texts = append(texts, s)
					first = append(first, fmt.Sprint(show(ngram.Shuffle(ngram.BuildNgram(s, 2)))))
				}
				bad := make([]string, len(texts))
				var wg sync.WaitGroup
				for i, s := range texts {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for j := 0; j < 50; j++ {
							if got := fmt.Sprint(show(ngram.Shuffle(ngram.BuildNgram(s, 2)))); got != first[i] {
								bad[i] = fmt.Sprintf("%q shuffled with others at the same time is %s, was %s", s, got, first[i])
								return
							}
						}
					}()
				}
				wg.Wait()
				for _, b := range bad {
					if b != "" {
						t.Failf("%s", b)
					}
				}
				t.Count("concurrent_shuffles", 400)
			})
		}
	})
}
