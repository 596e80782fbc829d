package main

// C15: prefixes, suffixes, sets, lists and the trie against the bytes, maps and slices of Go.

import (
	"bytes"
	"math"
	"math/rand/v2"
	"slices"
	"strings"

	"github.com/yanun0323/goast/charset"
	"github.com/yanun0323/goast/helper"
)

func init() {
	register(&check{
		id: "C15", rule: "Exhaustive for prefixes and suffixes of all texts of up to 5 symbols of a 3-byte alphabet (NUL, 0xff and a letter among them) against all of up to 5; random byte texts; sets of bytes, numbers and texts with all members and near-members; lists; tries under random orders of additions (with empty, nested, binary and repeated texts) where after each addition every added text, every prefix, suffix and near miss is looked up in all four ways. The reference are bytes.HasPrefix, maps and slices. Distinct operand pairs and tries.",
		cases: func(e *env) []string {
			out := append(numbered("affix", 364), numbered("rand", e.scale(2000, 40000))...)
			out = append(out, numbered("set", e.scale(2000, 40000))...)
			out = append(out, numbered("append", e.scale(3000, 60000))...)
			if haveTrie {
				out = append(out, numbered("trie", e.scale(6000, 200000))...)
			}
			return out
		},
		run:  runC15,
		must: []string{"affixes compared", "set members", "set non-members", "lists appended"},
	})
	if haveTrie {
		checks["C15"].must = append(checks["C15"].must, "trie additions", "trie values found", "trie prefixes found", "trie misses")
	}
}

// smallTexts are all texts of up to 5 symbols of a small alphabet.
var smallTexts = func() []string {
	out := []string{""}
	for i := 0; len(out) < 364; i++ {
		for _, c := range []string{"\x00", "a", "\xff"} {
			out = append(out, out[i]+c)
		}
	}
	return out[:364]
}()

func (c *ctx) affix(id, s, t string) {
	b := []byte(s)
	if got, want := helper.HasPrefix(b, t), bytes.HasPrefix(b, []byte(t)); got != want {
		c.fail(id, "prefix", s, "HasPrefix(%q, %q) is %v", s, t, got)
	}
	if got, want := helper.HasSuffix(b, t), bytes.HasSuffix(b, []byte(t)); got != want {
		c.fail(id, "suffix", s, "HasSuffix(%q, %q) is %v", s, t, got)
	}
	if string(b) != s {
		c.fail(id, "changed", s, "HasPrefix or HasSuffix changed its argument")
	}
}

func randBytes(r *rand.Rand, n int) string {
	b := make([]byte, r.IntN(n+1))
	pool := []string{"\x00\x01\x7f\x80\xfe\xff", "abc", "日\xe6\x97\xa5\x97", " \t\n/*\"`"}[r.IntN(4)]
	for i := range b {
		if r.IntN(6) == 0 {
			b[i] = byte(r.IntN(256))
		} else {
			b[i] = pool[r.IntN(len(pool))]
		}
	}
	return string(b)
}

func runC15(c *ctx, id string) {
	k, _ := split(id)
	r := newRand(c.seed, id)
	h := newHash()
	h.str(id)
	switch k {
	case "affix":
		n := 0
		for _, d := range id[len("affix:"):] {
			n = n*10 + int(d-'0')
		}
		for _, t := range smallTexts {
			c.affix(id, smallTexts[n], t)
		}
		c.affix(id, "", smallTexts[n])
		if helper.HasPrefix(nil, smallTexts[n]) != (n == 0) || helper.HasSuffix(nil, smallTexts[n]) != (n == 0) {
			c.fail(id, "nil", "", "a nil text has the prefix or suffix %q, or lacks an empty one", smallTexts[n])
		}
		c.count("affixes compared", 2*len(smallTexts))
	case "rand":
		for range 20 {
			s := randBytes(r, []int{40, 40, 40, 300, 5000}[r.IntN(5)])
			i, j := r.IntN(len(s)+1), r.IntN(len(s)+1)
			near := func(t string) string {
				b := []byte(t)
				if len(b) > 0 {
					b[r.IntN(len(b))] ^= 1 << r.IntN(8)
				}
				return string(b)
			}
			for _, t := range []string{s[:i], s[i:], s[:max(i, j)][min(i, j):], near(s[:i]), near(s[i:]), s + randBytes(r, 2), randBytes(r, 2) + s, randBytes(r, 40)} {
				c.affix(id, s, t)
				c.count("affixes compared", 2)
			}
			h.str(s)
		}
	case "set":
		sets(c, id, r, func() byte { return byte(r.IntN(256)) })
		sets(c, id, r, func() int { return r.IntN(12) - 6 })
		sets(c, id, r, func() string { return randBytes(r, 3) })
		sets(c, id, r, func() [2]string { return [2]string{randBytes(r, 1), randBytes(r, 1)} })
		sets(c, id, r, func() any { return []any{1, "1", nil, int8(1), 1.0, [1]int{1}, struct{}{}}[r.IntN(7)] })
	case "append":
		appends(c, id, r, func() int { return r.IntN(3) })
		appends(c, id, r, func() string { return randBytes(r, 1) })
		appends(c, id, r, func() float64 { return []float64{0, math.Copysign(0, -1), math.NaN(), 1}[r.IntN(4)] })
		appends(c, id, r, func() any { return []any{1, "1", nil, int8(1)}[r.IntN(4)] })
	case "trie":
		tries(c, id, r)
		return
	}
	c.distinct(uint64(h))
}

func sets[T comparable](c *ctx, id string, r *rand.Rand, gen func() T) {
	list := func() []T {
		out := make([]T, r.IntN(9))
		for i := range out {
			out[i] = gen()
		}
		return out
	}
	a, b, d := list(), list(), list()
	var empty charset.Set[T]
	for name, x := range map[string]struct {
		set charset.Set[T]
		all []T
	}{
		"New": {charset.New(a...), a}, "NewSlice": {charset.NewSlice(a, b, d), slices.Concat(a, b, d)},
		"NewSlice of one": {charset.NewSlice(b), b}, "NewSlice of none": {charset.NewSlice[T](), nil}, "nil": {empty, nil},
	} {
		for _, e := range append(append(list(), list()...), slices.Concat(a, b, d)...) {
			want := slices.Contains(x.all, e)
			if got := x.set.Contain(e); got != want {
				c.fail(id, "set", "", "a set made by %s of %#v says %v to %#v", name, x.all, got, e)
			}
			if want {
				c.count("set members", 1)
			} else {
				c.count("set non-members", 1)
			}
		}
	}
	// asking never adds
	s := charset.New(a...)
	for range 5 {
		s.Contain(gen())
	}
	for _, e := range list() {
		if s.Contain(e) != slices.Contains(a, e) {
			c.fail(id, "set", "", "a set of %#v changed by being asked", a)
		}
	}
}

func appends[T comparable](c *ctx, id string, r *rand.Rand, gen func() T) {
	for range 8 {
		n, m := r.IntN(5), r.IntN(5)
		slice := make([]T, 0, n+r.IntN(5))
		for range n {
			slice = append(slice, gen())
		}
		elems := make([]T, m)
		for i := range elems {
			elems[i] = gen()
		}
		before, given := slices.Clone(slice), slices.Clone(elems)
		want := slices.Clone(slice)
		switch {
		case m == 0:
		case n > 0 && slice[n-1] == elems[0]:
			want = append(want, elems[1:]...)
		default:
			want = append(want, elems...)
		}
		got := helper.AppendUnrepeatable(slice, elems...)
		if !sameBits(got, want) {
			c.fail(id, "append", "", "AppendUnrepeatable(%#v, %#v) is %#v", before, given, got)
		}
		if !sameBits(slice, before) || !sameBits(elems, given) {
			c.fail(id, "append", "", "AppendUnrepeatable(%#v, %#v) changed its arguments to %#v, %#v", before, given, slice, elems)
		}
		c.count("lists appended", 1)
	}
}

func sameBits[T comparable](a, b []T) bool {
	return sprintf("%#v", a) == sprintf("%#v", b) || len(a)+len(b) == 0
}

func reverse(s string) string {
	b := []byte(s)
	slices.Reverse(b)
	return string(b)
}

func tries(c *ctx, id string, r *rand.Rand) {
	h := newHash()
	text := func() string {
		switch r.IntN(4) {
		case 0:
			return randBytes(r, 3)
		case 1:
			return strings.Repeat("ab", r.IntN(3)) + randBytes(r, 2)
		case 2:
			return []string{"", "func", "fun", "function", "f", "type", "struct", "string", "日本", "日"}[r.IntN(10)]
		}
		return smallTexts[r.IntN(100)]
	}
	model := map[string]int{}
	for range r.IntN(4) {
		model[text()] = r.IntN(5)
	}
	start := map[string]int{}
	for k, v := range model {
		start[k] = v
	}
	t := newTrieFuncs(start)
	var log []string
	bad := false
	look := func(s string) {
		want, ok := model[s]
		if !ok {
			for k := range model {
				ok = ok || strings.HasPrefix(k, s)
			}
			want = 0
			if s == "" && len(model) == 0 {
				return // whether nothing is a prefix of nothing
			}
		}
		for i, f := range []func() (int, bool){
			func() (int, bool) { return t.Text(s) },
			func() (int, bool) { return t.Byte([]byte(s)) },
			func() (int, bool) { return t.TextReversely(reverse(s)) },
			func() (int, bool) { return t.ByteReversely([]byte(reverse(s))) },
		} {
			if v, found := f(); (found != ok || ok && v != want) && !bad {
				bad = true
				c.fail(id, "trie", strings.Join(log, "\n"), "way %d of looking up %q gives %d, %v; expected %d, %v in a trie of %q", i, s, v, found, want, ok, model)
			}
		}
		switch _, is := model[s]; {
		case is:
			c.count("trie values found", 4)
		case ok:
			c.count("trie prefixes found", 4)
		default:
			c.count("trie misses", 4)
		}
	}
	lookAll := func() {
		for k := range model {
			for i := range len(k) + 1 {
				look(k[:i])
				look(k[i:])
			}
			look(k + "x")
			look(k + "\x00")
			look("\xff" + k)
			look(reverse(k))
		}
		for range 6 {
			look(text())
		}
	}
	lookAll()
	for range 1 + r.IntN(10) {
		s, v := text(), r.IntN(5)
		if len(s) > 0 && r.IntN(4) == 0 {
			s = s[:1]
			log = append(log, sprintf("insert %q = %d", s, v))
			t.Insert(s[0], v)
		} else {
			log = append(log, sprintf("add %q = %d", s, v))
			t.Add(s, v)
		}
		model[s] = v
		h.str(s)
		h.num(v)
		c.count("trie additions", 1)
		lookAll()
	}
	c.distinct(uint64(h))
	c.sample(map[string]any{"case": id, "operations": log})
}
