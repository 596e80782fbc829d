package main

// C08: every node operation against lists of node numbers.

import (
	"math/rand/v2"
	"slices"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
)

func init() {
	register(&check{
		id: "C08", rule: "Histories of random node operations over up to 14 nodes in several chains (built by NewNode, NewNodes, ParseScope and Copy), 60 operations each, with nil and ends of chains among the arguments. After each operation the links, texts, kinds and lines of all nodes and the returned nodes are compared with a model of plain lists. pair cases run every operation on every pair of positions of two chains of up to 5 nodes. A history is non-trivial if it changed links; distinct ones ended in distinct states after distinct operations.",
		cases: func(e *env) []string {
			return append(numbered("pair", 6*6), numbered("hist", e.scale(60000, 1500000))...)
		},
		run:  runC08,
		must: []string{"insert", "replace", "take", "remove", "isolate", "combine", "copy", "iterate", "iterate and edit", "ends", "nil arguments"},
	})
}

type mnode struct {
	n    *goast.Node
	text string
	kind kind.Kind
	line int
}

// lists is the model: each node is in exactly one list.
type lists struct {
	c      *ctx
	id     string
	nodes  []mnode
	byNode map[*goast.Node]int
	chains [][]int
	log    []string
	failed bool
	h      hash
}

func newLists(c *ctx, id string) *lists {
	return &lists{c: c, id: id, byNode: map[*goast.Node]int{}, h: newHash()}
}

func (l *lists) fail(key, format string, a ...any) {
	if !l.failed {
		l.failed = true
		l.c.fail(l.id, key, strings.Join(l.log, "\n"), format, a...)
	}
}

func (l *lists) note(format string, a ...any) {
	l.log = append(l.log, sprintf(format, a...))
	l.h.str(l.log[len(l.log)-1])
}

// addChain takes a chain into the model, as texts, kinds and lines say.
func (l *lists) addChain(head *goast.Node, want []mnode) []int {
	var ids []int
	for n := head; n != nil && len(ids) <= len(want); n = n.Next() {
		if _, ok := l.byNode[n]; ok {
			l.fail("shared", "a new chain contains an old node")
			return nil
		}
		i := len(l.nodes)
		l.byNode[n] = i
		m := mnode{n: n}
		if len(ids) < len(want) {
			m = want[len(ids)]
			m.n = n
		}
		l.nodes = append(l.nodes, m)
		ids = append(ids, i)
	}
	if len(ids) != len(want) {
		l.fail("length", "a new chain of %d nodes has %d", len(want), len(ids))
		return nil
	}
	l.chains = append(l.chains, ids)
	return ids
}

func (l *lists) where(i int) (int, int) {
	for c, ch := range l.chains {
		if p := slices.Index(ch, i); p >= 0 {
			return c, p
		}
	}
	panic("a node is in no list")
}

func (l *lists) prev(i int) int {
	if i < 0 {
		return -1
	}
	c, p := l.where(i)
	if p == 0 {
		return -1
	}
	return l.chains[c][p-1]
}

func (l *lists) next(i int) int {
	if i < 0 {
		return -1
	}
	c, p := l.where(i)
	if p+1 == len(l.chains[c]) {
		return -1
	}
	return l.chains[c][p+1]
}

func (l *lists) put(chains ...[]int) {
	for _, c := range chains {
		if len(c) > 0 {
			l.chains = append(l.chains, slices.Clone(c))
		}
	}
}

func (l *lists) drop(c int) []int {
	ch := l.chains[c]
	l.chains = slices.Delete(slices.Clone(l.chains), c, c+1)
	return ch
}

// isolate takes a node out; what was before and after it is not joined.
func (l *lists) isolate(i int) {
	c, p := l.where(i)
	ch := l.drop(c)
	l.put(ch[:p], ch[p:p+1], ch[p+1:])
}

func (l *lists) cutBefore(i int) {
	c, p := l.where(i)
	ch := l.drop(c)
	l.put(ch[:p], ch[p:])
}

func (l *lists) cutAfter(i int) {
	c, p := l.where(i)
	ch := l.drop(c)
	l.put(ch[:p+1], ch[p+1:])
}

// join puts b's list behind a's.
func (l *lists) join(a, b int) {
	ca, _ := l.where(a)
	x := l.drop(ca)
	cb, _ := l.where(b)
	y := l.drop(cb)
	l.put(append(slices.Clone(x), y...))
}

func (l *lists) node(i int) *goast.Node {
	if i < 0 {
		return nil
	}
	return l.nodes[i].n
}

func (l *lists) name(n *goast.Node) string {
	if n == nil {
		return "nil"
	}
	if i, ok := l.byNode[n]; ok {
		return sprintf("n%d", i)
	}
	return "an unknown node"
}

func nm(i int) string {
	if i < 0 {
		return "nil"
	}
	return sprintf("n%d", i)
}

func (l *lists) want(op string, got *goast.Node, want int) {
	if got != l.node(want) {
		l.fail("result", "%s returned %s, expected %s", op, l.name(got), nm(want))
	}
}

// verify compares every node with the model.
func (l *lists) verify() {
	if l.failed {
		return
	}
	for _, ch := range l.chains {
		for p, i := range ch {
			m := l.nodes[i]
			wp, wn := -1, -1
			if p > 0 {
				wp = ch[p-1]
			}
			if p+1 < len(ch) {
				wn = ch[p+1]
			}
			if m.n.Prev() != l.node(wp) {
				l.fail("links", "n%d.Prev() is %s, expected %s (chains %v)", i, l.name(m.n.Prev()), nm(wp), l.chains)
				return
			}
			if m.n.Next() != l.node(wn) {
				l.fail("links", "n%d.Next() is %s, expected %s (chains %v)", i, l.name(m.n.Next()), nm(wn), l.chains)
				return
			}
			if m.n.Text() != m.text || m.n.Kind() != m.kind || m.n.Line() != m.line {
				l.fail("content", "n%d is %q of kind %s on line %d, expected %q, %s, %d", i, m.n.Text(), m.n.Kind(), m.n.Line(), m.text, m.kind, m.line)
				return
			}
		}
	}
}

// adopt rebuilds the lists from the links, after an operation whose effect is not specified
// (nil arguments), and checks that they are sound.
func (l *lists) adopt() {
	if l.failed {
		return
	}
	seen := map[*goast.Node]bool{}
	var chains [][]int
	for i := range l.nodes {
		n := l.nodes[i].n
		if seen[n] {
			continue
		}
		first := n
		for k := 0; first.Prev() != nil; k++ {
			if first.Prev().Next() != first || k > len(l.nodes) {
				l.fail("links", "links of n%d's chain disagree or go in a circle", i)
				return
			}
			first = first.Prev()
		}
		var ch []int
		for x := first; x != nil; x = x.Next() {
			j, ok := l.byNode[x]
			if !ok || seen[x] || x.Next() != nil && x.Next().Prev() != x {
				l.fail("links", "links of n%d's chain disagree, go in a circle or lead elsewhere", i)
				return
			}
			seen[x] = true
			ch = append(ch, j)
		}
		chains = append(chains, ch)
	}
	l.chains = chains
	l.verify()
}

var someKinds = []kind.Kind{kind.Raw, kind.Comment, kind.ParamType, kind.None, kind.String, kind.Func, kind.Space, {"", "Own"}}

func (l *lists) insert(before bool, a, b int) {
	op := sprintf("n%d.InsertNext(n%d)", a, b)
	if before {
		op = sprintf("n%d.InsertPrev(n%d)", a, b)
	}
	l.note("%s", op)
	l.c.count("insert", 1)
	wp, wn := l.prev(b), l.next(b)
	if a == b || before && l.prev(a) == b || !before && l.next(a) == b {
		wp, wn = -1, -1 // nothing to do
	} else {
		l.isolate(b)
		if before {
			if p := l.prev(a); p >= 0 {
				l.cutBefore(a)
				l.join(p, b)
			}
			l.join(b, a)
		} else {
			if x := l.next(a); x >= 0 {
				l.cutAfter(a)
				l.join(b, x)
			}
			l.join(a, b)
		}
	}
	var gp, gn *goast.Node
	if before {
		gp, gn = l.node(a).InsertPrev(l.node(b))
	} else {
		gp, gn = l.node(a).InsertNext(l.node(b))
	}
	l.want(op+" (first)", gp, wp)
	l.want(op+" (second)", gn, wn)
}

// replaceable tells whether a Replace asks for no cycle.
func (l *lists) replaceable(before bool, a, b int) bool {
	ca, pa := l.where(a)
	cb, pb := l.where(b)
	return ca != cb || a == b || before && pb < pa || !before && pb > pa
}

func (l *lists) replace(before bool, a, b int) {
	op := sprintf("n%d.ReplaceNext(n%d)", a, b)
	if before {
		op = sprintf("n%d.ReplacePrev(n%d)", a, b)
	}
	l.note("%s", op)
	l.c.count("replace", 1)
	var w1, w2 int
	switch {
	case a == b || before && l.prev(a) == b || !before && l.next(a) == b:
		w1, w2 = -1, -1
	case before:
		w1, w2 = l.prev(a), l.next(b)
		l.cutAfter(b)
		l.cutBefore(a)
		l.join(b, a)
	default:
		w1, w2 = l.prev(b), l.next(a)
		l.cutBefore(b)
		l.cutAfter(a)
		l.join(a, b)
	}
	var g1, g2 *goast.Node
	if before {
		g1, g2 = l.node(a).ReplacePrev(l.node(b))
	} else {
		g1, g2 = l.node(a).ReplaceNext(l.node(b))
	}
	l.want(op+" (first)", g1, w1)
	l.want(op+" (second)", g2, w2)
}

func (l *lists) take(before bool, a int) {
	l.c.count("take", 1)
	op := sprintf("%s.TakeNext()", nm(a))
	x := l.next(a)
	if before {
		op = sprintf("%s.TakePrev()", nm(a))
		x = l.prev(a)
	}
	l.note("%s", op)
	if x >= 0 {
		c, p := l.where(x)
		ch := l.drop(c)
		l.put(append(slices.Clone(ch[:p]), ch[p+1:]...), []int{x})
	}
	var got *goast.Node
	if before {
		got = l.node(a).TakePrev()
	} else {
		got = l.node(a).TakeNext()
	}
	l.want(op, got, x)
}

func (l *lists) remove(before bool, a int) {
	l.c.count("remove", 1)
	op := sprintf("%s.RemoveNext()", nm(a))
	x := l.next(a)
	if before {
		op = sprintf("%s.RemovePrev()", nm(a))
		x = l.prev(a)
	}
	l.note("%s", op)
	var got *goast.Node
	if before {
		if x >= 0 {
			l.cutBefore(a)
		}
		got = l.node(a).RemovePrev()
	} else {
		if x >= 0 {
			l.cutAfter(a)
		}
		got = l.node(a).RemoveNext()
	}
	l.want(op, got, x)
}

func (l *lists) combine(r *rand.Rand, before bool, a int) {
	l.c.count("combine", 1)
	k := someKinds[r.IntN(len(someKinds))]
	var idx []int
	var args []*goast.Node
	used := map[int]bool{}
	for range r.IntN(5) {
		j := r.IntN(len(l.nodes)+1) - 1
		if r.IntN(2) == 0 && a >= 0 { // the usual ones: those that follow
			j = a
			for range 1 + len(idx) {
				if before {
					j = l.prev(j)
				} else {
					j = l.next(j)
				}
			}
		}
		if j >= 0 && used[j] {
			continue
		}
		used[j] = true
		idx = append(idx, j)
		args = append(args, l.node(j))
	}
	op := sprintf("%s.CombineNext(%s, %v)", nm(a), k, idx)
	if before {
		op = sprintf("%s.CombinePrev(%s, %v)", nm(a), k, idx)
	}
	l.note("%s", op)
	rest := idx
	target := a
	for target < 0 && len(rest) > 0 {
		target, rest = rest[0], rest[1:]
	}
	if target >= 0 {
		text := l.nodes[target].text
		for _, j := range rest {
			if j < 0 || j == target {
				continue
			}
			if before {
				text = l.nodes[j].text + text
			} else {
				text += l.nodes[j].text
			}
			l.isolate(j)
		}
		l.nodes[target].text = text
		l.nodes[target].kind = k
	}
	var got *goast.Node
	if before {
		got = l.node(a).CombinePrev(k, args...)
	} else {
		got = l.node(a).CombineNext(k, args...)
	}
	l.want(op, got, target)
}

func (l *lists) copyNode(r *rand.Rand, a int) {
	l.c.count("copy", 1)
	switch {
	case a < 0:
		l.note("nil.Copy")
		if l.node(a).Copy() != nil || l.node(a).Copy(true) != nil {
			l.fail("result", "the copy of nil is not nil")
		}
	case r.IntN(2) == 0:
		l.note("n%d.Copy()", a)
		n := l.node(a).Copy()
		if r.IntN(3) == 0 {
			n = l.node(a).Copy(false)
		}
		if n.Prev() != nil || n.Next() != nil {
			l.fail("result", "n%d.Copy() has neighbours", a)
			return
		}
		l.addChain(n, []mnode{l.nodes[a]})
	default:
		l.note("n%d.Copy(true)", a)
		n := l.node(a).Copy(true)
		c, p := l.where(a)
		want := make([]mnode, len(l.chains[c]))
		for i, j := range l.chains[c] {
			want[i] = l.nodes[j]
		}
		head := n
		for range p {
			head = head.Prev()
		}
		if head == nil || head.Prev() != nil {
			l.fail("result", "n%d.Copy(true) has not %d nodes before it", a, p)
			return
		}
		l.addChain(head, want)
	}
}

func (l *lists) iterate(r *rand.Rand, a int) {
	l.c.count("iterate", 1)
	forward := r.IntN(2) == 0
	stop := r.IntN(7) - 1 // number of nodes that are visited and not stopped at, -1: no stop
	l.note("iterate n%d forward=%v stop=%d", a, forward, stop)
	var want []int
	ret := -1
	for i := a; i >= 0; {
		want = append(want, i)
		if stop >= 0 && len(want) > stop {
			ret = i
			break
		}
		if forward {
			i = l.next(i)
		} else {
			i = l.prev(i)
		}
	}
	var got []int
	fn := func(n *goast.Node) bool {
		i, ok := l.byNode[n]
		if !ok {
			i = -2
		}
		got = append(got, i)
		return len(got) <= stop || stop < 0 && len(got) <= len(l.nodes)
	}
	var g *goast.Node
	if forward {
		g = l.node(a).IterNext(fn)
	} else {
		g = l.node(a).IterPrev(fn)
	}
	if !slices.Equal(got, want) {
		l.fail("iteration", "iteration visited %v, expected %v", got, want)
	}
	l.want("iteration", g, ret)
}

// iterateEditing edits the chain from within an iteration, which goes on from the node it is at
// to the one that follows it then.
func (l *lists) iterateEditing(r *rand.Rand, a int) {
	l.c.count("iterate and edit", 1)
	forward := r.IntN(2) == 0
	l.note("iterate n%d and edit, forward=%v", a, forward)
	exp, visits, limit := a, 0, 1+r.IntN(12)
	fn := func(n *goast.Node) bool {
		if n != l.node(exp) || exp < 0 {
			l.fail("iteration", "an iteration with edits visited %s, expected %s", l.name(n), nm(exp))
			return false
		}
		l.note("at n%d", exp)
		before := r.IntN(2) == 0
		switch b := l.pick(r, false); r.IntN(9) {
		case 0, 1:
			l.insert(before, exp, b)
		case 2:
			if l.replaceable(before, exp, b) {
				l.replace(before, exp, b)
			}
		case 3:
			l.take(before, exp)
		case 4:
			l.remove(before, exp)
		case 5:
			l.combine(r, before, exp)
		case 6:
			if r.IntN(3) == 0 {
				l.note("n%d.Isolate()", exp)
				l.isolate(exp)
				n.Isolate()
			}
		case 7: // out of the list, and the iteration goes on from there
			l.insert(before, b, exp)
		}
		l.verify()
		if visits++; visits >= limit || l.failed {
			return false
		}
		if forward {
			exp = l.next(exp)
		} else {
			exp = l.prev(exp)
		}
		return true
	}
	var g *goast.Node
	if forward {
		g = l.node(a).IterNext(fn)
	} else {
		g = l.node(a).IterPrev(fn)
	}
	l.want("iteration with edits", g, exp)
}

func (l *lists) ends(a int) {
	l.c.count("ends", 1)
	l.note("First, Last of %s", nm(a))
	first, last := -1, -1
	if a >= 0 {
		c, _ := l.where(a)
		first, last = l.chains[c][0], l.chains[c][len(l.chains[c])-1]
	}
	l.want("First", l.node(a).First(), first)
	l.want("Last", l.node(a).Last(), last)
}

// nilOp calls an operation with nil where a node is expected; only soundness is required.
func (l *lists) nilOp(r *rand.Rand) {
	l.c.count("nil arguments", 1)
	a := r.IntN(len(l.nodes))
	n, m := l.node(a), (*goast.Node)(nil)
	if r.IntN(2) == 0 {
		n, m = m, n
	}
	op := r.IntN(6)
	l.note("nil operation %d on %s with %s", op, l.name(n), l.name(m))
	switch op {
	case 0:
		n.InsertPrev(m)
	case 1:
		n.InsertNext(m)
	case 2:
		n.ReplacePrev(m)
	case 3:
		n.ReplaceNext(m)
	case 4:
		(*goast.Node)(nil).Isolate()
	case 5:
		var z *goast.Node
		z.SetText("x")
		z.SetKind(kind.Raw)
		z.InsertNext(nil)
		z.ReplacePrev(nil)
		if z.Text() != "" || z.Kind() != kind.None || z.Prev() != nil || z.Next() != nil || z.First() != nil || z.Last() != nil ||
			z.TakeNext() != nil || z.TakePrev() != nil || z.RemoveNext() != nil || z.RemovePrev() != nil ||
			z.IterNext(func(*goast.Node) bool { return false }) != nil || z.IterPrev(func(*goast.Node) bool { return false }) != nil ||
			z.CombineNext(kind.Raw) != nil || z.CombinePrev(kind.Raw, nil, nil) != nil || z.Description() != "<nil>" {
			l.fail("nil", "an operation on a nil node gives something")
		}
	}
	l.adopt()
}

func (l *lists) grow(r *rand.Rand) {
	texts := []string{"a", "func", "\n", "(", "// c", "\"s\"", "日", " ", "", "x.y", "12"}
	switch r.IntN(3) {
	case 0:
		t, line := texts[r.IntN(len(texts))], someLine(r)
		l.note("NewNode(%d, %q)", line, t)
		if r.IntN(2) == 0 {
			k := someKinds[r.IntN(len(someKinds))]
			l.addChain(goast.NewNode(line, t, k), []mnode{{nil, t, k, line}})
		} else {
			l.addChain(goast.NewNode(line, t), []mnode{{nil, t, kind.New(t), line}})
		}
	case 1:
		n := 1 + r.IntN(5)
		line := someLine(r)
		list := make([]string, n)
		want := make([]mnode, n)
		at := line
		for i := range list {
			list[i] = texts[r.IntN(len(texts))]
			want[i] = mnode{nil, list[i], kind.New(list[i]), at}
			at += strings.Count(list[i], "\n")
		}
		l.note("NewNodes(%d, %q)", line, list)
		l.addChain(goast.NewNodes(line, list...), want)
	default:
		src := []string{"func f(a b)", "var x", "type T struct{}", "// c\n"}[r.IntN(4)]
		l.note("ParseScope(%q)", src)
		scs, _ := goast.ParseScope(0, []byte(src))
		if len(scs) == 0 {
			return
		}
		var want []mnode
		for n := scs[0].Node(); n != nil; n = n.Next() {
			want = append(want, mnode{nil, n.Text(), n.Kind(), n.Line()})
		}
		l.addChain(scs[0].Node(), want)
	}
}

func (l *lists) pick(r *rand.Rand, nilToo bool) int {
	if nilToo && r.IntN(12) == 0 {
		return -1
	}
	return r.IntN(len(l.nodes))
}

func runC08(c *ctx, id string) {
	k, arg := split(id)
	if k == "pair" {
		runC08Pairs(c, id, atoi(arg)/6, atoi(arg)%6)
		return
	}
	r := newRand(c.seed, id)
	l := newLists(c, id)
	for len(l.nodes) < 3 && !l.failed {
		l.grow(r)
	}
	for range 60 {
		if l.failed {
			return
		}
		before := r.IntN(2) == 0
		switch r.IntN(13) {
		case 0, 1:
			l.insert(before, l.pick(r, false), l.pick(r, false))
		case 2, 3:
			if a, b := l.pick(r, false), l.pick(r, false); l.replaceable(before, a, b) {
				l.replace(before, a, b)
			}
		case 4:
			l.take(before, l.pick(r, true))
		case 5:
			l.remove(before, l.pick(r, true))
		case 6:
			a := l.pick(r, false)
			l.note("n%d.Isolate()", a)
			c.count("isolate", 1)
			l.isolate(a)
			l.node(a).Isolate()
		case 7:
			l.combine(r, before, l.pick(r, true))
		case 8:
			if len(l.nodes) < 30 {
				l.copyNode(r, l.pick(r, true))
			}
		case 9:
			l.iterate(r, l.pick(r, true))
			l.iterateEditing(r, l.pick(r, false))
			l.ends(l.pick(r, true))
		case 10:
			a := l.pick(r, false)
			l.nodes[a].text = sprintf("t%d", r.IntN(9))
			l.note("n%d.SetText(%q)", a, l.nodes[a].text)
			l.node(a).SetText(l.nodes[a].text)
		case 11:
			a := l.pick(r, false)
			l.nodes[a].kind = someKinds[r.IntN(len(someKinds))]
			l.note("n%d.SetKind(%s)", a, l.nodes[a].kind)
			l.node(a).SetKind(l.nodes[a].kind)
		default:
			switch {
			case r.IntN(3) == 0:
				l.nilOp(r)
			case len(l.nodes) < 14:
				l.grow(r)
			}
		}
		l.verify()
	}
	h := l.h
	for _, ch := range l.chains {
		h.num(len(ch))
	}
	c.distinct(uint64(h))
	c.sample(map[string]any{"case": id, "operations": l.log[:min(len(l.log), 12)]})
}

// runC08Pairs runs every operation with two nodes on every pair of positions of two chains.
func runC08Pairs(c *ctx, id string, n, m int) {
	build := func() *lists {
		l := newLists(c, id)
		for _, k := range []int{n, m} {
			if k == 0 {
				continue
			}
			texts := make([]string, k)
			want := make([]mnode, k)
			for i := range texts {
				texts[i] = sprintf("t%d", len(l.nodes)+i)
				want[i] = mnode{nil, texts[i], kind.Raw, 1}
			}
			l.note("NewNodes(1, %q)", texts)
			l.addChain(goast.NewNodes(1, texts...), want)
		}
		return l
	}
	all := newHash()
	all.num(n*10 + m)
	for a := range n + m {
		for b := range n + m {
			for op := range 4 {
				l := build()
				if op >= 2 && !l.replaceable(op == 2, a, b) {
					continue
				}
				if op < 2 {
					l.insert(op == 0, a, b)
				} else {
					l.replace(op == 2, a, b)
				}
				l.verify()
				// a second operation, on what the first left behind
				for _, second := range []int{0, 1, 2, 3} {
					if l.failed {
						break
					}
					switch second {
					case 0:
						l.take(true, a)
					case 1:
						l.take(false, b)
					case 2:
						l.remove(false, a)
					case 3:
						l.remove(true, b)
					}
					l.verify()
				}
				all.str(l.log[len(l.log)-1])
				c.count("pairs of positions", 1)
			}
		}
	}
	c.distinct(uint64(all))
}
