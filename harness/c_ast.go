package main

// C02, C09, C18: histories over asts, scopes and nodes against a model that knows which
// objects are the same and which are not.

import (
	"bytes"
	"errors"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

// mscope is a scope object with the chain that belongs to it.
type mscope struct {
	s    goast.Scope
	snap scopeSnap // what it should hold
}

type mast struct {
	a     goast.Ast
	list  []*mscope
	file  [4]string // File, Dir, Filename, Ext
	saved bool
}

// mlist is a slice in the hands of the caller.
type mlist struct {
	l    []goast.Scope
	want []*mscope
}

type world struct {
	known  []string // files that were parsed or saved to
	c      *ctx
	id     string
	r      *rand.Rand
	scopes []*mscope
	asts   []*mast
	lists  []*mlist
	log    []string
	failed bool
	h      hash
	dir    string
	prior  bool // nodes may come before the first node of a scope
	texts  []*mtext
}

// mtext is a text that was parsed.
type mtext struct {
	src   string // as it was
	bytes []byte // as the caller has it
	snaps []scopeSnap
	line  int
}

func (w *world) fail(key, format string, a ...any) {
	if !w.failed {
		w.failed = true
		w.c.fail(w.id, key, strings.Join(w.log, "\n"), format, a...)
	}
}

func (w *world) note(format string, a ...any) {
	s := sprintf(format, a...)
	w.log = append(w.log, s)
	w.h.str(s)
}

func (w *world) addScope(s goast.Scope) *mscope {
	m := &mscope{s, cloneSnap(snapScope(s))}
	w.scopes = append(w.scopes, m)
	return m
}

func (w *world) addScopes(l []goast.Scope) []*mscope {
	out := make([]*mscope, len(l))
	for i, s := range l {
		out[i] = w.addScope(s)
	}
	return out
}

func cloneSnap(s scopeSnap) scopeSnap {
	s.nodes = slices.Clone(s.nodes)
	s.prior = slices.Clone(s.prior)
	for _, l := range [][]nodeSnap{s.nodes, s.prior} {
		for i := range l { // the bytes as they are now, whatever the string is made of
			l[i].text = strings.Clone(l[i].text)
		}
	}
	return s
}

func (w *world) scopeNo(m *mscope) int { return slices.Index(w.scopes, m) }

// verify compares everything there is with the model.
func (w *world) verify() {
	if w.failed {
		return
	}
	for i, m := range w.scopes {
		if d := diffSnap(m.snap, snapScope(m.s), 0); d != "" {
			w.fail("scope", "scope %d is not what it should be: %s", i, d)
			return
		}
		if !w.prior && len(m.snap.prior) != 0 {
			w.fail("scope", "the first node of scope %d has a predecessor", i)
			return
		}
	}
	w.c.count("scopes compared", len(w.scopes))
	for i, a := range w.asts {
		w.verifyList(sprintf("ast %d", i), a.a.Scope(), a.list)
		if got := [4]string{a.a.File(), a.a.Dir(), a.a.Filename(), a.a.Ext()}; got != a.file {
			w.fail("file", "ast %d says its file is %q, expected %q", i, got, a.file)
		}
	}
	for i, l := range w.lists {
		w.verifyList(sprintf("the caller's list %d", i), l.l, l.want)
	}
}

func (w *world) verifyList(what string, got []goast.Scope, want []*mscope) {
	if w.failed {
		return
	}
	if len(got) != len(want) {
		w.fail("list", "%s holds %d scopes, expected %d", what, len(got), len(want))
		return
	}
	for i := range got {
		if got[i] == want[i].s { // the same object: compared already
			continue
		}
		if got[i] == nil {
			w.fail("list", "scope %d of %s is nil", i, what)
			return
		}
		// another object is fine as long as it shows the same at all times
		if d := diffSnap(want[i].snap, snapScope(got[i]), 0); d != "" {
			w.fail("list", "scope %d of %s should be scope %d: %s", i, what, w.scopeNo(want[i]), d)
			return
		}
	}
	w.c.count("lists compared", 1)
}

func (w *world) parse() []*mscope {
	g := newGen(w.r.Uint64(), "world")
	g.tame = true
	var src string
	for len(src) == 0 || len(src) > 3000 {
		if w.r.IntN(4) == 0 {
			src = g.file()
		} else {
			src = "package p\n\n" + g.decl() + "\n\n// c\n" + g.pick("", g.decl()+"\n")
		}
	}
	t := &mtext{src: src, bytes: append(make([]byte, 0, len(src)+w.r.IntN(9)), src...), line: someLine(w.r)}
	scs, err := goast.ParseScope(t.line, t.bytes)
	if err != nil {
		w.fail("parse", "ParseScope: %v", err)
		return nil
	}
	w.note("ParseScope of %d bytes: %d scopes", len(src), len(scs))
	out := w.addScopes(scs)
	for _, m := range out {
		t.snaps = append(t.snaps, cloneSnap(m.snap))
	}
	w.texts = append(w.texts, t)
	w.sameBytes(t, "ParseScope")
	for range w.r.IntN(3) {
		out = append(out, w.made())
	}
	return out
}

// sameBytes checks that the bytes of a text that was parsed are what they were.
func (w *world) sameBytes(t *mtext, who string) {
	if full := t.bytes[:cap(t.bytes)]; string(t.bytes) != t.src || strings.Trim(string(full[len(t.bytes):]), "\x00") != "" {
		w.fail("bytes", "%s changed the bytes it was given", who)
	}
}

// again parses a text a second time: nothing of the first time may show, nor the other way around.
func (w *world) again() {
	t := w.texts[w.r.IntN(len(w.texts))]
	b := t.bytes
	if w.r.IntN(2) == 0 || string(b) != t.src {
		b = []byte(t.src)
	}
	line := t.line
	if w.r.IntN(2) == 0 {
		line = someLine(w.r)
	}
	w.note("ParseScope of text %d again", slices.Index(w.texts, t))
	scs, err := goast.ParseScope(line, b)
	if err != nil {
		w.fail("parse", "ParseScope of a text it parsed before: %v", err)
		return
	}
	if d := diffSnaps(t.snaps, snapScopes(scs), line-t.line); d != "" {
		w.fail("again", "the scopes of a text that is parsed again differ: %s", d)
		return
	}
	w.addScopes(scs)
	w.c.count("texts parsed again", 1)
}

// overwrite changes the bytes of a text that was parsed, which are the caller's.
func (w *world) overwrite() {
	t := w.texts[w.r.IntN(len(w.texts))]
	w.note("the bytes of text %d are overwritten", slices.Index(w.texts, t))
	switch w.r.IntN(3) {
	case 0:
		clear(t.bytes)
	case 1:
		for i := range t.bytes {
			t.bytes[i] ^= 0x15
		}
	default:
		copy(t.bytes, t.bytes[min(7, len(t.bytes)):])
	}
	w.c.count("texts overwritten", 1)
}

var someScopeKinds = []scope.Kind{scope.Unknown, scope.Comment, scope.InnerComment, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func, "own"}

// someLine is a line, mostly a small one.
func someLine(r *rand.Rand) int {
	if r.IntN(3) != 0 {
		return r.IntN(9)
	}
	return []int{-1, -2, -70, 1 << 8, 1 << 16, 1 << 20, 1 << 31, 1 << 40, -1 << 35}[r.IntN(9)] + r.IntN(3)
}

// ownScope is another implementation of the interface.
type ownScope struct{ goast.Scope }

func (s ownScope) Copy() goast.Scope { return ownScope{s.Scope.Copy()} }

// made is a scope that doesn't come from a parsed text.
func (w *world) made() *mscope {
	k := someScopeKinds[w.r.IntN(len(someScopeKinds))]
	t := []string{"\n", "var", " ", sprintf("added%d", w.r.IntN(99)), " = ", "1", "\n"}
	t = t[:1+w.r.IntN(len(t))]
	w.note("scope %d := NewScope(%q, NewNodes(%q))", len(w.scopes), string(k), t)
	w.c.count("scopes made", 1)
	sc := goast.NewScope(someLine(w.r), k, goast.NewNodes(someLine(w.r), t...))
	if w.r.IntN(3) == 0 {
		w.note("its type is the caller's own")
		w.c.count("scopes of the caller's type", 1)
		sc = ownScope{sc}
	}
	s := w.addScope(sc)
	for i := range t { // the caller's list as well
		t[i] = "?"
	}
	return s
}

// views makes an ast of scopes that are views of the same nodes and copies it.
func (w *world) views() {
	p := w.packageScope()
	if p == nil || w.failed {
		return
	}
	l := []goast.Scope{p.s}
	for range 2 + w.r.IntN(4) {
		m := w.scopes[w.r.IntN(len(w.scopes))]
		if w.r.IntN(2) == 0 && len(l) > 1 { // over the nodes of the last one again
			l = append(l, goast.NewScope(w.r.IntN(50), someScopeKinds[w.r.IntN(len(someScopeKinds))], l[len(l)-1].Node()))
			continue
		}
		n, _ := w.nodeOf(m)
		l = append(l, goast.NewScope(w.r.IntN(50), someScopeKinds[w.r.IntN(len(someScopeKinds))], n))
	}
	w.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	a, err := goast.NewAst(l...)
	if err != nil {
		w.fail("error", "NewAst: %v", err)
		return
	}
	before := snapScopes(l)
	b := a.Copy()
	if d := diffSnaps(before, snapScopes(b.Scope()), 0); d != "" {
		w.fail("views", "the copy of an ast with several scopes over the same nodes differs: %s", d)
		return
	}
	for _, s := range b.Scope() {
		s.Node().SetText("copy")
		s.Node().InsertNext(goast.NewNode(1, "x"))
		s.Node().InsertPrev(goast.NewNode(1, "y"))
	}
	if d := diffSnaps(before, snapScopes(a.Scope()), 0); d != "" {
		w.fail("views", "edits of a copy of an ast with several scopes over the same nodes reach it: %s", d)
	}
	w.c.count("copies of views", 1)
}

func (w *world) someList(n int) []*mscope {
	out := make([]*mscope, n)
	for i := range out {
		out[i] = w.scopes[w.r.IntN(len(w.scopes))]
	}
	return out
}

func (w *world) packageScope() *mscope {
	for _, i := range w.r.Perm(len(w.scopes)) {
		if w.scopes[i].snap.kind == scope.Package {
			return w.scopes[i]
		}
	}
	return nil
}

// raw makes a slice of scopes with some spare capacity behind it.
func (w *world) raw(list []*mscope) []goast.Scope {
	l := make([]goast.Scope, 0, len(list)+w.r.IntN(4))
	for _, m := range list {
		l = append(l, m.s)
	}
	return l
}

func (w *world) nos(list []*mscope) []int {
	out := make([]int, len(list))
	for i, m := range list {
		out[i] = w.scopeNo(m)
	}
	return out
}

func (w *world) pickAst() *mast { return w.asts[w.r.IntN(len(w.asts))] }

// step makes one random operation and puts its effect into the model.
func (w *world) step() {
	r := w.r
	switch r.IntN(17) {
	case 15:
		if len(w.texts) > 0 {
			w.again()
		}
	case 16:
		if len(w.texts) > 0 {
			w.overwrite()
		}
	case 0: // a new ast of a list
		list := w.someList(r.IntN(6))
		if p := w.packageScope(); p != nil {
			list = slices.Insert(list, r.IntN(len(list)+1), p)
		} else {
			return
		}
		l := w.raw(list)
		w.note("ast %d := NewAst(%v, cap %d)", len(w.asts), w.nos(list), cap(l))
		a, err := goast.NewAst(l...)
		if err != nil {
			w.fail("error", "NewAst: %v", err)
			return
		}
		w.asts = append(w.asts, &mast{a: a, list: slices.Clone(list)})
		w.lists = append(w.lists, &mlist{l, list})
		w.c.count("new asts", 1)
	case 1: // SetScope
		a := w.pickAst()
		list := w.someList(r.IntN(6))
		l := w.raw(list)
		w.note("ast %d := ast.SetScope(%v, cap %d)", len(w.asts), w.nos(list), cap(l))
		b := a.a.SetScope(l)
		w.asts = append(w.asts, &mast{a: b, list: slices.Clone(list), file: a.file})
		w.lists = append(w.lists, &mlist{l, list})
		w.c.count("set scopes", 1)
	case 2, 3: // AppendScope
		a := w.pickAst()
		list := w.someList(r.IntN(3))
		w.note("ast %d.AppendScope(%v)", slices.Index(w.asts, a), w.nos(list))
		a.a.AppendScope(w.raw(list)...)
		a.list = append(slices.Clone(a.list), list...)
		w.c.count("appended", 1)
	case 4: // copy of an ast
		a := w.pickAst()
		w.note("ast %d := ast %d.Copy()", len(w.asts), slices.Index(w.asts, a))
		b := a.a.Copy()
		got := b.Scope()
		if len(got) != len(a.list) {
			w.fail("copy", "the copy has %d scopes, the original %d", len(got), len(a.list))
			return
		}
		list := make([]*mscope, len(got))
		seen := map[*goast.Node]bool{}
		for i := range got {
			if d := diffSnap(a.list[i].snap, snapScope(got[i]), 0); d != "" {
				w.fail("copy", "scope %d of the copy differs: %s", i, d)
				return
			}
			// an ast may hold one scope twice; the copy may or may not do so too
			if n := got[i].Node(); n != nil && seen[n] {
				w.asts = append(w.asts, nil)
				w.asts = w.asts[:len(w.asts)-1]
				return
			} else {
				seen[n] = true
			}
			list[i] = w.addScope(got[i])
		}
		w.asts = append(w.asts, &mast{a: b, list: list, file: a.file})
		w.c.count("ast copies", 1)
	case 5: // copy of a scope
		m := w.scopes[r.IntN(len(w.scopes))]
		w.note("scope %d := scope %d.Copy()", len(w.scopes), w.scopeNo(m))
		s := m.s.Copy()
		if d := diffSnap(m.snap, snapScope(s), 0); d != "" {
			w.fail("copy", "the copy of scope %d differs: %s", w.scopeNo(m), d)
			return
		}
		w.addScope(s)
		w.c.count("scope copies", 1)
	case 6: // copy of a node with its neighbours, as a new scope
		m := w.scopes[r.IntN(len(w.scopes))]
		n, i := w.nodeOf(m)
		w.note("scope %d := copy of node %d of scope %d with its neighbours", len(w.scopes), i, w.scopeNo(m))
		cp := n.Copy(true)
		for range i {
			cp = cp.Prev()
		}
		if cp == nil {
			w.fail("copy", "the copy has not %d nodes before it", i)
			return
		}
		s := goast.NewScope(m.snap.line, m.snap.kind, cp)
		w.addScope(s)
		want := cloneSnap(m.snap)
		want.line = s.Line()
		if d := diffSnap(want, snapScope(s), 0); d != "" {
			w.fail("copy", "the copied chain differs: %s", d)
		}
		w.c.count("chain copies", 1)
	case 7: // copy of one node
		m := w.scopes[r.IntN(len(w.scopes))]
		n, i := w.nodeOf(m)
		w.note("copy of node %d of scope %d, edited", i, w.scopeNo(m))
		cp := n.Copy()
		if cp == n || cp.Next() != nil || cp.Prev() != nil || cp.Text() != n.Text() || cp.Kind() != n.Kind() || cp.Line() != n.Line() {
			w.fail("copy", "the copy of a node is not alone or differs")
		}
		cp.SetText("edited copy")
		cp.SetKind(kind.Raw)
		cp.InsertNext(goast.NewNode(1, "x"))
		cp.InsertPrev(goast.NewNode(1, "y"))
		w.c.count("node copies", 1)
	case 8: // the caller goes on with a list that was passed in
		if len(w.lists) == 0 {
			return
		}
		l := w.lists[r.IntN(len(w.lists))]
		m := w.scopes[r.IntN(len(w.scopes))]
		if len(l.l) > 0 && r.IntN(2) == 0 {
			i := r.IntN(len(l.l))
			w.note("list %d[%d] = scope %d", slices.Index(w.lists, l), i, w.scopeNo(m))
			l.l[i] = m.s
			l.want = slices.Clone(l.want)
			l.want[i] = m
		} else {
			w.note("list %d = append(list, scope %d)", slices.Index(w.lists, l), w.scopeNo(m))
			l.l = append(l.l, m.s)
			l.want = append(slices.Clone(l.want), m)
		}
		w.c.count("caller's edits", 1)
	case 9: // append to a list that was handed out
		a := w.pickAst()
		m := w.scopes[r.IntN(len(w.scopes))]
		w.note("append(ast %d.Scope(), scope %d)", slices.Index(w.asts, a), w.scopeNo(m))
		l := append(a.a.Scope(), m.s)
		w.lists = append(w.lists, &mlist{l, append(slices.Clone(a.list), m)})
		w.c.count("handed out lists", 1)
	default:
		w.edit(w.scopes[r.IntN(len(w.scopes))])
	}
	w.verify()
}

// nodeOf picks a node of a scope.
func (w *world) nodeOf(m *mscope) (*goast.Node, int) {
	i := w.r.IntN(len(m.snap.nodes))
	if w.prior && w.r.IntN(6) == 0 {
		i = 0
	}
	n := m.s.Node()
	for range i {
		n = n.Next()
	}
	return n, i
}

var editTexts = []string{"x", "foo", "\n", " ", "// edited\n", "/* e */", "\"s\"", "(", "func", "日本", "a.B", "", "var\r\n", "\r", "\x00", "\xff\xfe", "\ufeff", " \t ", "\n\n\n\n", "\u2028", "x\n\t \n"}

// edit changes one node of a scope, its first node stays in place.
func (w *world) edit(m *mscope) {
	n, i := w.nodeOf(m)
	if n == nil {
		w.fail("scope", "scope %d has no node %d", w.scopeNo(m), i)
		return
	}
	r := w.r
	w.c.count("edits", 1)
	nodes := slices.Clone(m.snap.nodes)
	switch op := r.IntN(7 + btoi(w.prior)); op {
	case 7:
		t := editTexts[r.IntN(len(editTexts))]
		w.note("scope %d node %d InsertPrev(%q)", w.scopeNo(m), i, t)
		line := someLine(r)
		n.InsertPrev(goast.NewNode(line, t, kind.Raw))
		if i == 0 {
			m.snap.prior = slices.Insert(slices.Clone(m.snap.prior), 0, nodeSnap{kind.Raw, line, t})
			w.c.count("nodes before a scope's first", 1)
			return
		}
		nodes = slices.Insert(nodes, i, nodeSnap{kind.Raw, line, t})
	case 0, 1:
		t := editTexts[r.IntN(len(editTexts))]
		w.note("scope %d node %d SetText(%q)", w.scopeNo(m), i, t)
		n.SetText(t)
		nodes[i].text = t
	case 2:
		k := someKinds[r.IntN(len(someKinds))]
		w.note("scope %d node %d SetKind(%s)", w.scopeNo(m), i, k)
		n.SetKind(k)
		nodes[i].kind = k
	case 3:
		t := editTexts[r.IntN(len(editTexts))]
		w.note("scope %d node %d InsertNext(%q)", w.scopeNo(m), i, t)
		line := someLine(r)
		nn := goast.NewNode(line, t, kind.Raw)
		n.InsertNext(nn)
		nodes = slices.Insert(nodes, i+1, nodeSnap{kind.Raw, line, t})
	case 4:
		w.note("scope %d node %d TakeNext", w.scopeNo(m), i)
		n.TakeNext()
		if i+1 < len(nodes) {
			nodes = slices.Delete(nodes, i+1, i+2)
		}
	case 5:
		if r.IntN(3) > 0 {
			return
		}
		w.note("scope %d node %d RemoveNext", w.scopeNo(m), i)
		n.RemoveNext()
		nodes = nodes[:i+1]
	case 6:
		w.note("scope %d node %d CombineNext(next)", w.scopeNo(m), i)
		if i+1 < len(nodes) {
			// Isolating the next node cuts the chain; put the rest behind again.
			x := n.Next()
			rest := x.Next()
			n.CombineNext(kind.Raw, x)
			n.ReplaceNext(rest)
			nodes[i].text += nodes[i+1].text
			nodes[i].kind = kind.Raw
			nodes = slices.Delete(nodes, i+1, i+2)
		}
	}
	m.snap.nodes = nodes
}

func newWorld(c *ctx, id string) *world {
	w := &world{c: c, id: id, r: newRand(c.seed, id), h: newHash()}
	list := w.parse()
	if len(list) == 0 {
		return w
	}
	if p := w.packageScope(); p != nil {
		a, err := goast.NewAst(w.raw(list)...)
		if err != nil {
			w.fail("error", "NewAst: %v", err)
			return w
		}
		w.asts = append(w.asts, &mast{a: a, list: list})
	}
	return w
}

func init() {
	register(&check{
		id: "C09", rule: "Histories of 40 random operations: building asts from lists with spare capacity, SetScope, AppendScope, copies of asts, scopes, chains and nodes, appending to and overwriting the caller's lists, appending to lists that were handed out, edits of nodes, parsing a text again, overwriting the bytes of a text that was parsed; half of the asts are parsed from files, half of these a second time after the file was rewritten. After each operation every ast, scope and list is compared with a model of which objects are shared. Distinct histories made distinct operations.",
		cases: func(e *env) []string {
			return append([]string{"long:0", "long:2"}, numbered("hist", e.scale(6000, 150000))...)
		},
		run:  runC09,
		must: []string{"ast copies", "scope copies", "chain copies", "node copies", "new asts", "set scopes", "appended", "caller's edits", "handed out lists", "edits", "nodes before a scope's first", "scopes made", "scopes of the caller's type", "copies of views", "texts parsed again", "texts overwritten", "files parsed again"},
	})
}

// longChain copies a chain of millions of nodes from the given node and follows both chains.
func longChain(c *ctx, id string) {
	const n = 12 << 20
	all := make([]*goast.Node, n)
	for i := range all {
		all[i] = goast.NewNode(i, "x")
		if i != 0 {
			all[i-1].ReplaceNext(all[i])
		}
	}
	_, arg := split(id)
	from := []int{0, n / 2, n - 1}[atoi(arg)%3]
	mid := all[from]
	all = nil
	cp := mid.Copy(true)
	c.count("long chain nodes", n)
	for _, side := range []struct {
		name string
		step func(*goast.Node) *goast.Node
		end  int
	}{{"next", (*goast.Node).Next, n}, {"prev", (*goast.Node).Prev, -1}} {
		a, b, i := mid, cp, from
		for a != nil && b != nil && a != b && a.Line() == b.Line() && a.Text() == b.Text() {
			if up := side.step(b); up != nil && up.Line() < b.Line() && up.Next() != b || up != nil && up.Line() > b.Line() && up.Prev() != b {
				c.fail(id, "long", "", "the links of the copy's node %d are not symmetric", i)
				return
			}
			if i++; side.end < 0 {
				i -= 2
			}
			a, b = side.step(a), side.step(b)
		}
		if a != nil || b != nil || i != side.end {
			c.fail(id, "long", "", "the copy of a chain of %d nodes differs from it at node %d on the way to %s", n, i, side.name)
			return
		}
	}
	c.distinct(1)
}

func runC09(c *ctx, id string) {
	if k, _ := split(id); k == "long" {
		longChain(c, id)
		return
	}
	w := newWorld(c, id)
	w.prior = true
	if w.r.IntN(2) == 0 {
		w.addFile()
	}
	for range 40 {
		if w.failed || len(w.asts) == 0 {
			break
		}
		if len(w.scopes) > 60 || len(w.asts) > 14 { // keep it small
			w.edit(w.scopes[w.r.IntN(len(w.scopes))])
			w.verify()
			continue
		}
		w.step()
	}
	if len(w.scopes) > 0 {
		w.views()
		w.verify()
	}
	c.distinct(uint64(w.h))
	c.sample(map[string]any{"case": id, "operations": w.log[:min(len(w.log), 10)]})
}

// addFile adds an ast that was parsed from a file.
func (w *world) addFile() {
	dir, err := os.MkdirTemp(w.c.scratch, "f")
	if err != nil {
		panic(harnessErr{err})
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "in.go")
	g := newGen(w.r.Uint64(), "file")
	g.tame = true
	src := "package p\n\n" + g.decl() + "\n"
	if _, ok := gofmt([]byte(src)); !ok {
		return
	}
	_ = os.WriteFile(path, []byte(src), 0o644)
	a, err := goast.ParseAst(path)
	if err != nil {
		w.fail("error", "ParseAst: %v", err)
		return
	}
	w.note("ast %d := ParseAst(file)", len(w.asts))
	w.asts = append(w.asts, &mast{a: a, list: w.addScopes(a.Scope()), file: [4]string{path, dir, "in.go", ".go"}})
	if w.r.IntN(2) == 0 {
		return
	}
	// something else is written into the file, which has the same size and time then
	info, err := os.Stat(path)
	if err != nil {
		panic(harnessErr{err})
	}
	other := strings.Replace(src, "package p", "package q", 1)
	if w.r.IntN(3) == 0 {
		other = src
	}
	if err := errors.Join(os.WriteFile(path, []byte(other), 0o644), os.Chtimes(path, info.ModTime(), info.ModTime())); err != nil {
		panic(harnessErr{err})
	}
	b, err := goast.ParseAst(path)
	if err != nil {
		w.fail("error", "ParseAst: %v", err)
		return
	}
	formatted, ok := gofmt([]byte(other))
	if !ok {
		return
	}
	want, err := goast.ParseScope(0, formatted)
	if err != nil {
		w.fail("error", "ParseScope: %v", err)
		return
	}
	if d := diffSnaps(snapScopes(want), snapScopes(b.Scope()), 0); d != "" {
		w.fail("again", "ParseAst of a file that was written again: %s", d)
		return
	}
	w.note("ast %d := ParseAst(file) again", len(w.asts))
	w.asts = append(w.asts, &mast{a: b, list: w.addScopes(b.Scope()), file: [4]string{path, dir, "in.go", ".go"}})
	w.verify()
	w.c.count("files parsed again", 1)
}

// ---- C02

func init() {
	register(&check{
		id: "C02", rule: "Generated programs and Go files of the machine are written in some other format, parsed from the file, edited by up to 12 random operations on nodes and scopes (none for a third of them), and saved over missing, longer and shorter files, the parsed file and files saved to before, which others may have changed since, in missing directories, with and without extension. The saved bytes are compared with go/format of the model's text (or the text itself if it is not valid Go). Distinct cases saved distinct contents.",
		cases: func(e *env) []string {
			return append(programs(e, "C02", e.scale(700, 1<<30), e.scale(5000, 150000)), append(numbered("hist", e.scale(8000, 250000)), "large:0", "large:3")...)
		},
		run:  runC02,
		must: []string{"saved unedited", "saved edited", "saved valid Go", "saved other text", "overwritten", "permissions", "symbolic links", "hard links", "directories made", "extension added", "saved again", "saved to a known file", "known files changed"},
	})
}

func (m *mast) text() []byte {
	var b bytes.Buffer
	for _, s := range m.list {
		b.WriteString(s.snap.text())
	}
	return b.Bytes()
}

// target prepares a place to save to; it returns the path to pass, the real one and what
// to look at afterwards.
// someFile is a name of a Go file without its extension, below a directory or not.
func someFile(r *rand.Rand) string {
	return []string{"out_test", "doc", "main", "out_windows", "out_linux_arm64", "_out", ".out", "zz_generated.out", "out.pb", "an out", "Out",
		"internal/out", "testdata/out", "cmd/v2/out_test", "vendor/x.y/p/out", "mock/Out_mock", "日/本", "-o", "%41%s", "a*b?", "o'u\"t", "con", "$HOME", "~"}[r.IntN(24)]
}

// someHead is what may come before a package clause and mean something to some tool.
func someHead(r *rand.Rand) string {
	return []string{"", "", "", "//go:build ignore\n\n", "// +build ignore\n\n", "// Code generated by x. DO NOT EDIT.\n\n", "// Code generated by x. DO NOT EDIT.\n", "// Copyright x.\n\n", "//go:generate x\n\n",
		"/*\n\tx\n*/\n", "//nolint\n\n", "// Package p.\n", "//line x.y:12\n"}[r.IntN(13)]
}

func (w *world) target(dir string) (string, string, func() string) {
	r := w.r
	path := filepath.Join(dir, sprintf("out%d", r.IntN(3)))
	if r.IntN(4) == 0 {
		path = filepath.Join(dir, sprintf("new%d", r.IntN(1000)), "deep er", "日本.x", "f")
		w.c.count("directories made", 1)
	}
	if r.IntN(4) == 0 {
		path = filepath.Join(dir, someFile(r))
	}
	real := path + ".go"
	after := func() string {
		if i, err := os.Stat(real); err != nil || i.Mode()&0o600 != 0o600 {
			return sprintf("the file made can't be used by its owner: %v, %v", i.Mode(), err)
		}
		if i, err := os.Stat(filepath.Dir(real)); err != nil || i.Mode()&0o700 != 0o700 {
			return sprintf("the directory can't be used by its owner: %v, %v", i.Mode(), err)
		}
		return ""
	}
	if len(w.known) > 0 && r.IntN(2) == 0 { // back to such a file, which others may have changed since
		real = w.known[r.IntN(len(w.known))]
		path = strings.TrimSuffix(real, ".go")
		old, err := os.ReadFile(real)
		i, err2 := os.Stat(real)
		if err != nil || err2 != nil {
			old = nil
		}
		w.c.count("saved to a known file", 1)
		switch r.IntN(5) {
		case 0:
			_ = os.Remove(real)
		case 1:
			_ = os.WriteFile(real, []byte("package others\n"), 0o644)
		case 2, 3:
			if len(old) == 0 {
				break
			}
			old[r.IntN(len(old))] ^= byte(1 + r.IntN(3))
			if os.WriteFile(real, old, 0o644) == nil && r.IntN(2) == 0 { // as if it were as before
				_ = os.Chtimes(real, i.ModTime(), i.ModTime())
			}
			w.c.count("known files changed", 1)
		}
		if r.IntN(2) == 0 {
			return path, real, after
		}
		return real, real, after
	}
	switch r.IntN(10) {
	case 0, 1:
		_ = os.MkdirAll(filepath.Dir(real), 0o777)
		_ = os.WriteFile(real, bytes.Repeat([]byte("// old content\n"), 20000), 0o644)
		w.c.count("overwritten", 1)
	case 2, 3:
		_ = os.MkdirAll(filepath.Dir(real), 0o777)
		_ = os.WriteFile(real, []byte("x"), 0o600)
		w.c.count("overwritten", 1)
	case 4: // permissions stay
		mode := []os.FileMode{0o600, 0o640, 0o660, 0o755, 0o777}[r.IntN(5)]
		_ = os.MkdirAll(filepath.Dir(real), 0o777)
		_ = os.Remove(real)
		_ = os.WriteFile(real, []byte("x"), 0o600)
		if os.Chmod(real, mode) != nil {
			break
		}
		w.c.count("overwritten", 1)
		w.c.count("permissions", 1)
		after = func() string {
			if i, err := os.Stat(real); err != nil || i.Mode() != mode {
				return sprintf("the file had permissions %v and has %v now (%v)", mode, i.Mode(), err)
			}
			return ""
		}
	case 5: // a symbolic link is followed, to a file or to where one can be made
		to := filepath.Join(dir, sprintf("behind%d", r.IntN(1000)))
		if r.IntN(2) == 0 {
			_ = os.WriteFile(to, []byte("package old\n"), 0o644)
			w.c.count("overwritten", 1)
		}
		_ = os.MkdirAll(filepath.Dir(real), 0o777)
		_ = os.Remove(real)
		if os.Symlink(to, real) != nil {
			break
		}
		w.c.count("symbolic links", 1)
		link := real
		real = to
		after = func() string {
			if got, err := os.Readlink(link); err != nil || got != to {
				return sprintf("the path was a symbolic link to %s and is %q now (%v)", to, got, err)
			}
			return ""
		}
		if r.IntN(2) == 0 {
			return path, real, after
		}
		return link, real, after
	case 6: // so is another name of the file
		other := filepath.Join(dir, sprintf("other%d", r.IntN(1000)))
		_ = os.MkdirAll(filepath.Dir(real), 0o777)
		_, _ = os.Remove(real), os.Remove(other)
		_ = os.WriteFile(other, []byte("package old\n"), 0o644)
		if os.Link(other, real) != nil {
			break
		}
		w.c.count("overwritten", 1)
		w.c.count("hard links", 1)
		after = func() string {
			a, _ := os.Stat(other)
			b, err := os.Stat(real)
			if err != nil || !os.SameFile(a, b) {
				return "the file had two names and has only one now"
			}
			return ""
		}
	}
	if r.IntN(2) == 0 {
		w.c.count("extension added", 1)
		return path, real, after
	}
	return real, real, after
}

// save saves the ast and compares.
func (w *world) save(a *mast, dir string, edited bool) {
	if w.failed {
		return
	}
	text := a.text()
	path, real, after := w.target(dir)
	before := listDir(dir)
	w.note("ast %d.Save(%q)", slices.Index(w.asts, a), path)
	var err error
	switch w.r.IntN(3) {
	case 0:
		err = a.a.Save(path, false)
	default:
		err = a.a.Save(path)
	}
	if len(text) == 0 {
		if err == nil {
			w.fail("empty", "saving an empty ast succeeds")
		}
		return
	}
	if err != nil {
		w.fail("error", "Save(%q): %v", path, err)
		return
	}
	want, ok := gofmt(text)
	if !ok {
		want = text
		w.c.count("saved other text", 1)
	} else {
		w.c.count("saved valid Go", 1)
	}
	got, err := os.ReadFile(real)
	if err != nil {
		w.fail("file", "%v", err)
		return
	}
	if !bytes.Equal(got, want) {
		w.log = append(w.log, "---- text of the ast", string(text))
		w.fail("bytes", "the file is not what the ast holds: %s", firstDiff(string(want), string(got)))
		return
	}
	if bad := after(); bad != "" {
		w.fail("kept", "Save(%q): %s", path, bad)
	}
	before[real] = true
	if strings.HasSuffix(real, ".go") && !slices.Contains(w.known, real) {
		w.known = append(w.known, real)
	}
	for p := range listDir(dir) {
		if !before[p] && !strings.HasPrefix(real, p) {
			w.fail("file", "Save(%q) made %s", path, p)
		}
	}
	if edited {
		w.c.count("saved edited", 1)
	} else {
		w.c.count("saved unedited", 1)
	}
	w.c.count("bytes saved", len(got))
	w.c.distinct(hashText(got))
	w.verify()
	if !ok || w.failed {
		return
	}
	// What was saved parses to what gofmt makes of it.
	back, err := goast.ParseAst(path)
	if r := newRef(want); r == nil {
		return
	}
	if err != nil {
		w.fail("parse", "ParseAst of the saved file: %v", err)
		return
	}
	again, ok := gofmt(want)
	if !ok || !bytes.Equal(again, want) {
		w.c.count("gofmt has no fixed point", 1)
		return
	}
	scs, err := goast.ParseScope(0, bytes.Clone(want))
	if err != nil {
		w.fail("parse", "ParseScope of the saved text: %v", err)
		return
	}
	if d := diffSnaps(snapScopes(scs), snapScopes(back.Scope()), 0); d != "" {
		w.fail("parse", "ParseAst of the saved file differs from ParseScope of its text: %s", d)
		return
	}
	if bytes.Equal(text, want) {
		// an ast that holds formatted text comes back as it is
		var all []scopeSnap
		for _, m := range a.list {
			all = append(all, m.snap)
		}
		if !edited {
			// the file lacks what was before the first scope
			if d := diffSnaps(all, snapScopes(scs), 1-all[0].line); d != "" {
				w.fail("parse", "the saved file parses to something else than what was saved: %s", d)
			}
		}
	}
}

func listDir(dir string) map[string]bool {
	out := map[string]bool{}
	_ = filepath.WalkDir(dir, func(p string, _ os.DirEntry, err error) error {
		if err == nil {
			out[p] = true
		}
		return nil
	})
	return out
}

func runC02(c *ctx, id string) {
	k, _ := split(id)
	w := &world{c: c, id: id, r: newRand(c.seed, "save"+id), h: newHash()}
	dir, err := os.MkdirTemp(c.scratch, "s")
	if err != nil {
		panic(harnessErr{err})
	}
	defer os.RemoveAll(dir)
	var raw []byte
	if k == "hist" {
		g := newGen(c.seed, id)
		g.tame = g.p(60)
		raw = []byte(someHead(g.r) + "package p\n\n" + g.decl() + "\n\n// c\n" + g.decl() + "\n")
	} else {
		raw, _ = rawText(c.env, id)
	}
	src, ok := gofmt(raw)
	if !ok {
		c.count("texts not valid Go", 1)
		return
	}
	r := newRef(src)
	if r == nil {
		return
	}
	in := filepath.Join(dir, "in.go")
	if w.r.IntN(4) == 0 {
		in = filepath.Join(dir, "from", someFile(w.r)+".go")
		if err := os.MkdirAll(filepath.Dir(in), 0o777); err != nil {
			panic(harnessErr{err})
		}
	}
	if k != "src" && w.r.IntN(2) == 0 { // some other format of the same program
		raw = deformat(src, w.r)
	}
	if src, ok = gofmt(raw); !ok { // what parsing the file has to see; gofmt is not always a fixed point
		return
	}
	if r = newRef(src); r == nil {
		return
	}
	if err := os.WriteFile(in, raw, 0o644); err != nil {
		panic(harnessErr{err})
	}
	a, err := goast.ParseAst(in)
	if err != nil {
		c.fail(id, "parse", string(raw), "ParseAst: %v", err)
		return
	}
	w.note("ParseAst of\n%s\n----", raw)
	m := &mast{a: a, list: w.addScopes(a.Scope()), file: [4]string{in, filepath.Dir(in), filepath.Base(in), ".go"}}
	w.asts = append(w.asts, m)
	if got, want := m.text(), src[r.start():]; !bytes.Equal(got, want) {
		c.fail(id, "text", string(raw), "the ast does not hold the formatted file: %s", firstDiff(string(want), string(got)))
		return
	}
	w.verify()
	w.save(m, dir, false)
	if got, err := os.ReadFile(in); err != nil || !bytes.Equal(got, raw) {
		w.fail("source", "saving elsewhere changed the file that was parsed (%v)", err)
	}
	w.known = append(w.known, in, in)
	for w.r.IntN(2) == 0 {
		w.save(m, dir, false)
	}
	if k != "hist" {
		return
	}
	for range 1 + w.r.IntN(2) {
		for range w.r.IntN(12) {
			if w.failed || len(w.scopes) == 0 {
				return
			}
			switch w.r.IntN(8) {
			case 0:
				list := w.someList(w.r.IntN(3))
				w.note("AppendScope(%v)", w.nos(list))
				m.a.AppendScope(w.raw(list)...)
				m.list = append(slices.Clone(m.list), list...)
			case 1:
				list := slices.Clone(m.list)
				if len(list) > 1 && w.r.IntN(2) == 0 {
					i := w.r.IntN(len(list))
					list = slices.Delete(list, i, i+1)
				} else {
					w.r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
				}
				w.note("SetScope(%v)", w.nos(list))
				m = &mast{a: m.a.SetScope(w.raw(list)), list: list, file: m.file}
				w.asts = append(w.asts, m)
			case 2:
				w.note("append a scope of NewNodes")
				ms := w.made()
				m.a.AppendScope(ms.s)
				m.list = append(slices.Clone(m.list), ms)
			default:
				w.edit(w.scopes[w.r.IntN(len(w.scopes))])
			}
			w.verify()
		}
		w.save(m, dir, true)
		c.count("saved again", 1)
	}
	c.sample(map[string]any{"case": id, "operations": w.log[1:min(len(w.log), 14)]})
}

// deformat changes spaces and newlines at tokens' borders.
func deformat(src []byte, r *rand.Rand) []byte {
	toks, ok := scanTokens(src)
	if !ok {
		return src
	}
	var b bytes.Buffer
	last := 0
	for _, t := range toks {
		gap := src[last:t.off]
		switch {
		case bytes.ContainsRune(gap, '\n'):
			b.Write(gap)
			if r.IntN(3) == 0 {
				b.WriteString([]string{"\t", "  ", "\t\t"}[r.IntN(3)])
			}
		case len(gap) > 0 && r.IntN(4) == 0:
			b.WriteString([]string{"  ", "\t", "   "}[r.IntN(3)])
		default:
			b.Write(gap)
		}
		b.Write(src[t.off:t.end])
		last = t.end
	}
	b.Write(src[last:])
	return b.Bytes()
}

// ---- C18

func init() {
	register(&check{
		id: "C18", rule: ruleFiles + " Each scope's text is parsed again alone, from its line. hist cases assemble asts of scopes from several programs in random order with NewAst, SetScope and AppendScope, iterate over them with early stops and save them.",
		cases: func(e *env) []string {
			return append(programs(e, "C18", e.scale(1200, 1<<30), e.scale(9000, 300000)), numbered("hist", e.scale(4000, 100000))...)
		},
		run:  runC18,
		must: []string{"scopes parsed alone", "asts assembled", "iterations stopped", "assembled asts saved", "asts without package refused"},
	})
}

func runC18(c *ctx, id string) {
	if k, _ := split(id); k == "hist" {
		runC18Hist(c, id)
		return
	}
	p := c.parse(id)
	if p == nil || p.ref.indented {
		return
	}
	c.tally(p)
	for i, s := range p.scs {
		want := snapScope(s)
		alone, err := goast.ParseScope(s.Line()-1, []byte(want.text()))
		if err != nil {
			c.fail(id, "error", string(p.src), "parsing the text of scope %d alone: %v", i, err)
			return
		}
		if len(alone) != 1 {
			c.fail(id, "alone", string(p.src), "the text of scope %d alone (%s) gives %d scopes", i, clip(want.text()), len(alone))
			return
		}
		if d := diffSnap(want, snapScope(alone[0]), 0); d != "" {
			c.fail(id, "alone", string(p.src), "scope %d parses differently alone: %s", i, d)
			return
		}
		c.count("scopes parsed alone", 1)
	}
	c.sample(map[string]any{"case": id, "scopes": len(p.scs)})
}

func runC18Hist(c *ctx, id string) {
	w := &world{c: c, id: id, r: newRand(c.seed, id), h: newHash()}
	dir, err := os.MkdirTemp(c.scratch, "a")
	if err != nil {
		panic(harnessErr{err})
	}
	defer os.RemoveAll(dir)
	for range 1 + w.r.IntN(3) {
		w.parse()
	}
	if len(w.scopes) == 0 {
		return
	}
	for range 6 {
		if w.failed {
			return
		}
		list := w.someList(w.r.IntN(8))
		hasPackage := false
		for _, m := range list {
			hasPackage = hasPackage || m.snap.kind == scope.Package
		}
		var m *mast
		w.note("assemble %v", w.nos(list))
		a, err := goast.NewAst(w.raw(list)...)
		switch {
		case !hasPackage:
			if err != goast.ErrNoPackage || a != nil {
				w.fail("package", "NewAst of scopes without a package clause returns %v, %v", a, err)
			}
			c.count("asts without package refused", 1)
			continue
		case err != nil:
			w.fail("error", "NewAst: %v", err)
			continue
		}
		m = &mast{a: a, list: list}
		if w.r.IntN(2) == 0 {
			more := w.someList(w.r.IntN(4))
			w.note("append %v", w.nos(more))
			a.AppendScope(w.raw(more)...)
			m.list = append(slices.Clone(m.list), more...)
		}
		if w.r.IntN(2) == 0 {
			l := w.someList(1 + w.r.IntN(6))
			w.note("set %v", w.nos(l))
			m = &mast{a: a.SetScope(w.raw(l)), list: l}
		}
		w.asts = []*mast{m}
		w.verify()
		c.count("asts assembled", 1)
		stop := w.r.IntN(len(m.list) + 2)
		var got []goast.Scope
		m.a.IterScope(func(s goast.Scope) bool {
			got = append(got, s)
			return len(got) < stop || len(got) > len(m.list)
		})
		if want := min(max(stop, 1), len(m.list)); len(got) != want {
			w.fail("iteration", "IterScope over %d scopes that is told to stop at the %d. visits %d", len(m.list), stop, len(got))
		}
		if stop < len(m.list) {
			c.count("iterations stopped", 1)
		}
		w.verifyList("the iteration", got, m.list[:min(len(got), len(m.list))])
		path := filepath.Join(dir, "o.go")
		if err := m.a.Save(path); err != nil {
			w.fail("error", "Save: %v", err)
			continue
		}
		text := m.text()
		want, ok := gofmt(text)
		if !ok {
			want = text
		}
		b, _ := os.ReadFile(path)
		if !bytes.Equal(b, want) {
			w.fail("bytes", "the assembled ast is not saved as its scopes' texts: %s", firstDiff(string(want), string(b)))
		}
		c.count("assembled asts saved", 1)
		w.verify()
	}
	c.distinct(uint64(w.h))
}
