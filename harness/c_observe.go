package main

// C17: looking at asts, scopes and nodes changes nothing and shows what is there.

import (
	"bytes"
	"log/slog"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"syscall"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/scope"
)

func init() {
	register(&check{
		id: "C17", rule: "Generated programs and fragments, Go files of the machine, mutilated texts and edited asts: a full snapshot (kinds, lines, texts, links, identities of nodes, lists of scopes), all accessors, descriptions and saved bytes are taken first; then 30 random observers run in random order (accessors, iteration with early stops, First and Last, descriptions, copies, saving, package name, with debug output off and on), after each the snapshot has to be the same, and each observer has to answer the same every time. Descriptions are compared with ones built from the snapshot; debug cases parse with debug output on and off and compare; print cases run Print in a process of its own and compare what it writes. Distinct texts observed.",
		cases: func(e *env) []string {
			out := programs(e, "C17", e.scale(400, 8000), e.scale(2500, 60000))
			out = append(out, numbered("frag", e.scale(600, 15000))...)
			out = append(out, numbered("mut", e.scale(1500, 40000))...)
			out = append(out, numbered("debug", e.scale(300, 6000))...)
			return append(out, append(numbered("print", e.scale(6, 200)), numbered("quiet", e.scale(12, 300))...)...)
		},
		run:  runC17,
		must: []string{"observers run", "descriptions compared", "saves compared", "observed edited", "observed again after an edit", "debug output", "printed", "quiet texts"},
	})
}

// visible makes white space visible.
func visible(s string) string {
	var b strings.Builder
	for i := range len(s) {
		switch s[i] {
		case '\n':
			b.WriteString("\\n")
		case '\r', ' ':
			b.WriteString("·")
		case '\t':
			b.WriteString(" -> ")
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func describeNode(n nodeSnap) string {
	return sprintf("%d .... %s .... *Node.%s", n.line+1, visible(n.text), n.kind[1])
}

var scopeNames = map[scope.Kind]string{scope.Unknown: "Unknown", scope.Package: "Package", scope.Comment: "Comment", scope.InnerComment: "InnerComment",
	scope.Import: "Import", scope.Variable: "Variable", scope.Const: "Const", scope.Type: "Type", scope.Func: "Func"}

func describeScope(s scopeSnap) string {
	return sprintf("%d .... *Scope.%s", s.line, scopeNames[s.kind])
}

// debugLock keeps the debug switch, which is one for the whole process, from changing
// while others work.
var debugLock sync.RWMutex

// silence sends what the process prints on its standard output to nowhere.
var silence = sync.OnceFunc(func() {
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(harnessErr{err})
	}
	os.Stdout = f
})

type watched struct {
	scs   []goast.Scope
	snaps []scopeSnap
	nodes [][]*goast.Node
	front [][]*goast.Node // in front of the scopes, nearest first
	texts [][]nodeSnap    // of those
	ast   goast.Ast
}

func watch(scs []goast.Scope, a goast.Ast) *watched {
	w := &watched{scs: scs, snaps: snapScopes(scs), ast: a}
	for _, s := range scs {
		var l []*goast.Node
		for n := s.Node(); n != nil; n = n.Next() {
			l = append(l, n)
		}
		w.nodes = append(w.nodes, l)
		f, t := inFront(s)
		w.front, w.texts = append(w.front, f), append(w.texts, t)
	}
	return w
}

// inFront lists the nodes in front of a scope's first.
func inFront(s goast.Scope) (nodes []*goast.Node, snaps []nodeSnap) {
	for n := s.Node().Prev(); n != nil; n = n.Prev() {
		nodes = append(nodes, n)
		snaps = append(snaps, nodeSnap{n.Kind(), n.Line(), n.Text()})
	}
	return nodes, snaps
}

// changed compares everything with how it was.
func (w *watched) changed() string {
	for i, s := range w.scs {
		if d := diffSnap(w.snaps[i], snapScope(s), 0); d != "" {
			return sprintf("scope %d: %s", i, d)
		}
		f, t := inFront(s)
		if !slices.Equal(f, w.front[i]) || !slices.Equal(t, w.texts[i]) {
			return sprintf("scope %d: the nodes in front of its first are other ones", i)
		}
		prev := s.Node().Prev()
		j := 0
		for n := s.Node(); n != nil; n = n.Next() {
			if n != w.nodes[i][j] || n.Prev() != prev {
				return sprintf("scope %d: node %d is another one or linked otherwise", i, j)
			}
			prev = n
			j++
		}
	}
	if w.ast != nil {
		l := w.ast.Scope()
		if len(l) != len(w.scs) {
			return sprintf("the ast has %d scopes, it had %d", len(l), len(w.scs))
		}
		for i := range l {
			if l[i] != w.scs[i] && diffSnap(w.snaps[i], snapScope(l[i]), 0) != "" {
				return sprintf("scope %d of the ast is another one", i)
			}
		}
	}
	return ""
}

type answers [6]string

func accessors(s goast.Scope) answers {
	var out answers
	for i, f := range []func() (string, bool){s.GetTypeName, s.GetStructName, s.GetInterfaceName, s.GetFuncName, s.GetMethodName, s.GetMethodReceiver} {
		v, ok := f()
		out[i] = sprintf("%q %v", v, ok)
	}
	return out
}

func runC17(c *ctx, id string) {
	silence()
	switch k, _ := split(id); k {
	case "print":
		runPrint(c, id)
		return
	case "debug":
		runDebug(c, id)
		return
	case "quiet":
		runQuietCase(c, id)
		return
	}
	debugLock.RLock()
	defer debugLock.RUnlock()
	raw, ok := rawText(c.env, id)
	if !ok {
		return
	}
	c.observe(id, raw)
}

func (c *ctx) observe(id string, raw []byte) {
	r := newRand(c.seed, "observe"+id)
	if len(raw) > 30000 {
		raw = raw[:30000]
	}
	line := r.IntN(4)
	scs, err := goast.ParseScope(line, bytes.Clone(raw))
	if err != nil || len(scs) == 0 {
		return
	}
	if r.IntN(3) == 0 { // something that no parser makes
		for _, s := range scs {
			editSome(r, s.Node(), r.IntN(12))
		}
		c.count("observed edited", 1)
	}
	a, _ := goast.NewAst(scs...) // nil without a package clause
	dir := ""
	if a != nil {
		var err error
		if dir, err = os.MkdirTemp(c.scratch, "o"); err != nil {
			panic(harnessErr{err})
		}
		defer os.RemoveAll(dir)
	}
	steps := 30
	if len(raw) > 8000 {
		steps = 12
	}
	if !c.observeRound(id, raw, r, scs, a, dir, steps) {
		return
	}
	// What was seen before must not be what is shown after an edit.
	for range r.IntN(3) {
		for range 1 + r.IntN(3) {
			s := scs[r.IntN(len(scs))]
			editSome(r, s.Node(), r.IntN(20))
		}
		if a != nil && r.IntN(3) == 0 {
			more, err := goast.ParseScope(line, []byte("// more\n\nfunc (m *More) f() {}\n"))
			must(err)
			a.AppendScope(more...)
			scs = a.Scope()
		}
		c.count("observed again after an edit", 1)
		if !c.observeRound(id, raw, r, scs, a, dir, steps/2) {
			return
		}
	}
	c.distinct(hashText(raw))
	c.sample(map[string]any{"case": id, "scopes": len(scs)})
}

// editSome changes the chain at the i-th node from the first.
func editSome(r *rand.Rand, n *goast.Node, i int) {
	for range i {
		n = n.Next()
	}
	if n == nil {
		return
	}
	op := r.IntN(6)
	if op == 5 { // in front of the scope, that is not in it
		n.First().InsertPrev(goast.NewNode(r.IntN(1000), editTexts[r.IntN(len(editTexts))]))
		return
	}
	if op != 1 {
		n.SetText(editTexts[r.IntN(len(editTexts))])
	}
	if op != 2 {
		n.SetKind(someKinds[r.IntN(len(someKinds))])
	}
	if op > 2 {
		n.InsertNext(goast.NewNode(r.IntN(1000), editTexts[r.IntN(len(editTexts))]))
	}
}

// rebuilt is a scope made anew of the same line, kind and nodes.
func rebuilt(s goast.Scope) goast.Scope {
	var first, last *goast.Node
	for n := s.Node(); n != nil; n = n.Next() {
		m := goast.NewNode(n.Line(), n.Text(), n.Kind())
		if first == nil {
			first = m
		} else {
			last.ReplaceNext(m)
		}
		last = m
	}
	return goast.NewScope(s.Line(), s.Kind(), first)
}

// observeRound runs random observers and returns whether all is well.
func (c *ctx) observeRound(id string, raw []byte, r *rand.Rand, scs []goast.Scope, a goast.Ast, dir string, steps int) bool {
	w := watch(scs, a)
	acc := make([]answers, len(scs))
	for i, s := range scs {
		acc[i] = accessors(s)
	}
	bad := func(what, format string, args ...any) {
		c.fail(id, what, string(raw), format, args...)
	}
	if d := w.changed(); d != "" {
		bad("accessors", "the accessors changed something: %s", d)
		return false
	}
	var wantAst strings.Builder
	for i := range scs {
		wantAst.WriteString(describeScope(w.snaps[i]))
		for _, n := range w.snaps[i].nodes {
			wantAst.WriteString(describeNode(n))
		}
	}
	for i, s := range scs {
		if want := accessors(rebuilt(s)); acc[i] != want {
			bad("accessors", "the accessors of scope %d answer %v, those of a scope made of the same nodes %v", i, acc[i], want)
			return false
		}
	}
	pkg, pkgErr := "", error(nil)
	var saved []byte
	if a != nil {
		pkg, pkgErr = a.Package()
		if again, err := goast.NewAst(scs...); (err == nil) != (pkgErr == nil) {
			bad("package", "the package name is %q, %v; making an ast of the same scopes gives the error %v", pkg, pkgErr, err)
			return false
		} else if err == nil {
			if want, wantErr := again.Package(); want != pkg || wantErr != pkgErr {
				bad("package", "the package name is %q, %v, of an ast made of the same scopes %q, %v", pkg, pkgErr, want, wantErr)
				return false
			}
		}
	}
	for range steps {
		i := r.IntN(len(scs))
		s, snap := scs[i], w.snaps[i]
		j := r.IntN(len(snap.nodes))
		n := w.nodes[i][j]
		op := r.IntN(11)
		switch op {
		case 0:
			if got := accessors(s); got != acc[i] {
				bad("accessors", "the accessors of scope %d answered %v, now %v", i, acc[i], got)
				return false
			}
		case 1:
			if got, want := s.Description(), describeScope(snap); got != want {
				bad("description", "scope %d describes itself as %q, expected %q", i, got, want)
				return false
			}
			c.count("descriptions compared", 1)
		case 2:
			if got, want := n.Description(), describeNode(snap.nodes[j]); got != want {
				bad("description", "node %d of scope %d describes itself as %q, expected %q", j, i, got, want)
				return false
			}
			c.count("descriptions compared", 1)
		case 3:
			if a != nil {
				got := strings.ReplaceAll(a.Description(), "\n", "")
				if got != strings.ReplaceAll(wantAst.String(), "\n", "") {
					bad("description", "the ast's description is not that of its scopes and nodes in order: %s", firstDiff(wantAst.String(), got))
					return false
				}
				c.count("descriptions compared", len(snap.nodes))
			}
		case 4:
			stop := r.IntN(len(snap.nodes) + 1)
			seen := 0
			s.Node().IterNext(func(*goast.Node) bool { seen++; return seen <= stop })
			n.IterPrev(func(*goast.Node) bool { seen--; return seen > stop })
		case 5:
			first := w.nodes[i][0]
			if f := w.front[i]; len(f) != 0 {
				first = f[len(f)-1]
			}
			if n.First() != first || n.Last() != w.nodes[i][len(w.nodes[i])-1] {
				bad("ends", "First or Last of node %d of scope %d is wrong", j, i)
				return false
			}
		case 6:
			cp := s.Copy()
			if d := diffSnap(snap, snapScope(cp), 0); d != "" {
				bad("copy", "a copy of scope %d differs: %s", i, d)
				return false
			}
		case 7:
			n.Copy()
			n.Copy(true)
			_, _, _ = n.Kind(), n.Line(), n.Text()
		case 8:
			if a != nil {
				a.Copy()
				a.IterScope(func(goast.Scope) bool { return r.IntN(4) > 0 })
				_, _, _, _ = a.File(), a.Dir(), a.Filename(), a.Ext()
			}
		case 9:
			if a != nil {
				if p, err := a.Package(); p != pkg || err != pkgErr {
					bad("package", "the package name was %q, %v, now %q, %v", pkg, pkgErr, p, err)
					return false
				}
			}
		case 10:
			if a == nil || len(w.text()) == 0 {
				break
			}
			path := filepath.Join(dir, "o.go")
			if err := a.Save(path, false); err != nil {
				bad("save", "Save: %v", err)
				return false
			}
			b, err := os.ReadFile(path)
			if err != nil {
				bad("save", "Save reports success: %v", err)
				return false
			}
			if saved != nil && !bytes.Equal(saved, b) {
				bad("save", "the ast was saved as something else than the last time: %s", firstDiff(string(saved), string(b)))
				return false
			}
			saved = b
			c.count("saves compared", 1)
		}
		c.count("observers run", 1)
		if d := w.changed(); d != "" {
			bad("changed", "observer %d changed something: %s", op, d)
			return false
		}
	}
	return true
}

func (w *watched) text() string { return textOf(w.snaps) }

// runQuietCase lets a process of its own work without printing; it must write nothing.
func runQuietCase(c *ctx, id string) {
	var texts []string
	for i := range 60 {
		g := newGen(c.seed, sprintf("%s %d", id, i))
		switch i % 6 {
		case 0:
			texts = append(texts, g.fragment())
		case 1:
			texts = append(texts, string(mutant(c.env, sprintf("%s %d", id, i))))
		case 2: // far down
			texts = append(texts, strings.Repeat(g.pick("\n", "// a\n", "/* a\nb */\n\n"), g.n(1<<g.n(14)))+g.file())
		case 3:
			texts = append(texts, string(bigText(sprintf("big:%d", g.n(len(bigParts)*2)))))
		default:
			texts = append(texts, g.file())
		}
	}
	dir, clean := c.tempDir()
	defer clean()
	out, err := c.helper(helpSpec{Do: "quiet", Texts: texts, Dir: dir})
	if c.helperDied(id, "", err) {
		return
	}
	if out.Str != "" {
		c.fail(id, "quiet", "", "%s", out.Str)
	}
	for _, t := range texts {
		c.distinct(hashText([]byte(t)))
	}
	c.count("quiet texts", len(texts))
}

// runQuiet runs in the helper process: its standard output and error are a file.
func runQuiet(texts []string, dir string) string {
	f, err := os.Create(filepath.Join(dir, "output"))
	if err != nil {
		panic(err)
	}
	out, _ := syscall.Dup(1)
	defer func() { _ = syscall.Dup2(out, 1) }()
	_ = syscall.Dup2(int(f.Fd()), 1)
	_ = syscall.Dup2(int(f.Fd()), 2)
	os.Stdout, os.Stderr = os.NewFile(1, "stdout"), os.NewFile(2, "stderr")
	slog.SetDefault(slog.New(slog.NewTextHandler(os.Stderr, nil)))
	written := func() string {
		b, _ := os.ReadFile(f.Name())
		_ = f.Truncate(0)
		_, _ = f.Seek(0, 0)
		return string(b)
	}
	for i, t := range texts {
		// Debug output comes when it is on, and only then.
		helper.DebugPrint("never shown", i)
		if s := written(); s != "" {
			return sprintf("DebugPrint writes %q while debug output is off", s)
		}
		if i%7 == 3 {
			helper.SetDebug(true)
			helper.DebugPrint("shown", i)
			helper.SetDebug(false)
			if s := written(); !strings.Contains(s, sprintf("shown %d", i)) {
				return sprintf("DebugPrint writes %q while debug output is on", s)
			}
		}
		path := filepath.Join(dir, "in.go")
		if err := os.WriteFile(path, []byte(t), 0o644); err != nil {
			panic(err)
		}
		src, valid := gofmt([]byte(t))
		if valid { // gofmt may break comments so that its own result is invalid
			_, valid = gofmt(src)
		}
		a, err := goast.ParseAst(path)
		if s := written(); s != "" {
			return sprintf("ParseAst writes %q to the process's output, of %s", clip(s), clip(t))
		}
		scs, _ := goast.ParseScope([]int{0, 1, 3, -7, -100000, 1 << 12, 1 << 20, 1 << 40}[i%8], []byte(t))
		for _, s := range scs {
			accessors(s)
			_ = s.Copy().Description()
			s.Node().IterNext(func(n *goast.Node) bool {
				_, _, _, _ = n.Text(), n.Kind(), n.Description(), n.Copy()
				return true
			})
		}
		if s := written(); s != "" {
			return sprintf("ParseScope or reading writes %q to the process's output, of %s", clip(s), clip(t))
		}
		if err != nil || !valid {
			continue
		}
		_ = a.Description()
		_, _ = a.Copy().Package()
		if b, err := goast.NewAst(scs...); err == nil {
			b.AppendScope(a.Scope()...)
			_, _ = b.SetScope(scs).Package()
		}
		a.IterScope(func(goast.Scope) bool { return true })
		if err := a.Save(filepath.Join(dir, "new", "out.go"), false); err != nil {
			return sprintf("Save: %v", err)
		}
		if s := written(); s != "" {
			return sprintf("Save writes %q to the process's output, of %s", clip(s), clip(t))
		}
	}
	return ""
}

// runDebug compares parsing with debug output on and off.
func runDebug(c *ctx, id string) {
	g := newGen(c.seed, id)
	raw := []byte(g.file())
	if g.p(40) {
		raw = mutant(c.env, id)
	}
	if len(raw) > 6000 {
		raw = raw[:6000]
	}
	debugLock.RLock()
	off, err := goast.ParseScope(0, bytes.Clone(raw))
	want := snapScopes(off)
	debugLock.RUnlock()

	debugLock.Lock()
	defer debugLock.Unlock()
	helper.SetDebug(true)
	defer helper.SetDebug(false)
	on, err2 := goast.ParseScope(0, bytes.Clone(raw))
	if d := diffSnaps(want, snapScopes(on), 0); d != "" || (err == nil) != (err2 == nil) {
		c.fail(id, "debug", string(raw), "with debug output the text parses otherwise (%v, %v): %s", err, err2, d)
		return
	}
	for i := range off {
		if a, b := accessors(off[i]), accessors(on[i]); a != b {
			c.fail(id, "debug", string(raw), "with debug output the accessors of scope %d say %v, without it %v", i, b, a)
		}
	}
	c.count("debug output", 1)
	c.observe(id, raw)
}

func runPrint(c *ctx, id string) {
	g := newGen(c.seed, id)
	g.tame = true
	raw := []byte("package p\n\n" + g.decl() + "\n\n/* c */\n")
	scs, err := goast.ParseScope(2, bytes.Clone(raw))
	if err != nil || len(raw) > 20000 {
		return
	}
	out, err := c.helper(map[string]any{"do": "print", "text": string(raw)})
	if c.helperDied(id, string(raw), err) {
		return
	}
	pos := 0
	next := func(what string) bool {
		i := strings.Index(out.Stderr[pos:], what)
		if i < 0 || strings.Trim(out.Stderr[pos:pos+i], " \t\n") != "" {
			c.fail(id, "print", string(raw), "printing writes %q where %q is expected", clip(out.Stderr[pos:]), what)
			return false
		}
		pos += i + len(what)
		c.count("printed", 1)
		return true
	}
	for _, s := range snapScopes(scs) {
		if !next(describeScope(s)) {
			return
		}
		for _, n := range s.nodes {
			if !next(describeNode(n)) {
				return
			}
		}
	}
	if out.Str != "" {
		c.fail(id, "changed", string(raw), "printing changed something: %s", out.Str)
	}
	c.distinct(hashText(raw))
}
