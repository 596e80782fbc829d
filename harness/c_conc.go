package main

// C11: many goroutines, one ast. The check is built with the race detector.

import (
	"bytes"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/charset"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

func init() {
	register(&check{
		id: "C11", rule: "Built with Go's race detector. share cases: 2 to 12 goroutines start at a barrier and each run up to 16 random operations on one shared ast (reading accessors, iterating, describing, copying, saving to files of their own, parsing its file, making asts of its scopes and appending to them, appending to the list it hands out) mixed with parsing and classifying other texts and with editing and saving asts of their own, with random yields and delays between operations and under 1 to 8 processors. Each result is compared with that of a sequential run before; the shared ast is compared with its snapshot afterwards. cold cases do the same in a fresh process whose very first use of the library is concurrent, and compare with the sequential results of this process. det cases parse one text (valid or not) many times in sequence, with other texts between (some nested too deep), and at the same time, edit what they got and compare whose scopes and nodes these are. Goroutines that all stay blocked are reported as a deadlock. Distinct cases are interleavings: the merged order of the starts and ends of all operations, from each goroutine's own log.",
		cases: func(e *env) []string {
			l := append(numbered("share", e.scale(180, 16000)), numbered("det", e.scale(100, 8000))...)
			return append(l, numbered("cold", e.scale(24, 2000))...)
		},
		run:    runC11,
		serial: true,
		crash:  true,
		must:   []string{"race detector", "operations", "operations that overlapped another", "parse", "read", "iterate", "describe", "copy", "copy edit", "save", "own ast", "append handed out", "set scope", "classify", "parse file", "own edit", "determinism", "nodes of concurrent parses told apart", "nested too deep between", "cold processes"},
	})
}

type event struct {
	from, to int64
	op       string
}

var blockedState = regexp.MustCompile(`^goroutine \d+ \[(sync\.Mutex\.Lock|sync\.RWMutex\.R?Lock|semacquire|chan receive|chan send|select|select \(no cases\)|sync\.WaitGroup\.Wait|sync\.Cond\.Wait|chan receive \(nil chan\)|chan send \(nil chan\))[,\]]`)

// join waits for the goroutines of a case. It reports a deadlock if all that are left
// stay blocked.
func (c *ctx) join(id, text string, wg *sync.WaitGroup) bool {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	var last string
	still := 0
	for {
		select {
		case <-done:
			return true
		case <-time.After(15 * time.Second):
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		var stuck []string
		all := true
		for _, g := range strings.Split(string(buf), "\n\n") {
			if !strings.Contains(g, "main.(*crew).member") {
				continue
			}
			if !blockedState.MatchString(g) {
				all = false
			}
			// without the minutes of waiting
			stuck = append(stuck, regexp.MustCompile(`, \d+ minutes`).ReplaceAllString(g, ""))
		}
		sort.Strings(stuck)
		now := strings.Join(stuck, "\n\n")
		if all && len(stuck) > 0 && now == last {
			if still++; still >= 2 {
				c.fail(id, "deadlock", text, "%d goroutines are blocked for good:\n%s", len(stuck), clipN(now, 4000))
				return false
			}
		} else {
			still = 0
		}
		last = now
	}
}

// crew is the common part of the goroutines of a share case.
type crew struct {
	c      *ctx
	id     string
	dir    string
	path   string
	src    string
	shared goast.Ast
	list   []goast.Scope
	snaps  []scopeSnap
	acc    []answers
	desc   string
	pkg    string
	saved  []byte
	texts  [][]byte
	digest []uint64
	file   []scopeSnap // what the file of the shared ast holds
	start  chan struct{}
}

func (w *crew) fail(key, format string, a ...any) { w.c.fail(w.id, key, w.src, format, a...) }

func pause(r *rand.Rand) {
	switch r.IntN(8) {
	case 0, 1:
		runtime.Gosched()
	case 2:
		for range r.IntN(2000) {
			_ = r.Uint64()
		}
	case 3:
		time.Sleep(time.Duration(r.IntN(120)) * time.Microsecond)
	}
}

func (w *crew) member(me int, r *rand.Rand, n int, log *[]event, wg *sync.WaitGroup) {
	defer wg.Done()
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 8000)
			w.fail("panic", "panic in a goroutine: %v\n%s", p, buf[:runtime.Stack(buf, false)])
		}
	}()
	<-w.start
	for i := range n {
		pause(r)
		from := time.Now().UnixNano()
		op := w.act(me, i, r)
		*log = append(*log, event{from, time.Now().UnixNano(), op})
	}
}

func (w *crew) act(me, i int, r *rand.Rand) string {
	switch r.IntN(14) {
	case 0, 1:
		j := r.IntN(len(w.texts))
		scs, err := goast.ParseScope(0, w.texts[j])
		if err != nil || hashSnaps(snapScopes(scs)) != w.digest[j] {
			w.fail("parse", "parsing a text concurrently gives something else (%v)", err)
		}
		ownEdits(scs)
		return "parse"
	case 2:
		l := w.shared.Scope()
		for range 6 {
			j := r.IntN(len(l))
			if got := accessors(l[j]); got != w.acc[j] {
				w.fail("read", "accessors of scope %d: %v, sequentially %v", j, got, w.acc[j])
			}
		}
		if p, err := w.shared.Package(); err != nil || p != w.pkg {
			w.fail("read", "package name %q, %v", p, err)
		}
		if w.shared.File() != w.path || w.shared.Filename() != filepath.Base(w.path) {
			w.fail("read", "file %q", w.shared.File())
		}
		return "read"
	case 3:
		j := 0
		w.shared.IterScope(func(s goast.Scope) bool {
			if d := diffSnap(w.snaps[j], snapScope(s), 0); d != "" {
				w.fail("iterate", "scope %d: %s", j, d)
			}
			j++
			runtime.Gosched()
			return true
		})
		return "iterate"
	case 4:
		if d := w.shared.Description(); d != w.desc {
			w.fail("describe", "another description: %s", firstDiff(w.desc, d))
		}
		return "describe"
	case 5:
		cp := w.shared.Copy()
		if d := diffSnaps(w.snaps, snapScopes(cp.Scope()), 0); d != "" {
			w.fail("copy", "the copy differs: %s", d)
		}
		return "copy"
	case 6: // edit a copy, model it
		cp := w.shared.Copy()
		l := cp.Scope()
		want := make([]scopeSnap, len(l))
		for j := range l {
			want[j] = cloneSnap(w.snaps[j])
		}
		for k := range 8 {
			j := r.IntN(len(l))
			n := l[j].Node()
			p := r.IntN(len(want[j].nodes))
			for range p {
				n = n.Next()
			}
			t := sprintf("own%d", k)
			n.SetText(t)
			n.SetKind(kind.Raw)
			want[j].nodes[p].text, want[j].nodes[p].kind = t, kind.Raw
			n.InsertNext(goast.NewNode(k, " "))
			want[j].nodes = append(want[j].nodes[:p+1:p+1], append([]nodeSnap{{kind.Space, k, " "}}, want[j].nodes[p+1:]...)...)
			pause(r)
		}
		extra := goast.NewScope(1, scope.Comment, goast.NewNode(1, "// own"))
		cp.AppendScope(extra)
		want = append(want, snapScope(extra))
		if d := diffSnaps(want, snapScopes(cp.Scope()), 0); d != "" {
			w.fail("copy", "an edited copy holds something else: %s", d)
		}
		return "copy edit"
	case 7:
		if r.IntN(3) == 0 { // to one file; it is read when all are done
			if err := w.shared.Save(filepath.Join(w.dir, "common.go")); err != nil {
				w.fail("save", "Save to a common file: %v", err)
			}
			return "save to one file"
		}
		path := filepath.Join(w.dir, sprintf("g%d", me), sprintf("o%d.go", i))
		if err := w.shared.Save(path); err != nil {
			w.fail("save", "Save: %v", err)
			return "save"
		}
		if b, err := os.ReadFile(path); err != nil || !bytes.Equal(b, w.saved) {
			w.fail("save", "another file was saved (%v): %s", err, firstDiff(string(w.saved), string(b)))
		}
		return "save"
	case 8: // asts of their own made of the shared scopes
		a, err := goast.NewAst(w.list...)
		if err != nil {
			w.fail("own", "NewAst: %v", err)
			return "own ast"
		}
		return w.grow(a, me, r, "own ast")
	case 9:
		l := append(w.shared.Scope(), goast.NewScope(me, scope.Comment, goast.NewNode(me, sprintf("// %d", me))))
		pause(r)
		if s := l[len(l)-1]; s.Node().Text() != sprintf("// %d", me) {
			w.fail("own", "what was appended to the handed out list became %q", s.Node().Text())
		}
		return "append handed out"
	case 10:
		return w.grow(w.shared.SetScope(w.list), me, r, "set scope")
	case 11:
		for range 40 {
			s := vocabularySorted()[r.IntN(len(vocab))]
			if want, ok := wantKind(s); ok && kind.New(s) != want {
				w.fail("classify", "%q is %s", s, kind.New(s))
			}
			if charset.GolangKeywords.Contain("fünc") || !charset.GolangKeywords.Contain("func") {
				w.fail("classify", "keywords changed")
			}
		}
		return "classify"
	case 12:
		a, err := goast.ParseAst(w.path)
		if err != nil {
			w.fail("file", "ParseAst: %v", err)
			return "parse file"
		}
		if d := diffSnaps(w.file, snapScopes(a.Scope()), 0); d != "" {
			w.fail("file", "the file parses to something else: %s", d)
		}
		ownEdits(a.Scope())
		return "parse file"
	default: // an ast of their own from the beginning
		scs, err := goast.ParseScope(me%2, []byte("package q\n\nvar a = 1\n\nfunc f(x int) {}\n"))
		if err != nil || len(scs) != 3 {
			w.fail("own", "%d scopes, %v", len(scs), err)
			return "own edit"
		}
		a, err := goast.NewAst(scs...)
		if err != nil {
			w.fail("own", "NewAst: %v", err)
			return "own edit"
		}
		scs[1].Node().Next().Next().SetText("b")
		path := filepath.Join(w.dir, sprintf("own%d.go", me))
		if err := a.Save(path); err != nil {
			w.fail("own", "Save: %v", err)
		}
		if b, _ := os.ReadFile(path); string(b) != "package q\n\nvar b = 1\n\nfunc f(x int) {}\n" {
			w.fail("own", "an ast of its own was saved as %q", b)
		}
		return "own edit"
	}
}

// grow appends to an ast of the goroutine's own.
func (w *crew) grow(a goast.Ast, me int, r *rand.Rand, name string) string {
	n := 1 + r.IntN(3)
	for k := range n {
		a.AppendScope(goast.NewScope(k, scope.Comment, goast.NewNode(k, sprintf("// %d %d", me, k))))
		pause(r)
	}
	l := a.Scope()
	if len(l) != len(w.list)+n {
		w.fail("own", "an ast of %d scopes with %d more has %d", len(w.list), n, len(l))
		return name
	}
	for k := range n {
		if got, want := l[len(w.list)+k].Node().Text(), sprintf("// %d %d", me, k); got != want {
			w.fail("own", "goroutine %d appended %q to an ast of its own and finds %q", me, want, got)
		}
	}
	return name
}

func runC11(c *ctx, id string) {
	if raceOn {
		c.count("race detector", 1)
	}
	r := newRand(c.seed, id)
	procs := []int{1, 2, 4, 8, 8}[r.IntN(5)]
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
	if k, _ := split(id); k == "det" {
		runC11Det(c, id, r)
		return
	} else if k == "cold" {
		runC11Cold(c, id, r)
		return
	}
	dir, clean := c.tempDir()
	defer clean()
	g := newGen(c.seed, id)
	g.tame = g.p(70)
	raw := ""
	for len(raw) == 0 || len(raw) > 3000 {
		raw = "package p\n\n" + g.decl() + "\n\n" + g.decl() + "\n\nfunc (t *T) m(a int) string { return \"x\" }\n"
	}
	src, ok := gofmt([]byte(raw))
	if !ok {
		return
	}
	again, ok := gofmt(src)
	if !ok || !bytes.Equal(again, src) {
		return
	}
	w := &crew{c: c, id: id, dir: dir, path: filepath.Join(dir, "in.go"), src: string(src), start: make(chan struct{})}
	mustWrite(w.path, string(src))
	var err error
	if w.shared, err = goast.ParseAst(w.path); err != nil {
		c.fail(id, "sequential", w.src, "ParseAst: %v", err)
		return
	}
	// The sequential results come from another ast, so that nothing of the shared one has
	// been looked at before the goroutines start.
	twin, err := goast.ParseAst(w.path)
	must(err)
	w.file = snapScopes(twin.Scope())
	if r.IntN(2) == 0 { // an ast that was appended to has a list with spare capacity
		s := goast.NewScope(0, scope.Comment, goast.NewNode(0, "// end"))
		w.shared.AppendScope(s)
		twin.AppendScope(s.Copy())
	}
	w.snaps = snapScopes(twin.Scope())
	for _, s := range twin.Scope() {
		w.acc = append(w.acc, accessors(s))
	}
	w.desc = twin.Description()
	w.pkg, _ = twin.Package()
	w.list = make([]goast.Scope, 0, len(w.snaps)+8)
	w.list = append(w.list, w.shared.Scope()...)
	seq := filepath.Join(dir, "seq.go")
	if err := twin.Save(seq); err != nil {
		c.fail(id, "sequential", w.src, "Save: %v", err)
		return
	}
	w.saved, err = os.ReadFile(seq)
	must(err)
	for range 3 {
		t := []byte(newGen(r.Uint64(), "other").fragment())
		if len(t) > 2500 {
			t = t[:2500]
		}
		scs, _ := goast.ParseScope(0, t)
		w.texts = append(w.texts, t)
		w.digest = append(w.digest, hashSnaps(snapScopes(scs)))
	}
	members := 2 + r.IntN(11)
	logs := make([][]event, members)
	var wg sync.WaitGroup
	for me := range members {
		wg.Add(1)
		go w.member(me, newRand(r.Uint64(), "member"), 4+r.IntN(13), &logs[me], &wg)
	}
	close(w.start)
	if !c.join(id, w.src, &wg) {
		return
	}
	if d := diffSnaps(w.snaps, snapScopes(w.shared.Scope()), 0); d != "" {
		w.fail("changed", "the shared ast changed: %s", d)
	}
	if b, err := os.ReadFile(filepath.Join(dir, "common.go")); err == nil && !bytes.Equal(b, w.saved) {
		w.fail("save", "all who saved to one file saved the same, and it holds something else: %s", firstDiff(string(w.saved), string(b)))
	}
	c.interleaving(id, logs)
}

// interleaving counts what ran at the same time and notes the order of all starts and ends.
func (c *ctx) interleaving(id string, logs [][]event) {
	type mark struct {
		at  int64
		who int
		op  string
	}
	var marks []mark
	n, over := 0, 0
	for i, l := range logs {
		for _, e := range l {
			n++
			c.count(e.op, 1)
			marks = append(marks, mark{e.from, i, "+" + e.op}, mark{e.to, i, "-" + e.op})
			for j, m := range logs {
				if j != i && overlaps(e, m) {
					over++
					break
				}
			}
		}
	}
	sort.SliceStable(marks, func(i, j int) bool { return marks[i].at < marks[j].at })
	h := newHash()
	for _, m := range marks {
		h.num(m.who)
		h.str(m.op)
	}
	c.distinct(uint64(h))
	c.count("operations", n)
	c.count("operations that overlapped another", over)
	c.sample(map[string]any{"case": id, "goroutines": len(logs), "operations": n, "overlapping": over})
}

func overlaps(e event, l []event) bool {
	i := sort.Search(len(l), func(i int) bool { return l[i].to > e.from })
	return i < len(l) && l[i].from < e.to
}

func runC11Det(c *ctx, id string, r *rand.Rand) {
	raw := mutant(c.env, id)
	if r.IntN(2) == 0 {
		raw = []byte(newGen(c.seed, id).file())
	}
	if len(raw) > 3000 {
		raw = raw[:3000]
	}
	line := r.IntN(3)
	parse := func() (uint64, []goast.Scope) {
		scs, err := goast.ParseScope(line, bytes.Clone(raw))
		if err != nil {
			return 1, nil
		}
		h := newHash()
		h.num(int(hashSnaps(snapScopes(scs))))
		for _, s := range scs {
			for _, a := range accessors(s) {
				h.str(a)
			}
		}
		return uint64(h), scs
	}
	digest := func() uint64 { d, _ := parse(); return d }
	want := digest()
	for range 4 {
		// what is parsed between leaves no trace, also if it is refused
		between := mutant(c.env, id+"between")
		if r.IntN(16) == 0 {
			between = []byte("var x = " + strings.Repeat([]string{"(", "{", "({"}[r.IntN(3)], maxNesting) + []string{"\"a", "`a`", "/* a", "// a\n", "'a'", "(", "{"}[r.IntN(7)])
			c.count("nested too deep between", 1)
		}
		_, _ = goast.ParseScope(r.IntN(9), between)
		if digest() != want {
			c.fail(id, "determinism", string(raw), "parsing the same text again gives another result")
			return
		}
	}
	members := 2 + r.IntN(7)
	logs := make([][]event, members)
	var wg sync.WaitGroup
	start := make(chan struct{})
	bad := make([]bool, members)
	got := make([][]goast.Scope, members)
	for me := range members {
		wg.Add(1)
		go (&crew{}).memberDet(parse, want, start, &bad[me], &got[me], &logs[me], &wg)
	}
	close(start)
	if !c.join(id, string(raw), &wg) {
		return
	}
	for _, b := range bad {
		if b {
			c.fail(id, "determinism", string(raw), "parsing the same text at the same time gives another result")
			return
		}
	}
	// every call has made scopes and nodes of its own
	owned := map[any]bool{}
	for _, scs := range got {
		for _, s := range scs {
			if owned[s] {
				c.fail(id, "shared", string(raw), "two calls of ParseScope with the same text give the same scope")
				return
			}
			owned[s] = true
			for n := s.Node(); n != nil; n = n.Next() {
				if owned[n] {
					c.fail(id, "shared", string(raw), "two calls of ParseScope with the same text give the same node")
					return
				}
				owned[n] = true
			}
		}
	}
	c.count("nodes of concurrent parses told apart", len(owned))
	c.interleaving(id, logs)
}

// ownEdits changes nodes, which nobody else may use.
func ownEdits(scs []goast.Scope) {
	for _, s := range scs {
		for n := s.Node(); n != nil; n = n.Next() {
			n.SetText(n.Text())
			n.SetKind(n.Kind())
		}
	}
}

func (w *crew) memberDet(parse func() (uint64, []goast.Scope), want uint64, start chan struct{}, bad *bool, got *[]goast.Scope, log *[]event, wg *sync.WaitGroup) {
	defer wg.Done()
	defer func() {
		if recover() != nil { // it would have panicked before too
			*bad = true
		}
	}()
	<-start
	for range 4 {
		from := time.Now().UnixNano()
		d, scs := parse()
		if d != want {
			*bad = true
		}
		ownEdits(scs)
		*got = append(*got, scs...)
		*log = append(*log, event{from, time.Now().UnixNano(), "determinism"})
	}
}

// ---- cold starts

// coldSpec is what the goroutines of a fresh process do at once.
type coldSpec struct {
	Dir     string
	Path    string
	Texts   []string
	Members [][]string // operations of each goroutine
	Procs   int
}

// coldOp runs one operation and returns what it gave.
func coldOp(s *coldSpec, op, out string) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = sprintf("panic: %v", p)
		}
	}()
	name, arg := split(op)
	text := s.Texts[atoi(arg)%len(s.Texts)]
	h := newHash()
	switch name {
	case "parse":
		scs, err := goast.ParseScope(0, []byte(text))
		h.num(int(hashSnaps(snapScopes(scs))))
		for _, s := range scs {
			for _, a := range accessors(s) {
				h.str(a)
			}
			h.str(s.Description())
		}
		return sprintf("%x %v", uint64(h), err)
	case "classify":
		for _, w := range vocab {
			h.str(kind.New(w)[1])
		}
		for _, k := range someKinds {
			l, ok := k.GetClose()
			h.str(sprintf("%v %v %s", l, ok, k))
		}
		for _, k := range []scope.Kind{scope.Package, scope.Comment, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func, scope.Unknown} {
			h.str(k.ToKind()[1] + k.String())
		}
		return sprintf("%x", uint64(h))
	case "charset":
		for _, w := range vocab {
			h.str(sprintf("%v%v%v", charset.GolangKeywords.Contain(w), charset.GolangBasicType.Contain(w), len(w) == 1 && charset.GolangSymbol.Contain(w[0])))
		}
		return sprintf("%x", uint64(h))
	case "file":
		a, err := goast.ParseAst(s.Path)
		if err != nil {
			return err.Error()
		}
		p, err := a.Package()
		h.str(a.Copy().Description())
		return sprintf("%x %s %v", uint64(h), p, err)
	case "save":
		a, err := goast.ParseAst(s.Path)
		if err != nil {
			return err.Error()
		}
		if err := a.Save(out, atoi(arg)%2 == 0); err != nil {
			return err.Error()
		}
		b, err := os.ReadFile(out)
		return sprintf("%q %v", b, err)
	case "nodes":
		n := goast.NewNodes(3, text, "func", " ", "f", "(", ")")
		n.IterNext(func(n *goast.Node) bool { h.str(n.Description()); return true })
		sc := goast.NewScope(3, scope.Func, n)
		h.str(sc.Copy().Description())
		return sprintf("%x", uint64(h))
	}
	return "?"
}

// runCold lets the goroutines start at once, in a process that has not used the library yet.
func runCold(s *coldSpec) [][2]string {
	runtime.GOMAXPROCS(s.Procs)
	results := make([][][2]string, len(s.Members))
	start := make(chan struct{})
	var ready, wg sync.WaitGroup
	for i, ops := range s.Members {
		ready.Add(1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			<-start
			for j, op := range ops {
				results[i] = append(results[i], [2]string{op, coldOp(s, op, filepath.Join(s.Dir, sprintf("cold%d_%d.go", i, j)))})
			}
		}()
	}
	ready.Wait()
	close(start)
	wg.Wait()
	var out [][2]string
	for _, r := range results {
		out = append(out, r...)
	}
	return out
}

func runC11Cold(c *ctx, id string, r *rand.Rand) {
	dir, clean := c.tempDir()
	defer clean()
	s := &coldSpec{Dir: dir, Path: filepath.Join(dir, "in.go"), Procs: []int{2, 4, 8, 8}[r.IntN(4)]}
	g := newGen(c.seed, id)
	g.tame = true
	src := ""
	for len(src) == 0 || len(src) > 3000 {
		b, ok := gofmt([]byte("package p\n\n" + g.decl() + "\n\nfunc (t *T) m(a int) string { return \"x\" }\n"))
		if ok {
			src = string(b)
		}
	}
	mustWrite(s.Path, src)
	for range 3 {
		t := newGen(r.Uint64(), "other").fragment()
		s.Texts = append(s.Texts, t[:min(len(t), 2500)])
	}
	members := 2 + r.IntN(7)
	names := []string{"parse", "parse", "classify", "charset", "file", "save", "nodes"}
	first := names[r.IntN(len(names))]
	h := newHash()
	for range members {
		var ops []string
		for k := range 1 + r.IntN(4) {
			name := names[r.IntN(len(names))]
			if k == 0 && r.IntN(2) == 0 {
				name = first // many begin with the same
			}
			ops = append(ops, sprintf("%s:%d", name, r.IntN(6)))
			h.str(ops[k])
		}
		h.num(0)
		s.Members = append(s.Members, ops)
	}
	out, err := c.helper(helpSpec{Do: "cold", Cold: s})
	if c.helperDied(id, src, err) {
		return
	}
	c.count("cold processes", 1)
	for _, res := range out.Cold {
		want := coldOp(s, res[0], filepath.Join(dir, "seq.go"))
		c.count("cold operations", 1)
		if want != res[1] {
			c.fail(id, "cold", src, "%s gave %s among the first concurrent operations of a process, sequentially %s", res[0], clipN(res[1], 300), clipN(want, 300))
			return
		}
	}
	c.distinct(uint64(h))
}
