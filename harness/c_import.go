package main

// C16: saving with import handling.

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

func init() {
	register(&check{
		id: "C16", rule: "Generated programs that refer to a random choice of 40 standard packages through expressions, types, embedded fields, generics and nested functions, importing a random choice of them (plainly, renamed, blank, with a dot, doubled, in groups, single declarations or not at all, with comments), with local names that shadow packages and package names in comments, literals, fields and labels, and names that another file of the directory declares; half of them reach their content by appending scopes to a parsed ast, some replace or drop the import scope. Each is saved with and without import handling; the imports of the file are compared with what the construction makes necessary, everything else with what gofmt makes of the text. Distinct contents.",
		cases: func(e *env) []string {
			return append(append([]string{"line:0"}, numbered("imp", e.scale(2500, 40000))...), numbered("bad", e.scale(600, 10000))...)
		},
		run:    runC16,
		must:   []string{"saved with imports", "imports added", "imports removed", "imports kept", "renamed kept", "renamed removed", "blank kept", "dot kept", "shadowed names", "large files", "other target names", "names of another file", "unprocessable written as it is", "saved without a package clause", "saved without import handling"},
		assume: []string{"golang.org/x/tools/imports of the module cache chooses among standard packages by their exported names"},
	})
}

type stdPkg struct {
	path, name string
	exprs      []string // with % for the name of the package
	types      []string
}

var stdPkgs = []stdPkg{
	{"fmt", "fmt", []string{`%.Sprintf("%%d", 1)`, `%.Errorf("x")`}, []string{"%.Stringer", "%.State"}},
	{"strings", "strings", []string{`%.ToUpper("a")`, `%.Fields("a b")`}, []string{"%.Builder", "*%.Reader"}},
	{"os", "os", []string{`%.Getenv("A")`, `%.Args`}, []string{"*%.File", "%.FileMode"}},
	{"bytes", "bytes", []string{`%.NewBufferString("a")`, `%.MinRead`}, []string{"%.Buffer"}},
	{"sort", "sort", []string{`%.SearchInts(nil, 1)`}, []string{"%.IntSlice"}},
	{"strconv", "strconv", []string{`%.Itoa(1)`, `%.IntSize`}, []string{"*%.NumError"}},
	{"errors", "errors", []string{`%.New("a")`}, nil},
	{"time", "time", []string{`%.Now()`, `%.Second`}, []string{"%.Duration", "*%.Timer"}},
	{"sync", "sync", []string{`%.OnceFunc(nil)`}, []string{"%.Mutex", "%.WaitGroup"}},
	{"sync/atomic", "atomic", []string{`%.AddInt32(nil, 1)`}, []string{"%.Int64"}},
	{"path/filepath", "filepath", []string{`%.Join("a", "b")`, `%.ListSeparator`}, []string{"%.WalkFunc"}},
	{"net/http", "http", []string{`%.StatusText(200)`, `%.MethodGet`}, []string{"%.Handler", "*%.Request"}},
	{"net/url", "url", []string{`%.QueryEscape("a")`}, []string{"%.URL"}},
	{"net/mail", "mail", []string{`%.ParseAddressList`}, []string{"%.AddressParser"}},
	{"encoding/json", "json", []string{`%.Valid(nil)`, `%.NewDecoder(nil)`}, []string{"%.RawMessage"}},
	{"encoding/hex", "hex", []string{`%.EncodedLen(1)`}, []string{"%.InvalidByteError"}},
	{"encoding/base64", "base64", []string{`%.StdEncoding`}, []string{"%.CorruptInputError"}},
	{"encoding/csv", "csv", []string{`%.ErrFieldCount`}, []string{"%.ParseError"}},
	{"encoding/gob", "gob", []string{`%.NewEncoder(nil)`}, []string{"%.GobEncoder"}},
	{"regexp", "regexp", []string{`%.MustCompile("a")`}, []string{"*%.Regexp"}},
	{"bufio", "bufio", []string{`%.NewScanner(nil)`, `%.ScanLines`}, []string{"%.SplitFunc"}},
	{"io", "io", []string{`%.EOF`, `%.MultiReader()`}, []string{"%.Reader", "%.Writer"}},
	{"io/fs", "fs", []string{`%.ValidPath("a")`}, []string{"%.WalkDirFunc"}},
	{"context", "context", []string{`%.Background()`}, []string{"%.Context", "%.CancelFunc"}},
	{"math", "math", []string{`%.Sqrt(2)`, `%.MaxInt32`}, nil},
	{"math/big", "big", []string{`%.NewRat(1, 2)`}, []string{"%.Int"}},
	{"math/bits", "bits", []string{`%.OnesCount(1)`, `%.UintSize`}, nil},
	{"math/cmplx", "cmplx", []string{`%.Phase(1)`}, nil},
	{"unicode", "unicode", []string{`%.IsUpper('a')`, `%.MaxASCII`}, []string{"*%.RangeTable"}},
	{"unicode/utf8", "utf8", []string{`%.RuneCountInString("a")`, `%.UTFMax`}, nil},
	{"container/heap", "heap", []string{`%.Fix`}, []string{"%.Interface"}},
	{"reflect", "reflect", []string{`%.TypeOf(1)`}, []string{"%.Kind"}},
	{"runtime", "runtime", []string{`%.NumGoroutine()`, `%.GOOS`}, []string{"%.MemStats"}},
	{"log", "log", []string{`%.Lshortfile`, `%.Prefix()`}, nil},
	{"flag", "flag", []string{`%.NArg()`}, []string{"%.FlagSet"}},
	{"html", "html", []string{`%.UnescapeString("a")`}, nil},
	{"compress/gzip", "gzip", []string{`%.BestSpeed`}, nil},
	{"archive/tar", "tar", []string{`%.TypeDir`}, []string{"%.Header"}},
	{"crypto/sha256", "sha256", []string{`%.Sum256(nil)`, `%.BlockSize`}, nil},
	{"hash/crc32", "crc32", []string{`%.ChecksumIEEE(nil)`}, nil},
	{"text/tabwriter", "tabwriter", []string{`%.AlignRight`}, nil},
	{"go/token", "token", []string{`%.NewFileSet()`}, []string{"%.FileSet"}},
	{"os/exec", "exec", []string{`%.LookPath("a")`}, []string{"*%.Cmd"}},
	{"os/signal", "signal", []string{`%.NotifyContext`}, nil},
}

type importSpec struct{ name, path string }

func (s importSpec) String() string {
	if s.name == "" {
		return strconv.Quote(s.path)
	}
	return s.name + " " + strconv.Quote(s.path)
}

type impGen struct {
	*gen
	want   map[importSpec]bool
	counts map[string]int
	other  string // what another file of the package declares
}

func (g *impGen) ref(name string, p stdPkg) string {
	sub := func(s string) string {
		return strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(s, "%%", "\x00"), "%", name), "\x00", "%")
	}
	id := g.fresh() + "_" + strconv.Itoa(g.n(1000000))
	if len(p.types) > 0 && g.p(45) {
		t := sub(p.types[g.n(len(p.types))])
		return g.pick(
			"var "+id+" "+t+"\n",
			"type "+id+" struct {\n\ta int\n\t"+t+"\n}\n",
			"type "+id+" struct {\n\tf map[string]"+t+" `json:\"f\"`\n}\n",
			"func "+id+"(a int, x "+t+") {}\n",
			"func "+id+"() (r []"+t+") { return }\n",
			"type "+id+"[T any] interface {\n\tM(x func("+t+"), y T)\n}\n",
			"func "+id+"[T interface{ F("+t+") }](T) {}\n",
			"type "+id+" = "+t+"\n",
			"func (r *"+id+"T) m(..."+t+") {}\n\ntype "+id+"T int\n",
		)
	}
	e := sub(p.exprs[g.n(len(p.exprs))])
	return g.pick(
		"var "+id+" = "+e+"\n",
		"func "+id+"() { _ = "+e+" }\n",
		"func "+id+"() {\n\tfor i := range 3 {\n\t\tgo func() {\n\t\t\tswitch x := any("+e+").(type) {\n\t\t\tdefault:\n\t\t\t\t_, _ = x, i\n\t\t\t}\n\t\t}()\n\t}\n}\n",
		"var "+id+" = map[string]any{\n\t\"k\": []any{"+e+"}, // comment\n}\n",
		"func "+id+"() any {\n\tdefer func() { _ = "+e+" }()\n\treturn struct{ a any }{a: "+e+"}\n}\n",
		"func "+id+"() {\nloop:\n\tfor {\n\t\t_ = "+e+"\n\t\tbreak loop\n\t}\n}\n",
	)
}

// noise mentions a package that isn't meant.
func (g *impGen) noise(p stdPkg) string {
	g.counts["shadowed names"]++
	id := g.fresh() + "_" + strconv.Itoa(g.n(1000000))
	return g.pick(
		"// "+p.name+".Foo is mentioned only.\nvar "+id+" int\n",
		"var "+id+" = \""+p.name+".X()\" + `"+p.name+".Y`\n",
		"func "+id+"() {\n\tvar "+p.name+" struct{ F int }\n\t_ = "+p.name+".F\n}\n",
		"func "+id+"("+p.name+" interface{ G() }) { "+p.name+".G() }\n",
		"func ("+p.name+" *"+id+"T) m() { _ = "+p.name+".f }\n\ntype "+id+"T struct{ f int }\n",
		"func "+id+"(x struct{ "+p.name+" struct{ G int } }) int { return x."+p.name+".G }\n",
		"func "+id+"() {\n\tfor _, "+p.name+" := range []struct{ Z int }{} {\n\t\t_ = "+p.name+".Z\n\t}\n}\n",
		"func "+id+"() {\n"+p.name+":\n\tfor {\n\t\tbreak "+p.name+"\n\t}\n}\n",
		"type "+id+" struct{ "+p.name+" int }\n\nvar _ = "+id+"{"+p.name+": 1}\n",
		"/* "+p.name+".Q */\nconst "+id+" = 1\n",
	)
}

// program makes import declarations and the declarations that need some of them.
func (g *impGen) program() (head, imports string, decls []string) {
	g.want = map[importSpec]bool{}
	var specs []importSpec
	perm := g.r.Perm(len(stdPkgs))
	n := 1 + g.n(7)
	shadow := g.p(12)
	g.other = ""
	if g.p(20) { // names that the package declares in another file of the directory
		for _, i := range perm[n+1:][:1+g.n(2)] {
			p := stdPkgs[i]
			decls = append(decls, g.ref(p.name, stdPkg{p.path, p.name, p.exprs, nil}))
			g.other += g.pick("var "+p.name+" struct{ Any int }\n", "var "+p.name+" = make(T)\n", "const "+p.name+" = 1\n", "var (\n\ta int\n\t"+p.name+" *T\n)\n")
			g.counts["names of another file"]++
		}
	}
	for _, i := range perm[:n] {
		p := stdPkgs[i]
		used := func(name string) {
			for range 1 + g.n(2) {
				decls = append(decls, g.ref(name, p))
			}
		}
		switch g.n(9) {
		case 0, 1: // missing
			used(p.name)
			g.want[importSpec{"", p.path}] = true
			g.counts["imports added"]++
		case 2, 3: // there and used
			used(p.name)
			specs = append(specs, importSpec{"", p.path})
			g.want[importSpec{"", p.path}] = true
			g.counts["imports kept"]++
		case 4, 5: // there and not used
			specs = append(specs, importSpec{"", p.path})
			g.counts["imports removed"]++
			if g.p(40) {
				decls = append(decls, g.noise(p))
			}
		case 6:
			alias := g.pick("x", "my", "std", "_") + p.name
			used(alias)
			specs = append(specs, importSpec{alias, p.path})
			g.want[importSpec{alias, p.path}] = true
			g.counts["renamed kept"]++
		case 7:
			specs = append(specs, importSpec{"un" + p.name, p.path})
			g.counts["renamed removed"]++
		case 8:
			specs = append(specs, importSpec{"_", p.path})
			g.want[importSpec{"_", p.path}] = true
			g.counts["blank kept"]++
		}
	}
	if g.p(10) { // the rest of a dot import can't be told apart from what is missing
		g.want[importSpec{".", "embed"}] = true
		specs = append(specs, importSpec{".", "embed"})
		g.counts["dot kept"]++
	}
	if shadow {
		decls = append(decls, g.noise(stdPkgs[perm[n]]))
	}
	for range g.n(3) {
		decls = append(decls, g.pick("// free comment\n", "/* block */\n", "const k"+strconv.Itoa(g.n(1000000))+" = 1 // trailing\n", "//go:noinline\nfunc f"+strconv.Itoa(g.n(1000000))+"() {}\n", "func init() {}\n"))
	}
	for range g.n(2) { // texts that look like something else
		say := g.pick("import \"C\"", "import \"unsafe\"", "import (", "package main", "Code generated by x. DO NOT EDIT.", "go:build ignore", "goimports:ignore", "nolint:goimports", "#include <stdio.h>", "func init() {}", ")", "import _ \"embed\"",
			"cgo", "C.x", "go:embed x.txt", "go:linkname a b", "line x.go:1", "gofmt:off", "+build ignore", "import . \"fmt\"", "want \"x\"", "Output:", "TODO", "BUG(x): y", "Deprecated: x", "export f", "\\", "%!s(MISSING)", "\\x00", "<nil>")
		n := strconv.Itoa(g.n(1000000))
		decls = append(decls, g.pick("// "+say+"\n", "// Not "+say+".\nvar v"+n+" int\n", "/*\n"+say+"\n*/\n", "const s"+n+" = `\n"+say+"\n`\n", "func f"+n+"() {\n\t// "+say+"\n\t_ = "+strconv.Quote(say)+"\n}\n", "type t"+n+" struct {\n\ta int // "+say+"\n}\n"))
		g.counts["misleading texts"]++
	}
	if g.p(2) { // a large file
		decls = append(decls, "/* "+strings.Repeat("large ", 1<<(10+g.n(10)))+"*/\n")
		g.counts["large files"]++
	}
	g.r.Shuffle(len(decls), func(i, j int) { decls[i], decls[j] = decls[j], decls[i] })
	g.r.Shuffle(len(specs), func(i, j int) { specs[i], specs[j] = specs[j], specs[i] })
	var b strings.Builder
	for len(specs) > 0 {
		k := 1 + g.n(len(specs))
		if k == 1 && g.p(50) {
			b.WriteString("import " + specs[0].String() + g.pick("", " // of an import") + "\n\n")
		} else {
			b.WriteString("import (\n")
			for _, s := range specs[:k] {
				b.WriteString("\t" + s.String() + "\n" + g.pick("", "", "", "\n"))
			}
			b.WriteString(")\n\n")
		}
		specs = specs[k:]
	}
	head = someHead(g.r)
	if strings.HasPrefix(head, "//line") { // see lineDirective
		head = ""
	}
	name := "p"
	if g.other == "" {
		name = g.pick("p", "p", "main", "v2", "p_test", "documentation", "_p", "strings", "C", "été")
	}
	head += "package " + name + "\n\n"
	return head, b.String(), decls
}

func runC16(c *ctx, id string) {
	k, _ := split(id)
	dir, clean := c.tempDir()
	defer clean()
	g := &impGen{gen: newGen(c.seed, id), counts: map[string]int{}}
	g.tame = true
	name := "out.go"
	if g.p(40) {
		name = someFile(g.r) + ".go"
		g.counts["other target names"]++
	}
	path := filepath.Join(dir, name)
	if k == "line" {
		c.lineDirective(id, path)
		return
	}
	if k == "bad" {
		c.unprocessable(id, g, path)
		return
	}
	head, imps, decls := g.program()
	body := strings.Join(decls, "\n")
	text := head + imps + body
	var a goast.Ast
	build := func(s string) goast.Ast {
		scs, err := goast.ParseScope(0, []byte(s))
		must(err)
		a, err := goast.NewAst(scs...)
		must(err)
		return a
	}
	switch g.n(4) {
	case 0, 1:
		a = build(text)
	case 2: // the declarations come in one after the other
		a = build(head + imps)
		for _, d := range decls {
			scs, err := goast.ParseScope(0, []byte("\n"+d))
			must(err)
			if len(scs) > 0 {
				a.AppendScope(scs...)
			}
		}
	case 3: // from a file, imports put in by hand
		mustWrite(filepath.Join(dir, "sub", "in.go"), head+body)
		var err error
		if a, err = goast.ParseAst(filepath.Join(dir, "sub", "in.go")); err != nil {
			c.fail(id, "parse", text, "ParseAst: %v", err)
			return
		}
		add, err := goast.ParseScope(0, []byte(imps))
		must(err)
		l := a.Scope()
		i := slices.IndexFunc(l, func(s goast.Scope) bool { return s.Kind() == scope.Package })
		a = a.SetScope(slices.Concat(l[:i+1], add, l[i+1:]))
	}
	text = textOf(snapScopes(a.Scope()))
	plain, ok := gofmt([]byte(text))
	if !ok {
		c.count("generator made something else", 1)
		return
	}
	if again, ok := gofmt(plain); !ok || !bytes.Equal(again, plain) {
		c.count("gofmt has no fixed point", 1)
		return
	}
	if err := a.Save(path, false); err != nil {
		c.fail(id, "save", text, "Save: %v", err)
		return
	}
	if b, _ := os.ReadFile(path); !bytes.Equal(b, plain) {
		c.fail(id, "plain", text, "without import handling something else is saved: %s", firstDiff(string(plain), string(b)))
		return
	}
	c.count("saved without import handling", 1)
	if g.p(50) {
		must(os.Remove(path))
	}
	if g.other != "" {
		mustWrite(filepath.Join(filepath.Dir(path), g.pick("a", "zz")+".go"), "package p\n\n"+g.other)
	}
	given := path
	if g.p(30) {
		given = strings.TrimSuffix(path, ".go")
	}
	if err := a.Save(given, true); err != nil {
		c.fail(id, "save", text, "Save: %v", err)
		return
	}
	got, err := os.ReadFile(path)
	if err != nil {
		c.fail(id, "target", text, "Save reports success: %v", err)
		return
	}
	x, err := parser.ParseFile(token.NewFileSet(), "x.go", plain, parser.ParseComments)
	must(err)
	y, err := parser.ParseFile(token.NewFileSet(), "x.go", got, parser.ParseComments)
	if err != nil {
		c.fail(id, "invalid", text, "saved with import handling the file is not valid: %v", err)
		return
	}
	have := map[importSpec]bool{}
	for _, s := range y.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		n := ""
		if s.Name != nil {
			n = s.Name.Name
		}
		if have[importSpec{n, p}] {
			c.fail(id, "double", text, "%s is imported twice", importSpec{n, p})
		}
		have[importSpec{n, p}] = true
	}
	if w, h := specList(g.want), specList(have); w != h {
		c.fail(id, "imports", text, "the saved file imports %s, needed are %s", h, w)
		return
	}
	if w, h := restOf(x, plain), restOf(y, got); w != h {
		c.fail(id, "rest", text, "import handling changes something else: %s", firstDiff(w, h))
		return
	}
	if f, ok := gofmt(got); !ok || !bytes.Equal(f, got) {
		c.fail(id, "format", text, "the saved file is not formatted")
		return
	}
	for k, n := range g.counts {
		c.count(k, n)
	}
	c.count("saved with imports", 1)
	c.distinct(hashText(plain))
	c.sample(map[string]any{"case": id, "imports": specList(g.want)})
}

func specList(m map[importSpec]bool) string {
	var l []string
	for s := range m {
		l = append(l, s.String())
	}
	sort.Strings(l)
	return "[" + strings.Join(l, ", ") + "]"
}

// restOf is everything of a file but its imports and the comments inside of them.
func restOf(f *ast.File, src []byte) string {
	var b strings.Builder
	base := f.FileStart
	text := func(from, to token.Pos) string { return string(src[from-base : to-base]) }
	b.WriteString(text(f.Package, f.Name.End()) + "\n")
	inImport := func(p token.Pos) bool {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				line := g.End()
				for int(line-base) < len(src) && src[line-base] != '\n' {
					line++
				}
				if p >= g.Pos() && p < line {
					return true
				}
			}
		}
		return false
	}
	type piece struct {
		at   token.Pos
		text string
	}
	var ps []piece
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ps = append(ps, piece{d.Pos(), text(d.Pos(), d.End())})
	}
	for _, cg := range f.Comments {
		for _, cm := range cg.List {
			if !inImport(cm.Pos()) && cm.Text != "// of an import" { // these may move, or go with their import
				ps = append(ps, piece{cm.Pos(), cm.Text})
			}
		}
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].at < ps[j].at })
	for _, p := range ps {
		b.WriteString(p.text + "\n")
	}
	return b.String()
}

// lineDirective is the finding on record: golang.org/x/tools takes the lines that a line directive
// tells for those of the file and moves comments when it removes an import.
func (c *ctx) lineDirective(id, path string) {
	src := "//line x.y:12\npackage p\n\nimport (\n\t\"strings\"\n\n\t_ \"html\"\n)\n\nimport \"io\" // of an import\n\nfunc constC1_938611() { _ = io.EOF }\n\ntype typeB2_650400[T any] interface {\n\tM(x func(io.Reader), y T)\n}\n\nvar name3_622496 = map[string]any{\n\t\"k\": []any{time.Second}, // comment\n}\n\nfunc init() {}\n"
	body := src[strings.Index(src, "var name3"):]
	scs, err := goast.ParseScope(0, []byte(src))
	must(err)
	a, err := goast.NewAst(scs...)
	must(err)
	if err := a.Save(path, true); err != nil {
		c.fail(id, "save", "", "Save: %v", err)
		return
	}
	got, _ := os.ReadFile(path)
	if !strings.HasSuffix(string(got), body) {
		c.fail(id, "line", string(got), "behind a line directive a comment moves when an import is removed")
	}
	c.distinct(0)
}

// unprocessable saves what is not valid Go with import handling.
func (c *ctx) unprocessable(id string, g *impGen, path string) {
	head, imps, decls := g.program()
	text := head + imps + strings.Join(decls, "\n")
	what := g.n(6)
	switch what {
	case 0:
		text += "\nfunc broken( {\n"
	case 1:
		text += "\nvar x = \n}\n"
	case 2:
		i := len(head) + g.n(len(text)-len(head))
		text = text[:i] + g.pick("@", "}}", "\"", "(", "#") + text[i:]
	case 3:
		text += "\nfunc f() { for ; }} \n"
	}
	if _, err := parser.ParseFile(token.NewFileSet(), "x.go", text, parser.ParseComments); err == nil && what < 4 {
		return
	}
	scs, err := goast.ParseScope(0, []byte(text))
	if err != nil {
		c.fail(id, "parse", text, "ParseScope: %v", err)
		return
	}
	a, err := goast.NewAst(scs...)
	if err != nil {
		return
	}
	if what >= 4 { // no package clause any more
		for _, s := range a.Scope() {
			if s.Kind() != scope.Package {
				continue
			}
			switch n := s.Node(); g.n(4) {
			case 0: // all of the clause, the line break behind it aside
				for ; n != nil && n.Kind() != kind.NewLine; n = n.Next() {
					n.SetText("")
				}
			case 1: // the keyword
				n.SetText(g.pick("", "pack", "// package", "func", ";"))
			case 2: // the name
				n.Next().Next().SetText("")
			case 3: // all of the scope
				for ; n != nil; n = n.Next() {
					n.SetText("")
				}
			}
		}
		c.count("saved without a package clause", 1)
	}
	all := textOf(snapScopes(scs))
	if _, err := parser.ParseFile(token.NewFileSet(), "x.go", all, parser.ParseComments); err == nil {
		return
	}
	if err := a.Save(path, true); err != nil {
		c.fail(id, "save", text, "Save of unprocessable content: %v", err)
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		c.fail(id, "target", text, "Save reports success: %v", err)
		return
	}
	if string(b) != all {
		c.fail(id, "bytes", text, "content that cannot be processed is not written as it is: %s", firstDiff(all, string(b)))
		return
	}
	c.count("unprocessable written as it is", 1)
	c.distinct(hashText(b))
}
