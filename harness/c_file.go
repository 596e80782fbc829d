package main

// C12, C13, C20: files, paths and errors.

import (
	"bytes"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"syscall"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/scope"
)

const nobody = 65534

func (c *ctx) tempDir() (string, func()) {
	dir, err := os.MkdirTemp(c.scratch, "t")
	if err != nil {
		panic(harnessErr{err})
	}
	_ = os.Chmod(dir, 0o755)
	return dir, func() {
		_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
			if err == nil && d.IsDir() {
				_ = os.Chmod(p, 0o755)
			}
			return nil
		})
		_ = os.RemoveAll(dir)
	}
}

func mustWrite(path, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(harnessErr{err})
	}
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(harnessErr{err})
	}
}

// harnessErr is a failure of the harness, not of the code under test.
type harnessErr struct{ error }

func must(err error) {
	if err != nil {
		panic(harnessErr{err})
	}
}

// ---- C12

var pathFaults = []string{"missing", "missing dir", "dangling", "dir", "under file", "nul", "long", "loop", "noaccess", "noaccess dir", "empty path", "ok", "ok link", "other ext"}

func init() {
	register(&check{
		id: "C12", rule: "Paths of every kind of failure (missing files and directories, dangling and looping links, directories, NUL and overlong names, files and directories without permission as an unprivileged user), with and without extension; file contents from valid programs, declaration and statement lists without a package clause, comments only, empty files, mutilated and random texts, judged by go/format and go/parser; lists of scopes with and without a package clause. Distinct contents and path situations.",
		cases: func(e *env) []string {
			out := append(numbered("large", 4), numbered("path", len(pathFaults)*e.scale(4, 30))...)
			out = append(out, programs(e, "C12", e.scale(700, 1<<30), e.scale(4000, 80000))...)
			out = append(out, numbered("frag", e.scale(2000, 40000))...)
			out = append(out, numbered("mut", e.scale(6000, 200000))...)
			out = append(out, numbered("list", e.scale(3000, 80000))...)
			return append(out, numbered("build", e.scale(2000, 40000))...)
		},
		run: runC12,
		must: []string{"large files", "not existing paths", "unreadable paths", "unreadable as another user", "valid files parsed", "invalid files refused", "without package refused",
			"scope lists without package", "scope lists with package", "looked for files left open"},
	})
}

func (c *ctx) nilness(id, what, text string, a goast.Ast, err error) bool {
	if (a == nil) != (err != nil) {
		c.fail(id, "nil", text, "%s returns the error %v, but an ast that is nil: %v", what, err, a == nil)
		return false
	}
	return true
}

func (c *ctx) leftOpen(id, what, text, path string) bool {
	c.count("looked for files left open", 1)
	if path != "" {
		c.fail(id, "open", text, "%s leaves %s open", what, path)
	}
	return path != ""
}

func runC12(c *ctx, id string) {
	k, arg := split(id)
	r := newRand(c.seed, id)
	switch k {
	case "path":
		n := 0
		for _, d := range arg {
			n = n*10 + int(d-'0')
		}
		c.pathFault(id, pathFaults[n%len(pathFaults)], n/len(pathFaults))
		return
	case "build":
		w := &world{c: c, id: id, r: r, h: newHash()}
		w.parse()
		w.parse()
		for range 8 {
			if w.failed {
				return
			}
			list := w.someList(r.IntN(5))
			first := -1
			for i, m := range list {
				if m.snap.kind == scope.Package && first < 0 {
					first = i
				}
			}
			a, err := goast.NewAst(w.raw(list)...)
			if !c.nilness(id, "NewAst", "", a, err) {
				return
			}
			var base goast.Ast
			if p := w.packageScope(); p != nil {
				base, _ = goast.NewAst(p.s)
			}
			if first < 0 {
				if err != goast.ErrNoPackage {
					c.fail(id, "package", "", "NewAst of scopes without a package clause fails with %v", err)
				}
				if base != nil {
					b := base.SetScope(w.raw(list))
					if n, err := b.Package(); n != "" || err != goast.ErrNoPackage {
						c.fail(id, "package", "", "the package name of scopes without a package clause is %q, %v", n, err)
					}
				}
				c.count("scope lists without package", 1)
				continue
			}
			if err != nil {
				c.fail(id, "package", "", "NewAst of scopes with a package clause fails: %v", err)
				return
			}
			if n, err := a.Package(); err != nil || n != "p" && n != packageName(list[first].snap.text()) {
				c.fail(id, "package", list[first].snap.text(), "the package name is %q, %v", n, err)
			}
			c.count("scope lists with package", 1)
			c.distinct(hashText([]byte(sprintf("%s %v", id, w.nos(list)))))
		}
		return
	}
	var raw []byte
	switch k {
	case "list":
		raw = withoutPackage(c, id)
	default:
		var ok bool
		if raw, ok = rawText(c.env, id); !ok {
			return
		}
	}
	if k == "large" {
		c.count("large files", 1)
	}
	switch r.IntN(24) { // as other systems write files
	case 0:
		raw = append([]byte("\ufeff"), raw...)
		c.count("with a byte order mark", 1)
	case 1:
		raw = bytes.ReplaceAll(raw, []byte("\n"), []byte("\r\n"))
		c.count("with carriage returns", 1)
	case 2:
		raw = append([]byte("\ufeff"), bytes.ReplaceAll(raw, []byte("\n"), []byte("\r\n"))...)
	case 3:
		raw = append([]byte("  \t\n \r\n"), raw...)
	case 4:
		raw = bytes.TrimRight(raw, " \t\r\n")
	}
	dir, clean := c.tempDir()
	defer clean()
	path := filepath.Join(dir, "in.go")
	if r.IntN(4) == 0 {
		path = filepath.Join(dir, someFile(r)+".go")
		c.count("other names", 1)
	}
	mustWrite(path, string(raw))
	given := path
	if r.IntN(2) == 0 {
		given = strings.TrimSuffix(path, ".go")
	}
	src, ok := gofmt(raw)
	a, err := goast.ParseAst(given)
	open := openFiles(dir)
	if !c.nilness(id, "ParseAst", string(raw), a, err) || c.leftOpen(id, "ParseAst", string(raw), newlyOpen(nil, open)) {
		return
	}
	c.distinct(hashText(raw))
	if !ok {
		if err == nil || err == goast.ErrNotExist || err == goast.ErrNoPackage {
			c.fail(id, "invalid", string(raw), "a file that is not valid Go gives the error %v", err)
		}
		c.count("invalid files refused", 1)
		return
	}
	// Valid for gofmt: a file or a list of declarations or statements.
	name := packageName(string(src))
	if name == "" {
		if _, e := parser.ParseFile(token.NewFileSet(), "x.go", src, 0); e == nil {
			return
		}
		toks, _ := scanTokens(src)
		if slices.ContainsFunc(toks, func(t tok) bool { return t.tok == token.PACKAGE }) {
			c.count("gofmt made a package clause", 1) // of a fragment with a +build line
			return
		}
		if err != goast.ErrNoPackage {
			c.fail(id, "package", string(raw), "Go without a package clause gives the error %v", err)
		}
		c.count("without package refused", 1)
		return
	}
	if err != nil {
		c.fail(id, "valid", string(raw), "a valid file of package %s gives the error %v", name, err)
		return
	}
	if n, err := a.Package(); err != nil || n != name {
		c.fail(id, "name", string(raw), "the package name is %q, %v, the clause says %s", n, err, name)
	}
	c.count("valid files parsed", 1)
	c.sample(map[string]any{"case": id, "package": name, "bytes": len(raw)})
}

func packageName(src string) string {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil || f.Name == nil {
		return ""
	}
	return f.Name.Name
}

// withoutPackage is Go without a package clause that go/format takes.
func withoutPackage(c *ctx, id string) []byte {
	g := newGen(c.seed, id)
	g.tame = g.p(50)
	switch g.n(5) {
	case 0:
		return []byte(g.decl() + "\n\n" + g.decl() + "\n")
	case 1:
		return []byte(g.stmt(2) + "\n" + g.stmt(2) + "\n")
	case 2:
		return []byte(g.pick("", "\n", "// c\n", "/* package p */\n", " \n\t\n", "// package p\n\n/* x */ // y", "//go:build x\n"))
	case 3: // the word is there, but no clause
		return []byte(g.pick("// package p\nvar x = 1\n", "x := `\npackage p\n`\n", "var s = \"package p\"\n", "func f() {\n\t// package p\n}\n", "/*\npackage p\n*/\nvar x int\n", "var packages = 1\n", "const package_ = 2\n", "type packagex int\n"))
	}
	return []byte(g.decl() + "\n" + g.lineComment() + "\n")
}

func (c *ctx) pathFault(id, fault string, n int) {
	dir, clean := c.tempDir()
	defer clean()
	given := filepath.Join(dir, sprintf("x%d", n))
	real := given + ".go"
	content := "package p\n"
	wantMissing, uid := false, false
	switch fault {
	case "missing":
		wantMissing = true
	case "missing dir":
		given, wantMissing = filepath.Join(dir, "no", "such", "x"), true
	case "dangling":
		must(os.Symlink(filepath.Join(dir, "nothing.go"), real))
		wantMissing = true
	case "dir":
		must(os.Mkdir(real, 0o755))
	case "under file":
		mustWrite(filepath.Join(dir, "f.go"), content)
		given = filepath.Join(dir, "f.go", "x")
	case "nul":
		given += "\x00y"
	case "long":
		given += strings.Repeat("y", 300)
	case "loop":
		must(os.Symlink(real, real+"2.go"))
		must(os.Symlink(real+"2.go", real))
	case "noaccess":
		mustWrite(real, content)
		must(os.Chmod(real, 0))
		uid = true
	case "noaccess dir":
		given = filepath.Join(dir, "d", "x")
		mustWrite(given+".go", content)
		must(os.Chmod(filepath.Dir(given), 0))
		uid = true
	case "empty path": // names the file ".go", which isn't there
		given, wantMissing = "", true
		if _, err := os.Stat(".go"); err == nil {
			return
		}
	case "other ext":
		mustWrite(given+".txt", content)
		given, wantMissing = given+".txt", true
	case "ok":
		mustWrite(real, content)
	case "ok link":
		mustWrite(filepath.Join(dir, "target"), content)
		must(os.Symlink("target", real))
	}
	for _, p := range []string{given, given + ".go"} {
		var res helpRes
		if uid {
			out, err := c.helper(helpSpec{Do: "parse", Steps: []helpStep{{Path: p}}}, nobody)
			if c.helperDied(id, fault, err) {
				return
			}
			res = out.Res[0]
			c.count("unreadable as another user", 1)
		} else {
			a, err := goast.ParseAst(p)
			open := openFiles(dir)
			if !c.nilness(id, "ParseAst", p, a, err) {
				return
			}
			res = result12(a, err)
			res.Open = newlyOpen(nil, open)
		}
		if c.leftOpen(id, "ParseAst", p, res.Open) {
			return
		}
		switch {
		case strings.HasPrefix(fault, "ok"):
			if res.Err != "" {
				c.fail(id, "valid", fault, "ParseAst(%q) fails: %s", p, res.Err)
			}
		case wantMissing:
			if !res.NotExist || res.NoPack {
				c.fail(id, "missing", fault, "ParseAst of a path that does not exist (%s) gives %q", fault, res.Err)
			}
			c.count("not existing paths", 1)
		default:
			if res.Err == "" || res.NotExist && fault != "under file" || res.NoPack || !res.Nil {
				c.fail(id, "unreadable", fault, "ParseAst of an unreadable path (%s) gives %q, ErrNotExist %v, ErrNoPackage %v", fault, res.Err, res.NotExist, res.NoPack)
			}
			c.count("unreadable paths", 1)
		}
	}
	c.distinct(hashText([]byte(fault + sprintf("%d", n))))
	c.sample(map[string]any{"case": id, "path": fault})
}

// ---- C13

var saveFaults = []string{"full", "under file", "isdir", "nul", "long", "loop", "dangling", "nofile", "noaccess file", "noaccess dir", "noaccess mkdir", "empty", "empty texts", "ok"}

func init() {
	register(&check{
		id: "C13", level: "fault_enumeration", rule: "fsize cases save one ast under every limit of the file's size from 0 to beyond the content's length (sampled above 600 bytes), over missing, shorter and longer files; fault cases save to a full device, into files, over directories, through looping and dangling links, to NUL and overlong names, without free file descriptors, without permission as an unprivileged user, and without any text. The result, its errno, the target's bytes and a snapshot of the whole directory before and after are compared with what the fault allows. Distinct combinations of fault, content and limit.",
		cases: func(e *env) []string {
			return append(numbered("fsize", e.scale(120, 2500)), numbered("fault", len(saveFaults)*e.scale(12, 250))...)
		},
		run: runC13,
		must: []string{"looked for files left open", "limits enumerated", "incomplete saves reported", "complete saves", "fault full", "fault under file", "fault isdir", "fault nul", "fault long", "fault loop",
			"fault dangling", "fault nofile", "fault noaccess file", "fault noaccess dir", "fault noaccess mkdir", "fault empty", "fault empty texts", "fault ok"},
		assume: []string{"a full disk behaves like /dev/full and like a limit of the file's size"},
	})
}

type treeEntry struct {
	mode os.FileMode
	text string
}

// tree is a snapshot of all files of a directory.
func tree(dir string) map[string]treeEntry {
	out := map[string]treeEntry{}
	_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		st, err := os.Lstat(p)
		if err != nil {
			return nil
		}
		e := treeEntry{mode: st.Mode()}
		switch {
		case st.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			e.text = string(b)
		case st.Mode()&os.ModeSymlink != 0:
			e.text, _ = os.Readlink(p)
		}
		out[p] = e
		return nil
	})
	return out
}

func diffTree(a, b map[string]treeEntry, dirsToo bool, except string) string {
	for p, e := range a {
		if p == except {
			continue
		}
		if x, ok := b[p]; !ok {
			return p + " is gone"
		} else if x != e {
			return p + " changed"
		}
	}
	for p, e := range b {
		if _, ok := a[p]; !ok && p != except && (dirsToo || !e.mode.IsDir()) {
			return p + " is new"
		}
	}
	return ""
}

// saveText generates content: its text and what saving it has to write.
func saveText(c *ctx, id string) (string, string) {
	g := newGen(c.seed, "text"+id)
	g.tame = g.p(60)
	for {
		text := "package p\n\n" + g.decl() + "\n"
		if g.p(30) {
			text += g.decl() + "\n"
		}
		switch {
		case g.p(10):
			text = "package p\n"
		case g.p(15):
			text += "}} not Go (\n"
		}
		if len(text) > 4000 || bytes.ContainsRune([]byte(text), '\r') {
			continue
		}
		want := []byte(text)
		if f, ok := gofmt(want); ok {
			want = f
		}
		if _, err := goast.ParseScope(0, []byte(text)); err == nil {
			return text, string(want)
		}
	}
}

func saved(text string) (goast.Ast, string) {
	scs, err := goast.ParseScope(0, []byte(text))
	must(err)
	a, err := goast.NewAst(scs...)
	must(err)
	all := textOf(snapScopes(scs))
	if f, ok := gofmt([]byte(all)); ok {
		return a, string(f)
	}
	return a, all
}

func runC13(c *ctx, id string) {
	k, arg := split(id)
	n := 0
	for _, d := range arg {
		n = n*10 + int(d-'0')
	}
	text, _ := saveText(c, id)
	a, want := saved(text)
	dir, clean := c.tempDir()
	defer clean()
	mustWrite(filepath.Join(dir, "other.go"), "// other\n")
	mustWrite(filepath.Join(dir, "sub", "data"), "data")
	r := newRand(c.seed, id)
	if k == "fsize" {
		path := filepath.Join(dir, "out.go")
		var steps []helpStep
		add := func(l int) {
			old := ""
			switch (l + n) % 3 {
			case 0:
				old = "x"
			case 1:
				old = strings.Repeat("// old\n", len(want))
			}
			steps = append(steps, helpStep{Path: path, Fsize: int64(l), Nofile: -1, Old: old})
		}
		for l := 0; l <= len(want)+2; l++ {
			if len(want) <= 600 || l < 20 || l > len(want)-20 || l%4096 < 3 || r.IntN(len(want)/300) == 0 {
				add(l)
			}
		}
		steps = append(steps, helpStep{Path: path, Fsize: -1, Nofile: -1})
		before := tree(dir)
		out, err := c.helper(helpSpec{Do: "save", Text: text, Want: want, Steps: steps})
		if c.helperDied(id, text, err) {
			return
		}
		for i, res := range out.Res {
			l := steps[i].Fsize
			complete := l < 0 || l >= int64(len(want))
			switch {
			case c.leftOpen(id, "Save", text, res.Open):
				return
			case res.Err == "" && !res.Complete:
				c.fail(id, "incomplete", text, "Save reports success under a limit of %d bytes, but only %d of %d bytes are there", l, res.Len, len(want))
				return
			case complete && res.Err != "":
				c.fail(id, "error", text, "Save of %d bytes fails under a limit of %d: %s", len(want), l, res.Err)
				return
			case !complete && res.Errno != int(syscall.EFBIG) && !strings.Contains(res.Err, syscall.EFBIG.Error()):
				c.fail(id, "cause", text, "Save of %d bytes under a limit of %d: the error %q doesn't tell the cause", len(want), l, res.Err)
				return
			}
			if complete {
				c.count("complete saves", 1)
			} else {
				c.count("incomplete saves reported", 1)
			}
			c.distinct(hashText([]byte(sprintf("%s %d", want, l))))
		}
		c.count("limits enumerated", len(steps))
		if d := diffTree(before, tree(dir), true, path); d != "" {
			c.fail(id, "others", text, "saving under limits: %s", d)
		}
		c.sample(map[string]any{"case": id, "bytes": len(want), "limits": len(steps)})
		return
	}
	fault := saveFaults[n%len(saveFaults)]
	given := filepath.Join(dir, "out.go")
	var errno syscall.Errno
	var clear func() // removes the cause, after which saving has to succeed
	real := given
	uid, nofile := false, int64(-1)
	strict := false // not even a directory may be made
	fails := true
	except := ""
	old := []string{"", "// old\n", strings.Repeat("// old\n", 3000)}[r.IntN(3)]
	writeOld := func() {
		if old != "" {
			mustWrite(given, old)
		}
	}
	switch fault {
	case "full":
		if st, err := os.Stat("/dev/full"); err != nil || st.Mode()&os.ModeCharDevice == 0 {
			c.count("fault full", 1)
			return
		}
		must(os.Symlink("/dev/full", given))
		errno, except = syscall.ENOSPC, given
		clear = func() { must(os.Remove(given)) }
	case "under file":
		mustWrite(filepath.Join(dir, "file"), "data")
		given = filepath.Join(dir, "file", []string{"out.go", "a/b/out.go"}[r.IntN(2)])
		errno = syscall.ENOTDIR
		clear = func() { must(os.Remove(filepath.Join(dir, "file"))) }
		real = given
	case "isdir":
		must(os.Mkdir(given, 0o755))
		if r.IntN(2) == 0 {
			mustWrite(filepath.Join(given, "inner"), "data")
		}
		errno = syscall.EISDIR
		clear = func() { must(os.RemoveAll(given)) }
	case "nul":
		writeOld()
		given = filepath.Join(dir, "o\x00ut.go")
		errno = syscall.EINVAL
	case "long":
		given = filepath.Join(dir, strings.Repeat("n", 260)+".go")
		errno = syscall.ENAMETOOLONG
	case "loop":
		must(os.Symlink(given+"x", given))
		must(os.Symlink(given, given+"x"))
		errno = syscall.ELOOP
		clear = func() { must(os.Remove(given)) }
	case "dangling":
		must(os.Symlink(filepath.Join(dir, "no", "such", "f"), given))
		errno = syscall.ENOENT
		clear = func() { must(os.Remove(given)) }
	case "nofile":
		writeOld()
		nofile, errno = 3, syscall.EMFILE
		clear = func() { nofile = -1 }
	case "noaccess file":
		mustWrite(given, old+"x")
		must(os.Chmod(given, 0o444))
		uid, errno = true, syscall.EACCES
		clear = func() { must(os.Chmod(given, 0o666)) }
	case "noaccess dir":
		uid, errno = true, syscall.EACCES
		clear = func() { must(os.Chmod(dir, 0o777)) }
	case "noaccess mkdir":
		given = filepath.Join(dir, "new", "deep", "out.go")
		real = given
		uid, errno = true, syscall.EACCES
		clear = func() { must(os.Chmod(dir, 0o777)) }
	case "empty", "empty texts":
		strict = true
		if r.IntN(2) == 0 {
			given = filepath.Join(dir, "new", "out.go")
		} else {
			writeOld()
		}
		real = given
		full := a
		if fault == "empty" {
			a = a.SetScope(nil)
		} else {
			a = a.Copy()
			for _, s := range a.Scope() {
				s.Node().IterNext(func(n *goast.Node) bool { n.SetText(""); return true })
			}
		}
		clear = func() { a = full }
	case "ok":
		fails = false
		switch r.IntN(4) {
		case 0:
			given = filepath.Join(dir, "new", "deep", "out.go")
			real = given
		case 1:
			mustWrite(filepath.Join(dir, "target.txt"), old)
			must(os.Symlink("target.txt", given))
			except = filepath.Join(dir, "target.txt")
		default:
			writeOld()
		}
	}
	pass := given
	if r.IntN(2) == 0 {
		pass = strings.TrimSuffix(given, ".go")
	}
	do := func() helpRes {
		if uid || nofile >= 0 {
			var as []int
			if uid {
				as = []int{nobody}
			}
			out, err := c.helper(helpSpec{Do: "save", Text: text, Want: want, Steps: []helpStep{{Path: pass, Fsize: -1, Nofile: nofile}}}, as...)
			if c.helperDied(id, text, err) {
				return helpRes{Err: "died"}
			}
			return out.Res[0]
		}
		err := a.Save(pass)
		open := openFiles(dir)
		r := helpRes{Errno: errnoOf(err), Open: newlyOpen(nil, open)}
		if err != nil {
			r.Err = err.Error()
		}
		return r
	}
	complete := func() bool {
		if st, err := os.Stat(real); err != nil || !st.Mode().IsRegular() {
			return false // a device may have no end
		}
		b, err := os.ReadFile(real)
		return err == nil && string(b) == want
	}
	before := tree(dir)
	res := do()
	after := tree(dir)
	if c.leftOpen(id, "Save", text, res.Open) {
		return
	}
	if !fails {
		if res.Err != "" || !complete() {
			c.fail(id, "ok", text, "Save(%q): %s; complete: %v", pass, res.Err, complete())
		}
		if except == "" {
			except = real
		}
		if d := diffTree(before, after, false, except); d != "" && !strings.Contains(d, real) {
			c.fail(id, "others", text, "Save(%q): %s", pass, d)
		}
		c.count("complete saves", 1)
	} else {
		if res.Err == "" {
			c.fail(id, "success", text, "Save reports success with the fault %q; complete: %v", fault, complete())
			return
		}
		if errno != 0 && res.Errno != int(errno) && !strings.Contains(res.Err, errno.Error()) {
			c.fail(id, "cause", text, "Save with the fault %q: the error %q doesn't tell the cause (%v)", fault, res.Err, errno)
		}
		if d := diffTree(before, after, strict, except); d != "" {
			c.fail(id, "others", text, "Save failed before writing (%s), but %s", fault, d)
		}
		c.count("incomplete saves reported", 1)
		if clear != nil {
			clear()
			if res := do(); res.Err != "" || !complete() {
				c.fail(id, "again", text, "with the fault %q gone Save gives %q; complete: %v", fault, res.Err, complete())
			}
			c.count("complete saves", 1)
		}
	}
	c.count("fault "+fault, 1)
	c.distinct(hashText([]byte(fault + want)))
}

// ---- C20

func init() {
	register(&check{
		id: "C20", rule: "Histories over files under relative and absolute paths of many shapes (with and without extension, with dots, double extensions, spaces, non-ASCII and hidden names, unclean and climbing paths, links): writing, parsing, editing, saving elsewhere and under the own path, changing the working directory, SetScope, AppendScope and Copy; after each step the identity of all asts is compared with path/filepath's answers for the path as it was given, and what was saved under a path is read back with and without the extension. Distinct path shapes and steps.",
		cases:  func(e *env) []string { return numbered("hist", e.scale(2500, 40000)) },
		run:    runC20,
		serial: true, // the working directory is the process's
		must:   []string{"identities compared", "read back", "without extension", "relative paths", "built asts", "names without extension taken", "working directories changed", "saved under the path it reports"},
	})
}

func readText(path string) string {
	b, err := os.ReadFile(path)
	must(err)
	return string(b)
}

func runC20(c *ctx, id string) {
	r := newRand(c.seed, id)
	dir, clean := c.tempDir()
	defer clean()
	cwd, err := os.Getwd()
	must(err)
	rel, err := filepath.Rel(cwd, dir)
	must(err)
	for _, sub := range []string{"", "d", "d/e"} { // for the paths that go through them and back
		must(os.MkdirAll(filepath.Join(dir, sub, "d", "e"), 0o755))
	}
	inside := r.IntN(2) == 0 // the working directory is below dir, and changes
	if inside {
		defer func() { must(os.Chdir(cwd)) }()
		must(os.Chdir(dir))
		rel = "."
	}
	h := newHash()
	var log []string
	note := func(format string, a ...any) {
		s := sprintf(format, a...)
		log = append(log, s)
		s = strings.ReplaceAll(s, dir, "D")
		if !inside {
			s = strings.ReplaceAll(s, rel, "R")
		}
		h.str(s)
	}
	fail := func(key, format string, a ...any) { c.fail(id, key, strings.Join(log, "\n"), format, a...) }
	path := func() string {
		name := []string{"x", "x.go", "a.b", "a.b.go", "x.go.go", ".go", ".hidden", "with space", "日本.go", "go", "xgo", "x.GO", "x.g", "x.", "x..go", "-", "~x"}[r.IntN(17)]
		sub := []string{"", "d/", "d.go/", "d/e/", "./", "d//", "d/../", "d/./e/"}[r.IntN(8)]
		base := dir
		if r.IntN(3) == 0 || inside && r.IntN(2) == 0 {
			base = rel
			c.count("relative paths", 1)
			if rel == "." && r.IntN(2) == 0 { // no directory at all, perhaps
				return sub + name
			}
		}
		return base + "/" + sub + name
	}
	type entry struct {
		a    goast.Ast
		want [4]string
		odd  bool // may have no text or no package clause
	}
	var asts []entry
	content := map[string]string{} // by real path
	realOf := func(p string) string {
		if !strings.HasSuffix(p, ".go") {
			p += ".go"
		}
		abs, err := filepath.Abs(p)
		must(err)
		return abs
	}
	made := 0
	fresh := func() string {
		made++
		return sprintf("package %s\n\n// %s %d\nvar x%d = %d\n", []string{"p", "q"}[r.IntN(2)], id, made, made, r.IntN(100))
	}
	verify := func() bool {
		for i, e := range asts {
			if got := [4]string{e.a.File(), e.a.Dir(), e.a.Filename(), e.a.Ext()}; got != e.want {
				fail("identity", "ast %d says it is file %q, directory %q, name %q, extension %q; expected %q", i, got[0], got[1], got[2], got[3], e.want)
				return false
			}
		}
		c.count("identities compared", len(asts))
		return true
	}
	text := func(a goast.Ast) string { return textOf(snapScopes(a.Scope())) }
	parse := func(p string) bool {
		a, err := goast.ParseAst(p)
		note("ParseAst(%q)", p)
		want, there := content[realOf(p)]
		if !there {
			if err != goast.ErrNotExist {
				fail("missing", "ParseAst(%q): %v, but nothing was saved there", p, err)
				return false
			}
			return true
		}
		if err != nil {
			fail("parse", "ParseAst(%q): %v", p, err)
			return false
		}
		if text(a) != want {
			fail("content", "ParseAst(%q) reads something else than what was saved there: %s", p, firstDiff(want, text(a)))
			return false
		}
		if !strings.HasSuffix(p, ".go") {
			c.count("without extension", 1)
		}
		c.count("read back", 1)
		asts = append(asts, entry{a: a, want: [4]string{p, filepath.Dir(p), filepath.Base(p), filepath.Ext(p)}})
		return true
	}
	built := func() {
		scs, err := goast.ParseScope(0, []byte(fresh()))
		must(err)
		a, err := goast.NewAst(scs...)
		must(err)
		note("NewAst")
		c.count("built asts", 1)
		asts = append(asts, entry{a: a})
	}
	built()
	for range 16 {
		if len(asts) > 12 {
			asts = asts[6:]
		}
		e := asts[r.IntN(len(asts))]
		if inside && r.IntN(6) == 0 { // relative paths mean other files from now on
			k := r.IntN(3)
			to := filepath.Join(dir, []string{"", "d", "d/e"}[k])
			rel = []string{".", "..", "../.."}[k]
			if r.IntN(3) == 0 {
				rel = "."
			}
			note("Chdir(%q)", to)
			must(os.Chdir(to))
			c.count("working directories changed", 1)
		}
		switch r.IntN(10) {
		case 9: // something of the name without the extension lies beside it
			p := path()
			if strings.HasSuffix(p, ".go") {
				break
			}
			abs, err := filepath.Abs(p)
			must(err)
			if _, err := os.Stat(abs); err == nil {
				break
			}
			if note("beside %q", abs); r.IntN(3) == 0 {
				must(os.MkdirAll(abs, 0o755))
			} else {
				mustWrite(abs, fresh())
				content[abs] = readText(abs)
			}
			c.count("names without extension taken", 1)
			if !parse(p) {
				return
			}
		case 0, 1: // somebody writes a file
			p := path()
			t := fresh()
			note("file %q", realOf(p))
			mustWrite(realOf(p), t)
			content[realOf(p)] = t
			if !parse(p) {
				return
			}
		case 2, 3: // save and read back
			p := path()
			if e.odd {
				continue
			}
			if own := e.a.File(); own != "" && r.IntN(4) == 0 && strings.HasPrefix(realOf(own), dir+"/") {
				if _, err := os.Stat(own[:strings.LastIndex(own, "/")+1] + "."); err == nil { // from here it is a directory, too
					p = own
					c.count("saved under the path it reports", 1)
				}
			}
			note("Save(%q)", p)
			t := text(e.a)
			if f, ok := gofmt([]byte(t)); ok {
				t = string(f)
			} else {
				continue
			}
			if err := e.a.Save(p, r.IntN(2) == 0 && false); err != nil {
				fail("save", "Save(%q): %v", p, err)
				return
			}
			content[realOf(p)] = t
			if b, err := os.ReadFile(realOf(p)); err != nil || string(b) != t {
				fail("target", "Save(%q) did not write %s (%v)", p, realOf(p), err)
				return
			}
			other := p + ".go"
			if strings.HasSuffix(p, ".go") && filepath.Base(p) != ".go" {
				other = strings.TrimSuffix(p, ".go")
				if strings.HasSuffix(other, ".go") { // x.go.go without its extension is x.go
					other = p
				}
			} else if strings.HasSuffix(p, ".go") {
				other = p
			}
			if !parse(p) || !parse(other) {
				return
			}
		case 4:
			note("SetScope")
			var list []goast.Scope
			odd := e.odd
			switch r.IntN(6) {
			case 0: // none
				list, odd = [][]goast.Scope{nil, {}}[r.IntN(2)], true
			case 1: // some
				if list = e.a.Scope(); len(list) > 0 {
					list, odd = list[r.IntN(len(list)):], true
				}
			case 2: // those of another, or of none
				other := asts[r.IntN(len(asts))]
				list, odd = other.a.Scope(), other.odd
			case 3:
				more, err := goast.ParseScope(3, []byte("// c\n\nvar x = 1\n"))
				must(err)
				list, odd = more, true
			default:
				list = e.a.Scope()
			}
			if odd && !e.odd {
				c.count("set to scopes without a package", 1)
			}
			asts = append(asts, entry{e.a.SetScope(list), e.want, odd})
		case 5:
			note("Copy")
			asts = append(asts, entry{e.a.Copy(), e.want, e.odd})
		case 6:
			note("edit")
			if l := e.a.Scope(); len(l) > 0 {
				l[len(l)-1].Node().Last().SetText(sprintf("\n\n// edit %d\n", r.IntN(9)))
			}
		case 7:
			note("append")
			scs, _ := goast.ParseScope(0, []byte("// more\n"))
			e.a.AppendScope(scs...)
		case 8:
			if r.IntN(2) == 0 {
				built()
			} else if !parse(path()) {
				return
			}
		}
		if !verify() {
			return
		}
	}
	// nothing else was written
	for p, t := range tree(dir) {
		if t.mode.IsRegular() {
			if want, ok := content[p]; !ok || want != t.text {
				fail("others", "there is a file %s that nobody should have written", p)
				return
			}
		}
	}
	c.distinct(uint64(h))
	c.sample(map[string]any{"case": id, "operations": log[:min(len(log), 8)]})
}
