package main

// Checks of what parsing gives: C01 C03 C04 C05 C06 C07 C14 C18.

import (
	"bytes"
	"go/ast"
	"go/token"
	"maps"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

const ruleFiles = "Inputs are Go files of the machine (Go's sources, its compiler tests, the module cache), chosen by the seed, and generated programs full of hostile literals, comments, names and type expressions; each is formatted with go/format and has to parse with go/parser. A case is non-trivial if it parses; distinct cases have distinct texts."

// starts returns the offset at which parsing has to begin: the first scope of the reference.
func (r *ref) start() int {
	if len(r.scopes) == 0 {
		return len(r.src)
	}
	return r.scopes[0].off
}

// ---- C01

func init() {
	register(&check{
		id: "C01", rule: ruleFiles + " Generated fragments are parsed as they are, without formatting, cut cases are fragments that end anywhere (within literals, comments and brackets).",
		cases: func(e *env) []string {
			return append(append(programs(e, "C01", e.scale(2500, 1<<30), e.scale(16000, 500000)), numbered("frag", e.scale(12000, 400000))...), numbered("cut", e.scale(12000, 400000))...)
		},
		run:  runC01,
		must: []string{"files parsed", "fragments parsed", "cut fragments parsed"},
	})
}

func runC01(c *ctx, id string) {
	if k, _ := split(id); k == "frag" || k == "cut" {
		src, _ := rawText(c.env, id)
		start := int(hashText(src) % 3 * 17)
		scs, err := goast.ParseScope(start, bytes.Clone(src))
		if err != nil {
			c.fail(id, "error", string(src), "ParseScope failed: %v", err)
			return
		}
		o, bad := observe(scs, len(src))
		if bad != "" {
			c.fail(id, "chain", string(src), "%s", bad)
			return
		}
		if k == "cut" {
			c.count("cut fragments parsed", 1)
		} else {
			c.count("fragments parsed", 1)
		}
		c.count("nodes", len(o.nodes))
		if o.text != string(src) {
			c.fail(id, "loss", string(src), "%s", firstDiff(string(src), o.text))
		}
		c.distinct(hashText(src))
		return
	}
	p := c.parse(id)
	if p == nil {
		return
	}
	want := string(p.src[p.ref.start():])
	if p.o.text != want {
		c.fail(id, "loss", string(p.src), "%s", firstDiff(want, p.o.text))
	}
	c.tally(p)
	c.sample(map[string]any{"case": id, "bytes": len(p.src), "scopes": len(p.scs), "nodes": len(p.o.nodes)})
}

// firstDiff says how two texts differ.
func firstDiff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	return sprintf("%d bytes expected, %d found; they differ at byte %d: expected %s, found %s", len(want), len(got), i, around([]byte(want), i), around([]byte(got), i))
}

// aligned tells whether the nodes are the source text from its first scope, so that offsets
// can be compared. C01 is about that; the other checks have nothing to compare if it fails.
func (c *ctx) aligned(p *parsed) (int, bool) {
	b := p.base()
	if b < 0 {
		c.count("not comparable", 1)
		c.fail(p.id, "text", string(p.src), "the nodes do not hold the text they were parsed from: %s", firstDiff(string(p.src[p.ref.start():]), p.o.text))
		return 0, false
	}
	return b, true
}

// ---- C03

func init() {
	register(&check{
		id: "C03", rule: ruleFiles + " lit cases put every escape, literal and comment form at every kind of place. Observed are comments, literals and brackets compared with go/scanner's tokens.",
		cases: func(e *env) []string {
			return append(programs(e, "C03", e.scale(1800, 1<<30), e.scale(14000, 400000)), numbered("lit", e.scale(9000, 200000))...)
		},
		run:  runC03,
		must: []string{"comments", "strings", "runes", "brackets"},
	})
}

// typeSpans are the places of type expressions, within which nodes may be combined.
func (r *ref) typeSpans() []span {
	var out []span
	add := func(e ast.Expr) {
		if e != nil {
			out = append(out, span{r.off(e.Pos()), r.off(e.End())})
		}
	}
	fields := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, f := range fl.List {
			add(f.Type)
		}
	}
	for _, d := range r.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			fields(d.Recv)
			fields(d.Type.TypeParams)
			fields(d.Type.Params)
			fields(d.Type.Results)
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if t, ok := s.(*ast.TypeSpec); ok {
					fields(t.TypeParams)
					switch x := t.Type.(type) {
					case *ast.StructType:
						fields(x.Fields)
					case *ast.InterfaceType:
						fields(x.Methods)
						for _, m := range x.Methods.List {
							if f, ok := m.Type.(*ast.FuncType); ok {
								fields(f.Params)
								fields(f.Results)
							}
						}
					default:
						add(t.Type)
					}
				}
			}
		}
	}
	return out
}

type span struct{ from, to int }

func inSpan(spans []span, o int) bool {
	for _, s := range spans {
		if o >= s.from && o < s.to {
			return true
		}
	}
	return false
}

var ownKinds = map[token.Token]kind.Kind{
	token.LPAREN: kind.ParenthesisLeft, token.RPAREN: kind.ParenthesisRight,
	token.LBRACE: kind.CurlyBracketLeft, token.RBRACE: kind.CurlyBracketRight,
	token.LBRACK: kind.SquareBracketLeft, token.RBRACK: kind.SquareBracketRight,
	token.COMMA: kind.Comma, token.SEMICOLON: kind.Semicolon,
}

func runC03(c *ctx, id string) {
	var p *parsed
	if k, _ := split(id); k == "lit" {
		p = c.parseText(id, []byte(litProgram(c.env, id)))
	} else {
		p = c.parse(id)
	}
	if p == nil {
		return
	}
	b, ok := c.aligned(p)
	if !ok {
		return
	}
	spans := p.ref.typeSpans()
	for _, t := range p.ref.toks {
		if t.off < b {
			continue
		}
		n := p.o.find(t.off - b)
		if n == nil && (t.tok == token.STRING || t.tok == token.CHAR || ownKinds[t.tok] != kind.None) && inSpan(spans, t.off) {
			// may be part of one larger type node
			c.count("tokens in type nodes", 1)
			continue
		}
		switch t.tok {
		case token.COMMENT:
			c.count("comments", 1)
			c.token(p, n, t, kind.Comment, "comment")
		case token.STRING:
			if n != nil && inSpan(spans, t.off) && n.Text() != t.lit {
				c.count("tokens in type nodes", 1)
				continue
			}
			c.count("strings", 1)
			c.token(p, n, t, kind.String, "string")
		case token.CHAR:
			if n != nil && inSpan(spans, t.off) && n.Text() != t.lit {
				continue
			}
			c.count("runes", 1)
			c.token(p, n, t, kind.None, "rune")
		default:
			k, ok := ownKinds[t.tok]
			if !ok || inSpan(spans, t.off) {
				continue
			}
			c.count("brackets", 1)
			t.lit = t.tok.String()
			c.token(p, n, t, k, "bracket")
		}
	}
	// The other way round: nothing inside a literal or comment is structure. Each comment
	// and literal is one node (above), so what remains are nodes that claim to be one.
	for _, n := range p.o.nodes {
		if n.n.Kind() == kind.Comment && !isTokenAt(p.ref, n.off+b, token.COMMENT) {
			c.fail(p.id, "comment", string(p.src), "a node of kind Comment is no comment: %s", around(p.src, n.off+b))
		}
		if n.n.Kind() == kind.String && !isTokenAt(p.ref, n.off+b, token.STRING) {
			c.fail(p.id, "string", string(p.src), "a node of kind String is no string literal: %s", around(p.src, n.off+b))
		}
	}
	c.tally(p)
	c.sample(map[string]any{"case": id, "bytes": len(p.src), "tokens": len(p.ref.toks)})
}

func isTokenAt(r *ref, off int, t token.Token) bool {
	lo, hi := 0, len(r.toks)
	for lo < hi {
		m := (lo + hi) / 2
		if r.toks[m].off < off {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo < len(r.toks) && r.toks[lo].off == off && r.toks[lo].tok == t
}

func (c *ctx) token(p *parsed, n *goast.Node, t tok, k kind.Kind, what string) {
	if n == nil {
		c.fail(p.id, what, string(p.src), "no node begins where the %s %s does: %s", what, clip(t.lit), around(p.src, t.off))
		return
	}
	if n.Text() != t.lit {
		c.fail(p.id, what, string(p.src), "the node of the %s %q is %q: %s", what, clip(t.lit), clip(n.Text()), around(p.src, t.off))
		return
	}
	if k != kind.None && n.Kind() != k {
		c.fail(p.id, what, string(p.src), "the %s %q has kind %s: %s", what, clip(t.lit), n.Kind(), around(p.src, t.off))
	}
}

// parseText is parse for a text that belongs to one check.
func (c *ctx) parseText(id string, raw []byte) *parsed {
	c.count("texts", 1)
	src, ok := gofmt(raw)
	if !ok {
		c.count("texts not valid Go", 1)
		return nil
	}
	r := newRef(src)
	if r == nil {
		c.count("texts not valid Go", 1)
		return nil
	}
	scs, err := goast.ParseScope(0, bytes.Clone(src))
	if err != nil {
		c.fail(id, "error", string(src), "ParseScope failed on a valid Go file: %v", err)
		return nil
	}
	o, bad := observe(scs, len(src))
	if bad != "" {
		c.fail(id, "chain", string(src), "%s", bad)
		return nil
	}
	c.count("files parsed", 1)
	return &parsed{id, src, r, scs, o}
}

var litPlaces = []string{
	"var a = %s\n",
	"var a = []string{%s, %s}\n\nfunc g() {}\n",
	"func f() {\n\tx := %s\n\ty(%s)\n}\n\ntype T struct{}\n",
	"const (\n\ta = %s\n\tb = %s\n)\n",
	"var m = map[string]any{\n\t%s: %s,\n}\n",
	"func f() {\n\tswitch x {\n\tcase %s, %s:\n\t\treturn %s\n\t}\n}\n",
	"func f(a int, b string) (c error) {\n\treturn g(%s + %s)(func() { h(%s) })\n}\n\nvar z int\n",
	"type T struct {\n\tA int %t\n\tB, C string %t\n\tD %t\n}\n\nfunc (t T) f() {}\n",
	"type T [len(%s)]int\n\nvar x T\n",
	"func f(a [len(%s)]int, b map[[len(%s)]byte]string) {}\n\nvar x T\n",
	"type I interface {\n\tM(a [len(%s)]int) (b string)\n}\n",
	"var a, b = %s, %s // x\n",
	"var a = f(%s)[%s](%s) /* y */\n",
	"var f = func() string { return %s }\n\nvar g = 1\n",
	"import x %t\n\nvar a = x.Y\n",
	// places of comments, without spaces
	"var a = b[%c1%c:%c2%c:%c3%c]\n",
	"var a = T{%cA%c:%c1%c,%cB:%c2}\n",
	"var a = f(%cx%c,%cy%c...%c)\n",
	"func f() {\nL:%c\n\tx%c:=%c1%c;%cy%c++%c\n}\n",
	"var a%c=%c-%cx%c*%cy%c&^%c!%cz\n",
	"var a = %c<-%cc%c.%cd%c.(%cT%c)\n",
	"type T%c map[%cstring%c]%c*%cint%c\n",
	"func%c(%cr%c *%cT%c)%cf%c(%c)%c{%c}\n",
	"func f(%ca%c,%cb%c int,%cc%c...%cT%c)%c(%cx%c <-%cchan%c int%c)%c{%creturn%c}\n",
	"func f() {\n\tfor%c;%c;%c{%c}\n\tswitch%c{%ccase%c 1%c:%cdefault%c:%c}\n\tselect%c{%c}\n\tgo%c f%c(%c)\n}\n",
	"type T%c[%cP%c interface{%c~%cint%c|%cstring%c}%c]%c struct{%cA%c int;%cB%c,%cC%c T%c}\n",
}

var escapes = []string{`\a`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`, `\\`, `\"`, `\x00`, `\xff`, `\x22`, `\x5c`, `\000`, `\377`, `\042`, `\u0022`, `\u65e5`, `\U0001F600`}

func litProgram(e *env, id string) string {
	g := newGen(e.seed, id)
	lit := func(strOnly bool) string {
		switch k := g.n(10); {
		case k < 4 || strOnly && k < 7:
			var b strings.Builder
			b.WriteByte('"')
			for range g.n(6) {
				switch g.n(3) {
				case 0:
					b.WriteString(escapes[g.n(len(escapes))])
				case 1:
					b.WriteString(g.pick("'", "`", "//", "/*", "*/", "{", "}", "(", ")", "[", "]", ",", ";", " ", "\t", "a", "日", "func f() {", "0"))
				default:
					b.WriteString(g.pick("x", "\\\\", "\\\"", "/", "*"))
				}
			}
			b.WriteByte('"')
			return b.String()
		case k < 6 || strOnly:
			return g.rawLit()
		case k < 9:
			if g.p(50) {
				s := escapes[g.n(len(escapes))]
				if s != `\"` {
					return "'" + s + "'"
				}
			}
			return g.runeLit()
		default:
			return g.stringLit()
		}
	}
	var b strings.Builder
	b.WriteString("package p\n\n")
	for range 1 + g.n(3) {
		t := litPlaces[g.n(len(litPlaces))]
		for strings.Contains(t, "%") {
			i := strings.IndexByte(t, '%')
			if t[i+1] == 'c' {
				t = t[:i] + g.pick("", "", "", "", "/* c */", "/*{*/", "/*)*/", "/**/", "/*\"*/", "/***/", "/*//*/", g.blockComment()) + t[i+2:]
				continue
			}
			l := lit(t[i+1] == 't' || strings.HasSuffix(t[:i], "len("))
			b.WriteString(t[:i])
			if g.p(10) {
				b.WriteString(g.blockComment() + " ")
			}
			b.WriteString(l)
			if g.p(10) && !strings.HasPrefix(t[i+2:], ")") {
				b.WriteString(" " + g.blockComment())
			}
			t = t[i+2:]
		}
		b.WriteString(t)
		if g.p(30) {
			b.WriteString(g.pick(g.lineComment(), g.blockComment(), g.multiComment()) + "\n")
		}
		b.WriteString("\n")
	}
	return b.String()
}

// ---- C04

func init() {
	register(&check{
		id: "C04", rule: ruleFiles + " Fragments and files are parsed at several start lines; lists of texts go through NewNodes. Observed is the line of every node and scope.",
		cases: func(e *env) []string {
			l := append(programs(e, "C04", e.scale(2000, 1<<30), e.scale(12000, 400000)), numbered("frag", e.scale(8000, 300000))...)
			l = append(l, numbered("mut", e.scale(8000, 300000))...)
			return append(l, numbered("list", e.scale(3000, 100000))...)
		},
		run:  runC04,
		must: []string{"lines of nodes", "lines of scopes", "lines of lists", "parses from two lines compared"},
	})
}

func runC04(c *ctx, id string) {
	k, _ := split(id)
	if k == "list" {
		runC04List(c, id)
		return
	}
	var src []byte
	if k == "frag" || k == "mut" {
		src, _ = rawText(c.env, id)
	} else {
		r := c.formatted(id)
		if r == nil {
			return
		}
		src = r.src
	}
	start := []int{0, 1, 7, 1000, -1, -2, -3, 1 << 20}[hashText([]byte(id))%8]
	scs, err := goast.ParseScope(start, bytes.Clone(src))
	if err != nil {
		c.fail(id, "error", string(src), "ParseScope failed: %v", err)
		return
	}
	o, bad := observe(scs, len(src))
	if bad != "" {
		c.fail(id, "chain", string(src), "%s", bad)
		return
	}
	if !strings.HasSuffix(string(src), o.text) {
		c.fail(id, "text", string(src), "the nodes do not hold the text they were parsed from")
		return
	}
	if start != 0 {
		at0, err := goast.ParseScope(0, bytes.Clone(src))
		if err != nil {
			c.fail(id, "error", string(src), "ParseScope failed: %v", err)
			return
		}
		if d := diffSnaps(snapScopes(at0), snapScopes(scs), start); d != "" {
			c.fail(id, "start", string(src), "the start line %d changes more than lines: %s", start, d)
			return
		}
		c.count("parses from two lines compared", 1)
	}
	base := len(src) - len(o.text)
	line := start + bytes.Count(src[:base], []byte{'\n'})
	prev := 0
	next := 0 // scope
	for _, n := range o.nodes {
		line += strings.Count(o.text[prev:n.off], "\n")
		prev = n.off
		if n.n.Line() != line {
			c.fail(id, "line", string(src), "node %q (%s) begins on line %d and says %d (start line %d)", clip(n.n.Text()), n.n.Kind(), line, n.n.Line(), start)
			return
		}
		if next < len(o.heads) && o.heads[next] == n.off {
			if got := o.scopes[next].Line(); got != line+1 {
				c.fail(id, "scope line", string(src), "scope %d begins on line %d (counted from 0) and says %d (start line %d)", next, line, got, start)
				return
			}
			next++
		}
	}
	c.count("lines of nodes", len(o.nodes))
	c.count("lines of scopes", next)
	c.distinct(hashText(src))
	c.sample(map[string]any{"case": id, "start": start, "nodes": len(o.nodes), "last line": line})
}

func runC04List(c *ctx, id string) {
	r := newRand(c.seed, id)
	texts := make([]string, 1+r.IntN(12))
	for i := range texts {
		var b strings.Builder
		for range r.IntN(4) {
			b.WriteString([]string{"a", "\n", "\n\n", "/*\n*/", "`\n\n`", " ", "func", "\r\n", "日\n"}[r.IntN(9)])
		}
		texts[i] = b.String()
	}
	start := r.IntN(50) - 5
	head := goast.NewNodes(start, texts...)
	line, i := start, 0
	var prev *goast.Node
	for n := head; n != nil; n = n.Next() {
		if i >= len(texts) || n.Text() != texts[i] || n.Line() != line || n.Prev() != prev || n.Kind() != kind.New(texts[i]) {
			c.fail(id, "list", strings.Join(texts, "|"), "NewNodes(%d, %q): node %d is %q of kind %s on line %d, expected line %d", start, texts, i, n.Text(), n.Kind(), n.Line(), line)
			return
		}
		line += strings.Count(texts[i], "\n")
		prev = n
		i++
	}
	if i != len(texts) {
		c.fail(id, "list", strings.Join(texts, "|"), "NewNodes(%d, %q) has %d nodes", start, texts, i)
	}
	c.count("lines of lists", i)
	c.distinct(hashText([]byte(strings.Join(texts, "\x00"))))
	if goast.NewNodes(start) != nil {
		c.fail(id, "list", "", "NewNodes without texts is not nil")
	}
}

// ---- C05

func init() {
	register(&check{
		id: "C05", rule: ruleFiles + " Observed are the kinds and offsets of all scopes.",
		cases: func(e *env) []string {
			return programs(e, "C05", e.scale(3500, 1<<30), e.scale(24000, 600000))
		},
		run:  runC05,
		must: []string{"scopes"},
	})
}

func runC05(c *ctx, id string) {
	p := c.parse(id)
	if p == nil {
		return
	}
	if p.ref.indented {
		c.count("files with an indented declaration", 1)
		return
	}
	b, ok := c.aligned(p)
	if !ok {
		return
	}
	sig := newHash()
	for i := range max(len(p.ref.scopes), len(p.scs)) {
		if i >= len(p.ref.scopes) {
			c.fail(id, "extra", string(p.src), "a scope of kind %s begins at byte %d, where nothing does: %s", p.scs[i].Kind(), p.o.heads[i]+b, around(p.src, p.o.heads[i]+b))
			return
		}
		w := p.ref.scopes[i]
		if i >= len(p.scs) {
			c.fail(id, "missing", string(p.src), "no scope of kind %s at byte %d: %s", w.kind, w.off, around(p.src, w.off))
			return
		}
		if got := p.o.heads[i] + b; got != w.off || p.scs[i].Kind() != w.kind {
			key := "kind"
			if got < w.off {
				key = "extra"
			} else if got > w.off {
				key = "missing"
			}
			c.fail(id, key, string(p.src), "scope %d should be %s at byte %d (%s) and is %s at byte %d (%s)", i, w.kind, w.off, around(p.src, w.off), p.scs[i].Kind(), got, around(p.src, got))
			return
		}
		if w.decl == nil && w.kind == scope.InnerComment || w.kind == scope.Comment {
			c.count("comment scopes", 1)
		}
		sig.str(string(w.kind))
	}
	c.tally(p)
	c.sample(map[string]any{"case": id, "scopes": len(p.scs)})
}

// ---- C06

func init() {
	register(&check{
		id: "C06", rule: ruleFiles + " decl cases are single generated declarations. Observed are all six name accessors of every scope, and the package name of the ast made of the scopes.",
		cases: func(e *env) []string {
			return append(programs(e, "C06", e.scale(2500, 1<<30), e.scale(14000, 400000)), numbered("decl", e.scale(14000, 300000))...)
		},
		run:  runC06,
		must: []string{"functions", "methods", "types", "structs", "interfaces", "packages"},
	})
}

// declProgram is a program of one hostile declaration.
func declProgram(e *env, id string) string {
	g := newGen(e.seed, id)
	g.tame = g.p(40)
	d := g.decl()
	if g.p(75) {
		d = g.pick("type ", "type ", "func ") // then one of them
		g.budget = 60
		if d == "type " {
			d += g.typeSpec()
		} else {
			d = g.funcDecl()
		}
	}
	return g.packageClause() + "\n\n" + d + g.nl() + g.pick("", "\nvar end int\n", "\n// end\n", "\nfunc end() {}\n")
}

// fixedPoint tells whether a text is how gofmt formats it. The result of gofmt itself may not be,
// as when it moves a +build line away and joins the lines around it.
func fixedPoint(src []byte) bool {
	again, ok := gofmt(src)
	return ok && (bytes.Equal(again, src) || bytes.Equal(bytes.TrimRight(again, "\n"), bytes.TrimRight(src, "\n")))
}

type names struct {
	fn, typ, str, itf, meth, recv string
}

func namesOf(s goast.Scope) (names, string) {
	var n names
	bad := ""
	get := func(f func() (string, bool), what string) string {
		v, ok := f()
		if ok != (v != "") {
			bad = sprintf("%s returns %q and %v", what, v, ok)
		}
		return v
	}
	n.fn = get(s.GetFuncName, "GetFuncName")
	n.typ = get(s.GetTypeName, "GetTypeName")
	n.str = get(s.GetStructName, "GetStructName")
	n.itf = get(s.GetInterfaceName, "GetInterfaceName")
	n.meth = get(s.GetMethodName, "GetMethodName")
	n.recv = get(s.GetMethodReceiver, "GetMethodReceiver")
	return n, bad
}

// receiverText returns star and base name of an ordinary receiver type.
func (r *ref) receiverText(e ast.Expr) (string, bool) {
	star := ""
	if s, ok := e.(*ast.StarExpr); ok {
		if r.off(s.X.Pos()) != r.off(s.Star)+1 {
			return "", false
		}
		star, e = "*", s.X
	}
	args := -1
	switch x := e.(type) {
	case *ast.IndexExpr:
		e, args = x.X, r.off(x.Lbrack)
	case *ast.IndexListExpr:
		e, args = x.X, r.off(x.Lbrack)
	}
	id, ok := e.(*ast.Ident)
	if !ok || isBasic(id.Name) || id.Name == "_" { // no type declared here can have these names
		return "", false
	}
	if args >= 0 && args != r.off(id.End()) {
		return "", false
	}
	return star + id.Name, true
}

func isBasic(s string) bool { return basicSet[s] }

var basicSet = func() map[string]bool {
	m := map[string]bool{}
	for _, b := range basicPool {
		m[b] = true
	}
	return m
}()

// wantNames returns what the accessors should answer; false if the declaration is of a form
// the property leaves out.
func (r *ref) wantNames(d ast.Decl) (names, bool) {
	var n names
	switch d := d.(type) {
	case *ast.FuncDecl:
		n.fn = d.Name.Name
		if d.Recv != nil {
			if len(d.Recv.List) != 1 || len(d.Recv.List[0].Names) > 1 {
				return n, false
			}
			t, ok := r.receiverText(d.Recv.List[0].Type)
			if !ok {
				return n, false
			}
			n.meth, n.recv = d.Name.Name, t
		}
	case *ast.GenDecl:
		if d.Tok != token.TYPE {
			return n, true
		}
		if d.Lparen.IsValid() {
			return n, true // groups have no name
		}
		ts := d.Specs[0].(*ast.TypeSpec)
		n.typ = ts.Name.Name
		switch ts.Type.(type) {
		case *ast.StructType:
			n.str = n.typ
		case *ast.InterfaceType:
			n.itf = n.typ
		}
	}
	return n, true
}

func runC06(c *ctx, id string) {
	var p *parsed
	if k, _ := split(id); k == "decl" {
		p = c.parseText(id, []byte(declProgram(c.env, id)))
	} else {
		p = c.parse(id)
	}
	if p == nil {
		return
	}
	b, ok := c.aligned(p)
	if !ok {
		return
	}
	if p.ref.indented {
		c.count("files with an indented declaration", 1)
		return
	}
	if !fixedPoint(p.src) {
		c.count("gofmt has no fixed point", 1)
		return
	}
	at := map[int]int{}
	for i, h := range p.o.heads {
		at[h+b] = i
	}
	for _, w := range p.ref.scopes {
		i, ok := at[w.off]
		if !ok || p.scs[i].Kind() != w.kind {
			c.fail(id, "scope", string(p.src), "no scope of kind %s at byte %d: %s", w.kind, w.off, around(p.src, w.off))
			continue
		}
		want, ok := p.ref.wantNames(w.decl)
		if !ok {
			c.count("left out", 1)
			continue
		}
		got, bad := namesOf(p.scs[i])
		if bad != "" {
			c.fail(id, "text and ok", string(p.src), "%s: %s", bad, around(p.src, w.off))
		}
		if got != want {
			c.fail(id, "name", string(p.src), "names (func, type, struct, interface, method, receiver) are %q, expected %q: %s", got, want, around(p.src, w.off))
		}
		c.count("accessor calls", 6)
		if want.meth != "" {
			c.count("methods", 1)
		} else if want.fn != "" {
			c.count("functions", 1)
		}
		if want.typ != "" {
			c.count("types", 1)
		}
		if want.str != "" {
			c.count("structs", 1)
		}
		if want.itf != "" {
			c.count("interfaces", 1)
		}
	}
	a, err := goast.NewAst(p.scs...)
	if err != nil {
		c.fail(id, "package", string(p.src), "NewAst: %v", err)
	} else {
		pk, err := a.Package()
		if err != nil || pk != p.ref.file.Name.Name {
			c.fail(id, "package", string(p.src), "Package() is %q, %v, expected %q", pk, err, p.ref.file.Name.Name)
		}
		c.count("packages", 1)
	}
	c.tally(p)
	c.sample(map[string]any{"case": id, "scopes": len(p.scs)})
}

// ---- C07

func init() {
	register(&check{
		id: "C07", rule: ruleFiles + " decl cases are single generated declarations. Observed are the kinds of all nodes of function and type declarations.",
		cases: func(e *env) []string {
			return append(programs(e, "C07", e.scale(2500, 1<<30), e.scale(14000, 400000)), numbered("decl", e.scale(14000, 300000))...)
		},
		run:  runC07,
		must: []string{"parameters", "parameter types", "parameter element types", "field types", "field element types", "method parameter types", "function type parameters", "function type parameter types", "function types", "declared types", "declared element types", "basic types", "tags", "receivers", "fields", "embedded fields", "embedded interfaces", "interface methods", "function names", "nodes without declaration kinds"},
	})
}

var declKinds = map[kind.Kind]bool{
	kind.FuncName: true, kind.TypeName: true, kind.ParamName: true, kind.ParamType: true,
	kind.MethodReceiverName: true, kind.MethodReceiverType: true,
}

func runC07(c *ctx, id string) {
	var p *parsed
	if k, _ := split(id); k == "decl" {
		p = c.parseText(id, []byte(declProgram(c.env, id)))
	} else {
		p = c.parse(id)
	}
	if p == nil {
		return
	}
	b, ok := c.aligned(p)
	if !ok {
		return
	}
	if p.ref.indented {
		c.count("files with an indented declaration", 1)
		return
	}
	if !fixedPoint(p.src) {
		c.count("gofmt has no fixed point", 1)
		return
	}
	v := &kindView{c, p, b}
	for _, d := range p.ref.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			v.funcDecl(d)
		case *ast.GenDecl:
			if d.Tok == token.TYPE && !d.Lparen.IsValid() {
				v.typeDecl(d.Specs[0].(*ast.TypeSpec))
			} else {
				v.none(d.Pos(), d.End(), "a "+d.Tok.String()+" declaration")
			}
		}
	}
	v.none(p.ref.file.Package, p.ref.file.Name.End(), "the package clause")
	c.tally(p)
	c.sample(map[string]any{"case": id, "scopes": len(p.scs), "nodes": len(p.o.nodes)})
}

type kindView struct {
	c *ctx
	p *parsed
	b int
}

func (v *kindView) off(p token.Pos) int { return v.p.ref.off(p) }

func (v *kindView) node(p token.Pos) *goast.Node { return v.p.o.find(v.off(p) - v.b) }

func (v *kindView) in(from, to token.Pos) []obsNode {
	return v.p.o.between(v.off(from)-v.b, v.off(to)-v.b)
}

func (v *kindView) fail(key string, at token.Pos, format string, a ...any) {
	v.c.fail(v.p.id, key, string(v.p.src), "%s: %s", sprintf(format, a...), around(v.p.src, v.off(at)))
}

func (v *kindView) none(from, to token.Pos, where string) {
	for _, n := range v.in(from, to) {
		if declKinds[n.n.Kind()] {
			v.c.fail(v.p.id, "body", string(v.p.src), "%q has kind %s in %s: %s", clip(n.n.Text()), n.n.Kind(), where, around(v.p.src, n.off+v.b))
			return
		}
		v.c.count("nodes without declaration kinds", 1)
	}
}

// is checks that a name is one node of the kind.
func (v *kindView) is(id *ast.Ident, k kind.Kind, what string) {
	v.c.count(what+"s", 1)
	n := v.node(id.Pos())
	if n == nil || n.Text() != id.Name {
		v.fail("node", id.Pos(), "%s %q is not a node (but %q)", what, id.Name, n.Text())
		return
	}
	if n.Kind() != k {
		v.fail("kind", id.Pos(), "%s %q has kind %s", what, id.Name, n.Kind())
	}
}

// plain returns whether a type is a plain name (maybe qualified, with stars, variadic) that
// is no basic type.
func plain(e ast.Expr) bool {
	for {
		s, ok := e.(*ast.StarExpr)
		if !ok {
			break
		}
		e = s.X
	}
	switch x := e.(type) {
	case *ast.Ident:
		return !isBasic(x.Name) && x.Name != "_" // no type can be called _
	case *ast.SelectorExpr:
		_, ok := x.X.(*ast.Ident)
		return ok
	}
	return false
}

// typ looks at the name that a type ends with, if it is built of stars, slices, arrays,
// maps and channels only.
func (v *kindView) typ(e ast.Expr, what string, single bool) {
	if spaced(v.p.ref, e) { // a comment within
		v.c.count("left out", 1)
		return
	}
	variadic := false
	if el, ok := e.(*ast.Ellipsis); ok {
		e, variadic = el.Elt, true
	}
	for depth := 0; ; depth++ {
		switch t := e.(type) {
		case *ast.ArrayType:
			e = t.Elt
		case *ast.MapType:
			e = t.Value
		case *ast.ChanType: // with an arrow it may be one node
			e, single = t.Value, single || t.Dir != ast.SEND|ast.RECV
		default:
			if depth > 0 {
				v.c.count(what+" element types", 1)
			} else {
				v.c.count(what+" types", 1)
			}
			generic := true
			switch t := e.(type) {
			case *ast.IndexExpr:
				e = t.X
			case *ast.IndexListExpr:
				e = t.X
			default:
				generic = false
			}
			v.named(e, variadic || single, generic)
			return
		}
	}
}

func (v *kindView) named(e ast.Expr, merged, generic bool) {
	n, _ := v.p.o.covering(v.off(e.Pos()) - v.b)
	want := v.p.ref.text(e)
	x, stars := e, 0
	for {
		s, ok := x.(*ast.StarExpr)
		if !ok {
			break
		}
		x, stars = s.X, stars+1
	}
	id, ok := x.(*ast.Ident)
	switch {
	case ok && isBasic(id.Name) && stars == 0:
		if k := n.n.Kind(); k != kind.Basic && !(merged && k == kind.ParamType) {
			v.fail("basic", e.Pos(), "the basic type %s has kind %s", want, k)
		}
		v.c.count("basic types", 1)
	case plain(e), ok && isBasic(id.Name):
		if n.n == nil || n.n.Kind() != kind.ParamType || !generic && !strings.HasSuffix(strings.TrimRight(n.n.Text(), " \t"), want) || !strings.Contains(n.n.Text(), want) {
			v.fail("type", e.Pos(), "the type %s lies in %q of kind %s", want, n.n.Text(), n.n.Kind())
		}
		v.c.count("named types", 1)
	}
}

func (v *kindView) types(fl *ast.FieldList, what string) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		v.typ(f.Type, what, !fl.Opening.IsValid())
	}
}

// functions looks at the function types that parameters and results have.
func (v *kindView) functions(t *ast.FuncType) {
	for _, fl := range []*ast.FieldList{t.Params, t.Results} {
		if fl == nil {
			continue
		}
		for _, f := range fl.List {
			v.function(f.Type)
		}
	}
}

// function looks at the parameters and results of a function type.
func (v *kindView) function(e ast.Expr) {
	t, ok := e.(*ast.FuncType)
	if !ok {
		return
	}
	v.c.count("function types", 1)
	for _, fl := range []*ast.FieldList{t.Params, t.Results} {
		if fl == nil {
			continue
		}
		for _, f := range fl.List {
			for _, n := range f.Names {
				v.is(n, kind.ParamName, "function type parameter")
			}
		}
		v.types(fl, "function type parameter")
	}
	v.functions(t)
}

// onlyNames checks that nothing else is ParamName.
func (v *kindView) onlyNames(from, to token.Pos, declared map[int]bool) {
	for _, n := range v.in(from, to) {
		if o := n.off + v.b; n.n.Kind() == kind.ParamName && !declared[o] {
			v.c.fail(v.p.id, "no name", string(v.p.src), "%q is ParamName and declares nothing: %s", n.n.Text(), around(v.p.src, o))
		}
	}
}

// signature looks at the parameters and results of an interface's method.
func (v *kindView) signature(t *ast.FuncType) {
	top := map[int]bool{}
	for _, fl := range []*ast.FieldList{t.Params, t.Results} {
		if fl == nil {
			continue
		}
		v.types(fl, "method parameter")
		for _, f := range fl.List {
			for _, n := range f.Names {
				top[v.off(n.Pos())] = true
				v.is(n, kind.ParamName, "method parameter")
			}
		}
	}
	maps.Copy(top, declaredNames(v, t))
	v.functions(t)
	v.onlyNames(t.Params.Pos(), t.End(), top)
}

func (v *kindView) funcDecl(d *ast.FuncDecl) {
	v.is(d.Name, kind.FuncName, "function name")
	recvName, recvType := -1, -1
	simple := true
	if d.Recv != nil {
		if len(d.Recv.List) != 1 || len(d.Recv.List[0].Names) > 1 {
			simple = false
		} else {
			f := d.Recv.List[0]
			if _, ok := v.p.ref.receiverText(f.Type); !ok {
				simple = false
			}
			recvType = v.off(f.Type.Pos())
			if len(f.Names) == 1 {
				recvName = v.off(f.Names[0].Pos())
			}
			if simple {
				v.c.count("receivers", 1)
				if recvName >= 0 {
					v.is(f.Names[0], kind.MethodReceiverName, "receiver name")
				}
				n := v.node(f.Type.Pos())
				if n.Kind() != kind.MethodReceiverType {
					v.fail("receiver", f.Type.Pos(), "the receiver's type (%q) has kind %s", n.Text(), n.Kind())
				}
			}
		}
	}
	declared := map[int]bool{} // names that may be ParamName
	top := map[int]bool{}
	for _, fl := range []*ast.FieldList{d.Type.Params, d.Type.Results} {
		if fl == nil {
			continue
		}
		for _, f := range fl.List {
			for _, n := range f.Names {
				top[v.off(n.Pos())] = true
				v.is(n, kind.ParamName, "parameter")
			}
		}
		v.types(fl, "parameter")
		maps.Copy(declared, declaredNames(v, fl))
	}
	v.functions(d.Type)
	for _, n := range v.in(d.Type.Func, d.Type.End()) {
		o := n.off + v.b
		switch k := n.n.Kind(); k {
		case kind.ParamName:
			if !top[o] && !declared[o] {
				v.c.fail(v.p.id, "no name", string(v.p.src), "%q is ParamName and declares nothing: %s", n.n.Text(), around(v.p.src, o))
			}
		case kind.FuncName:
			if o != v.off(d.Name.Pos()) {
				v.c.fail(v.p.id, "no name", string(v.p.src), "%q is FuncName and not the function's name: %s", n.n.Text(), around(v.p.src, o))
			}
		case kind.MethodReceiverName:
			if d.Recv == nil || simple && o != recvName {
				v.c.fail(v.p.id, "no name", string(v.p.src), "%q is MethodReceiverName: %s", n.n.Text(), around(v.p.src, o))
			}
		case kind.MethodReceiverType:
			if d.Recv == nil || simple && o != recvType {
				v.c.fail(v.p.id, "no name", string(v.p.src), "%q is MethodReceiverType: %s", n.n.Text(), around(v.p.src, o))
			}
		case kind.TypeName:
			v.c.fail(v.p.id, "no name", string(v.p.src), "%q is TypeName in a function declaration: %s", n.n.Text(), around(v.p.src, o))
		}
	}
	if d.Body != nil {
		v.none(d.Body.Pos(), d.Body.End(), "a function body")
	}
}

func (v *kindView) typeDecl(ts *ast.TypeSpec) {
	v.is(ts.Name, kind.TypeName, "type name")
	switch t := ts.Type.(type) {
	case *ast.StructType:
		v.types(t.Fields, "field")
		for _, f := range t.Fields.List {
			if f.Tag != nil {
				v.c.count("tags", 1)
				if n := v.node(f.Tag.Pos()); n.Kind() != kind.String || n.Text() != f.Tag.Value {
					v.fail("tag", f.Tag.Pos(), "the tag %s is a node %q of kind %s", f.Tag.Value, n.Text(), n.Kind())
				}
			}
			for _, n := range f.Names {
				v.is(n, kind.ParamName, "field")
			}
			v.function(f.Type)
			if len(f.Names) > 0 {
				v.onlyNames(f.Type.Pos(), f.Type.End(), mayBeNames(v, f.Type))
			}
			if len(f.Names) == 0 {
				v.c.count("embedded fields", 1)
				if spaced(v.p.ref, f.Type) {
					continue
				}
				for _, n := range v.in(f.Type.Pos(), f.Type.End()) {
					if n.n.Kind() == kind.SquareBracketLeft {
						break // type arguments may declare names of their own
					}
					if n.n.Kind() == kind.ParamName {
						v.fail("embedded", f.Type.Pos(), "%q of the embedded field %s is ParamName", n.n.Text(), v.p.ref.text(f.Type))
					}
				}
			}
		}
	case *ast.InterfaceType:
		method := map[int]bool{}
		for _, f := range t.Methods.List {
			for _, n := range f.Names {
				method[v.off(n.Pos())] = true
				v.is(n, kind.FuncName, "interface method")
				v.signature(f.Type.(*ast.FuncType))
			}
			if len(f.Names) == 0 && plain(f.Type) && !spaced(v.p.ref, f.Type) {
				v.c.count("embedded interfaces", 1)
				if n, _ := v.p.o.covering(v.off(f.Type.Pos()) - v.b); n.n.Kind() != kind.TypeName {
					v.fail("embedded", f.Type.Pos(), "the embedded %s lies in %q of kind %s", v.p.ref.text(f.Type), n.n.Text(), n.n.Kind())
				}
			}
		}
		for _, n := range v.in(t.Pos(), t.End()) {
			if n.n.Kind() == kind.FuncName && !method[n.off+v.b] {
				v.c.fail(v.p.id, "no name", string(v.p.src), "%q is FuncName and no method of the interface: %s", n.n.Text(), around(v.p.src, n.off+v.b))
			}
		}
	case *ast.FuncType:
		v.function(t)
		v.onlyNames(t.Pos(), t.End(), mayBeNames(v, t))
	default:
		v.typ(ts.Type, "declared", false)
	}
	switch ts.Type.(type) {
	case *ast.StructType, *ast.InterfaceType:
	default:
		for _, n := range v.in(ts.Name.Pos(), ts.End()) {
			switch n.n.Kind() {
			case kind.MethodReceiverName, kind.MethodReceiverType:
				v.c.fail(v.p.id, "no name", string(v.p.src), "%q has kind %s in a type declaration: %s", n.n.Text(), n.n.Kind(), around(v.p.src, n.off+v.b))
			}
		}
	}
}

// declaredNames are the parameters of the function types within.
func declaredNames(v *kindView, within ast.Node) map[int]bool {
	out := map[int]bool{}
	ast.Inspect(within, func(n ast.Node) bool {
		if ft, ok := n.(*ast.FuncType); ok {
			for _, l := range []*ast.FieldList{ft.Params, ft.Results} {
				if l == nil {
					continue
				}
				for _, f := range l.List {
					for _, n := range f.Names {
						out[v.off(n.Pos())] = true
					}
				}
			}
		}
		return true
	})
	return out
}

// mayBeNames adds all names of struct and interface types within.
func mayBeNames(v *kindView, within ast.Node) map[int]bool {
	out := declaredNames(v, within)
	ast.Inspect(within, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.StructType, *ast.InterfaceType:
			ast.Inspect(n, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					out[v.off(id.Pos())] = true
				}
				return true
			})
		}
		return true
	})
	return out
}

// spaced tells whether a comment lies within a type.
func spaced(r *ref, e ast.Expr) bool {
	return strings.Contains(r.text(e), "/*") || strings.Contains(r.text(e), "//")
}

// ---- C14

func init() {
	register(&check{
		id: "C14", rule: "Inputs are mutilated programs (truncated, spliced, bytes and tokens deleted, inserted, doubled, swapped), random bytes, random tokens, deep nestings and Go files of the machine as they are. Every case is non-trivial; distinct cases have distinct results.",
		cases: func(e *env) []string {
			l := append(srcCases(e, "C14", e.scale(500, 1<<30)), numbered("mut", e.scale(45000, 2000000))...)
			l = append(l, numbered("huge", len(hugeTexts))...)
			return append(l, numbered("deep", len(nestPairs)*len(deepHeads)*[]int{3, 6}[btoi(e.thorough())])...)
		},
		run:    runC14,
		must:   []string{"texts parsed", "scopes"},
		assume: []string{"a case that uses 90 s of CPU time alone never ends: cases take milliseconds"},
	})
}

var deepHeads = []string{"func f(a ", "type T ", "var x = ", "func f() {", "func (r ", "type T[P ", "func f() ", "func f() (a "}

// maxNesting is how deep go/parser lets brackets nest.
const maxNesting = 100000

// hugeTexts are beginnings of texts and what they repeat by the million.
var hugeTexts = [][2]string{
	{"func f", "("}, {"func f", "({"}, {"func f() ", "{"}, {"", "func f("}, {"var x = ", "f(func() {\n"},
	{"type T ", "struct{ a "}, {"type T ", "interface { M("}, {"func (", "\n("}, {"const (", "a, "}, {"var x = ", "[]"},
	{"type T ", "map[int]"}, {"func f(a ", "func "}, {"type T[P ", "*"}, {"", "// \n"}, {"", "var a\n"}, {"type T ", "a."},
}

func deepText(id string) []byte {
	_, arg := split(id)
	n := atoi(arg)
	p := nestPairs[n%len(nestPairs)]
	n /= len(nestPairs)
	head := deepHeads[n%len(deepHeads)]
	n /= len(deepHeads)
	depth := []int{40, 300, 900, 41, 301, 1500}[n%6]
	s := head + strings.Repeat(p[0], depth) + "int"
	if n%2 == 0 {
		s += strings.Repeat(p[1], depth)
	}
	return []byte(s + "\n\nfunc end() {}\n")
}

func runC14(c *ctx, id string) {
	var src []byte
	switch k, arg := split(id); k {
	case "deep":
		src = deepText(id)
	case "huge":
		h := hugeTexts[atoi(arg)%len(hugeTexts)]
		n := 4 << 20
		if !strings.ContainsAny(h[1], "({") {
			n = 300000
		}
		src = []byte(h[0] + strings.Repeat(h[1], n))
	default:
		src, _ = rawText(c.env, id)
	}
	r := newRand(c.seed, "start"+id)
	start := r.IntN(5) * r.IntN(1000)
	given := bytes.Clone(src)
	scs, err := goast.ParseScope(start, given)
	c.count("texts parsed", 1)
	c.count("bytes parsed", len(src))
	if err != nil {
		c.count("errors", 1)
		show := src[:min(len(src), 4000)]
		if scs != nil {
			c.fail(id, "error", string(show), "ParseScope returns both scopes and the error %v", err)
		}
		if bytes.Count(src, []byte("("))+bytes.Count(src, []byte("{")) <= maxNesting {
			c.fail(id, "refused", string(show), "ParseScope refuses the text with the error %v", err)
		}
		return
	}
	if !bytes.Equal(given, src) {
		c.fail(id, "argument", string(src), "ParseScope changed the text it was given")
	}
	o, bad := observe(scs, len(src))
	if bad != "" {
		c.fail(id, "chain", string(src), "%s", bad)
		return
	}
	if !strings.HasSuffix(string(src), o.text) {
		c.fail(id, "loss", string(src), "the nodes hold no tail of the text: %s", firstDiff(string(src[max(0, len(src)-len(o.text)):]), o.text))
		return
	}
	if first := plainStart(src); first >= 0 && len(src)-len(o.text) != first {
		c.fail(id, "start", string(src), "the first scope begins at byte %d, expected %d", len(src)-len(o.text), first)
	}
	c.count("scopes", len(scs))
	c.count("nodes", len(o.nodes))
	h := newHash()
	for i, s := range scs {
		_, bad := namesOf(s)
		if bad != "" {
			c.fail(id, "accessor", string(src), "scope %d: %s", i, bad)
		}
		if d := s.Description(); d == "" {
			c.fail(id, "description", string(src), "scope %d has an empty description", i)
		}
		cp := s.Copy()
		if d := diffSnap(snapScope(s), snapScope(cp), 0); d != "" {
			c.fail(id, "copy", string(src), "the copy of scope %d differs: %s", i, d)
		}
		h.str(string(s.Kind()))
	}
	for _, n := range o.nodes {
		_ = n.n.Description()
		h.str(n.n.Kind()[1])
	}
	if a, err := goast.NewAst(scs...); err == nil {
		_, _ = a.Package()
		_ = a.Description()
		_ = a.Copy()
	}
	c.distinct(uint64(h))
	if len(src) < 400 {
		c.sample(map[string]any{"case": id, "text": string(src), "scopes": len(scs), "nodes": len(o.nodes)})
	}
}

// plainStart returns the offset of the first scope of a text if that is easy to tell: at the
// first line that starts with a keyword or comment, if there is nothing but plain text before.
// Otherwise it returns -1.
func plainStart(src []byte) int {
	s := string(src)
	off := 0
	for off < len(s) {
		line := s[off:]
		end := strings.IndexByte(line, '\n')
		if end < 0 {
			end = len(line)
		}
		line = line[:end]
		for _, k := range []string{"package", "import", "var", "const", "type", "func"} {
			if strings.HasPrefix(line, k+" ") {
				return off
			}
			if strings.HasPrefix(line, k) && (len(line) == len(k) || !isLetter(line[len(k)])) {
				return -1
			}
		}
		if strings.HasPrefix(line, "//") || strings.HasPrefix(line, "/*") {
			return off
		}
		for i := 0; i < len(line); i++ {
			b := line[i]
			if b != ' ' && b != '\t' && !isLetter(b) {
				return -1
			}
		}
		if f := strings.Fields(line); len(f) > 0 && token.IsKeyword(f[len(f)-1]) {
			return -1 // the code goes on
		}
		off += end + 1
	}
	return -1
}

func isLetter(b byte) bool {
	return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
}

func atoi(s string) int {
	n := 0
	for _, b := range s {
		if b >= '0' && b <= '9' {
			n = n*10 + int(b-'0')
		}
	}
	return n
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
