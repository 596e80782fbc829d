package main

// Random Go programs and fragments, hostile to a hand-written tokenizer:
// literals and comments full of brackets, quotes, comment openers and declarations,
// first-column text inside declarations, identifiers that look like keywords or basic types,
// every form of parameter list, receiver, type parameter list, struct row and interface element.

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

type gen struct {
	r      *rand.Rand
	budget int // of types, expressions and statements still allowed
	tame   bool
	uniq   int
}

func newRand(seed uint64, stream string) *rand.Rand {
	h := uint64(14695981039346656037)
	for i := 0; i < len(stream); i++ {
		h = (h ^ uint64(stream[i])) * 1099511628211
	}
	return rand.New(rand.NewPCG(seed, h))
}

func newGen(seed uint64, stream string) *gen {
	return &gen{r: newRand(seed, stream), budget: 120}
}

func (g *gen) n(n int) int             { return g.r.IntN(n) }
func (g *gen) p(percent int) bool      { return g.r.IntN(100) < percent }
func (g *gen) pick(s ...string) string { return s[g.n(len(s))] }
func (g *gen) spend() bool {
	g.budget--
	return g.budget > 0
}

var (
	identPool = []string{
		"a", "b", "x", "y", "err", "ctx", "Foo", "bar", "T", "K", "V", "Name", "node", "fn", "i", "ok",
		"funcs", "function", "funcX", "typeLoop", "types", "typed", "variable", "vars", "varz", "constant", "consts",
		"importer", "imports", "packager", "packages", "mapper", "channel", "structure", "interfaces", "returns", "selector",
		"_x", "x_", "_1", "__", "été", "日本", "é", "π2", "ñandú", "ǅ", "int3", "uint_", "strings2", "booL", "String", "Int",
		"type_", "func_", "_func", "ifx", "forx", "gox", "Go", "nil2", "true2", "X1", "a1b2",
	}
	basicPool = []string{"bool", "string", "byte", "rune", "int", "uint", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "uintptr", "float32", "float64", "complex64", "complex128"}
	qualPool  = []string{"context.Context", "time.Duration", "io.Reader", "pkg.Type", "日.Ω", "bytes.Buffer", "func2.T", "type1.Func"}
	predPool  = []string{"error", "any", "comparable", "nil", "true", "iota", "len", "append"}
)

// ident is any identifier that may be declared.
func (g *gen) ident() string {
	switch k := g.n(100); {
	case k < 5 && !g.tame:
		return "_"
	case k < 11 && !g.tame:
		return basicPool[g.n(len(basicPool))]
	case k < 14 && !g.tame:
		return predPool[g.n(len(predPool))]
	default:
		return identPool[g.n(len(identPool))]
	}
}

func (g *gen) fresh() string {
	g.uniq++
	return fmt.Sprintf("%s%d", g.pick("v", "name", "funcA", "typeB", "constC", "é"), g.uniq)
}

func (g *gen) typeName() string {
	for {
		s := identPool[g.n(len(identPool))]
		if s != "__" {
			return s
		}
	}
}

// ---- literals and comments

var nasty = []string{
	"func f() {", "}", "{", "(", ")", "[", "]", "type T struct {", "var x = 1", "const c = 2", "import \"x\"", "package p",
	"\"", "'", "`", "//", "/*", "*/", "\\", "\\\\", "\\\"", "\\'", "\\n", ",", ";", ":", ":=", "...", "%s", "é", "日本", "\t", " ",
	"'\"'", "\"'\"", "/**/", "//*", "/*/", "**/", "a", "b1", "0", "*", "&", "<-", "default:", "case", "go:build", "\u00a0", "😀",
}

func (g *gen) stringLit() string {
	if g.p(35) {
		return g.rawLit()
	}
	var b strings.Builder
	b.WriteByte('"')
	for range g.n(5) {
		switch s := nasty[g.n(len(nasty))]; s {
		case "\"":
			b.WriteString("\\\"")
		case "\\":
			b.WriteString("\\\\")
		case "\\'":
			b.WriteString("'")
		case "\t":
			b.WriteString("\\t")
		default:
			s = strings.ReplaceAll(strings.ReplaceAll(s, "\\", "\\\\"), "\"", "\\\"")
			b.WriteString(s)
		}
		if g.p(15) {
			b.WriteString(g.pick("\\x41", "\\u00e9", "\\101", "\\a", "\\\\", "\\\"", "\\\\\\\"", "\\U0001F600"))
		}
	}
	if g.p(15) {
		b.WriteString("\\\\")
	}
	b.WriteByte('"')
	return b.String()
}

func (g *gen) rawLit() string {
	var b strings.Builder
	b.WriteByte('`')
	for range g.n(6) {
		s := nasty[g.n(len(nasty))]
		b.WriteString(strings.ReplaceAll(s, "`", "'"))
		if g.p(35) {
			b.WriteByte('\n')
		}
	}
	b.WriteByte('`')
	return b.String()
}

func (g *gen) runeLit() string {
	return g.pick("'a'", "'\"'", "'`'", "'\\''", "'\\\\'", "'{'", "'}'", "'('", "')'", "'['", "']'", "'/'", "'*'", "','", "';'", "':'", "' '", "'\\n'", "'\\t'", "'\\x00'", "'\\u1234'", "'é'", "'日'", "'#'", "'_'", "'\\101'", "'='")
}

func (g *gen) commentText() string {
	var b strings.Builder
	for range g.n(4) {
		b.WriteString(nasty[g.n(len(nasty))])
		if g.p(30) {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

func (g *gen) lineComment() string {
	if g.p(8) {
		return g.pick("//go:noinline", "//line x.go:1", "//export F", "//", "//nolint:all", "// +build x", "//go:build !x", "///", "//\\", "//*/", "//\"", "//`")
	}
	s := strings.ReplaceAll(g.commentText(), "\n", " ")
	return "//" + g.pick("", " ", "\t", "/") + strings.TrimRight(s, " \t")
}

// blockComment is a comment on one line.
func (g *gen) blockComment() string {
	if g.p(12) {
		return g.pick("/**/", "/***/", "/****/", "/*/ */", "/* * / */", "/*//*/", "/*\"*/", "/*'*/", "/*`*/", "/*{*/", "/*(*/", "/*\\*/", "/*/**/", "/***/ /***/")
	}
	s := strings.ReplaceAll(strings.ReplaceAll(g.commentText(), "*/", "* /"), "\n", " ")
	if full := "/*" + s + "*/"; strings.Index(full[2:], "*/") != len(full)-4 {
		s = " c "
	}
	return "/*" + s + "*/"
}

func (g *gen) multiComment() string {
	lines := []string{"/*"}
	for range 1 + g.n(4) {
		lines = append(lines, g.commentText())
	}
	full := strings.Join(lines, "\n") + "\n*/"
	if strings.Index(full[2:], "*/") != len(full)-4 {
		return "/*\nfunc f() {\n\"\n*/"
	}
	return full
}

// sp is what may separate two tokens.
func (g *gen) sp() string {
	if g.tame || !g.p(9) {
		return " "
	}
	return " " + g.blockComment() + " "
}

// nl is what may end a line.
func (g *gen) nl() string {
	if g.tame || !g.p(12) {
		return "\n"
	}
	if g.p(25) {
		return " " + g.blockComment() + "\n"
	}
	return " " + g.lineComment() + "\n"
}

// ---- types

func (g *gen) namedType() string {
	switch k := g.n(20); {
	case k < 6:
		return basicPool[g.n(len(basicPool))]
	case k < 9:
		return qualPool[g.n(len(qualPool))]
	case k < 11:
		return g.pick("error", "any")
	default:
		return g.typeName()
	}
}

func (g *gen) arrayLen() string {
	switch g.n(8) {
	case 0:
		return "N"
	case 1:
		return "len(" + g.stringLit() + ")"
	case 2:
		return g.runeLit()
	case 3:
		return "unsafe.Sizeof(a{}) - unsafe.Sizeof(b{})"
	case 4:
		return "2*N + 1"
	default:
		return fmt.Sprint(g.n(99))
	}
}

func (g *gen) typ(depth int) string {
	if depth <= 0 || !g.spend() {
		return g.namedType()
	}
	switch g.n(22) {
	case 0, 1, 2:
		return "*" + g.typ(depth-1)
	case 3, 4:
		return "[]" + g.typ(depth-1)
	case 5:
		return "[" + g.arrayLen() + "]" + g.typ(depth-1)
	case 6, 7:
		return "map[" + g.typ(depth-1) + "]" + g.typ(depth-1)
	case 8:
		return "chan " + g.typ(0)
	case 9:
		return g.pick("<-chan ", "chan<- ") + g.typ(0)
	case 10, 11:
		return "func" + g.signature(depth-1)
	case 12:
		return g.structType(depth - 1)
	case 13:
		return g.interfaceType(depth - 1)
	case 14:
		return g.typeName() + "[" + g.typ(depth-1) + "]"
	case 15:
		return g.typeName() + "[" + g.typ(depth-1) + ", " + g.typ(depth-1) + "]"
	case 16:
		return g.pick("struct{}", "interface{}", "func()", "pkg.G[int]")
	default:
		return g.namedType()
	}
}

func (g *gen) tag() string {
	return g.pick("`json:\"a\"`", "`json:\"a,omitempty\" xml:\"b\"`", "\"tag\"", "`{`", "`// x`", "\"\\\\\"", "\"/*\"")
}

func (g *gen) structType(depth int) string {
	if g.p(15) {
		return "struct{}"
	}
	if g.p(15) {
		return "struct{ " + g.field(depth, true) + " }"
	}
	var b strings.Builder
	b.WriteString("struct {" + g.nl())
	for range g.n(5) {
		if !g.tame && g.p(10) {
			b.WriteString("\t" + g.lineComment() + "\n")
		}
		if !g.tame && g.p(3) {
			b.WriteString("\n" + g.multiComment() + "\n")
		}
		b.WriteString("\t" + g.field(depth, false) + g.nl())
	}
	b.WriteString("}")
	return b.String()
}

func (g *gen) field(depth int, oneLine bool) string {
	s := ""
	switch g.n(8) {
	case 0:
		s = g.typeName()
	case 1:
		s = g.pick("*", "") + qualPool[g.n(len(qualPool))]
	case 2:
		s = g.pick("*", "") + g.typeName() + "[" + g.typ(1) + "]"
	case 3:
		if g.tame {
			s = "*" + g.typeName()
		} else {
			s = g.pick("error", "int", "string", "*bool")
		}
	case 4:
		s = g.ident() + g.commaSep(oneLine) + g.ident() + g.sp() + g.fieldType(depth, oneLine)
	case 5:
		s = g.ident() + "," + g.ident() + ", " + g.ident() + g.sp() + g.fieldType(depth, oneLine)
	default:
		s = g.ident() + g.sp() + g.fieldType(depth, oneLine)
	}
	if g.p(20) {
		s += " " + g.tag()
	}
	return s
}

func (g *gen) commaSep(oneLine bool) string {
	if !oneLine && !g.tame && g.p(10) {
		return "," + g.pick("\n", " // c\n", " /* c */ ")
	}
	return ", "
}

func (g *gen) fieldType(depth int, oneLine bool) string {
	return g.typ(depth)
}

func (g *gen) interfaceType(depth int) string {
	if g.p(20) {
		return "interface{}"
	}
	var b strings.Builder
	b.WriteString("interface {" + g.nl())
	for range g.n(5) {
		if !g.tame && g.p(10) {
			b.WriteString("\t" + g.lineComment() + "\n")
		}
		b.WriteString("\t")
		switch g.n(8) {
		case 0:
			b.WriteString(g.typeName())
		case 1:
			b.WriteString(qualPool[g.n(len(qualPool))])
		case 2:
			b.WriteString(g.union(depth))
		default:
			b.WriteString(g.ident())
			if !g.tame && g.p(4) {
				b.WriteString(" " + g.blockComment() + " ")
			}
			b.WriteString(g.signature(depth))
		}
		b.WriteString(g.nl())
	}
	b.WriteString("}")
	return b.String()
}

func (g *gen) union(depth int) string {
	parts := []string{}
	for range 1 + g.n(3) {
		t := g.typ(min(depth, 1))
		if strings.HasPrefix(t, "func") || strings.HasPrefix(t, "<-") || strings.HasPrefix(t, "chan") {
			t = g.typeName()
		}
		if g.p(15) {
			t = "(" + t + ")"
		}
		parts = append(parts, g.pick("", "~")+t)
	}
	if g.p(25) {
		parts = append(parts, g.pick("", "~")+"func"+g.signature(min(depth, 1)))
	}
	s := parts[0]
	for _, t := range parts[1:] {
		s += g.pick(" | ", " | ", " |"+g.nl()+"\t\t") + t
	}
	return s
}

func (g *gen) typeParams() string {
	names := []string{}
	for range 1 + g.n(3) {
		names = append(names, g.pick("P", "Q", "K", "V", "E", "S", "any_", "T1")+g.pick("", "x"))
	}
	switch g.n(5) {
	case 0:
		return "[" + strings.Join(names, ", ") + " any]"
	case 1:
		return "[" + names[0] + " interface{ " + g.pick("~int | ~string", "M()", "comparable", "*"+g.typeName()) + " }]"
	case 2:
		return "[" + names[0] + " ~[]E2, E2 any]"
	default:
		s := ""
		for i, n := range names {
			if i > 0 {
				s += ", "
			}
			s += n + " " + g.pick("any", "comparable", "~int | ~string", "Number", "pkg.C", "fmt.Stringer", "List["+names[0]+"]", "interface{ ~[]int }")
		}
		return "[" + s + "]"
	}
}

// params is a parameter or result list with its parentheses.
func (g *gen) params(depth int, variadic bool) string {
	n := g.n(4)
	if n == 0 {
		return "()"
	}
	named := g.p(65)
	multi := g.p(15)
	items := []string{}
	for i := range n {
		t := g.typ(depth)
		if variadic && i == n-1 && g.p(20) {
			t = "..." + g.typ(max(0, depth-1))
		}
		if !named {
			items = append(items, t)
			continue
		}
		if g.p(25) && !strings.HasPrefix(t, "...") {
			items = append(items, g.ident()+", "+g.ident()+g.sp()+t)
		} else {
			items = append(items, g.ident()+g.sp()+t)
		}
	}
	if multi {
		var b strings.Builder
		b.WriteString("(" + g.nl())
		for _, it := range items {
			if !g.tame && g.p(15) {
				b.WriteString(g.pick(g.lineComment()+"\n", g.blockComment()+" "))
			}
			b.WriteString("\t" + it + "," + g.nl())
		}
		b.WriteString(")")
		return b.String()
	}
	s := "("
	for i, it := range items {
		if i > 0 {
			s += ","
			if g.p(95) {
				s += g.sp()
			}
		} else if !g.tame && g.p(4) {
			s += g.blockComment()
		}
		s += it
	}
	if !g.tame && g.p(4) {
		s += g.blockComment()
	}
	return s + ")"
}

func (g *gen) signature(depth int) string {
	s := g.params(depth, true)
	switch k := g.n(10); {
	case k < 3:
		return s
	case k < 6:
		return s + g.sp() + g.typ(depth)
	default:
		r := g.params(depth, false)
		if r == "()" && g.p(80) {
			return s
		}
		return s + g.sp() + r
	}
}

// ---- expressions and statements

func (g *gen) expr(depth int) string {
	if depth <= 0 || !g.spend() {
		switch g.n(9) {
		case 0, 1:
			return g.stringLit()
		case 2:
			return g.runeLit()
		case 3:
			return g.pick("0", "42", "0x1F", "1_000", "1.5", "1e9", "0b1", ".5", "3i", "0o7")
		case 4:
			return g.pick("nil", "true", "iota")
		case 5:
			return g.typeName() + "." + g.typeName()
		default:
			return g.typeName()
		}
	}
	switch g.n(15) {
	case 0:
		return g.expr(depth-1) + " " + g.pick("+", "-", "*", "/", "%", "&", "|", "^", "&^", "<<", ">>", "&&", "||", "==", "!=", "<", "<=", ">", ">=") + " " + g.expr(depth-1)
	case 1:
		return g.typeName() + "(" + g.args(depth-1) + ")"
	case 2:
		return g.typeName() + "." + g.typeName() + "(" + g.args(depth-1) + ")"
	case 3:
		n := g.nesting()
		return strings.Repeat("(", n) + g.expr(depth-1) + strings.Repeat(")", n)
	case 4:
		return g.typeName() + "[" + g.expr(depth-1) + "]"
	case 5:
		return g.typeName() + "[" + g.expr(0) + ":" + g.expr(0) + "]"
	case 6:
		return "[]" + g.namedType() + "{" + g.args(depth-1) + "}"
	case 7:
		return "map[string]" + g.namedType() + "{" + g.stringLit() + ": " + g.expr(depth-1) + "}"
	case 8:
		return "&" + g.typeName() + "{" + g.typeName() + ": " + g.expr(depth-1) + "}"
	case 9:
		return "func" + g.signature(1) + " " + g.block(depth-1)
	case 10:
		return "func" + g.signature(0) + " " + g.block(depth-1) + "()"
	case 11:
		return g.pick("!", "-", "*", "&", "<-", "^") + g.typeName()
	case 12:
		return g.typeName() + ".(" + g.typ(1) + ")"
	case 13:
		return "[...]string{\n" + g.stringLit() + "," + g.nl() + g.stringLit() + ",\n}"
	default:
		return "struct{ X int }{1}"
	}
}

// nesting is a depth of brackets, mostly 1.
func (g *gen) nesting() int {
	if !g.p(4) {
		return 1
	}
	return 1 + g.n(1<<g.n(8))
}

func (g *gen) args(depth int) string {
	n := g.n(4)
	items := make([]string, n)
	for i := range items {
		items[i] = g.expr(depth)
	}
	if n > 0 && g.p(15) {
		var b strings.Builder
		for i, it := range items {
			if i == 0 {
				b.WriteString("\n")
			}
			b.WriteString(it + "," + g.nl())
		}
		return b.String()
	}
	return strings.Join(items, ", ")
}

func (g *gen) block(depth int) string {
	if g.p(15) {
		return "{}"
	}
	var b strings.Builder
	b.WriteString("{" + g.nl())
	for range g.n(5) {
		b.WriteString(g.stmt(depth))
	}
	b.WriteString("}")
	return b.String()
}

func (g *gen) stmt(depth int) string {
	if depth <= 0 || !g.spend() {
		return g.typeName() + " = " + g.expr(1) + g.nl()
	}
	switch g.n(26) {
	case 0:
		return g.typeName() + " := " + g.expr(depth) + g.nl()
	case 1:
		return "if " + g.typeName() + " := g(); " + g.typeName() + " " + g.block(depth-1) + " else " + g.block(depth-1) + "\n"
	case 2:
		return "for " + g.pick("", "i := 0; i < n; i++ ", "range x ", "k, v := range m ", "i := range 10 ") + g.block(depth-1) + "\n"
	case 3:
		return "switch " + g.pick("", "x ", "x := y.(type) ") + "{\ncase " + g.expr(0) + ":" + g.nl() + g.stmt(depth-1) + "default:\n" + g.stmt(depth-1) + "}\n"
	case 4:
		return "select {\ncase v := <-c:\n" + g.stmt(depth-1) + "case c <- 1:\ndefault:\n}\n"
	case 5:
		return g.pick("go ", "defer ") + "func() " + g.block(depth-1) + "()\n"
	case 6:
		return "return " + g.expr(depth) + g.nl()
	case 7:
		return g.lineComment() + "\n"
	case 8:
		return g.blockComment() + "\n"
	case 9:
		return "\n" + g.multiComment() + "\n"
	case 10:
		return g.pick("typeLoop", "funcs", "variable", "constX", "importer", "packageL", "label", "été") + ":\n" + g.stmt(depth-1)
	case 11:
		return "var " + g.typeName() + " " + g.typ(1) + " = " + g.expr(depth-1) + g.nl()
	case 12:
		return "type " + g.typeName() + " " + g.typ(2) + g.nl()
	case 13:
		return "const " + g.typeName() + " = " + g.expr(0) + g.nl()
	case 14:
		return "const (\n" + g.typeName() + " = iota" + g.nl() + g.typeName() + "\n)\n"
	case 15:
		return g.typeName() + " = " + g.rawLit() + g.nl()
	case 16:
		return g.typeName() + " = " + g.stringLit() + " + " + g.runeLit() + g.nl()
	case 17:
		return g.typeName() + "++\n"
	case 18:
		return g.typeName() + " " + g.pick("+=", "-=", "&^=", "<<=", "|=") + " " + g.expr(1) + "\n"
	case 19:
		return "func() " + g.block(depth-1) + "()\n"
	case 20:
		return "goto typeLoop\n"
	case 21:
		n := g.nesting()
		return strings.Repeat("{\n", n) + g.stmt(depth-1) + strings.Repeat("}\n", n)
	case 22:
		return "x, y := " + g.expr(1) + ", " + g.expr(1) + "\n"
	case 23:
		return "c <- " + g.expr(1) + "\n"
	default:
		return g.typeName() + "(" + g.args(depth-1) + ")" + g.nl()
	}
}

// ---- declarations

func (g *gen) importSpec() string {
	return g.pick("", "", "x ", "_ ", ". ", "é ", "funcs ") + g.pick("\"fmt\"", "\"a/b/c\"", "`raw`", "\"github.com/x/y-z.v2\"", "\"func\"", "\"type/var\"")
}

func (g *gen) valueSpec() string {
	switch g.n(6) {
	case 0:
		return g.ident() + g.sp() + g.typ(2)
	case 1:
		return g.ident() + ", " + g.ident() + " = " + g.expr(1) + ", " + g.expr(1)
	case 2:
		return g.ident() + " " + g.typ(1) + " = " + g.expr(2)
	case 3:
		if g.tame {
			return g.ident() + " = " + g.expr(2)
		}
		return g.ident() + " =\n" + g.pick(g.lineComment()+"\n", g.blockComment()+"\n", "\n") + g.expr(1)
	case 4:
		return g.ident() + " = " + g.expr(1) + " +\n" + g.expr(1)
	default:
		return g.ident() + " = " + g.expr(3)
	}
}

func (g *gen) typeSpec() string {
	s := g.ident()
	switch g.n(12) {
	case 0:
		return s + " = " + g.typ(2)
	case 1:
		return s + g.typeParams() + g.sp() + g.typ(2)
	case 2:
		return s + g.typeParams() + g.sp() + g.structType(2)
	case 3:
		return s + g.typeParams() + g.sp() + g.interfaceType(2)
	case 4, 5, 6:
		return s + g.sp() + g.structType(2)
	case 7, 8:
		return s + g.sp() + g.interfaceType(2)
	case 9:
		return s + " func" + g.signature(2)
	default:
		return s + g.sp() + g.typ(3)
	}
}

func (g *gen) group(kw string, spec func() string) string {
	if g.p(10) {
		return kw + " ()"
	}
	var b strings.Builder
	b.WriteString(kw + " (" + g.nl())
	for range g.n(4) {
		if !g.tame && g.p(15) {
			b.WriteString(g.pick(g.lineComment()+"\n", g.blockComment()+"\n", g.multiComment()+"\n"))
		}
		b.WriteString("\t" + spec() + g.nl())
		if g.p(10) {
			b.WriteString("\n")
		}
	}
	b.WriteString(")")
	return b.String()
}

func (g *gen) receiver() string {
	base := g.typeName()
	t := g.pick("", "*") + base
	if g.p(25) {
		t += g.pick("[P]", "[K, V]", "[_]", "[_, V]")
	}
	switch g.n(5) {
	case 0:
		return "(" + t + ")"
	case 1:
		return "(_ " + t + ")"
	case 2:
		return "(" + g.ident() + " " + t + ")"
	default:
		return "(" + g.pick("r", "s", "m", "self", "été", "x_") + g.sp() + t + ")"
	}
}

func (g *gen) funcDecl() string {
	s := "func "
	if g.p(45) {
		s += g.receiver() + g.sp() + g.ident()
	} else {
		s += g.ident()
		if g.p(20) {
			s += g.typeParams()
		}
	}
	s += g.signature(2)
	if g.p(6) {
		return s
	}
	return s + " " + g.block(3)
}

func (g *gen) decl() string {
	g.budget = 60
	switch g.n(14) {
	case 0:
		return "var " + g.valueSpec()
	case 1:
		return g.group("var", g.valueSpec)
	case 2:
		return "const " + g.ident() + " = " + g.expr(2)
	case 3:
		return g.group("const", func() string { return g.ident() + g.pick("", " = iota", " = "+g.expr(1), " T = "+g.expr(0)) })
	case 4, 5, 6, 7:
		return "type " + g.typeSpec()
	case 8:
		return g.group("type", g.typeSpec)
	default:
		return g.funcDecl()
	}
}

// between is what lies between two declarations.
func (g *gen) between() string {
	var b strings.Builder
	b.WriteString(g.pick("\n", "\n\n", "\n\n", "\n\n\n"))
	for range 2 {
		if g.tame && !g.p(20) || !g.p(40) {
			continue
		}
		switch g.n(9) {
		case 0, 1, 2:
			b.WriteString(g.lineComment() + "\n")
		case 3:
			b.WriteString(g.blockComment() + "\n")
		case 4:
			b.WriteString(g.multiComment() + "\n")
		case 5:
			b.WriteString(g.blockComment() + " " + g.lineComment() + "\n")
		case 6:
			b.WriteString(g.blockComment() + " ") // a declaration follows on the line
			return b.String()
		case 7:
			b.WriteString(g.lineComment() + "\n\n")
		default:
			b.WriteString(g.blockComment() + " " + g.blockComment() + "\n")
		}
	}
	return b.String()
}

func (g *gen) packageClause() string {
	return "package " + g.pick("p", "main", "p_test", "été", "string", "int", "funcs", "typed", "x1", "_x", "__", "varz")
}

func (g *gen) file() string {
	g.tame = g.p(25)
	var b strings.Builder
	if g.p(40) {
		for range 1 + g.n(3) {
			b.WriteString(g.pick(g.lineComment()+"\n", g.blockComment()+"\n", "//go:build x\n\n", g.multiComment()+"\n", "// Copyright\n\n"))
		}
	}
	if g.p(8) {
		b.WriteString(g.blockComment() + " ")
	}
	b.WriteString(g.packageClause())
	if g.p(15) {
		b.WriteString(g.pick(" "+g.lineComment(), " "+g.blockComment(), ";"))
	}
	b.WriteString(g.between())
	for range g.n(3) {
		if g.p(50) {
			b.WriteString("import " + g.importSpec())
		} else {
			b.WriteString(g.group("import", g.importSpec))
		}
		b.WriteString(g.nl())
		b.WriteString(g.between())
	}
	for range g.n(7) {
		b.WriteString(g.decl())
		b.WriteString(g.nl())
		b.WriteString(g.between())
	}
	if g.p(30) {
		b.WriteString(g.pick(g.lineComment(), g.blockComment(), g.multiComment()))
	}
	return b.String()
}

// fragment is a list of declarations in no particular format, that starts in the first column.
func (g *gen) fragment() string {
	var b strings.Builder
	if g.p(40) {
		b.WriteString(g.packageClause() + "\n")
	}
	for range 1 + g.n(4) {
		d := g.decl()
		if g.p(40) {
			d = g.respace(d)
		}
		b.WriteString(d)
		b.WriteString(g.pick("\n", "\n\n", ";\n", "\t\n", " \n\n\n", "\r\n", " // c\n"))
		if g.p(25) {
			b.WriteString(g.lineComment() + "\n")
		}
		if g.p(15) {
			b.WriteString(g.multiComment() + "\n")
		}
	}
	s := b.String()
	if g.p(30) {
		s = strings.TrimRight(s, "\n")
	}
	return s
}

// respace changes white space between tokens, outside of literals and comments as far as cheap to tell.
func (g *gen) respace(s string) string {
	if strings.ContainsAny(s, "\"'`/") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' && g.p(15) {
			b.WriteString(g.pick("  ", "\t", " \t ", "   "))
			continue
		}
		b.WriteByte(s[i])
		if s[i] == '\n' && g.p(15) {
			b.WriteString(g.pick("\n", "\t\t", "  "))
		}
	}
	return b.String()
}
