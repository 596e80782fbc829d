package main

// Where the inputs come from. A case id names its input for good:
//
//	src:PATH    a Go file of the machine (Go's own sources, its compiler tests, the module cache)
//	gen:N       the N-th generated program of the seed
//	big:N       a program with one large part
//	large:N     files of 10 MB
//	frag:N      the N-th generated fragment, not formatted
//	mut:N       the N-th mutilated text
//	hist:N      the N-th history of operations
//	...         others belong to single checks

import (
	"bytes"
	"go/parser"
	"go/scanner"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/yanun0323/goast"
)

const maxSource = 200_000

var corpusOnce sync.Once
var corpusFiles []string

// corpus lists the Go files of the machine.
func corpus(e *env) []string {
	corpusOnce.Do(func() {
		for _, root := range []string{filepath.Join(e.goroot, "src"), filepath.Join(e.goroot, "test"), e.modc, "/usr/local/go/test"} {
			if root == "" || root == "src" || root == "test" {
				continue
			}
			var list []string
			_ = filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
				if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || !d.Type().IsRegular() {
					return nil
				}
				if in, err := d.Info(); err != nil || in.Size() > maxSource || in.Size() == 0 {
					return nil
				}
				list = append(list, p)
				return nil
			})
			sort.Strings(list)
			corpusFiles = append(corpusFiles, list...)
		}
	})
	return corpusFiles
}

// srcCases chooses up to n files of the corpus, by the seed.
func srcCases(e *env, stream string, n int) []string {
	all := corpus(e)
	out := make([]string, 0, min(n, len(all)))
	if n >= len(all) {
		for _, p := range all {
			out = append(out, "src:"+p)
		}
		return out
	}
	r := newRand(e.seed, stream)
	for _, i := range r.Perm(len(all))[:n] {
		out = append(out, "src:"+all[i])
	}
	return out
}

func numbered(prefix string, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = prefix + ":" + strconv.Itoa(i)
	}
	return out
}

// programs is the usual mix of files.
func programs(e *env, stream string, src, gen int) []string {
	out := append(srcCases(e, stream, src), numbered("gen", gen)...)
	return append(out, numbered("big", len(bigParts)*len(bigSizes))...)
}

// bigSizes are about how many bytes the large part of a program has.
var bigSizes = []int{5000, 70000, 300000}

// bigParts make programs with one large part: what repeats, between a beginning and an end.
var bigParts = [][3]string{
	{"var a = \"", "x", "\"\n"},
	{"var a = `", "x \\y\n", "`\n"},
	{"var a = f(\"", "\\\"\\n", "\", 1)\n"},
	{"// ", "c d ", "e\n"},
	{"/* ", "c d\n", "*/\n"},
	{"func f() { // ", "c", "\n\treturn\n}\n"},
	{"func f(a /* ", "x", "*/ int) {}\n"},
	{"type T struct {\n\tA int `", "x", "`\n\tB string\n}\n"},
	{"var a", "b", " = 1\n"},
	{"type A", "b", " struct {\n\tB int\n}\n"},
	{"type T struct {\n\tA", "b", " int\n}\n"},
	{"type I interface {\n\tM", "m", "(a int) string\n}\n"},
	{"func f", "b", "(a int) string { return \"\" }\n"},
	{"func (r T", "b", ") m() {}\n"},
	{"func f(a", "b", " int, c string) (d error) { return }\n"},
	{"var a = 1", "0", "\n"},
	{"var a = []int{\n", "\t1, 2,\n", "}\n"},
	{"var a = []int{", "1, ", "2}\n"},
	{"const (\n", "\ta = 1\n", ")\n"},
	{"import (\n", "\t\"a/b\"\n", ")\n"},
	{"type T struct {\n", "\tA int // c\n", "}\n"},
	{"type I interface {\n", "\tM(a int) (b string)\n", "}\n"},
	{"func f() {\n", "\tg(a, 1)\n", "}\n"},
	{"func f(", "a int, ", "b string) (c error) { return }\n"},
	{"func f() (", "a int, ", "b string) { return }\n"},
	{"func f(a ", "[]", "int) {}\n"},
	{"", "func f(a int) {}\n\n", "var z int\n"},
	{"", "var a int\n\n", "func f() {}\n"},
	{"", "// c\n", "\nfunc f() {}\n"},
	{"", "/* c */\n\n", "type T int\n"},
	{"", "type T struct {\n\tA int\n}\n\n", "func f() {}\n"},
	{"var a = b", " + b" + strings.Repeat("c", 200), "\n"},
	{"var a = b", ".c" + strings.Repeat("c", 200) + "(d)", "\n"},
	{"", "\n", "package p\n"},
	{"", "// c\n", "package p\n"},
	{"/*\n", "c\n", "*/\n\npackage p\n"},
	{"", "//go:build a\n\n", "package p\n"},
	{"", "/* c */ ", "package p\n"},
}

func bigText(id string) []byte {
	_, arg := split(id)
	p, size := bigParts[atoi(arg)%len(bigParts)], bigSizes[atoi(arg)/len(bigParts)%len(bigSizes)]
	first := "package p\n\n"
	if strings.HasSuffix(p[2], "package p\n") {
		first = ""
	}
	return []byte(first + p[0] + strings.Repeat(p[1], size/len(p[1])) + p[2] + "\nfunc end(a int) {}\n")
}

func split(id string) (string, string) {
	a, b, _ := strings.Cut(id, ":")
	return a, b
}

// rawText is the text of a src, gen, frag, cut or mut case.
func rawText(e *env, id string) ([]byte, bool) {
	kind, arg := split(id)
	switch kind {
	case "src":
		b, err := os.ReadFile(arg)
		return b, err == nil
	case "gen":
		g := newGen(e.seed, id)
		if src := g.file(); atoi(arg)%4 == 3 {
			return sprinkle(g, []byte(src)), true
		} else {
			return []byte(src), true
		}
	case "big":
		return bigText(id), true
	case "large": // a file of 10 MB, valid or not
		valid := "package p\n\nvar a = `" + strings.Repeat("0123456789abcde\n", 10<<16) + "`\n"
		return []byte([]string{valid, valid + "\n\nvar\n", valid[len("package p\n\n"):], valid + strings.Repeat("// c\n", 40000)}[atoi(arg)%4]), true
	case "frag":
		return []byte(newGen(e.seed, id).fragment()), true
	case "cut": // a fragment that ends anywhere, also within a literal or behind a backslash
		g := newGen(e.seed, id)
		text := g.fragment()
		if len(text) > 10 { // behind the keyword that starts it
			text = text[:10+g.n(len(text)-10)]
		}
		return []byte(text + g.pick("", "", "\\", "\"", "'", "`", "/*", "//", "\"\\", "'\\", "\"\\\\", "\"a\\\"\\", "`\\", "/* *", "{", "(\n", "\xe6", "\r", "\n")), true
	case "mut":
		return mutant(e, id), true
	}
	return nil, false
}

// caseText is the text to show for a case, if it has one.
func caseText(e *env, _ *check, id string) string {
	b, ok := rawText(e, id)
	if !ok {
		return ""
	}
	if len(b) > 20000 {
		return string(b[:20000])
	}
	return string(b)
}

type parsed struct {
	id  string
	src []byte // formatted
	ref *ref
	scs []goast.Scope
	o   *obs
}

// formatted returns the gofmt form of a case and what Go's parser says; nil if it isn't valid Go.
func (c *ctx) formatted(id string) *ref {
	raw, ok := rawText(c.env, id)
	if !ok {
		return nil
	}
	c.count("texts", 1)
	src, ok := gofmt(raw)
	if !ok {
		c.count("texts not valid Go", 1)
		return nil
	}
	// format.Source takes fragments too, and keeps carriage returns in some places.
	r := newRef(src)
	if r == nil {
		c.count("texts not valid Go", 1)
		return nil
	}
	return r
}

// parse parses the formatted text of a case from line 0. It reports malformed chains
// under the key "chain".
func (c *ctx) parse(id string) *parsed {
	r := c.formatted(id)
	if r == nil {
		return nil
	}
	if hashText(r.src)%5 == 0 { // the last text of a source ends it without a newline too
		if cut := newRef(bytes.TrimRight(r.src, "\n")); cut != nil {
			r = cut
			c.count("texts without a final newline", 1)
		}
	}
	scs, err := goast.ParseScope(0, bytes.Clone(r.src))
	if err != nil {
		c.fail(id, "error", string(r.src), "ParseScope failed on a valid Go file: %v", err)
		return nil
	}
	o, bad := observe(scs, len(r.src))
	if bad != "" {
		c.fail(id, "chain", string(r.src), "%s", bad)
		return nil
	}
	c.count("files parsed", 1)
	c.count("bytes parsed", len(r.src))
	c.count("scopes", len(scs))
	c.count("nodes", len(o.nodes))
	return &parsed{id, r.src, r, scs, o}
}

// tail returns where the concatenated texts of the nodes begin in the source, or -1.
func (p *parsed) base() int {
	if !bytes.HasSuffix(p.src, []byte(p.o.text)) {
		return -1
	}
	return len(p.src) - len(p.o.text)
}

func (c *ctx) tally(p *parsed) {
	h := newHash()
	h.str(string(p.src))
	c.distinct(uint64(h))
}

func hashText(b []byte) uint64 {
	h := newHash()
	h.str(string(b))
	return uint64(h)
}

// around shows the text at an offset.
func around(src []byte, off int) string {
	return strconv.Quote(string(src[max(0, min(off-30, len(src))):min(len(src), off+60)]))
}

// ---- mutilated texts

func mutant(e *env, id string) []byte {
	r := newRand(e.seed, id)
	pickText := func() []byte {
		if files := corpus(e); r.IntN(3) == 0 && len(files) > 0 {
			b, _ := os.ReadFile(files[r.IntN(len(files))])
			if len(b) > 6000 {
				o := r.IntN(len(b) - 6000)
				if r.IntN(2) == 0 {
					for o > 0 && b[o-1] != '\n' {
						o--
					}
				}
				b = b[o : o+6000]
			}
			return b
		}
		g := newGen(r.Uint64(), "mutant")
		if r.IntN(2) == 0 {
			return []byte(g.file())
		}
		return []byte(g.fragment())
	}
	switch r.IntN(12) {
	case 0: // random bytes
		b := make([]byte, r.IntN(300))
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		return b
	case 1: // random tokens
		return randomTokens(r.IntN, 1+r.IntN(60))
	case 2: // nesting
		return nested(r.IntN)
	}
	b := bytes.Clone(pickText())
	if len(b) == 0 {
		return b
	}
	for range 1 + r.IntN(4) {
		if len(b) == 0 {
			break
		}
		switch r.IntN(12) {
		case 0:
			b = b[:r.IntN(len(b))]
		case 1:
			b = b[r.IntN(len(b)):]
		case 2, 3: // delete a span
			i := r.IntN(len(b))
			b = append(b[:i:i], b[min(len(b), i+1+r.IntN(8)):]...)
		case 4, 5, 6: // insert something structural
			i := r.IntN(len(b) + 1)
			ins := tokenPool[r.IntN(len(tokenPool))]
			b = append(append(b[:i:i], ins...), b[i:]...)
		case 7: // flip a byte
			b[r.IntN(len(b))] = byte(r.IntN(256))
		case 8: // swap two spans
			i, j := r.IntN(len(b)), r.IntN(len(b))
			if i > j {
				i, j = j, i
			}
			b = append(append(append([]byte{}, b[:i]...), b[j:]...), b[i:j]...)
		case 9: // splice with another text
			o := pickText()
			if len(o) > 0 {
				b = append(b[:r.IntN(len(b)):len(b)], o[r.IntN(len(o)):]...)
			}
		case 10: // drop all of one byte
			x := "(){}[]\"'`/*,\n \\;"[r.IntN(16)]
			b = bytes.ReplaceAll(b, []byte{x}, nil)
		case 11: // double a span
			i := r.IntN(len(b))
			j := min(len(b), i+1+r.IntN(40))
			b = append(b[:j:j], b[i:]...)
		}
	}
	return b
}

var tokenPool = []string{
	"(", ")", "{", "}", "[", "]", "\"", "'", "`", "//", "/*", "*/", "\n", "\n\n", "\\", ",", ";", ":", ".", "...", "*", "&", "=", ":=", "<-",
	"func", "type", "struct", "interface", "package", "import", "var", "const", "map", "chan", "go", "return",
	"func ", "\nfunc ", "\ntype ", "\nvar ", "\nimport ", "\npackage ", "\nconst ", "\n//", "\n/*", "\nfunc (", "\ntype (", "func(", "type T struct {", "type I interface {", "func f(", "func (r *T) ",
	" ", "\t", "\r", "\r\n", "\x00", "\xff", "\xe6\x97", "日", "_", "a", "int", "string", "1", "0x", "'\\", "\"\\", "{}", "()", "[]", "[T any]", "struct{", "interface{", "map[", "chan<- ", "~", "|",
}

func randomTokens(n func(int) int, k int) []byte {
	var b bytes.Buffer
	for range k {
		b.WriteString(tokenPool[n(len(tokenPool))])
		if n(3) == 0 {
			b.WriteByte(' ')
		}
	}
	return b.Bytes()
}

var nestPairs = [][2]string{
	{"(", ")"}, {"[", "]"}, {"{", "}"}, {"func(", ")"}, {"func() (", ")"}, {"map[", "]int"}, {"struct{ a ", " }"}, {"interface{ M(", ") }"},
	{"[]", ""}, {"*", ""}, {"chan ", ""}, {"func() ", ""}, {"(a ", ")"}, {"T[", "]"}, {"/*", "*/"}, {"\"", "\""}, {"struct {\n", "\n}"}, {"interface {\n", "\n}"}, {"func(a, b ", ")"},
}

// nested is a text with deep nesting, maybe not closed.
func nested(n func(int) int) []byte {
	depth := 1 + n(60)
	if n(6) == 0 {
		depth = 100 + n(500)
	}
	same := n(2) == 0
	p := nestPairs[n(len(nestPairs))]
	var open, closed []string
	for range depth {
		if !same {
			p = nestPairs[n(len(nestPairs))]
		}
		open = append(open, p[0])
		closed = append(closed, p[1])
	}
	var b bytes.Buffer
	b.WriteString([]string{"func f(a ", "type T ", "var x = ", "func (r ", "type T[P ", "func f() ", "import ", "", "func f() {", "const c "}[n(10)])
	for _, s := range open {
		b.WriteString(s)
	}
	b.WriteString([]string{"int", "", "a", "x int", "\n", ","}[n(6)])
	if k := n(3); k > 0 {
		for i := len(closed) - 1; i >= 0; i-- {
			if k == 2 && n(10) == 0 {
				continue
			}
			b.WriteString(closed[i])
		}
	}
	b.WriteString([]string{"\n", "", "\nfunc g() {}\n", ")"}[n(4)])
	return b.Bytes()
}

// sprinkle puts comments and line breaks between the tokens of a program where they
// don't change what it means.
func sprinkle(g *gen, src []byte) []byte {
	var (
		sc   scanner.Scanner
		b    bytes.Buffer
		last int
		open = true // no newline may end a statement here
		file = token.NewFileSet()
	)
	percent := 1 + g.n(12)
	sc.Init(file.AddFile("x.go", -1, len(src)), src, func(token.Position, string) {}, scanner.ScanComments)
	for {
		pos, tok, lit := sc.Scan()
		if tok == token.EOF {
			break
		}
		off := int(pos) - 1
		if off < last || off > len(src) || tok == token.SEMICOLON && lit == "\n" {
			continue
		}
		gap := src[last:off]
		if !bytes.Contains(gap, []byte("\n")) && last != 0 && g.p(percent) {
			gap = append(slices.Clone(gap), g.pick(" /* c */ ", "/* c */", " /* f() { */", "/*,*/ ", " /* ( */ /* ) */ ")...)
			if open && g.p(30) {
				gap = append(gap, g.pick("\n", "\n\n", " // c\n", "// (\n\t", "/* \n */")...)
			}
		}
		b.Write(gap)
		end := off + len(tok.String())
		if lit != "" && tok != token.SEMICOLON {
			end = off + len(lit)
		}
		b.Write(src[off:min(end, len(src))])
		last = min(end, len(src))
		switch tok {
		case token.IDENT, token.INT, token.FLOAT, token.IMAG, token.CHAR, token.STRING, token.BREAK, token.CONTINUE, token.FALLTHROUGH,
			token.RETURN, token.INC, token.DEC, token.RPAREN, token.RBRACK, token.RBRACE:
			open = false
		case token.COMMENT:
			if strings.HasPrefix(lit, "//") {
				open = false
			}
		default:
			open = true
		}
	}
	b.Write(src[last:])
	if f, err := parser.ParseFile(token.NewFileSet(), "x.go", b.Bytes(), parser.SkipObjectResolution); err != nil || f == nil {
		return src
	}
	return b.Bytes()
}
