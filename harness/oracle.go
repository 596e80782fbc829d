package main

// The reference: what Go's own scanner and parser say about a source text.

import (
	"bytes"
	"go/ast"
	"go/format"
	"go/parser"
	"go/scanner"
	"go/token"
	"sort"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

type tok struct {
	off, end int
	tok      token.Token
	lit      string
}

type refScope struct {
	off  int
	kind scope.Kind
	decl ast.Decl // nil for package clauses and comments
}

type ref struct {
	src []byte
	// indented tells that a declaration is on a line that starts with white space. There are
	// rare inputs that go/format gives such a form, which is not its fixed point.
	indented bool
	file     *ast.File
	tf       *token.File
	toks     []tok
	scopes   []refScope
}

func (r *ref) off(p token.Pos) int { return r.tf.Offset(p) }

func (r *ref) text(n ast.Node) string {
	return string(r.src[r.off(n.Pos()):r.off(n.End())])
}

// scanTokens returns all tokens of a text with Go's scanner, automatic semicolons left out.
func scanTokens(src []byte) ([]tok, bool) {
	var (
		sc   scanner.Scanner
		fset = token.NewFileSet()
		tf   = fset.AddFile("x.go", -1, len(src))
		bad  = false
		out  []tok
	)
	sc.Init(tf, src, func(token.Position, string) { bad = true }, scanner.ScanComments)
	for {
		p, t, lit := sc.Scan()
		if t == token.EOF {
			break
		}
		o := tf.Offset(p)
		if t == token.SEMICOLON && lit != ";" {
			continue
		}
		n := len(lit)
		if n == 0 {
			n = len(t.String())
		}
		out = append(out, tok{o, o + n, t, lit})
	}
	return out, !bad
}

// newRef parses gofmt-formatted source; nil if it is not valid Go.
func newRef(src []byte) *ref {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil
	}
	r := &ref{src: src, file: f, tf: fset.File(f.FileStart)}
	var ok bool
	if r.toks, ok = scanTokens(src); !ok {
		return nil
	}
	r.findScopes()
	return r
}

func (r *ref) findScopes() {
	decls := map[int]refScope{}
	type span struct{ from, to int }
	var spans []span
	add := func(off int, k scope.Kind, d ast.Decl, end int) {
		if ls := bytes.LastIndexByte(r.src[:off], '\n') + 1; r.src[ls] == ' ' || r.src[ls] == '\t' {
			r.indented = true
		}
		decls[off] = refScope{off, k, d}
		spans = append(spans, span{off, end})
	}
	add(r.off(r.file.Package), scope.Package, nil, r.off(r.file.Name.End()))
	for _, d := range r.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			add(r.off(d.Type.Func), scope.Func, d, r.off(d.End()))
		case *ast.GenDecl:
			k := map[token.Token]scope.Kind{token.IMPORT: scope.Import, token.CONST: scope.Const, token.VAR: scope.Variable, token.TYPE: scope.Type}[d.Tok]
			add(r.off(d.TokPos), k, d, r.off(d.End()))
		}
	}
	inDecl := func(o int) bool {
		for _, s := range spans {
			if o >= s.from && o < s.to {
				return true
			}
		}
		return false
	}
	// A comment outside of declarations is a scope if it starts in the first column, or if
	// a block comment that is one ends right before it on the same line.
	prevEnd := -1 // end of the block comment scope before, if nothing but spaces followed
	for _, t := range r.toks {
		if d, ok := decls[t.off]; ok {
			r.scopes = append(r.scopes, d)
		}
		isScope := false
		if t.tok == token.COMMENT && !inDecl(t.off) {
			if t.off == 0 || r.src[t.off-1] == '\n' {
				isScope = true
			} else if prevEnd >= 0 && strings.Trim(string(r.src[prevEnd:t.off]), " ") == "" {
				isScope = true
			}
		}
		prevEnd = -1
		if isScope {
			k := scope.Comment
			if t.lit[1] == '*' {
				k = scope.InnerComment
				prevEnd = t.end
			}
			r.scopes = append(r.scopes, refScope{t.off, k, nil})
		}
	}
}

func gofmt(src []byte) ([]byte, bool) {
	out, err := format.Source(src)
	return out, err == nil
}

// ---- what the code under test says

type obsNode struct {
	off int
	sc  int
	n   *goast.Node
}

type obs struct {
	scopes []goast.Scope
	heads  []int // offsets of the scopes' first nodes
	nodes  []obsNode
	at     map[int]int
	text   string
}

// observe walks all scopes. The offsets are those in the concatenated text. It returns a
// complaint about malformed chains, if there is one.
func observe(scs []goast.Scope, maxLen int) (*obs, string) {
	o := &obs{scopes: scs, at: map[int]int{}}
	var b strings.Builder
	for i, s := range scs {
		if s == nil {
			return nil, "a scope is nil"
		}
		head := s.Node()
		if head == nil {
			return nil, "a scope has no node"
		}
		if head.Prev() != nil {
			return nil, "the first node of a scope has a predecessor"
		}
		o.heads = append(o.heads, b.Len())
		for n := head; n != nil; n = n.Next() {
			if len(n.Text()) == 0 {
				return nil, "a node of a parsed text is empty"
			}
			if nx := n.Next(); nx != nil && nx.Prev() != n {
				return nil, "the links of two neighbouring nodes disagree"
			}
			o.at[b.Len()] = len(o.nodes)
			o.nodes = append(o.nodes, obsNode{b.Len(), i, n})
			b.WriteString(n.Text())
			if b.Len() > maxLen {
				return nil, "the nodes hold more text than was parsed (doubled text or a cycle)"
			}
		}
	}
	o.text = b.String()
	return o, ""
}

// find returns the node that starts at the offset.
func (o *obs) find(off int) *goast.Node {
	if i, ok := o.at[off]; ok {
		return o.nodes[i].n
	}
	return nil
}

// covering returns the node that contains the offset.
func (o *obs) covering(off int) (obsNode, bool) {
	i := sort.Search(len(o.nodes), func(i int) bool { return o.nodes[i].off > off }) - 1
	if i < 0 || off >= o.nodes[i].off+len(o.nodes[i].n.Text()) {
		return obsNode{}, false
	}
	return o.nodes[i], true
}

func (o *obs) between(from, to int) []obsNode {
	i := sort.Search(len(o.nodes), func(i int) bool { return o.nodes[i].off >= from })
	j := sort.Search(len(o.nodes), func(i int) bool { return o.nodes[i].off >= to })
	return o.nodes[i:j]
}

// ---- snapshots

type nodeSnap struct {
	kind kind.Kind
	line int
	text string
}

type scopeSnap struct {
	kind  scope.Kind
	line  int
	nodes []nodeSnap
	prior []nodeSnap // before the first node of the scope, nearest first
}

const maxChain = 5_000_000

func snapScope(s goast.Scope) scopeSnap {
	ss := scopeSnap{kind: s.Kind(), line: s.Line()}
	for n, i := s.Node(), 0; n != nil; n, i = n.Next(), i+1 {
		ss.nodes = append(ss.nodes, nodeSnap{n.Kind(), n.Line(), n.Text()})
		if i > maxChain {
			panic("chain without end")
		}
	}
	for n, i := s.Node().Prev(), 0; n != nil; n, i = n.Prev(), i+1 {
		ss.prior = append(ss.prior, nodeSnap{n.Kind(), n.Line(), n.Text()})
		if i > maxChain {
			panic("chain without end")
		}
	}
	return ss
}

func snapScopes(scs []goast.Scope) []scopeSnap {
	out := make([]scopeSnap, len(scs))
	for i, s := range scs {
		out[i] = snapScope(s)
	}
	return out
}

func (s scopeSnap) text() string {
	var b strings.Builder
	for _, n := range s.nodes {
		b.WriteString(n.text)
	}
	return b.String()
}

func textOf(ss []scopeSnap) string {
	var b strings.Builder
	for _, s := range ss {
		b.WriteString(s.text())
	}
	return b.String()
}

// diffSnaps returns "" if both are equal, otherwise the first difference.
func diffSnaps(a, b []scopeSnap, lineShift int) string {
	if len(a) != len(b) {
		return sprintf("%d scopes against %d", len(a), len(b))
	}
	for i := range a {
		if d := diffSnap(a[i], b[i], lineShift); d != "" {
			return sprintf("scope %d: %s", i, d)
		}
	}
	return ""
}

func diffSnap(a, b scopeSnap, lineShift int) string {
	if a.kind != b.kind {
		return sprintf("kind %s against %s", a.kind.String(), b.kind.String())
	}
	if a.line+lineShift != b.line {
		return sprintf("line %d against %d", a.line+lineShift, b.line)
	}
	for j := range min(len(a.nodes), len(b.nodes)) {
		x, y := a.nodes[j], b.nodes[j]
		x.line += lineShift
		if x != y {
			return sprintf("node %d: %s %q line %d against %s %q line %d", j, x.kind, clip(x.text), x.line, y.kind, clip(y.text), y.line)
		}
	}
	if len(a.nodes) != len(b.nodes) {
		return sprintf("%d nodes against %d", len(a.nodes), len(b.nodes))
	}
	if len(a.prior) != len(b.prior) {
		return sprintf("%d nodes before its first against %d", len(a.prior), len(b.prior))
	}
	for j := range a.prior {
		x, y := a.prior[j], b.prior[j]
		x.line += lineShift
		if x != y {
			return sprintf("node %d before its first: %s %q line %d against %s %q line %d", j, x.kind, clip(x.text), x.line, y.kind, clip(y.text), y.line)
		}
	}
	return ""
}

func hashSnaps(ss []scopeSnap) uint64 {
	h := newHash()
	for _, s := range ss {
		h.str(string(s.kind))
		h.num(s.line)
		for _, n := range s.nodes {
			h.str(n.kind[0])
			h.str(n.kind[1])
			h.num(n.line)
			h.str(n.text)
		}
	}
	return uint64(h)
}

type hash uint64

func newHash() hash { return 14695981039346656037 }
func (h *hash) str(s string) {
	x := *h
	for i := 0; i < len(s); i++ {
		x = (x ^ hash(s[i])) * 1099511628211
	}
	*h = (x ^ 0xff) * 1099511628211
}
func (h *hash) num(n int) { *h = (*h ^ hash(n)) * 1099511628211 }
