package main

// C10: the classification of texts against Go's vocabulary.

import (
	"go/token"
	"go/types"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

var textKinds = map[string]kind.Kind{
	"(": kind.ParenthesisLeft, ")": kind.ParenthesisRight, "{": kind.CurlyBracketLeft, "}": kind.CurlyBracketRight,
	"[": kind.SquareBracketLeft, "]": kind.SquareBracketRight, ",": kind.Comma, ":": kind.Colon, ";": kind.Semicolon,
	" ": kind.Space, "\t": kind.Tab, "\n": kind.NewLine,
	"import": kind.Import, "var": kind.Var, "const": kind.Const, "map": kind.Map, "chan": kind.Channel, "func": kind.Func,
	"type": kind.Type, "struct": kind.Struct, "interface": kind.Interface, "package": kind.Package,
}

// kindNames are the names the kinds have to show.
var kindNames = map[kind.Kind]string{
	kind.None: "", kind.Raw: "Raw", kind.Comment: "Comment", kind.Number: "Number", kind.Symbol: "Symbol", kind.Basic: "BasicType",
	kind.Separator: "Separator", kind.Keyword: "Keyword", kind.Tab: "Tab", kind.Space: "Space", kind.Comma: "Comma", kind.Colon: "Colon",
	kind.NewLine: "NewLine", kind.Semicolon: "Semicolon", kind.ParenthesisLeft: "ParenthesisLeft", kind.ParenthesisRight: "ParenthesisRight",
	kind.CurlyBracketLeft: "CurlyBracketLeft", kind.CurlyBracketRight: "CurlyBracketRight", kind.SquareBracketLeft: "SquareBracketLeft",
	kind.SquareBracketRight: "SquareBracketRight", kind.Pointer: "Pointer", kind.Address: "Address", kind.Import: "Import", kind.Var: "Var",
	kind.Const: "Const", kind.Map: "Map", kind.Channel: "Channel", kind.Func: "Func", kind.Type: "Type", kind.Struct: "Struct",
	kind.Interface: "Interface", kind.Package: "Package", kind.FuncName: "FuncName", kind.TypeName: "TypeName", kind.TypeAliasType: "TypeAliasType",
	kind.ParamName: "ParamName", kind.ParamType: "ParamType", kind.MethodReceiverName: "MethodReceiverName",
	kind.MethodReceiverType: "MethodReceiverType", kind.String: "String", kind.Method: "Method",
}

var partners = map[kind.Kind]kind.Kind{
	kind.ParenthesisLeft: kind.ParenthesisRight, kind.ParenthesisRight: kind.ParenthesisLeft,
	kind.CurlyBracketLeft: kind.CurlyBracketRight, kind.CurlyBracketRight: kind.CurlyBracketLeft,
	kind.SquareBracketLeft: kind.SquareBracketRight, kind.SquareBracketRight: kind.SquareBracketLeft,
}

var basicTypes, operators = func() (map[string]bool, map[string]bool) {
	basic, ops := map[string]bool{}, map[string]bool{}
	for _, n := range types.Universe.Names() {
		if t, ok := types.Universe.Lookup(n).(*types.TypeName); ok {
			if b, ok := t.Type().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsNumeric|types.IsString) != 0 {
				basic[n] = true
			}
		}
	}
	for t := token.Token(0); t < 200; t++ {
		if s := t.String(); t.IsOperator() && textKinds[s] == kind.None {
			ops[s] = true
		}
	}
	return basic, ops
}()

// wantKind says how a text has to be classified, if the property says so.
func wantKind(s string) (kind.Kind, bool) {
	if k, ok := textKinds[s]; ok {
		return k, true
	}
	switch {
	case s == "":
		return kind.None, true
	case token.IsKeyword(s):
		return kind.Keyword, true
	case basicTypes[s]:
		return kind.Basic, true
	case strings.Trim(s, "0123456789") == "":
		return kind.Number, true
	case s[0] == '"' || s[0] == '`':
		return kind.String, true
	case operators[s]:
		return kind.Symbol, true
	case strings.Trim(s, "_.") == "": // the blank identifier counts as a symbol
		return kind.None, false
	case token.IsIdentifier(s):
		return kind.Raw, true
	}
	if a, b, ok := strings.Cut(s, "."); ok && token.IsIdentifier(a) && token.IsIdentifier(b) {
		return kind.Raw, true
	}
	return kind.None, false
}

func vocabulary() []string {
	var out []string
	for s := range textKinds {
		out = append(out, s)
	}
	for t := token.Token(0); t < 200; t++ {
		if t.IsKeyword() {
			out = append(out, t.String())
		}
	}
	for s := range basicTypes {
		out = append(out, s)
	}
	for s := range operators {
		out = append(out, s)
	}
	return append(out, "true", "false", "nil", "iota", "error", "any", "comparable", "make", "len", "0", "123", "int24", "float", "complex", "uint128",
		"byte.x", "x.string", "fmt.Println", "Комментарий", "日本", "x1", "1x", "0x1F", "1.5", "1e3", "\"a\"", "`a`", "'a'", "\"", "`", "Func", "FUNC", "Int")
}

func init() {
	register(&check{
		id: "C10", rule: "Exhaustive: all texts of up to two bytes, all of three printable bytes, every word of Go's vocabulary (go/token, go/types) with every edit of one byte (and two, sampled), cut and joined in pairs; random identifiers, digits and literals; the tokens of Go files of the machine; all kinds for partners and names; all scope kinds against the first nodes of parsed scopes. The reference is go/token, go/types and literal tables. Distinct texts whose kind the property settles.",
		cases: func(e *env) []string {
			out := []string{"one:", "kinds:", "pairs:"}
			out = append(out, numbered("two", 256)...)
			out = append(out, numbered("three", 95)...)
			out = append(out, numbered("word", len(vocabulary()))...)
			out = append(out, numbered("rand", e.scale(300, 4000))...)
			out = append(out, srcCases(e, "C10", e.scale(500, 1<<30))...)
			return append(out, numbered("gen", e.scale(1000, 20000))...)
		},
		run:  runC10,
		must: []string{"classified", "partners", "scopes begin with", "kind Keyword", "kind BasicType", "kind Number", "kind String", "kind Symbol", "kind Raw", "kind Channel", "kind NewLine"},
	})
}

type kindTally struct {
	n      map[kind.Kind]int
	free   int
	c      *ctx
	id     string
	failed bool
}

func (t *kindTally) check(s string) {
	want, ok := wantKind(s)
	got := kind.New(s)
	if !ok {
		t.free++
		if got != kind.Raw && got != kind.Symbol && got != kind.Separator && !t.failed {
			t.failed = true
			t.c.fail(t.id, "kind", s, "kind.New(%q) is %q", s, got.String())
		}
		return
	}
	t.n[want]++
	if got != want && !t.failed {
		t.failed = true
		t.c.fail(t.id, "kind", s, "kind.New(%q) is %q, expected %q", s, got.String(), want.String())
	}
	if n := goast.NewNode(3, s); n.Kind() != got && !t.failed {
		t.failed = true
		t.c.fail(t.id, "node", s, "NewNode(%q) has the kind %q, kind.New says %q", s, n.Kind().String(), got.String())
	}
}

func runC10(c *ctx, id string) {
	k, arg := split(id)
	t := &kindTally{n: map[kind.Kind]int{}, c: c, id: id}
	defer func() {
		all := 0
		for k, n := range t.n {
			c.count("kind "+k.String(), n)
			all += n
		}
		c.count("classified", all)
		c.count("not settled by the property", t.free)
	}()
	seen := func(s string) {
		if _, ok := wantKind(s); ok {
			c.distinct(hashText([]byte(s)))
		}
		t.check(s)
	}
	num := 0
	for _, d := range arg {
		num = num*10 + int(d-'0')
	}
	switch k {
	case "one":
		t.check("")
		for b := range 256 {
			seen(string([]byte{byte(b)}))
		}
	case "two":
		for b := range 256 {
			seen(string([]byte{byte(num), byte(b)}))
		}
	case "three":
		for a := 32; a < 127; a++ {
			for b := 32; b < 127; b++ {
				t.check(string([]byte{byte(num + 32), byte(a), byte(b)}))
			}
		}
	case "word":
		edits(vocabularySorted()[num], seen)
		r := newRand(c.seed, id)
		for range 3000 {
			edit1(edit1(vocabularySorted()[num], r.IntN), r.IntN, seen)
		}
	case "pairs":
		v := vocabularySorted()
		for _, a := range v {
			for _, b := range v {
				seen(a + b)
				seen(a + "." + b)
				seen(a + "_" + b)
			}
		}
	case "rand":
		r := newRand(c.seed, id)
		for range 400 {
			var b strings.Builder
			pool := []string{"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_", "0123456789", "abc日é世_09", "intuflo8163264", "+-*/&|^<>=!.~%:"}[r.IntN(5)]
			rs := []rune(pool)
			if r.IntN(12) == 0 {
				b.WriteByte("\"`"[r.IntN(2)])
			}
			for range 1 + r.IntN(12) {
				b.WriteRune(rs[r.IntN(len(rs))])
			}
			seen(b.String())
		}
	case "kinds":
		for k, name := range kindNames {
			if k.String() != name || k.PointerString() != name {
				c.fail(id, "name", name, "the kind %q calls itself %q, %q", name, k.String(), k.PointerString())
			}
			want, has := partners[k]
			got, ok := k.GetClose()
			if ok != has || got != want {
				c.fail(id, "partner", name, "the partner of %s is %q, %v; expected %q, %v", name, got.String(), ok, want.String(), has)
			}
			c.count("partners", 1)
		}
		var none *kind.Kind
		if none.PointerString() != "" {
			c.fail(id, "name", "", "a nil kind has a name")
		}
		for sk, want := range map[scope.Kind]kind.Kind{scope.Package: kind.Package, scope.Comment: kind.Comment, scope.InnerComment: kind.Comment,
			scope.Import: kind.Import, scope.Variable: kind.Var, scope.Const: kind.Const, scope.Type: kind.Type, scope.Func: kind.Func} {
			if got := sk.ToKind(); got != want {
				c.fail(id, "scope", string(sk), "scope kind %s converts to %s", sk, got)
			}
		}
		texts := vocabularySorted()
		i := 0
		for n := goast.NewNodes(0, texts...); n != nil; n = n.Next() {
			if n.Text() != texts[i] || n.Kind() != kind.New(texts[i]) {
				c.fail(id, "nodes", texts[i], "NewNodes makes %q of kind %q from %q", n.Text(), n.Kind().String(), texts[i])
			}
			i++
		}
		if n := goast.NewNode(1, "x", kind.FuncName); n.Kind() != kind.FuncName {
			c.fail(id, "nodes", "", "NewNode drops the kind that was given")
		}
	case "src", "gen":
		p := c.parse(id)
		if p == nil {
			return
		}
		for _, tk := range p.ref.toks {
			t.check(string(p.src[tk.off:tk.end]))
		}
		for i, s := range p.scs {
			if s.Kind().ToKind() != s.Node().Kind() {
				c.fail(id, "scope", string(p.src), "scope %d is %s, which converts to %s, and begins with %s %s", i, s.Kind(), s.Kind().ToKind(), s.Node().Kind(), clip(s.Node().Text()))
			}
			c.count("scopes begin with", 1)
		}
		b, ok := c.aligned(p)
		if !ok {
			return
		}
		spans := p.ref.typeSpans()
		for _, o := range p.o.nodes {
			got := o.n.Kind()
			if declKinds[got] || got == kind.Comment || got == kind.String || inSpan(spans, o.off+b) {
				continue
			}
			c.count("parsed nodes", 1)
			if want := kind.New(o.n.Text()); got != want {
				c.fail(id, "parsed", string(p.src), "the node %q has the kind %q, its text is of kind %q: %s", clip(o.n.Text()), got.String(), want.String(), around(p.src, o.off+b))
				return
			}
		}
	}
	if k == "word" || k == "rand" {
		c.sample(map[string]any{"case": id, "texts": t.n[kind.Raw] + t.n[kind.Symbol] + t.n[kind.Keyword] + t.n[kind.Basic] + t.n[kind.Number] + t.n[kind.String]})
	}
}

var vocab []string

func vocabularySorted() []string { return vocab }

func init() {
	vocab = vocabulary()
	sortStrings(vocab)
}

// edits passes a word and all edits of one byte.
func edits(w string, f func(string)) {
	f(w)
	for i := range len(w) {
		f(w[:i] + w[i+1:])
		f(w[:i])
		f(w[i:])
		if i > 0 {
			b := []byte(w)
			b[i], b[i-1] = b[i-1], b[i]
			f(string(b))
		}
		for b := range 256 {
			f(w[:i] + string([]byte{byte(b)}) + w[i+1:])
		}
	}
	for i := range len(w) + 1 {
		for b := range 256 {
			f(w[:i] + string([]byte{byte(b)}) + w[i:])
		}
	}
	f(w + w)
	f(strings.ToUpper(w))
	f(strings.Title(w))
}

func edit1(w string, n func(int) int, f ...func(string)) string {
	const pool = "abcdefgimnoprstuvxyz0123456789_.+-*&|<>=()[]{} \n\t\"`'"
	x := string(pool[n(len(pool))])
	i := n(len(w) + 1)
	switch {
	case len(w) > 1 && i < len(w) && n(3) == 0:
		w = w[:i] + w[i+1:]
	case i < len(w) && n(2) == 0:
		w = w[:i] + x + w[i+1:]
	default:
		w = w[:i] + x + w[i:]
	}
	for _, g := range f {
		g(w)
	}
	return w
}
