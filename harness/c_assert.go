package main

// C19: the assertions, run in tests of their own inside the harness.

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/yanun0323/goast/assert"
)

func init() {
	register(&check{
		id: "C19", rule: "Every assertion against a pool of values of every reflect kind (nil and not, typed and not, wrapped in interfaces, zero and not), every pair of values of identical type and of different kinds, errors of many kinds incl. typed nils, functions that panic with every kind of value (nil, runtime errors, errors, in deferred calls, after recovered panics) or return, each with no, one and several messages. Each runs in a real test (testing.RunTests); the failures' output is read from a helper process; whether the test failed, whether it was stopped and whether anything else escaped are compared with Go's own comparison. Distinct assertion, value and message combinations.",
		cases:  func(e *env) []string { return append(numbered("round", e.scale(16, 600)), "output:0") },
		run:    runC19,
		serial: true,
		around: inTest,
		must:   []string{"Nil", "NotNil", "Equal", "NotEqual", "Error", "NoError", "Require", "Panic", "NoPanic", "failed", "passed", "functions with panicnil=1", "outputs of failures"},
	})
}

// outer is the test that everything of C19 runs in.
var outer *testing.T

// inTest runs the worker in a test. The worker ends the process before the test ends.
func inTest(f func()) {
	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "verif", F: func(t *testing.T) {
		outer = t
		f()
	}}}, nil, nil)
}

type errT struct{ s string }

func (e *errT) Error() string { return "errT" }

type errV struct{ n int }

func (errV) Error() string { return "errV" }

// Types whose methods say that all their values are the same, or that none is.
type (
	sameInt    int
	sameStruct struct{ A, b int }
	sameFormat [1]string
)

func (sameInt) String() string                  { return "same" }
func (sameInt) GoString() string                { return "same" }
func (sameInt) Equal(any) bool                  { return true }
func (sameInt) Compare(sameInt) int             { return 0 }
func (sameInt) MarshalText() ([]byte, error)    { return []byte("same"), nil }
func (sameStruct) String() string               { return "same" }
func (sameStruct) Error() string                { return "same" }
func (sameStruct) Is(error) bool                { return true }
func (sameStruct) Equal(sameStruct) bool        { return true }
func (sameStruct) IsZero() bool                 { return true }
func (sameStruct) MarshalJSON() ([]byte, error) { return []byte(`"same"`), nil }
func (sameFormat) Format(s fmt.State, _ rune)   { _, _ = io.WriteString(s, "same") }
func (sameFormat) Equal(sameFormat) bool        { return false }
func (sameFormat) IsNil() bool                  { return true }

type (
	myInt    int
	myStr    string
	myFn     func()
	myPtr    *int
	myChan   chan int
	myMap    map[string]int
	mySlice  []int
	myStruct struct {
		A int
		b string
	}
	withIface struct{ X any }
)

type val struct {
	v   any
	nil bool
}

func sample[T any](p T) *T { return &p }

// values are values of all kinds and whether they are nil.
func values() []val {
	x, y := 1, 1
	var (
		np  *int
		npp **int = &np
		nm  map[string]int
		ns  []int
		nc  chan int
		nf  func()
		nu  unsafe.Pointer
		ne  error
		nep *errT
		nst fmt.Stringer
		ar  [0]int
		ap  [2]*int
		nr  io.Reader
		nro <-chan int
		nso chan<- int
	)
	ch := make(chan int)
	return []val{
		{nil, true}, {np, true}, {npp, false}, {nm, true}, {ns, true}, {nc, true}, {nf, true}, {nu, true}, {ne, true}, {nep, true}, {nst, true}, {nr, true},
		{nro, true}, {nso, true}, {myFn(nil), true}, {myPtr(nil), true}, {myChan(nil), true}, {myMap(nil), true}, {mySlice(nil), true}, {(*myStruct)(nil), true},
		{(*any)(nil), true}, {(*[]int)(nil), true}, {(*error)(nil), true}, {error(nep), true}, {[]any(nil), true}, {map[int]any(nil), true},
		{&x, false}, {&y, false}, {myPtr(&x), false}, {map[string]int{}, false}, {map[string]int{"a": 1}, false}, {[]int{}, false}, {[]int{1}, false}, {make([]int, 0, 4), false},
		{ch, false}, {(<-chan int)(ch), false}, {func() {}, false}, {myFn(func() {}), false}, {unsafe.Pointer(&x), false}, {&np, false}, {&nep, false}, {sample[any](nil), false}, {sample[error](nil), false},
		{0, false}, {1, false}, {-1, false}, {int8(1), false}, {int16(1), false}, {int32(1), false}, {int64(1), false}, {uint(1), false}, {uint8(1), false}, {uint16(1), false}, {uint32(1), false}, {uint64(1), false}, {uintptr(0), false}, {uintptr(1), false},
		{int64(math.MaxInt64), false}, {int64(math.MinInt64), false}, {uint64(math.MaxUint64), false}, {uint64(math.MaxInt64), false},
		{float32(1), false}, {1.0, false}, {0.0, false}, {math.Copysign(0, -1), false}, {math.NaN(), false}, {math.Inf(1), false}, {float64(1 << 53), false}, {float64(1<<53 + 2), false}, {float32(math.NaN()), false},
		{complex64(1), false}, {complex(1, 2), false}, {complex(1, -2), false}, {complex(math.NaN(), 0), false},
		{"", false}, {"a", false}, {"A", false}, {"1", false}, {"nil", false}, {"<nil>", false}, {"a\x00", false}, {"日本", false}, {strings.Repeat("a", 1000), false}, {strings.Repeat("a", 1000) + "b", false},
		{true, false}, {false, false}, {struct{}{}, false}, {myStruct{}, false}, {myStruct{1, "x"}, false}, {myStruct{1, "y"}, false}, {&myStruct{}, false}, {&myStruct{}, false},
		{withIface{nil}, false}, {withIface{1}, false}, {withIface{2}, false}, {withIface{"a"}, false}, {withIface{np}, false},
		{ar, false}, {ap, false}, {[2]int{1, 2}, false}, {[2]int{1, 3}, false}, {[2]string{"a", "b"}, false}, {[1]any{nil}, false}, {[1]any{1}, false}, {[1]any{"1"}, false},
		{myInt(1), false}, {myInt(2), false}, {myStr("a"), false}, {myStr(""), false}, {errors.New("a"), false}, {errors.New("a"), false}, {io.EOF, false}, {errV{1}, false}, {errV{2}, false}, {&errT{"x"}, false},
		{sameInt(0), false}, {sameInt(1), false}, {sameInt(2), false}, {sameStruct{}, false}, {sameStruct{1, 2}, false}, {sameStruct{1, 3}, false}, {&sameStruct{}, false}, {&sameStruct{}, false},
		{sameFormat{}, false}, {sameFormat{"a"}, false}, {sameFormat{"b"}, false}, {withIface{sameInt(1)}, false}, {withIface{sameInt(2)}, false}, {[2]sameInt{1, 2}, false}, {[2]sameInt{1, 3}, false},
		{time.Unix(1, 0).UTC(), false}, {time.Unix(2, 0).UTC(), false}, {time.Unix(1, 0).In(time.FixedZone("a", 60)), false}, {time.Second, false}, {time.Duration(1), false}, {time.January, false}, {time.Month(77), false},
		{reflect.ValueOf(1).Kind(), false}, {(*sameStruct)(nil), true}, {fmt.Stringer((*sameInt)(nil)), true},
		{reflect.TypeOf(1), false}, {testing.Verbose, false}, {fmt.Println, false}, {'a', false}, {byte('a'), false},
	}
}

func runC19(c *ctx, id string) {
	if k, _ := split(id); k == "output" {
		runC19Output(c, id)
		return
	}
	silence()
	r := newRand(c.seed, id)
	first := strings.HasSuffix(id, ":0")
	vals := values()
	outer.Run("case", func(t *testing.T) {
		q := &asserts{c: c, id: id, t: t, r: r}
		// nil and not nil
		for i, v := range vals {
			q.claim("Nil", sprintf("value %d %T", i, v.v), v.nil, func(a assert.Assert, m ...string) { a.Nil(v.v, m...) })
			q.claim("NotNil", sprintf("value %d %T", i, v.v), !v.nil, func(a assert.Assert, m ...string) { a.NotNil(v.v, m...) })
		}
		// equality
		for i, x := range vals {
			for j, y := range vals {
				if !first && r.IntN(10) > 0 {
					continue
				}
				want, ok := equal(x.v, y.v)
				if !ok {
					continue
				}
				what := sprintf("values %d %T and %d %T", i, x.v, j, y.v)
				q.claim("Equal", what, want, func(a assert.Assert, m ...string) { a.Equal(x.v, y.v, m...) })
				q.claim("NotEqual", what, !want, func(a assert.Assert, m ...string) { a.NotEqual(x.v, y.v, m...) })
			}
		}
		for i := range 60 { // numbers and texts that differ little
			x, y := near(r)
			want, ok := equal(x, y)
			if !ok {
				continue
			}
			what := sprintf("near %d: %#v and %#v", i, x, y)
			q.claim("Equal", what, want, func(a assert.Assert, m ...string) { a.Equal(x, y, m...) })
			q.claim("NotEqual", what, !want, func(a assert.Assert, m ...string) { a.NotEqual(x, y, m...) })
		}
		// errors
		var nilT *errT
		for i, e := range []error{nil, io.EOF, errors.New(""), errV{}, &errT{}, fmt.Errorf("w: %w", io.EOF), errors.Join(io.EOF, nil), errors.Join(nil, nil), nilT, error(nilT), os.ErrNotExist} {
			q.claim("Error", sprintf("error %d %T", i, e), e != nil, func(a assert.Assert, m ...string) { a.Error(e, m...) })
			q.claim("NoError", sprintf("error %d %T", i, e), e == nil, func(a assert.Assert, m ...string) { a.NoError(e, m...) })
		}
		for _, ok := range []bool{true, false} {
			q.claim("Require", sprint(ok), ok, func(a assert.Assert, m ...string) { a.Require(ok, m...) })
		}
		list := functions()
		for i := range 2 * len(list) {
			f := list[i%len(list)]
			oldNil := i >= len(list) // as in programs of old modules, where panic(nil) recovers nil
			if oldNil && i == len(list) {
				must(os.Setenv("GODEBUG", "panicnil=1"))
				c.count("functions with panicnil=1", len(list))
			}
			calls := 0
			g := func() { calls++; f.f() }
			q.plain("Panic", sprintf("function %d", i), f.panics, func(a assert.Assert) { a.Panic(g) })
			q.plain("NoPanic", sprintf("function %d", i), !f.panics, func(a assert.Assert) { a.NoPanic(g) })
			if calls != 2 {
				c.fail(id, "calls", "", "function %d was called %d times by two assertions", i, calls)
			}
			did, msg, stack := assert.New(t).Call(f.f)
			if did != f.panics || (stack == "") == f.panics {
				c.fail(id, "call", "", "Call of function %d says it panicked: %v, with a stack of %d bytes", i, did, len(stack))
			}
			if !f.panics && msg != nil || f.panics && msg == nil && !oldNil {
				c.fail(id, "call", "", "Call of function %d gives the message %v", i, msg)
			}
		}
		must(os.Unsetenv("GODEBUG"))
	})
	c.sample(map[string]any{"case": id, "values": len(vals)})
}

func sprint(v any) string { return fmt.Sprint(v) }

// equal says whether two values are equal, if the property settles it.
func equal(x, y any) (eq, ok bool) {
	tx, ty := reflect.TypeOf(x), reflect.TypeOf(y)
	if tx != ty {
		if tx != nil && ty != nil && tx.Kind() == ty.Kind() {
			return false, false // named types and such: not settled
		}
		return false, true
	}
	if tx == nil {
		return true, true
	}
	if !tx.Comparable() {
		return false, false
	}
	return x == y, true
}

func near(r *rand.Rand) (any, any) {
	d := r.IntN(3) - 1
	n := r.Int64()
	switch r.IntN(9) {
	case 0:
		return n, n + int64(d)
	case 1:
		return uint64(n), uint64(n) + uint64(d)
	case 2:
		return int8(n), int8(n + int64(d*256))
	case 3:
		f := math.Float64frombits(uint64(n))
		return f, math.Float64frombits(uint64(n) + uint64(d))
	case 4:
		s := randBytes(r, 20)
		return s, s[:len(s)-min(len(s), r.IntN(2))]
	case 5:
		return [3]int64{1, n, 2}, [3]int64{1, n, 2 + int64(d)}
	case 6:
		return myStruct{int(n), "x"}, myStruct{int(n) + d, "x"}
	case 7:
		return float32(n), float32(n + int64(d))
	}
	return complex(float64(n), 1), complex(float64(n), 1+float64(d))
}

type fun struct {
	f      func()
	panics bool
}

func functions() []fun {
	var m map[string]int
	var p *myStruct
	var s []int
	zero := 0
	return []fun{
		{func() {}, false},
		{func() { panic("x") }, true},
		{func() { panic(nil) }, true},
		{func() { panic(errors.New("e")) }, true},
		{func() { panic(0) }, true},
		{func() { panic(false) }, true},
		{func() { panic("") }, true},
		{func() { panic((*int)(nil)) }, true},
		{func() { panic(error(nil)) }, true},
		{func() { panic(struct{}{}) }, true},
		{func() { panic([]int(nil)) }, true},
		{func() { m["a"] = 1 }, true},
		{func() { p.A = 1 }, true},
		{func() { _ = s[zero] }, true},
		{func() { _ = 1 / zero }, true},
		{func() { _ = any("s").(int) }, true},
		{func() { _ = s[:zero:1] }, true},
		{func() { close((chan int)(nil)) }, true},
		{func() { c := make(chan int); close(c); close(c) }, true},
		{func() { defer func() { panic("late") }() }, true},
		{func() { defer func() { panic("second") }(); panic("first") }, true},
		{func() { defer func() { _ = recover() }(); panic("caught") }, false},
		{func() { defer func() { _ = recover(); panic("again") }(); panic("caught") }, true},
		{func() { defer func() { _ = recover() }(); _ = s[zero] }, false},
		{func() { func() { panic("deep") }() }, true},
		{func() { runtime.Gosched() }, false},
		{nil, true},
		{func() { _ = errors.New("not a panic") }, false},
	}
}

type asserts struct {
	c  *ctx
	id string
	t  *testing.T
	r  *rand.Rand
}

// claim runs an assertion with some messages.
func (q *asserts) claim(name, what string, holds bool, f func(assert.Assert, ...string)) {
	msgs := [][]string{nil, {"message"}, {"several", "messages %d %s", ""}, {""}}
	for _, m := range [][]string{nil, msgs[1+q.r.IntN(3)]} {
		q.run(name, sprintf("%s, messages %q", what, m), holds, func(a assert.Assert) { f(a, m...) })
	}
}

func (q *asserts) plain(name, what string, holds bool, f func(assert.Assert)) {
	q.run(name, what, holds, f)
}

func (q *asserts) run(name, what string, holds bool, f func(assert.Assert)) {
	var (
		reached bool
		escaped any
		same    bool
	)
	ok := q.t.Run("sub", func(t *testing.T) {
		defer func() {
			escaped = recover()
		}()
		a := assert.New(t)
		same = a.T() == t
		f(a)
		reached = true
	})
	switch {
	case escaped != nil:
		q.c.fail(q.id, "escaped", "", "%s of %s panics itself: %v", name, what, escaped)
	case ok != holds:
		q.c.fail(q.id, "verdict", "", "%s of %s: the test passed: %v, what it asserts holds: %v", name, what, ok, holds)
	case reached != holds:
		q.c.fail(q.id, "stop", "", "%s of %s: the test went on: %v, what it asserts holds: %v", name, what, reached, holds)
	case !same:
		q.c.fail(q.id, "T", "", "T is another test")
	}
	q.c.count(name, 1)
	if holds {
		q.c.count("passed", 1)
	} else {
		q.c.count("failed", 1)
	}
	q.c.distinct(hashText([]byte(name + what)))
}

// failing are assertions that fail and what their output has to hold besides the messages.
type failingAssert struct {
	name string
	f    func(a assert.Assert, m ...string) int // returns the line before the call
	want []string
}

func failing() []failingAssert {
	line := func() int { _, _, l, _ := runtime.Caller(1); return l + 1 }
	var at int
	report := func(l int) { at = l; lines[at] = true }
	return []failingAssert{
		{"Nil", func(a assert.Assert, m ...string) int {
			report(line())
			a.Nil(myStruct{77, "got"}, m...)
			return at
		}, []string{"{A:77 b:got}"}},
		{"NotNil", func(a assert.Assert, m ...string) int {
			report(line())
			a.NotNil(nil, m...)
			return at
		}, []string{"<nil>"}},
		{"Equal", func(a assert.Assert, m ...string) int {
			report(line())
			a.Equal(myStruct{78, "got"}, myStruct{79, "wanted"}, m...)
			return at
		}, []string{"value: ({A:78 b:got})", "expected: ({A:79 b:wanted})"}},
		{"NotEqual", func(a assert.Assert, m ...string) int {
			report(line())
			a.NotEqual("same 80", "same 80", m...)
			return at
		}, []string{"same 80"}},
		{"Error", func(a assert.Assert, m ...string) int {
			report(line())
			a.Error(nil, m...)
			return at
		}, nil},
		{"NoError", func(a assert.Assert, m ...string) int {
			report(line())
			a.NoError(errors.New("this error"), m...)
			return at
		}, []string{"this error"}},
		{"Require", func(a assert.Assert, m ...string) int {
			report(line())
			a.Require(false, m...)
			return at
		}, nil},
		{"NoPanic", func(a assert.Assert, _ ...string) int {
			report(line())
			a.NoPanic(func() { panic("this panic") })
			return at
		}, []string{"this panic"}},
		{"Panic", func(a assert.Assert, _ ...string) int {
			report(line())
			a.Panic(func() {})
			return at
		}, nil},
	}
}

// lines are those of the assertions that were called last.
var lines = map[int]bool{}

var failMessages = [][]string{nil, {"one message"}, {"several", "100%", "%d messages"}}

// failingAsserts runs tests in which assertions fail and writes for each the line of the call to
// standard error. It doesn't return.
func failingAsserts() {
	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	var tests []testing.InternalTest
	for i := range failing() {
		for j, m := range failMessages {
			name := sprintf("TestIt%dx%d", i, j)
			tests = append(tests, testing.InternalTest{Name: name, F: func(t *testing.T) {
				clear(lines)
				defer func() {
					for l := range lines {
						fmt.Fprintf(os.Stderr, "%s %d\n", name, l)
					}
				}()
				failing()[i].f(assert.New(t), m...)
			}})
		}
	}
	testing.Main(func(string, string) (bool, error) { return true, nil }, tests, nil, nil)
}

func runC19Output(c *ctx, id string) {
	cmd := exec.Command(c.self, "helper", "x")
	cmd.Stdin = strings.NewReader(`{"do":"asserts"}`)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err := cmd.Run()
	if x := (*exec.ExitError)(nil); !errors.As(err, &x) || x.ExitCode() != 1 {
		c.fail(id, "exit", stdout.String()+stderr.String(), "a test binary with failing assertions ends with %v", err)
		return
	}
	called := map[string]string{}
	for _, l := range strings.Split(stderr.String(), "\n") {
		if n, l, ok := strings.Cut(l, " "); ok {
			called[n] = l
		}
	}
	outs := map[string]string{}
	for _, o := range strings.Split(stdout.String(), "--- FAIL: ")[1:] {
		n, _, _ := strings.Cut(o, " ")
		outs[n] = o
	}
	for i, f := range failing() {
		for j, m := range failMessages {
			name := sprintf("TestIt%dx%d", i, j)
			line, out := called[name], outs[name]
			what := sprintf("a failing %s with the messages %q", f.name, m)
			c.count("outputs of failures", 1)
			if n := strings.Count(out, ".go:"); n != 1 || !strings.Contains(out, "c_assert.go:"+line+":") {
				c.fail(id, "line", out, "the output of %s does not name its line, %s, once", what, line)
			}
			want := f.want
			if f.name != "Panic" && f.name != "NoPanic" && m != nil {
				want = append(want, strings.Join(m, " "))
			}
			for _, w := range want {
				if !strings.Contains(out, w) {
					c.fail(id, "output", out, "the output of %s does not hold %q", what, w)
				}
			}
			c.distinct(hashText([]byte(out)))
		}
	}
}
