package main

// Helper processes: what must not happen to the harness itself (limits, another user,
// output on standard error) happens in a process of its own.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"os/signal"
	"strings"
	"syscall"
	"time"

	"github.com/yanun0323/goast"
)

type helpSpec struct {
	Do    string `json:"do"`
	Text  string `json:"text"`
	Want  string `json:"want"`
	Steps []helpStep
	Cold  *coldSpec
	Texts []string
	Dir   string
}

type helpStep struct {
	Path   string
	Fsize  int64 // limit of file sizes, if >= 0
	Nofile int64 // limit of open files, if >= 0
	Old    string
	Auto   bool
}

type helpRes struct {
	Err      string // "" if there was none
	Errno    int
	NotExist bool
	NoPack   bool
	Nil      bool   // the result was nil
	Complete bool   // the file holds what was wanted
	Open     string // a file that is still open
	Len      int
}

type helpOut struct {
	Str    string
	Res    []helpRes
	Stderr string
	UID    int
	Cold   [][2]string // operation, result
}

// helper runs a helper process.
func (c *ctx) helper(spec any, uid ...int) (*helpOut, error) {
	in, _ := json.Marshal(spec)
	cmd := exec.Command(c.self, "helper", "x")
	cmd.Stdin = bytes.NewReader(in)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if len(uid) > 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(uid[0]), Gid: uint32(uid[0])}
		cmd.Dir = "/"
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(5*time.Minute, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	t.Stop()
	if err != nil {
		return nil, fmt.Errorf("%w: %s", err, clipN(stderr.String(), 2000))
	}
	out := &helpOut{}
	if err := json.Unmarshal(stdout.Bytes(), out); err != nil {
		return nil, fmt.Errorf("%w: %s", err, clipN(stdout.String()+stderr.String(), 2000))
	}
	out.Stderr = stderr.String()
	return out, nil
}

// helperDied reports a crash of a helper process.
func (c *ctx) helperDied(id, text string, err error) bool {
	if err == nil {
		return false
	}
	var exit *exec.ExitError
	if !errors.As(err, &exit) {
		panic(harnessErr{err})
	}
	c.fail(id, "crash", text, "the process died: %v", err)
	return true
}

func errnoOf(err error) int {
	var e syscall.Errno
	if errors.As(err, &e) {
		return int(e)
	}
	return 0
}

func setLimit(what int, cur int64) func() {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(what, &old); err != nil {
		panic(err)
	}
	l := old
	l.Cur = uint64(cur)
	if err := syscall.Setrlimit(what, &l); err != nil {
		panic(err)
	}
	return func() {
		if err := syscall.Setrlimit(what, &old); err != nil {
			panic(err)
		}
	}
}

func helperMain(_ *env, _ []string) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	in, err := io.ReadAll(os.Stdin)
	var spec helpSpec
	if err != nil || json.Unmarshal(in, &spec) != nil {
		fmt.Fprintln(os.Stderr, "helper: bad spec", err)
		os.Exit(3)
	}
	out := helpOut{UID: os.Getuid()}
	stdout := os.Stdout
	switch spec.Do {
	case "print":
		scs, err := goast.ParseScope(2, []byte(spec.Text))
		if err != nil {
			os.Exit(3)
		}
		before := snapScopes(scs)
		for _, s := range scs {
			s.Print()
			s.Node().IterNext(func(n *goast.Node) bool { n.Print(); return true })
		}
		out.Str = diffSnaps(before, snapScopes(scs), 0)
	case "asserts":
		failingAsserts()
	case "cold":
		out.Cold = runCold(spec.Cold)
	case "parse":
		for _, st := range spec.Steps {
			before := openFiles("")
			a, err := goast.ParseAst(st.Path)
			after := openFiles("")
			r := result12(a, err)
			r.Open = newlyOpen(before, after)
			out.Res = append(out.Res, r)
		}
	case "quiet":
		out.Str = runQuiet(spec.Texts, spec.Dir)
	case "save":
		signal.Ignore(syscall.SIGXFSZ)
		if r, w, err := os.Pipe(); err == nil { // starts the poller, which needs a file of its own
			r.Close()
			w.Close()
		}
		scs, err := goast.ParseScope(0, []byte(spec.Text))
		if err != nil {
			os.Exit(3)
		}
		a, err := goast.NewAst(scs...)
		if err != nil {
			os.Exit(3)
		}
		for _, st := range spec.Steps {
			if st.Old != "" {
				if err := os.WriteFile(st.Path, []byte(st.Old), 0o644); err != nil {
					panic(err)
				}
			}
			before := openFiles("")
			var undo []func()
			if st.Fsize >= 0 {
				undo = append(undo, setLimit(syscall.RLIMIT_FSIZE, st.Fsize))
			}
			if st.Nofile >= 0 {
				undo = append(undo, setLimit(syscall.RLIMIT_NOFILE, st.Nofile))
			}
			err := a.Save(st.Path, st.Auto)
			for _, f := range undo {
				f()
			}
			after := openFiles("")
			r := helpRes{Open: newlyOpen(before, after)}
			if err != nil {
				r.Err, r.Errno = err.Error(), errnoOf(err)
			}
			b, rerr := os.ReadFile(st.Path)
			r.Len = len(b)
			r.Complete = rerr == nil && string(b) == spec.Want
			out.Res = append(out.Res, r)
		}
	}
	b, _ := json.Marshal(out)
	_, _ = stdout.Write(b)
	os.Exit(0)
}

// openFiles are the open files of this process below a directory, by descriptor.
func openFiles(dir string) map[string]string {
	out := map[string]string{}
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, e := range l {
		to, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(to, dir) && !strings.HasPrefix(to, "/proc/") {
			out[e.Name()] = to
		}
	}
	return out
}

func newlyOpen(before, after map[string]string) string {
	for fd, to := range after {
		if before[fd] != to {
			return to
		}
	}
	return ""
}

func result12(a goast.Ast, err error) helpRes {
	r := helpRes{Nil: a == nil, NotExist: errors.Is(err, goast.ErrNotExist), NoPack: errors.Is(err, goast.ErrNoPackage)}
	if err != nil {
		r.Err, r.Errno = err.Error(), errnoOf(err)
	}
	return r
}
