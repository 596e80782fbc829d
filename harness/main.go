package main

// vh run ID      supervises the check of a property (tier and seed from the environment)
// vh worker ID   runs the cases (started by the supervisor)
// vh solo ID CASE   runs one case alone
// vh replay FILE    runs the case of a replay file alone and says what happens

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var sprintf = fmt.Sprintf

func clip(s string) string {
	if len(s) > 120 {
		return s[:90] + " ... " + s[len(s)-25:]
	}
	return s
}

// check decides one property.
type check struct {
	id     string
	level  string
	rule   string
	cases  func(e *env) []string   // ids of the cases of a run
	run    func(c *ctx, id string) // runs one case
	around func(func())            // runs the worker inside of something
	serial bool                    // one case at a time
	crash  bool                    // a crash of the whole worker is a violation even if no single case reproduces it
	must   []string                // counters that have to be above zero
	assume []string
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

type env struct {
	tier    string
	seed    uint64
	goroot  string
	modc    string
	repo    string
	scratch string
	self    string
}

func (e *env) thorough() bool { return e.tier == "thorough" }

// scale chooses the number of cases, multiplied in the quick tier.
const quickly = 5

func (e *env) scale(quick, thorough int) int {
	if e.thorough() {
		return thorough
	}
	return quick * quickly
}

func getEnv() *env {
	e := &env{tier: os.Getenv("VERIF_TIER"), goroot: os.Getenv("VH_GOROOT"), modc: os.Getenv("VH_MODCACHE"), repo: os.Getenv("VH_REPO"), scratch: os.Getenv("VH_SCRATCH")}
	if e.tier != "thorough" {
		e.tier = "quick"
	}
	e.seed = 1
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		e.seed = s
	}
	if e.repo == "" {
		e.repo = "/repo"
	}
	e.self, _ = os.Executable()
	return e
}

type violation struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Key      string `json:"key"`
	Msg      string `json:"message"`
	Text     string `json:"input,omitempty"`
	Tier     string `json:"tier"`
	Seed     uint64 `json:"seed"`
	Log      string `json:"log,omitempty"`
}

// result is what a worker leaves behind.
type result struct {
	Cases      int
	Distinct   int
	Counts     map[string]int64
	Samples    []any
	Violations []violation
	Troubles   []string // of the harness
}

// ctx collects what the cases observe.
type ctx struct {
	*env
	chk    *check
	mu     sync.Mutex
	res    result
	seen   map[uint64]struct{}
	perKey map[string]int
	found  *os.File
	cur    map[int]*ctxCase
}

type ctxCase struct {
	slot  int
	id    string
	start time.Time
}

// caseCtx is the view of one running case.
func (c *ctx) count(name string, n int) {
	c.mu.Lock()
	c.res.Counts[name] += int64(n)
	c.mu.Unlock()
}

// distinct notes a non-trivial case by its signature.
func (c *ctx) distinct(sig uint64) {
	c.mu.Lock()
	c.seen[sig] = struct{}{}
	c.mu.Unlock()
}

func (c *ctx) sample(v any) {
	c.mu.Lock()
	if len(c.res.Samples) < 6 {
		c.res.Samples = append(c.res.Samples, v)
	}
	c.mu.Unlock()
}

// fail notes a violation. Key names the kind of violation: only a few of each are kept.
func (c *ctx) fail(id, key, text string, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Counts["violations"]++
	c.perKey[key]++
	if c.perKey[key] > 3 || len(c.res.Violations) >= 60 {
		return
	}
	v := violation{c.chk.id, id, key, sprintf(format, a...), text, c.tier, c.seed, ""}
	c.res.Violations = append(c.res.Violations, v)
	if c.found != nil { // for the supervisor, should this process not come to its end
		b, _ := json.Marshal(v)
		_, _ = c.found.Write(append(b, '\n'))
	}
}

func (c *ctx) runCase(id string) {
	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(harnessErr); ok {
				c.mu.Lock()
				c.res.Troubles = append(c.res.Troubles, id+": "+h.Error())
				c.mu.Unlock()
				return
			}
			c.fail(id, "panic", "", "panic: %v\n%s", p, clipStack(debug.Stack()))
		}
	}()
	c.chk.run(c, id)
	c.mu.Lock()
	c.res.Cases++
	c.mu.Unlock()
}

func clipStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	return strings.Join(lines[:min(len(lines), 30)], "\n")
}

const (
	exitHang = 7
	slots    = 64
	slotSize = 512
)

// journal tells the supervisor which cases were running if the worker dies.
type journal struct{ f *os.File }

func (j *journal) set(slot int, id string) {
	if j.f == nil {
		return
	}
	buf := make([]byte, slotSize)
	copy(buf, id)
	_, _ = j.f.WriteAt(buf, int64(slot*slotSize))
}

func readJournal(path string) []string {
	b, _ := os.ReadFile(path)
	var out []string
	for i := 0; i+slotSize <= len(b); i += slotSize {
		if s := strings.TrimRight(string(b[i:i+slotSize]), "\x00"); s != "" {
			out = append(out, s)
		}
	}
	return out
}

// readFound reads the violations that a worker noted.
func readFound(path string) []violation {
	b, _ := os.ReadFile(path)
	var out []violation
	for _, l := range bytes.Split(b, []byte("\n")) {
		var v violation
		if json.Unmarshal(l, &v) == nil && v.Property != "" {
			out = append(out, v)
		}
	}
	return out
}

func newCtx(e *env, chk *check) *ctx {
	return &ctx{env: e, chk: chk, res: result{Counts: map[string]int64{}}, seen: map[uint64]struct{}{}, perKey: map[string]int{}}
}

func worker(e *env, chk *check, ids []string, solo bool) {
	debug.SetMemoryLimit(6 << 30)
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil))) // Save reports what it cannot format
	c := newCtx(e, chk)
	var jr journal
	if p := os.Getenv("VH_JOURNAL"); p != "" {
		jr.f, _ = os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
		c.found, _ = os.OpenFile(p+".found", os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	}
	deadline := time.Now().Add(24 * time.Hour)
	if s, err := strconv.Atoi(os.Getenv("VH_TIME")); err == nil {
		deadline = time.Now().Add(time.Duration(s) * time.Second)
	}
	hangAfter := 30 * time.Second
	if s, err := strconv.Atoi(os.Getenv("VH_HANG")); err == nil {
		hangAfter = time.Duration(s) * time.Second
	}
	par := runtime.GOMAXPROCS(0)
	if par > slots {
		par = slots
	}
	if chk.serial || solo || os.Getenv("VH_PAR") == "1" {
		par = 1
	}
	starts := make([]atomic.Int64, par)
	if !solo {
		go func() { // only to find suspects: the verdict is made by running them alone, by CPU time
			for {
				time.Sleep(time.Second)
				for i := range starts {
					if s := starts[i].Load(); s != 0 && time.Since(time.Unix(0, s)) > hangAfter {
						os.Exit(exitHang)
					}
				}
			}
		}()
	}
	var next atomic.Int64
	body := func(slot int) {
		for {
			i := int(next.Add(1)) - 1
			if i >= len(ids) {
				starts[slot].Store(0)
				jr.set(slot, "")
				return
			}
			if time.Now().After(deadline) {
				c.count("cases left out for lack of time", 1)
				continue
			}
			jr.set(slot, ids[i])
			starts[slot].Store(time.Now().UnixNano())
			c.runCase(ids[i])
		}
	}
	if par == 1 {
		body(0)
	} else {
		var wg sync.WaitGroup
		for s := range par {
			wg.Add(1)
			go func() { defer wg.Done(); body(s) }()
		}
		wg.Wait()
	}
	c.res.Distinct = len(c.seen)
	b, _ := json.Marshal(c.res)
	if err := os.WriteFile(os.Getenv("VH_RESULT"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

type runOut struct {
	res     *result
	found   []violation // by a worker that didn't come to its end
	err     error
	code    int
	log     string
	running []string
	killed  bool // by the CPU limit
	blocked bool // no end, and no CPU time used
}

// spawn runs a worker process.
func spawn(e *env, chk *check, args []string, extra []string, cpuLimit int, wall time.Duration) runOut {
	dir, err := os.MkdirTemp(e.scratch, "w")
	if err != nil {
		return runOut{err: err, code: 3}
	}
	defer os.RemoveAll(dir)
	logf, _ := os.Create(filepath.Join(dir, "log"))
	var cmd *exec.Cmd
	if cpuLimit > 0 {
		cmd = exec.Command("bash", append([]string{"-c", fmt.Sprintf("ulimit -t %d; exec \"$0\" \"$@\"", cpuLimit), e.self}, args...)...)
	} else {
		cmd = exec.Command(e.self, args...)
	}
	cmd.Stdout, cmd.Stderr = logf, logf
	tmp := filepath.Join(dir, "tmp")
	_ = os.Mkdir(tmp, 0o777)
	_ = os.Chmod(tmp, 0o777)
	_ = os.Chmod(dir, 0o755)
	cmd.Env = append(os.Environ(), "VH_JOURNAL="+filepath.Join(dir, "journal"), "VH_RESULT="+filepath.Join(dir, "result"), "VH_SCRATCH="+tmp, "TMPDIR="+tmp,
		"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race"))
	cmd.Env = append(cmd.Env, extra...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return runOut{err: err, code: 3}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	out := runOut{}
	enough := make(chan struct{})
	over := make(chan struct{})
	go func() { // the rest of a run needs no waiting for long after a violation
		known := loadKnown(chk.id)
		for range 60 {
			select {
			case <-over:
				return
			case <-time.After(time.Second):
			}
			for len(known.fresh(readFound(filepath.Join(dir, "journal.found")))) == 0 {
				select {
				case <-over:
					return
				case <-time.After(time.Second):
				}
			}
		}
		close(enough)
	}()
	defer close(over)
	select {
	case err = <-done:
	case <-enough:
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		out.code = -101
		err = fmt.Errorf("stopped after violations")
	case <-time.After(wall):
		t1 := cpuTicks(cmd.Process.Pid)
		time.Sleep(5 * time.Second)
		t2 := cpuTicks(cmd.Process.Pid)
		out.blocked = t1 >= 0 && t2-t1 < 5 && t2 < 1000
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		out.code = -100
		err = fmt.Errorf("no end within %s", wall)
	}
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	logf.Close()
	out.found = readFound(filepath.Join(dir, "journal.found"))
	out.running = readJournal(filepath.Join(dir, "journal"))
	out.log = tail(filepath.Join(dir, "log"), 12000)
	if races, _ := filepath.Glob(filepath.Join(dir, "race.*")); len(races) > 0 {
		var b []byte
		for _, p := range races {
			one, _ := os.ReadFile(p)
			b = append(b, one...)
		}
		if len(b) > 20000 {
			b = b[:20000]
		}
		if strings.Contains(string(b), "DATA RACE") {
			out.log = "RACE\n" + string(b)
		}
	}
	if err != nil {
		out.err = err
		if out.code == 0 {
			out.code = cmd.ProcessState.ExitCode()
			if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				out.code = 128 + int(ws.Signal())
				out.killed = ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL
			}
		}
		return out
	}
	b, err := os.ReadFile(filepath.Join(dir, "result"))
	if err != nil {
		out.err, out.code = err, 3
		return out
	}
	out.res = &result{}
	if err := json.Unmarshal(b, out.res); err != nil {
		out.err, out.code = err, 3
	}
	return out
}

func tail(path string, n int64) string {
	f, err := os.Open(path)
	if err != nil {
		return ""
	}
	defer f.Close()
	head := make([]byte, 4000)
	k, _ := f.Read(head)
	st, _ := f.Stat()
	if st.Size() <= n {
		b, _ := os.ReadFile(path)
		return string(b)
	}
	b := make([]byte, n)
	m, _ := f.ReadAt(b, st.Size()-n)
	return string(head[:k]) + "\n ... \n" + string(b[:m])
}

// cpuTicks is the CPU time of a process in clock ticks of 10 ms, -1 if unknown.
func cpuTicks(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	_, rest, ok := strings.Cut(string(b), ") ")
	f := strings.Fields(rest)
	if !ok || len(f) < 13 {
		return -1
	}
	u, _ := strconv.Atoi(f[11])
	s, _ := strconv.Atoi(f[12])
	return u + s
}

// crashHead picks the lines that say how a Go process died.
func crashHead(log string) string {
	sc := bufio.NewScanner(strings.NewReader(log))
	sc.Buffer(nil, 1<<20)
	var out []string
	for sc.Scan() {
		l := sc.Text()
		if len(out) == 0 && !(strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "SIG")) {
			continue
		}
		out = append(out, l)
		if len(out) >= 25 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// cpuLimitSolo bounds one case run alone. Cases take milliseconds.
const cpuLimitSolo = 90

func supervise(e *env, chk *check) int {
	start := time.Now()
	base, err := os.MkdirTemp(os.Getenv("TMPDIR"), "vh-")
	if err != nil {
		fmt.Println("error:", err)
		return 3
	}
	defer os.RemoveAll(base)
	_ = os.Chmod(base, 0o755)
	e.scratch = base

	work, wall := 420*time.Second, 600*time.Second // for the cases that are started, and their end
	total := 850 * time.Second
	if e.thorough() {
		work, wall, total = 3*time.Hour, 4*time.Hour, 5*time.Hour
	}
	left := func(most time.Duration) time.Duration {
		return max(min(most, total-time.Since(start)), time.Second)
	}
	skip := []string{}
	var viol []violation
	var res *result
	hang := 30
	for attempt := 0; ; attempt++ {
		out := spawn(e, chk, []string{"worker", chk.id}, []string{"VH_SKIP=" + strings.Join(skip, "\n"), "VH_HANG=" + strconv.Itoa(hang), "VH_TIME=" + strconv.Itoa(max(1, int((work-time.Since(start)).Seconds())))}, 0, left(wall-time.Since(start)))
		if strings.HasPrefix(out.log, "RACE\n") {
			viol = append(viol, violation{Property: chk.id, Case: "race", Key: "race", Msg: "data race", Tier: e.tier, Seed: e.seed, Log: out.log})
		}
		if out.err == nil {
			res = out.res
			break
		}
		if len(viol) > 0 { // races and a crash
			break
		}
		if len(loadKnown(chk.id).fresh(out.found)) > 0 {
			viol = out.found
			break
		}
		if out.code == 3 || attempt >= 8 {
			fmt.Printf("error: worker of %s: %v\n%s\n", chk.id, out.err, out.log)
			return 3
		}
		// Crashed or stuck: find the case by running the suspects alone.
		found := false
		if out.code == -100 && attempt > 0 {
			fmt.Printf("inconclusive: %s did not end in time\n", chk.id)
			return 3
		}
		for _, id := range out.running {
			so := spawn(e, chk, []string{"solo", chk.id, id}, nil, cpuLimitSolo, left(150*time.Second))
			if so.err == nil {
				viol = append(viol, so.res.Violations...)
				continue
			}
			if so.code == 3 {
				continue
			}
			msg := "the process crashed: " + crashHead(so.log)
			if so.killed {
				msg = sprintf("no end within %d s of CPU time", cpuLimitSolo)
			} else if so.blocked {
				msg = "the case never ends and uses no CPU time: blocked for good"
			} else if so.code == -100 {
				continue // a very slow machine
			}
			viol = append(viol, violation{Property: chk.id, Case: id, Key: "crash", Msg: msg, Text: caseText(e, chk, id), Tier: e.tier, Seed: e.seed, Log: so.log})
			skip = append(skip, id)
			found = true
			if so.killed || so.blocked {
				break // the others take as long
			}
		}
		if len(viol) > 0 {
			break
		}
		if !found {
			if chk.crash && out.code != exitHang && out.code != -100 {
				viol = append(viol, violation{Property: chk.id, Case: "run", Key: "crash", Msg: "the process crashed: " + crashHead(out.log), Tier: e.tier, Seed: e.seed, Log: out.log})
				break
			}
			if out.code == exitHang {
				hang *= 4 // a slow machine, not a hang
				continue
			}
			if par := os.Getenv("VH_PAR"); par == "" && !chk.serial {
				os.Setenv("VH_PAR", "1") // find out which case it is by running one after the other
				continue
			}
			fmt.Printf("inconclusive: the worker of %s ended with %d (%v), and no single case reproduces it\n%s\n", chk.id, out.code, out.err, out.log)
			return 3
		}
	}
	if res == nil {
		res = &result{Counts: map[string]int64{}}
	}
	viol = append(res.Violations, viol...)

	known := loadKnown(chk.id)
	code := 0
	printedKnown := map[string]bool{}
	var fresh []violation
	for _, v := range viol {
		if k := known.match(v); k != "" {
			if !printedKnown[k] {
				printedKnown[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.id, k)
			}
			continue
		}
		fresh = append(fresh, v)
	}
	sort.SliceStable(fresh, func(i, j int) bool { return len(fresh[i].Text) < len(fresh[j].Text) })
	for i, v := range fresh {
		if i >= 12 {
			fmt.Printf("... and %d more\n", len(fresh)-i)
			break
		}
		path := writeReplay(v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", chk.id, path)
		fmt.Printf("  case %s (%s): %s\n", v.Case, v.Key, strings.ReplaceAll(clipN(v.Msg, 1500), "\n", "\n    "))
		code = 1
	}
	writeEvidence(e, chk, res, len(fresh), time.Since(start))
	if code == 0 {
		if len(res.Troubles) > 0 {
			fmt.Printf("error: %s: the harness failed in %d cases: %s\n", chk.id, len(res.Troubles), clipN(strings.Join(res.Troubles, "\n"), 2000))
			return 3
		}
		if res.Cases == 0 || res.Distinct == 0 {
			fmt.Printf("error: %s observed nothing\n", chk.id)
			return 3
		}
		for _, m := range chk.must {
			if res.Counts[m] == 0 {
				fmt.Printf("error: %s never observed %q\n", chk.id, m)
				return 3
			}
		}
		fmt.Printf("OK property=%s cases=%d distinct=%d wall=%.1fs\n", chk.id, res.Cases, res.Distinct, time.Since(start).Seconds())
	}
	return code
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

func verifDir() string {
	if d := os.Getenv("VH_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func writeReplay(v violation) string {
	dir := filepath.Join(verifDir(), "replays")
	_ = os.MkdirAll(dir, 0o755)
	h := newHash()
	h.str(v.Case)
	h.str(v.Key)
	h.str(v.Msg)
	path := filepath.Join(dir, sprintf("%s-%s-%08x.json", v.Property, v.Key, uint32(h)))
	path = strings.ReplaceAll(path, " ", "_")
	b, _ := json.MarshalIndent(v, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

func level(chk *check) string {
	if chk.level != "" {
		return chk.level
	}
	return "exploration"
}

func writeEvidence(e *env, chk *check, res *result, nviol int, wall time.Duration) {
	cov := map[string]any{
		"evaluations":         res.Cases,
		"distinct_nontrivial": res.Distinct,
		"rule":                chk.rule,
		"samples":             res.Samples,
	}
	if res.Samples == nil {
		cov["samples"] = []any{}
	}
	obs := map[string]int64{}
	for k, v := range res.Counts {
		if k != "violations" {
			obs[k] = v
		}
	}
	cov["observed"] = obs
	ev := map[string]any{
		"property": chk.id, "tier": e.tier, "seed": e.seed, "level": level(chk),
		"coverage": cov, "wall_s": float64(int(wall.Seconds()*100)) / 100, "violations": nviol,
		"assumptions": append([]string{"Go " + runtime.Version() + " go/scanner, go/parser, go/format, go/ast are the reference for Go's syntax where the property speaks of it"}, chk.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, chk.id+".json"), append(b, '\n'), 0o644)
}

// ---- known findings

type knownEntry struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Case     string `json:"case"`   // the input or history that fails
	Key      string `json:"key"`
	Message  string `json:"message"`
	What     string `json:"what"`
}

type knownList []knownEntry

func loadKnown(id string) knownList {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var out knownList
	for _, l := range strings.Split(string(b), "\n") {
		var k knownEntry
		if json.Unmarshal([]byte(l), &k) == nil && k.Status == "known" && k.Property == id {
			out = append(out, k)
		}
	}
	return out
}

// fresh are the violations that are not listed.
func (l knownList) fresh(all []violation) []violation {
	return slices.DeleteFunc(all, func(v violation) bool { return l.match(v) != "" })
}

func (l knownList) match(v violation) string {
	for _, k := range l {
		if k.Case == v.Case && k.Key == v.Key && k.Message == v.Msg {
			return k.What
		}
	}
	return ""
}

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: vh run|worker|solo|replay ...")
		os.Exit(2)
	}
	e := getEnv()
	if os.Args[1] == "replay" {
		b, err := os.ReadFile(os.Args[2])
		var v violation
		if err != nil || json.Unmarshal(b, &v) != nil {
			fmt.Println("cannot read", os.Args[2])
			os.Exit(2)
		}
		e.tier, e.seed = v.Tier, v.Seed
		if v.Case == "race" || v.Case == "run" { // seen in a whole run
			fmt.Println(v.Log)
			os.Exit(supervise(e, checks[v.Property]))
		}
		base, _ := os.MkdirTemp(os.Getenv("TMPDIR"), "vh-")
		e.scratch = base
		out := spawn(e, checks[v.Property], []string{"solo", v.Property, v.Case}, nil, cpuLimitSolo, 10*time.Minute)
		os.RemoveAll(base)
		if out.err != nil {
			fmt.Printf("the case ends the process: %v\n%s\n", out.err, out.log)
			os.Exit(1)
		}
		for _, x := range out.res.Violations {
			fmt.Printf("%s: %s\n", x.Key, x.Msg)
		}
		if strings.HasPrefix(out.log, "RACE\n") {
			fmt.Println(out.log)
			os.Exit(1)
		}
		fmt.Printf("%d violations\n", len(out.res.Violations))
		if len(out.res.Violations) > 0 {
			os.Exit(1)
		}
		return
	}
	if os.Args[1] == "helper" {
		helperMain(e, os.Args[2:])
		return
	}
	chk := checks[os.Args[2]]
	if chk == nil {
		fmt.Println("unknown property", os.Args[2])
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(e, chk))
	case "worker":
		skip := map[string]bool{}
		for _, s := range strings.Split(os.Getenv("VH_SKIP"), "\n") {
			skip[s] = true
		}
		var ids []string
		for _, id := range chk.cases(e) {
			if !skip[id] {
				ids = append(ids, id)
			}
		}
		mix(ids)
		inside(chk, func() { worker(e, chk, ids, false) })
	case "solo":
		inside(chk, func() { worker(e, chk, []string{os.Args[3]}, true) })
	}
}

// mix puts the cases in an order in which all kinds come early.
func mix(ids []string) {
	sort.SliceStable(ids, func(i, j int) bool { return hashText([]byte(ids[i])) < hashText([]byte(ids[j])) })
}

func sortStrings(s []string) { sort.Strings(s) }

func inside(chk *check, f func()) {
	if chk.around != nil {
		chk.around(f)
		return
	}
	f()
}
