// Package h runs the cases of a check in a child process under a monitor and
// records what was observed.
//
// The parent only watches: a child that crashes (fatal error, signal, a panic
// outside a case) or that burns CPU without finishing a case is a violation,
// like a case whose oracle disagrees.
package h

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions,omitempty"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

// C is the context of one check.
type C struct {
	ID       string
	Seed     int64
	Tier     string
	Thorough bool
	Dir      string // scratch directory, removed by the driver

	mu          sync.Mutex
	only        string
	beat        *os.File
	evaluations int64
	distinct    map[uint64]struct{}
	samples     []any
	counters    map[string]int64
	rule        string
	level       string
	assumptions []string
	violations  int
	start       time.Time
	current     string
	knowns      []Known
}

// T is the context of one case.
type T struct {
	*C
	Name string
	R    *rand.Rand
	log  []string
	done []func()
}

// Cleanup has f called when the case is over.
func (t *T) Cleanup(f func()) { t.done = append(t.done, f) }

// Index is the number at the end of the case's name.
func (t *T) Index() int {
	n, _ := strconv.Atoi(t.Name[strings.LastIndexByte(t.Name, '/')+1:])
	return n
}

type failure struct{ msg string }

// Failf reports that the property does not hold in this case.
func (t *T) Failf(format string, args ...any) {
	m := fmt.Sprintf(format, args...)
	if len(m) > 4000 {
		m = m[:2000] + " ... " + m[len(m)-2000:]
	}
	panic(failure{m})
}

// Logf records a step of the case, shown in its replay file.
func (t *T) Logf(format string, args ...any) {
	if len(t.log) < 4000 {
		t.log = append(t.log, fmt.Sprintf(format, args...))
	}
}

// NoErr fails the case if err is not nil.
func (t *T) NoErr(err error, format string, args ...any) {
	if err != nil {
		t.Failf("%s: unexpected error: %v", fmt.Sprintf(format, args...), err)
	}
}

// Count adds to a named counter of observed events.
func (c *C) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

// Max keeps the largest value seen of a named quantity.
func (c *C) Max(name string, n int) {
	c.mu.Lock()
	if v, ok := c.counters[name]; !ok || int64(n) > v {
		c.counters[name] = int64(n)
	}
	c.mu.Unlock()
}

// Distinct counts a distinct non-trivial case, identified by its fingerprint.
func (c *C) Distinct(parts ...any) {
	f := fnv.New64a()
	for _, p := range parts {
		switch p := p.(type) {
		case []byte:
			f.Write(p)
		case string:
			f.Write([]byte(p))
		default:
			fmt.Fprint(f, p)
		}
		f.Write([]byte{0})
	}
	c.mu.Lock()
	c.distinct[f.Sum64()] = struct{}{}
	c.mu.Unlock()
}

// Sample keeps a few of the cases for the evidence.
func (c *C) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *C) Rule(s string)      { c.rule = s }
func (c *C) Level(s string)     { c.level = s }
func (c *C) Assume(s ...string) { c.assumptions = append(c.assumptions, s...) }
func (c *C) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}
func (c *C) Violations() int { c.mu.Lock(); defer c.mu.Unlock(); return c.violations }
func (c *C) Evaluated(n int) { atomic.AddInt64(&c.evaluations, int64(n)) }

// Beat tells the monitor that progress was made.
func (c *C) Beat() { c.beat.WriteString(".") }

func seedOf(seed int64, name string) int64 {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%s", seed, name)
	return int64(f.Sum64() >> 1)
}

// Case runs one case. Its randomness depends only on the seed and its name.
func (c *C) Case(name string, run func(t *T)) {
	c.mu.Lock()
	if c.only != "" && c.only != name || c.violations >= 3 {
		c.mu.Unlock()
		return
	}
	c.current = name
	c.mu.Unlock()
	c.beat.WriteString("\n" + name + " ")
	debug.SetPanicOnFault(true)
	t := &T{C: c, Name: name, R: rand.New(rand.NewSource(seedOf(c.Seed, name)))}
	defer func() {
		for _, f := range t.done {
			f()
		}
	}()
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if f, ok := r.(failure); ok {
			c.Violation(name, f.msg, t.log)
			return
		}
		c.Violation(name, fmt.Sprintf("panic: %v", r), append(t.log, string(debug.Stack())))
	}()
	atomic.AddInt64(&c.evaluations, 1)
	run(t)
}

// Each runs n independent cases on several threads.
func (c *C) Each(n int, prefix string, run func(t *T)) {
	var next int64
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := atomic.AddInt64(&next, 1) - 1
				if i >= int64(n) {
					return
				}
				c.Case(fmt.Sprintf("%s/%d", prefix, i), run)
			}
		}()
	}
	wg.Wait()
}

// Violation reports a violation and writes its replay file.
func (c *C) Violation(name, msg string, log []string) {
	c.mu.Lock()
	c.violations++
	n := c.violations
	c.mu.Unlock()
	path := writeReplay(c.ID, c.Seed, c.Tier, n, name, msg, log)
	fmt.Printf("  case %s: %s\n", name, clip(msg, 1500))
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
}

func clip(s string, n int) string {
	if len(s) > n {
		s = s[:n] + "..."
	}
	return strings.ToValidUTF8(s, "?")
}

func writeReplay(id string, seed int64, tier string, n int, name, msg string, log []string) string {
	dir := os.Getenv("H_REPLAYS")
	if dir == "" {
		dir = os.TempDir()
	}
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", id, seed, n))
	b, _ := json.MarshalIndent(map[string]any{
		"property": id, "seed": seed, "tier": tier, "case": name, "message": msg, "log": log,
		"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s H_ONLY=%q bin/check %s", seed, tier, name, id),
	}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

// Finding runs the probe of a known finding: fails reports what goes wrong, or
// "" if nothing does. A failure that is not listed is a violation.
func (c *C) Finding(key string, fails func(t *T) string) {
	c.Case("finding/"+key, func(t *T) {
		var msg string
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg = fmt.Sprint(r)
				}
			}()
			msg = fails(t)
		}()
		for _, k := range c.knowns {
			if k.Property == c.ID && k.Key == key && k.Status == "known" {
				if msg != "" {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.What)
				} else {
					fmt.Printf("note: the known finding %s of %s no longer shows\n", key, c.ID)
				}
				return
			}
		}
		if msg != "" {
			t.Failf("%s", msg)
		}
	})
}

func loadKnown() []Known {
	var ks []Known
	b, err := os.ReadFile(os.Getenv("H_KNOWN"))
	if err == nil {
		if err := json.Unmarshal(b, &ks); err != nil {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			os.Exit(2)
		}
	}
	return ks
}

// Main is the entry point of a check.
func Main(id string, run func(c *C)) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if os.Getenv("H_CHILD") != "" {
		child(id, seed, tier, run)
		return
	}
	os.Exit(parent(id, seed, tier))
}

func child(id string, seed int64, tier string, run func(c *C)) {
	debug.SetPanicOnFault(true)
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 100})))
	if os.Getenv("H_RACE") == "" {
		lim := &syscall.Rlimit{Cur: 24 << 30, Max: 24 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, lim)
	}
	c := &C{
		ID: id, Seed: seed, Tier: tier, Thorough: tier == "thorough", Dir: os.Getenv("H_DIR"),
		only: os.Getenv("H_ONLY"), beat: os.NewFile(3, "beat"), distinct: map[uint64]struct{}{},
		counters: map[string]int64{}, level: "exploration", start: time.Now(), knowns: loadKnown(),
	}
	run(c)
	c.finish()
	if c.violations > 0 {
		os.Exit(1)
	}
	if c.only == "" && (c.evaluations == 0 || len(c.distinct) < 2) {
		fmt.Println("inconclusive: nothing was observed")
		os.Exit(9)
	}
	os.Exit(0)
}

func (c *C) finish() {
	cov := map[string]any{
		"evaluations": c.evaluations, "distinct_nontrivial": len(c.distinct),
		"rule": c.rule, "samples": c.samples, "observed": c.counters,
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	e := evidence{
		Property: c.ID, Tier: c.Tier, Seed: c.Seed, Level: c.level, Coverage: cov,
		Assumptions: c.assumptions, WallS: time.Since(c.start).Seconds(), Violations: c.violations,
	}
	b, _ := json.MarshalIndent(e, "", " ")
	if p := os.Getenv("H_EVIDENCE"); p != "" {
		os.WriteFile(p, append(b, '\n'), 0o644)
	}
	var names []string
	for k := range c.counters {
		names = append(names, k)
	}
	sort.Strings(names)
	var sb strings.Builder
	for _, k := range names {
		fmt.Fprintf(&sb, " %s=%d", k, c.counters[k])
	}
	fmt.Printf("%s %s: %d cases, %d distinct,%s, %.1fs\n", c.ID, c.Tier, c.evaluations, len(c.distinct), sb.String(), time.Since(c.start).Seconds())
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) < 200_000 {
		t.buf = append(t.buf, p...)
	}
	return len(p), nil
}

func cpuOf(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
	u, _ := strconv.Atoi(f[11])
	s, _ := strconv.Atoi(f[12])
	return time.Duration(u+s) * 10 * time.Millisecond
}

// parent runs the child and watches it. CPU time without progress, not wall
// time, is what counts as a hang.
func parent(id string, seed int64, tier string) int {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	exe, _ := os.Executable()
	cmd := exec.Command(exe, os.Args[1:]...)
	cmd.Env = append(os.Environ(), "H_CHILD=1", "GOTRACEBACK=all")
	cmd.ExtraFiles = []*os.File{w}
	cmd.Stdout = os.Stdout
	errs := &tail{}
	cmd.Stderr = errs
	if err := cmd.Start(); err != nil {
		fmt.Println("cannot start:", err)
		return 2
	}
	w.Close()
	var last atomic.Value
	last.Store("")
	var beats int64
	go func() {
		buf := make([]byte, 4096)
		cur := ""
		for {
			n, err := r.Read(buf)
			if n > 0 {
				atomic.AddInt64(&beats, int64(n))
				cur += string(buf[:n])
				if i := strings.LastIndexByte(cur, '\n'); i >= 0 {
					cur = cur[i:]
				}
				last.Store(strings.TrimRight(strings.TrimSpace(cur), "."))
			}
			if err != nil {
				return
			}
		}
	}()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var seen int64 = -1
	var since time.Duration
	wallSince := time.Now()
	hung := false
	tick := time.NewTicker(500 * time.Millisecond)
	for {
		select {
		case err := <-done:
			code := cmd.ProcessState.ExitCode()
			if err == nil {
				return 0
			}
			if !hung && code == 1 {
				return 1
			}
			if !hung && code == 9 {
				return 2
			}
			msg := fmt.Sprintf("the process died: %v", err)
			if hung {
				msg = "no progress in 150 s of CPU time"
			}
			out := string(errs.buf)
			fmt.Printf("  case %v: %s\n%s\n", last.Load(), msg, clip(out, 3000))
			if !hung && code == -1 && cmd.ProcessState.Sys().(syscall.WaitStatus).Signal() == syscall.SIGTERM {
				return 2
			}
			path := writeReplay(id, seed, tier, 0, fmt.Sprint(last.Load()), msg, strings.Split(clip(out, 60000), "\n"))
			if p := os.Getenv("H_EVIDENCE"); p != "" {
				b, _ := json.MarshalIndent(evidence{Property: id, Tier: tier, Seed: seed, Level: "exploration",
					Coverage:   map[string]any{"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run died, see the replay file", "samples": []any{fmt.Sprint(last.Load())}},
					Violations: 1}, "", " ")
				os.WriteFile(p, b, 0o644)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			return 1
		case <-tick.C:
			b := atomic.LoadInt64(&beats)
			cpu := cpuOf(cmd.Process.Pid)
			if b != seen {
				seen, since, wallSince = b, cpu, time.Now()
			} else if cpu-since > 150*time.Second {
				hung = true
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(3 * time.Second)
				cmd.Process.Kill()
			} else if time.Since(wallSince) > 10*time.Minute {
				fmt.Println("inconclusive: no progress in 10 minutes")
				cmd.Process.Kill()
				<-done
				return 2
			}
		}
	}
}
