// Package vh is shared by the harnesses: it records what a scenario observed,
// watches for deadlocks and draws seeded random choices.
package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func Seed() int      { return envInt("VERIF_SEED", 1) }
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }
func Shard() int     { return envInt("VH_SHARD", 0) }

// N picks the number of cases for the tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Rand returns the generator of one case of a scenario.
func Rand(name string, n int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", name, Shard(), n)
	return rand.New(&lockedSource{s: rand.NewPCG(uint64(Seed()), h.Sum64())})
}

// lockedSource lets the goroutines of a case share its generator.
type lockedSource struct {
	mu sync.Mutex
	s  rand.Source
}

func (l *lockedSource) Uint64() uint64 {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Uint64()
}

type R struct {
	T    *testing.T
	Name string
	rule string

	mu       sync.Mutex
	out      *os.File
	evals    int64
	distinct map[uint64]struct{}
	stats    map[string]int64
	samples  []any
	viols    int
	keys     map[string]bool
	done     chan struct{}
	steps    atomic.Int64
	ctx      atomic.Value // string: what is going on, for reports
}

// Start opens the record of a scenario and its watchdog.
func Start(t *testing.T, rule string) *R {
	r := &R{T: t, Name: t.Name(), rule: rule, distinct: map[uint64]struct{}{}, stats: map[string]int64{}, keys: map[string]bool{}, done: make(chan struct{})}
	r.ctx.Store("")
	if p := os.Getenv("VH_OUT"); p != "" {
		f, err := os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		if err != nil {
			t.Fatal(err)
		}
		r.out = f
	}
	fmt.Println("VH-STARTED")
	go r.watch()
	return r
}

func (r *R) emit(v map[string]any) {
	v["scenario"] = r.Name
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(map[string]any{"t": v["t"], "scenario": r.Name, "key": v["key"], "msg": fmt.Sprint(v["msg"]), "detail": fmt.Sprint(v)})
	}
	if r.out != nil {
		r.out.Write(append(b, '\n'))
	} else if v["t"] != "sum" {
		fmt.Println(string(b))
	} else {
		fmt.Println(string(b))
	}
}

// Step tells the watchdog that the scenario is getting on.
func (r *R) Step() { r.steps.Add(1) }

// Context says what is being executed, for reports of crashes and deadlocks.
func (r *R) Context(format string, a ...any) { r.ctx.Store(fmt.Sprintf(format, a...)); r.steps.Add(1) }

func (r *R) Eval(n int) { r.mu.Lock(); r.evals += int64(n); r.mu.Unlock(); r.Step() }

// Distinct counts different non-trivial cases.
func (r *R) Distinct(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	s := h.Sum64()
	r.mu.Lock()
	r.distinct[s] = struct{}{}
	r.mu.Unlock()
}

func (r *R) Stat(name string, n int) { r.mu.Lock(); r.stats[name] += int64(n); r.mu.Unlock() }

func (r *R) Max(name string, n int) {
	r.mu.Lock()
	if int64(n) > r.stats[name] {
		r.stats[name] = int64(n)
	}
	r.mu.Unlock()
}

func (r *R) GetStat(name string) int64 { r.mu.Lock(); defer r.mu.Unlock(); return r.stats[name] }

func (r *R) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 3 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Violation records a broken property. key identifies what failed (the input,
// call site or history), for the list of known findings.
func (r *R) Violation(key string, detail any, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.keys[key] && key != "" {
		return
	}
	r.keys[key] = true
	r.viols++
	if r.viols > 20 {
		return
	}
	r.emit(map[string]any{"t": "viol", "key": key, "msg": msg, "detail": detail, "context": r.ctx.Load()})
}

// PV records a violation that concerns the listed properties: the driver says
// which one is being decided.
func (r *R) PV(props, key string, detail any, format string, a ...any) {
	if p := os.Getenv("VH_PROP"); p != "" && !strings.Contains(","+props+",", ","+p+",") {
		r.Stat("seen that other properties forbid", 1)
		return
	}
	r.Violation(key, detail, "["+props+"] "+format, a...)
}

// Inconclusive records that the harness could not decide (its own trouble).
func (r *R) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.emit(map[string]any{"t": "inconclusive", "msg": fmt.Sprintf(format, a...), "context": r.ctx.Load()})
}

// Bad says whether enough violations were seen to stop early.
func (r *R) Bad() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.viols > 0 }

func (r *R) Finish() {
	close(r.done)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.emit(map[string]any{"t": "sum", "evals": r.evals, "distinct": len(r.distinct), "rule": r.rule, "samples": r.samples, "stats": r.stats})
	if r.out != nil {
		r.out.Close()
	}
}

// ---- deadlock watchdog ----

func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// stacks returns the goroutine blocks of a full dump.
func stacks() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	return strings.Split(string(buf), "\n\n")
}

func repoFrame(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "github.com/DanLavine/willow/") && !strings.Contains(l, "/internal/verif/") {
			return true
		}
	}
	return false
}

// blockedDump returns the repository's goroutines if every goroutine is
// blocked (none runnable, running or in a system call), else "".
func blockedDump() string {
	var keep []string
	for i, g := range stacks() {
		if i == 0 { // this one
			continue
		}
		head, _, _ := strings.Cut(g, "\n")
		o := strings.Index(head, "[")
		c := strings.LastIndex(head, "]")
		if o < 0 || c < 0 {
			continue
		}
		state := head[o+1 : c]
		if strings.HasPrefix(state, "running") || strings.HasPrefix(state, "runnable") {
			return ""
		}
		if repoFrame(g) || strings.Contains(g, "internal/verif") {
			id := strings.Fields(head)[1]
			st, _, _ := strings.Cut(state, ",")
			_, rest, _ := strings.Cut(g, "\n")
			keep = append(keep, "goroutine "+id+" ["+st+"]\n"+rest)
		}
	}
	sort.Strings(keep)
	return strings.Join(keep, "\n\n")
}

// watch looks, in real time, for a scenario that no longer gets on: either
// everything is blocked for good or something spins. It decides on process
// state and CPU time, not on how long the machine took.
func (r *R) watch() {
	quiet := time.Duration(envInt("VH_QUIET", 12)) * time.Second
	last, since, cpu0 := int64(-1), time.Now(), cpu()
	for {
		select {
		case <-r.done:
			return
		case <-time.After(500 * time.Millisecond):
		}
		if s := r.steps.Load(); s != last {
			last, since, cpu0 = s, time.Now(), cpu()
			continue
		}
		if time.Since(since) < quiet {
			continue
		}
		used := cpu() - cpu0
		if used > 45*time.Second {
			d := blocksWithRepo()
			r.die("spin", d, "an operation used more than 45 s of CPU time without completing")
		}
		d := blockedDump()
		if d == "" {
			continue
		}
		same := true
		for i := 0; i < 4 && same; i++ {
			time.Sleep(1500 * time.Millisecond)
			same = blockedDump() == d && r.steps.Load() == last
		}
		if same && repoFrame(d) {
			r.die("deadlock", d, "the operations in progress are blocked for good (all goroutines blocked, unchanged)")
		}
	}
}

func blocksWithRepo() string {
	var keep []string
	for _, g := range stacks() {
		if repoFrame(g) {
			keep = append(keep, g)
		}
	}
	return strings.Join(keep, "\n\n")
}

// BlockedSites summarises where repository goroutines wait.
func BlockedSites(d string) []string {
	var sites []string
	for _, g := range strings.Split(d, "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "github.com/DanLavine/willow/") && !strings.Contains(l, "/internal/verif/") {
				f, _, _ := strings.Cut(l[strings.LastIndex(l, "/")+1:], "(0x")
				sites = append(sites, f)
				break
			}
		}
	}
	sort.Strings(sites)
	var u []string
	for i, s := range sites {
		if i == 0 || sites[i-1] != s {
			u = append(u, s)
		}
	}
	return u
}

func (r *R) die(kind, dump, msg string) {
	if len(dump) > 60000 {
		dump = dump[:60000]
	}
	r.Violation(kind+":"+strings.Join(BlockedSites(dump), "+"), map[string]any{"goroutines": strings.Split(dump, "\n")}, "%s: %s; waiting in %v", kind, msg, BlockedSites(dump))
	r.mu.Lock()
	r.emit(map[string]any{"t": "sum", "evals": r.evals, "distinct": len(r.distinct), "rule": r.rule, "samples": r.samples, "stats": r.stats})
	os.Exit(3)
}

// Guard runs f and reports a panic: in the repository's code it violates the
// property, anywhere else it is the harness's own trouble.
func (r *R) Guard(what string, detail any, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			st := debug.Stack()
			r.Panic(what, detail, p, st)
		}
	}()
	f()
	return true
}

// Panic classifies a recovered panic.
func (r *R) Panic(what string, detail any, p any, st []byte) {
	lines := strings.Split(string(st), "\n")
	// frames above the panic call are the recovery's own
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i:]
			break
		}
	}
	body := strings.Join(lines, "\n")
	site := PanicSite(body)
	if strings.HasPrefix(fmt.Sprint(p), "deadlock: ") {
		r.Violation("deadlock:"+what, map[string]any{"case": detail, "stacks": bubbleStacks()}, "%s: every goroutine is blocked for good: %v", what, p)
		return
	}
	if site == "" {
		r.Inconclusive("harness panic in %s: %v\n%s", what, p, body)
		return
	}
	r.Violation("panic:"+site, map[string]any{"case": detail, "stack": lines}, "%s: panic %v in %s", what, p, site)
}

// bubbleStacks lists where the goroutines of the bubble are blocked.
func bubbleStacks() (out []string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(strings.SplitN(g, "\n", 2)[0], "synctest bubble") {
			out = append(out, g)
		}
	}
	return
}

// PanicSite names the first repository function below the panic, or "".
func PanicSite(body string) string {
	for _, l := range strings.Split(body, "\n") {
		if strings.HasPrefix(l, "github.com/DanLavine/willow/") {
			if strings.Contains(l, "/internal/verif/") {
				if strings.Contains(l, "vsched") {
					continue
				}
				return ""
			}
			f := l[strings.LastIndex(l, "/")+1:]
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			return f
		}
	}
	return ""
}

// JSON renders a value compactly for keys and details.
func JSON(v any) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return fmt.Sprint(v)
	}
	return strings.TrimSpace(b.String())
}
