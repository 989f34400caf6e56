package hb

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/heartbeater"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
)

type call struct {
	what     string
	from, to time.Duration
	ok       bool
}

func (c call) String() string { return fmt.Sprintf("%v-%v %s=%v", c.from, c.to, c.what, c.ok) }

// TestH01_Lifecycle runs a heartbeat process in virtual time against starts,
// stops, heartbeats and shutdowns at (often equal) moments, some of them from
// callers that hold a lock the callbacks need.
func TestH01_Lifecycle(t *testing.T) {
	r := vh.Start(t, "lifecycles with at least two kinds of operations")
	defer r.Finish()
	vsched.Set(1, 4, 0)
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(2500, 250000) && !r.Bad(); n++ {
		g := vh.Rand("H01", n)
		r.Guard("lifecycle", n, func() { synctest.Test(t, func(t *testing.T) { lifecycle(r, g, n) }) })
	}
}

func lifecycle(r *vh.R, g *rand.Rand, n int) {
	T := time.Duration(1+g.IntN(4)) * time.Second
	if g.IntN(2) == 0 {
		T = time.Duration(4 + 4*g.IntN(1<<(4+g.IntN(27)))) // any length
	}
	base := time.Now()
	now := func() time.Duration { return time.Since(base) }
	lock := make(chan struct{}, 1) // the lock of the resource tracked
	var mu sync.Mutex
	var calls []call
	timeouts, shutdowns := []time.Duration{}, []time.Duration{}
	cbLocks := g.IntN(2) == 0
	callback := func(to *[]time.Duration) func() {
		return func() {
			mu.Lock()
			*to = append(*to, now())
			mu.Unlock()
			if cbLocks {
				lock <- struct{}{}
				<-lock
			}
		}
	}
	var onShutdown func()
	if g.IntN(5) > 0 {
		onShutdown = callback(&shutdowns)
	}
	h, err := heartbeater.New(T, onShutdown, callback(&timeouts))
	if err != nil {
		r.Violation("new", nil, "New: %v", err)
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	end := time.Duration(-1)
	var cancelled time.Duration = -1
	done := make(chan struct{})
	go func() {
		h.Execute(ctx)
		mu.Lock()
		end = now()
		mu.Unlock()
		close(done)
	}()
	startAt := time.Duration(g.IntN(3)) * time.Second
	rec := func(what string, f func() bool) {
		c := call{what: what, from: now()}
		c.ok = f()
		c.to = now()
		mu.Lock()
		calls = append(calls, c)
		mu.Unlock()
	}
	var wg sync.WaitGroup
	at := func(d time.Duration, f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			f()
		}()
	}
	at(startAt, func() { rec("start", h.Start) })
	if g.IntN(4) == 0 {
		at(startAt+time.Duration(g.IntN(2))*time.Second, func() { rec("start", h.Start) })
	}
	// a client that heartbeats for a while
	if g.IntN(3) > 0 {
		step := T/2 + time.Duration(g.IntN(2))*T/4
		for i := 1; i <= g.IntN(8); i++ {
			at(startAt+time.Duration(i)*step, func() { rec("heartbeat", h.Heartbeat) })
		}
	}
	half := T / 2
	for i := g.IntN(6); i > 0; i-- {
		d := time.Duration(g.IntN(12)) * half
		if g.IntN(3) == 0 {
			d += startAt
		}
		locked := g.IntN(2) == 0
		k := g.IntN(7)
		at(d, func() {
			if locked {
				lock <- struct{}{}
				defer func() { <-lock }()
			}
			switch {
			case k < 4:
				rec("heartbeat", h.Heartbeat)
			case k < 6:
				rec("stop", h.Stop)
			default:
				mu.Lock()
				if cancelled < 0 {
					cancelled = now()
				}
				mu.Unlock()
				cancel()
			}
		})
	}
	wg.Wait()
	time.Sleep(20 * T) // past any timeout
	synctest.Wait()
	<-done
	rec("heartbeat", h.Heartbeat)
	rec("stop", h.Stop)
	rec("start", h.Start)

	mu.Lock()
	defer mu.Unlock()
	sort.SliceStable(calls, func(i, j int) bool { return calls[i].to < calls[j].to })
	var desc []string
	kinds := map[string]bool{}
	stops, starts := []call{}, []call{}
	lastHB := time.Duration(-1)
	for _, c := range calls {
		desc = append(desc, c.String())
		kinds[fmt.Sprint(c.what, c.ok)] = true
		switch {
		case c.what == "stop" && c.ok:
			stops = append(stops, c)
		case c.what == "start" && c.ok:
			starts = append(starts, c)
			if c.to > lastHB {
				lastHB = c.to
			}
		case c.what == "heartbeat" && c.ok:
			if c.to > lastHB {
				lastHB = c.to
			}
		}
	}
	state := fmt.Sprintf("timeout %v, cancelled %v, ended %v, timeouts %v, shutdowns %v, calls %s", T, cancelled, end, timeouts, shutdowns, strings.Join(desc, "; "))
	bad := func(key, f string, a ...any) {
		r.Violation(key, map[string]any{"case": n, "state": state}, "%s [%s]", fmt.Sprintf(f, a...), state)
	}
	ends := len(stops) + len(timeouts) + len(shutdowns)
	switch {
	case ends > 1:
		bad("two-ends", "the process ended %d times", ends)
	case ends == 0 && !(cancelled >= 0 && onShutdown == nil && len(starts) > 0):
		bad("no-end", "the process ended in no accepted way")
	case len(starts) > 1:
		bad("two-starts", "%d starts were accepted", len(starts))
	case len(starts) == 0 && len(timeouts)+len(shutdowns) > 0:
		bad("unstarted", "a process that was never started ran a callback")
	case len(timeouts) == 1 && timeouts[0] != lastHB+T:
		bad("timeout-time", "the timeout came at %v, but the last accepted heartbeat was at %v", timeouts[0], lastHB)
	case len(starts) == 1 && len(timeouts) == 0 && end > lastHB+T:
		bad("no-timeout", "no timeout at %v", lastHB+T)
	case len(shutdowns) == 1 && (cancelled < 0 || shutdowns[0] < cancelled):
		bad("shutdown-time", "shutdown ran at %v", shutdowns[0])
	case cancelled >= 0 && len(starts) == 1 && end > cancelled && end > starts[0].to && len(timeouts) == 0 && len(stops) == 0:
		bad("late-shutdown", "shutdown came late")
	}
	// the moment the process ended (a callback may take longer)
	over := end
	for _, x := range append(append([]time.Duration{}, timeouts...), shutdowns...) {
		over = x
	}
	for _, c := range calls {
		if c.what == "start" {
			continue
		}
		if c.from > over && c.ok {
			bad("late-accepted:"+c.what, "%v was accepted after the end", c)
		}
		if c.to < over && !c.ok {
			bad("early-refused:"+c.what, "%v was refused before the end", c)
		}
		// blocked only until the process starts, or ends
		if c.to > c.from && (len(starts) == 0 || c.to > starts[0].to) && c.to > over {
			bad("blocked:"+c.what, "%v was blocked", c)
		}
	}
	r.Eval(1)
	for k := range kinds {
		r.Stat(k, 1)
	}
	r.Stat("timeouts", len(timeouts))
	r.Stat("shutdowns", len(shutdowns))
	if len(kinds) > 4 {
		r.Distinct(state)
	}
}
