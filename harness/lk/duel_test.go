package lk

import (
	"math/rand/v2"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"context"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
)

// TestLockerDuel lets two or three requests for one lock meet at one instant
// in a small chosen state, again and again, while a few statements of the
// locker are slow.
func TestLockerDuel(t *testing.T) {
	r := vh.Start(t, "histories with at least two grants of one lock")
	defer r.Finish()
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(250, 60000) && !r.Bad(); n++ {
		g := vh.Rand("lockerduel", n)
		r.Context("case %d", n)
		r.Guard("locker requests", n, func() { synctest.Test(t, func(t *testing.T) { duel(r, g, n) }) })
	}
	vsched.Pick(0)
}

// live returns the grants that hold their lock now.
func (w *world) live() []*op {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []*op
	for _, o := range w.ops {
		if o.what == "obtain" && o.session != "" && !o.noAnswer && w.now() < w.until(o) {
			out = append(out, o)
		}
	}
	return out
}

// until says when a grant ends unless it is heartbeated (w.mu held).
func (w *world) until(o *op) time.Duration {
	last := o.ret
	for _, c := range w.ops {
		if c.session == o.session && c.done && c.status/100 == 2 {
			if c.what == "release" {
				return 0
			}
			if c.what == "heartbeat" {
				last = max(last, c.ret)
			}
		}
	}
	return last + o.timeout
}

func (w *world) waiting() []*op {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []*op
	for _, o := range w.ops {
		if o.what == "obtain" && !o.done && o.cancel < 0 {
			out = append(out, o)
		}
	}
	return out
}

func duel(r *vh.R, g *rand.Rand, n int) {
	w := &world{r: r, g: g, base: time.Now(), net: svc.NewNet(r), kvs: map[string]vh.KV{}, defTime: 4 * tick, odd: g.IntN(3) == 0}
	w.net.Fault = svc.WriteFaults(failKey{})
	vsched.Set(1, uint64(2+g.IntN(12)), 0)
	vsched.Pick(uint32(8 + g.IntN(60)))
	stop := w.net.Locker("locker", w.defTime)
	fam := families[g.IntN(len(families))]
	for _, kv := range fam[:1+g.IntN(len(fam))] {
		w.kvs[vh.KVS(kv)] = kv
		w.names = append(w.names, vh.KVS(kv))
	}
	synctest.Wait()
	var all sync.WaitGroup
	run := func(f func()) {
		all.Add(1)
		go func() { defer all.Done(); f() }()
	}
	obtain := func() {
		name := w.names[0]
		if w.rnd(4) == 0 {
			name = w.names[w.rnd(len(w.names))]
		}
		var timeout *time.Duration
		if w.rnd(2) == 0 {
			timeout = vh.Ptr(time.Duration(2+w.rnd(4)) * tick)
			if w.odd {
				*timeout += time.Duration(w.rnd(int(tick)))
			}
		}
		w.obtain(name, timeout, -1, w.rnd(15) == 0)
	}
	pick := func(os []*op) *op {
		if len(os) == 0 {
			return nil
		}
		return os[w.rnd(len(os))]
	}
	for round := 0; round < 15; round++ {
		time.Sleep(tick - w.now()%tick + time.Duration(w.rnd(1000)))
		// the state: nobody, a holder, a holder and others that wait
		for k := w.rnd(4); k > 0 && len(w.waiting()) < 4; k-- {
			run(obtain)
			if w.rnd(2) == 0 {
				time.Sleep(1)
			}
		}
		time.Sleep(time.Duration(1 + w.rnd(int(tick)/2)))
		synctest.Wait()
		if w.rnd(3) == 0 {
			w.snapshot()
			time.Sleep(1)
		}
		hs, ws := w.live(), w.waiting()
		at := w.now() + 1
		if h := pick(hs); h != nil && w.rnd(3) == 0 {
			// when it expires, or just before
			w.mu.Lock()
			at = w.until(h) - []time.Duration{0, 0, 1}[w.g.IntN(3)]
			w.mu.Unlock()
		}
		ready := make(chan struct{})
		vsched.Slow(true)
		for k := 2 + w.rnd(2); k > 0; k-- {
			switch x := w.rnd(12); {
			case x < 4:
				run(func() { <-ready; obtain() })
			case x < 7:
				if h := pick(hs); h != nil {
					run(func() { <-ready; w.claim("release", h.id, h.session) })
				}
			case x < 9:
				if h := pick(hs); h != nil {
					run(func() { <-ready; w.claim("heartbeat", h.id, h.session) })
				}
			case x < 11:
				if o := pick(ws); o != nil {
					run(func() { <-ready; o.leave() })
				}
			default:
				id, session := w.other()
				what := []string{"heartbeat", "release"}[w.rnd(2)]
				run(func() { <-ready; w.claim(what, id, session) })
			}
		}
		time.Sleep(at - w.now())
		close(ready)
		time.Sleep(time.Millisecond)
		vsched.Slow(false)
		r.Stat("rounds", 1)
		synctest.Wait()
		if w.rnd(3) == 0 {
			w.snapshot()
			time.Sleep(1)
		}
		for _, h := range w.live() {
			if w.rnd(2) == 0 {
				w.claim("release", h.id, h.session)
			}
		}
		for _, o := range w.waiting() {
			if w.rnd(3) == 0 {
				o.leave()
			}
		}
	}
	fin := make(chan struct{})
	go func() { all.Wait(); close(fin) }()
	limit := time.NewTimer(1000 * tick)
	select {
	case <-fin:
		limit.Stop()
	case <-limit.C:
		r.PV("L01,L02,L03,L04", "stuck", w.history(), "requests are still unanswered after %v: the locker is stuck", w.now())
		return // synctest reports the goroutines left
	}
	time.Sleep(10 * tick)
	if final := w.net.Do(context.Background(), "GET", "http://locker/v1/locks", []byte(`{}`)); final.Text() != "200 []" {
		r.PV("L03,L05", "left-over", w.history(), "locks are left at %v when nobody holds or waits for one: %s", w.now(), final.Text())
	}
	stop()
	w.check(n)
}
