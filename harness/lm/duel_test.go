package lm

import (
	"math/rand/v2"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
)

// TestLimiterDuel lets two or three increments and decrements of one group
// meet at one instant, again and again, while a few statements are slow.
func TestLimiterDuel(t *testing.T) {
	r := vh.Start(t, "histories with two increments in flight under one limit")
	defer r.Finish()
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(60, 20000) && !r.Bad(); n++ {
		g := vh.Rand("limiterduel", n)
		r.Context("case %d", n)
		r.Guard("limiter requests", n, func() { synctest.Test(t, func(t *testing.T) { duelCase(r, g, n) }) })
	}
	vsched.Pick(0)
}

func duelCase(r *vh.R, g *rand.Rand, n int) {
	w := &cworld{r: r, g: g, n: n}
	vsched.Set(1, uint64(2+g.IntN(12)), 0)
	vsched.Pick(uint32(8 + g.IntN(60)))
	stop := w.setup()
	w.addRules()
	var pool []vh.KV
	for _, e := range w.m.rules { // counters of its group
		for i := 1 + g.IntN(2); i > 0; i-- {
			kv := counterKV(g)
			for k, v := range e.kv {
				kv[k] = v
				if v.Type == 1024 {
					kv[k] = val(g)
				}
			}
			pool = append(pool, kv)
		}
	}
	pool = append(pool, counterKV(g))
	w.faulty = g.IntN(6) == 0
	giveUps := g.IntN(4) == 0
	var mu sync.Mutex
	var held []*cop
	take := func() *cop {
		i := w.rnd(1 << 20)
		mu.Lock()
		defer mu.Unlock()
		if len(held) == 0 {
			return nil
		}
		i %= len(held)
		o := held[i]
		held = append(held[:i:i], held[i+1:]...)
		return o
	}
	back := func(o *cop, n int64) {
		if d := w.change(o.kv, -n, -1); !d.ok() {
			w.bad("R03", "decrement", "a decrement was answered %d %s", d.status, d.body)
		}
	}
	for round := 0; round < 12 && !r.Bad(); round++ {
		time.Sleep(time.Duration(1 + w.rnd(1000)))
		var wg sync.WaitGroup
		ready := make(chan struct{})
		kv := shareKV(g, pool)
		for k := 2 + w.rnd(2); k > 0; k-- {
			if w.rnd(4) == 0 {
				if o := take(); o != nil {
					wg.Go(func() { <-ready; back(o, o.n) })
					continue
				}
			}
			w.mu.Lock()
			if g.IntN(3) == 0 {
				kv = shareKV(g, pool)
			}
			mine, units := vh.Clone(kv), int64(1)
			if g.IntN(4) == 0 {
				units += int64(g.IntN(3))
			}
			giveUp := time.Duration(-1)
			if giveUps && g.IntN(3) == 0 {
				giveUp = time.Duration(g.IntN(4)) * 450 * time.Millisecond
			}
			w.mu.Unlock()
			wg.Go(func() {
				<-ready
				if o := w.change(mine, units, giveUp); o.ok() {
					mu.Lock()
					held = append(held, o)
					mu.Unlock()
				}
			})
		}
		time.Sleep(1)
		vsched.Slow(true)
		close(ready)
		wg.Wait()
		synctest.Wait()
		vsched.Slow(false)
		r.Stat("rounds", 1)
		// room for the next ones
		for k := w.rnd(4); k > 0; k-- {
			if o := take(); o != nil {
				back(o, o.n)
			}
		}
	}
	w.check()
	if !r.Bad() {
		w.heal()
	}
	stop()
	r.Eval(1)
	r.Stat("requests", int(w.net.Requests.Load()))
}
