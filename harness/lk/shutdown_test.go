package lk

import (
	"context"
	"math/rand/v2"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
)

// TestLockerShutdown interrupts a locker at any moment of random histories:
// every request, waiting or yet to come, must be answered at once.
func TestLockerShutdown(t *testing.T) {
	r := vh.Start(t, "shutdowns with requests waiting")
	defer r.Finish()
	vsched.Set(1, 4, 0)
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(1500, 60000) && !r.Bad(); n++ {
		g := vh.Rand("lockershutdown", n)
		r.Context("case %d", n)
		r.Guard("requests of a locker that shuts down", n, func() { synctest.Test(t, func(t *testing.T) { shutdown(r, g, n) }) })
	}
}

func shutdown(r *vh.R, g *rand.Rand, n int) {
	w := &world{r: r, g: g, base: time.Now(), net: svc.NewNet(r), kvs: map[string]vh.KV{}, defTime: time.Duration(1+g.IntN(6)) * tick}
	w.net.Fault = svc.WriteFaults(failKey{})
	stop := w.net.Locker("locker", w.defTime)
	for _, kv := range families[g.IntN(len(families))] {
		w.kvs[vh.KVS(kv)] = kv
		w.names = append(w.names, vh.KVS(kv))
	}
	synctest.Wait()
	at := time.Duration(g.IntN(12)) * tick
	if g.IntN(3) == 0 {
		at += tick / 2
	}
	var wg sync.WaitGroup
	stopped := make(chan struct{})
	wg.Go(func() {
		time.Sleep(at)
		r.Stat("requests in flight at shutdown", int(w.net.InFlight.Load()))
		if w.net.InFlight.Load() > 0 {
			r.Distinct(vh.JSON(n))
		}
		stop()
		close(stopped)
	})
	for i := 2 + g.IntN(4); i > 0; i-- {
		wg.Go(func() {
			for j := 0; j < 8 && w.now() <= at+2*tick; j++ {
				w.holder(1)
			}
		})
	}
	for i := g.IntN(3); i > 0; i-- {
		wg.Go(func() {
			for w.now() <= at+tick {
				w.intruder(1)
				w.net.Do(context.Background(), "GET", "http://locker/v1/locks", []byte("{}"))
				time.Sleep(tick)
			}
		})
	}
	time.Sleep(at + tick/4)
	select {
	case <-stopped:
	case <-time.After(tick):
		r.PV("S02", "locker-runs-on", w.history(), "case %d: the locker still runs %v after it was told to stop", n, w.now()-at)
		return
	}
	synctest.Wait()
	w.mu.Lock()
	for _, o := range w.ops {
		if o.call <= at && (!o.done || o.ret > at && o.cancel < 0) {
			w.mu.Unlock()
			r.PV("S02", "unanswered:"+o.what, w.history(), "case %d: a request made before the shutdown at %v is not answered at %v: %v", n, at, w.now(), o)
			return
		}
	}
	w.mu.Unlock()
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(100 * tick):
		r.PV("S02", "unanswered-later", w.history(), "case %d: requests made after the shutdown at %v are not answered", n, at)
		return
	}
	for _, o := range w.ops {
		if o.call > at && o.ret != o.call && o.cancel < 0 {
			r.PV("S02", "slow-after:"+o.what, w.history(), "case %d: a request after the shutdown at %v took %v: %v", n, at, o.ret-o.call, o)
		}
		if o.what == "obtain" && o.done && o.cancel < 0 && !o.noAnswer && o.status != 200 && o.status != 503 {
			r.PV("S02", "shutdown-answer", w.history(), "case %d: an obtain was answered with %s at shutdown, not with 503: %v", n, o.body, o)
		}
		if o.status == 503 {
			r.Stat("told to retry", 1)
		}
	}
	r.Eval(1)
}
