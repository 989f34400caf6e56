package wl

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net/http"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// TestWillowShutdown interrupts a willow at any moment of random histories:
// requests in progress and those still waiting for an item must all be
// answered at once, and the service must come to its end.
func TestWillowShutdown(t *testing.T) {
	r := vh.Start(t, "a willow told to stop at a random moment (also exactly when leases end) of histories of 2-5 producers, 1-5 waiting consumers, items processing, channels held back by limits, deletions of channels and queues; every request made before must be answered with nothing but virtual time standing still, waiting ones with 503, and the service must end; non-trivial when requests were in flight at that moment; distinct by case")
	defer r.Finish()
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(1200, 60000) && !r.Bad(); n++ {
		g := vh.Rand("willowshutdown", n)
		vsched.Set(1, uint64(3+g.IntN(8)), 0)
		r.Context("case %d", n)
		r.Guard("requests of a willow that shuts down", n, func() { synctest.Test(t, func(t *testing.T) { wlshutdown(r, g, n) }) })
	}
}

func wlshutdown(r *vh.R, g *rand.Rand, n int) {
	net := svc.NewNet(r)
	net.Dial()
	w := &cworld{r: r, g: g, n: n, base: time.Now(), c: cl{net}, max: map[string]int64{}, lat: 1 + g.IntN(6)}
	net.Fault = w.fault
	stopLocker := net.Locker("locker", 10*time.Second)
	stopLimiter := net.Limiter("limiter", "http://locker")
	stop, _ := net.Willow("willow", "http://limiter")
	defer func() {
		net.Fault = nil
		stopLimiter()
		stopLocker()
	}()
	for len(w.pool) < 1+g.IntN(4) {
		w.pool = append(w.pool, channelKV(g))
	}
	queues := []string{"q0", "q1"}[:1+g.IntN(2)]
	for _, q := range queues {
		w.do(bg, &ev{kind: "mkqueue", queue: q, max: -1}, http.MethodPost, "", queueBody(q, -1))
	}
	if g.IntN(3) == 0 { // nothing, or little, may run
		kv := vh.KV{"_willow_running": datatypes.String("true")}
		lim := int64(g.IntN(3))
		if res := w.c.limiter("POST", "rules", &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.KeyValues(kv)}, Properties: &v1limiter.RuleProperties{Limit: &lim}}}); res.Status != 201 {
			w.bad("S02", "rule", "creating a limit: %s", res.Text())
			return
		}
	}
	synctest.Wait()
	start := w.now()
	at := start + time.Duration(g.IntN(8))*time.Second
	if g.IntN(3) == 0 {
		at += time.Duration(g.IntN(1e9))
	}
	left := func() bool { return w.now() > at }
	nap := func() {
		d := time.Duration(w.rnd(3)) * time.Second
		if w.rnd(3) == 0 {
			d += time.Duration(w.rnd(1e9))
		}
		time.Sleep(d)
	}
	p := func(i int) props {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.data++
		pr := genProps(w.g, fmt.Sprint(w.data))
		pr.timeout = pr.timeout.Truncate(time.Second)
		return pr
	}
	var wg sync.WaitGroup
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	stopped := make(chan struct{})
	wg.Go(func() {
		time.Sleep(at - start)
		k := int(net.InFlight.Load())
		r.Stat("requests in flight at shutdown", k)
		if k > 0 {
			r.Distinct(fmt.Sprint(n))
		}
		stop()
		close(stopped)
	})
	for i := 1 + g.IntN(4); i > 0; i-- {
		wg.Go(func() {
			for j := 0; j < 12; j++ {
				nap()
				if left() {
					return
				}
				w.enqueue(queues[w.rnd(len(queues))], w.pool[w.rnd(len(w.pool))], p(j))
			}
		})
	}
	for i := 1 + g.IntN(5); i > 0; i-- {
		wg.Go(func() {
			for j := 0; j < 12; j++ {
				nap()
				if left() {
					return
				}
				q := queues[w.rnd(len(queues))]
				w.mu.Lock()
				sel := genQuery(w.g, w.pool)
				w.mu.Unlock()
				e := w.dequeue(ctx, q, sel)
				if e.got == nil || e.lost {
					continue
				}
				for k := w.rnd(3); k > 0; k-- {
					time.Sleep(e.got.p.timeout / 2)
					if left() {
						return
					}
					w.beat(q, e.got.id, e.got.kv)
				}
				switch w.rnd(3) {
				case 0: // leaves it to the end of the lease
				case 1:
					time.Sleep(e.got.p.timeout)
					fallthrough
				default:
					if left() {
						return
					}
					w.ack(q, e.got.id, e.got.kv, w.rnd(2) == 0)
				}
			}
		})
	}
	if g.IntN(2) == 0 {
		wg.Go(func() {
			for j := 0; j < 6; j++ {
				nap()
				if left() {
					return
				}
				q := queues[w.rnd(len(queues))]
				switch w.rnd(3) {
				case 0:
					w.do(bg, &ev{kind: "delqueue", queue: q}, http.MethodDelete, "/"+q, nil)
					if !left() {
						w.do(bg, &ev{kind: "mkqueue", queue: q, max: -1}, http.MethodPost, "", queueBody(q, -1))
					}
				default:
					kv := w.pool[w.rnd(len(w.pool))]
					w.do(bg, &ev{kind: "delchan", queue: q, kv: kv}, http.MethodDelete, "/"+q+"/channels", datatypes.TypedKeyValues(kv))
				}
			}
		})
	}
	time.Sleep(at - start + time.Millisecond)
	synctest.Wait()
	select {
	case <-stopped:
	default:
		w.bad("S02", "willow-runs-on", "told to stop at %v, the service still runs at %v", at, w.now())
		return
	}
	w.mu.Lock()
	var open *ev
	for _, e := range w.evs {
		if !e.done {
			open = e
		}
	}
	w.mu.Unlock()
	if open != nil {
		w.bad("S02", "unanswered:"+open.kind, "the service stopped at %v, but this request is not answered at %v: %v", at, w.now(), open)
		return
	}
	told := 0
	for _, e := range w.evs {
		if e.kind == "dequeue" && e.end >= at && e.status == 503 {
			told++
		}
		if e.kind == "dequeue" && e.at < at && e.end >= at && e.status != 503 && e.status != 200 && e.status != 409 {
			w.bad("S02", "shutdown-answer", "a request waiting at the shutdown at %v was not told to retry: %v", at, e)
		}
		if e.end >= at && e.status >= 500 && e.status != 503 {
			w.bad("S02", "shutdown-error", "a request was answered with an error at the shutdown at %v: %v", at, e)
		}
	}
	r.Stat("dequeues told to retry", told)
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(time.Minute):
		w.bad("S02", "unanswered-later", "requests made after the shutdown at %v are not answered", at)
		return
	}
	r.Eval(1)
}
