package lm

import (
	"context"
	"encoding/json"
	"math/rand/v2"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// TestLimiterShutdown interrupts a limiter while increments wait for locks
// others hold: all of them must be answered at once and give back what they took.
func TestLimiterShutdown(t *testing.T) {
	r := vh.Start(t, "a limiter told to stop while 2-6 clients increment counters under limits and someone else holds some of the locks the increments need; every request must be answered at once, with nothing but success, a refusal or 503, and no lock may stay with the limiter; non-trivial when requests were in flight at that moment; distinct by case")
	defer r.Finish()
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(500, 40000) && !r.Bad(); n++ {
		g := vh.Rand("limitershutdown", n)
		vsched.Set(1, uint64(3+g.IntN(8)), 0)
		r.Context("case %d", n)
		r.Guard("requests of a limiter that shuts down", n, func() { synctest.Test(t, func(t *testing.T) { lmshutdown(r, g, n) }) })
	}
}

func lmshutdown(r *vh.R, g *rand.Rand, n int) {
	w := &cworld{r: r, g: g, n: n}
	w.net = svc.NewNet(r)
	w.net.Dial()
	w.base = time.Now()
	w.net.Fault = w.fault
	stopLocker := w.net.Locker("locker", 5*time.Second)
	stopLimiter := w.net.Limiter("limiter", "http://locker")
	w.c = cl{net: w.net}
	w.m = &model{rules: map[string]*entry{}, counters: map[string]*counter{}}
	w.healthy, w.noDrop = true, true
	defer func() { stopLocker(); synctest.Wait() }()
	w.addRules()
	var pool []vh.KV
	for i := 2 + g.IntN(3); i > 0; i-- {
		pool = append(pool, counterKV(g))
	}
	for _, e := range w.m.rules {
		kv := counterKV(g)
		for k, v := range e.kv {
			kv[k] = v
			if v.Type == datatypes.T_any {
				kv[k] = val(g)
			}
		}
		pool = append(pool, kv)
	}
	// someone holds some of the locks
	long := time.Hour
	held := 0
	taken := map[string]bool{}
	for i := g.IntN(3); i > 0; i-- {
		kv := pool[g.IntN(len(pool))]
		ks := datatypes.KeyValues(kv).SortedKeys()
		k := ks[g.IntN(len(ks))]
		one := vh.KV{k: kv[k]}
		if taken[vh.KVS(one)] {
			continue
		}
		taken[vh.KVS(one)] = true
		held++
		b, _ := json.Marshal(&v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: datatypes.KeyValues(one)}, Properties: &v1locker.LockProperties{Timeout: &long}}})
		if res := w.net.Do(context.Background(), "POST", "http://locker/v1/locks", b); !res.OK() {
			w.bad("S02", "hold", "taking a lock: %s", res.Text())
			return
		}
		w.notes = append(w.notes, "held by someone else: "+vh.KVS(one))
	}
	at := time.Duration(g.IntN(40)) * 100 * time.Millisecond
	var wg sync.WaitGroup
	wg.Go(func() {
		time.Sleep(at)
		if k := w.net.InFlight.Load(); k > 0 {
			r.Distinct(vh.JSON(n))
			r.Stat("requests in flight at shutdown", int(k))
		}
		stopLimiter()
	})
	left := func() bool { return time.Since(w.base) > at }
	for i := 2 + g.IntN(5); i > 0; i-- {
		wg.Go(func() {
			for j := 0; j < 8; j++ {
				time.Sleep(time.Duration(w.rnd(8)) * 100 * time.Millisecond)
				if left() {
					return
				}
				w.mu.Lock()
				kv, k := shareKV(w.g, pool), int64(1+w.g.IntN(2))
				if w.g.IntN(4) == 0 {
					k = -k
				}
				w.mu.Unlock()
				w.change(kv, k, -1)
			}
		})
	}
	time.Sleep(at + time.Millisecond)
	synctest.Wait()
	w.mu.Lock()
	for _, o := range w.ops {
		if !o.done {
			w.mu.Unlock()
			w.bad("S02", "unanswered", "the limiter was told to stop at %v, but this request is not answered: %v", at, o)
			return
		}
	}
	w.mu.Unlock()
	for _, o := range w.ops {
		switch {
		case o.status == 503:
			r.Stat("told to retry", 1)
			if o.at+o.took < at {
				w.bad("S02", "early-503", "a request was told that the limiter stops before it was told to, at %v: %v", at, o)
			}
		case o.status != 200 && o.status != 409:
			w.bad("S02", "shutdown-answer", "an increment was answered %d %s when the limiter stopped at %v: %v", o.status, o.body, at, o)
		}
	}
	wg.Wait()
	// a lock granted at the very moment its request is given up ends by itself
	time.Sleep(3 * time.Second)
	synctest.Wait()
	res := w.net.Do(context.Background(), "GET", "http://locker/v1/locks", []byte("{}"))
	var locks v1locker.Locks
	if json.Unmarshal(res.Body, &locks) != nil || len(locks) != held {
		w.bad("S02,R05", "locks-kept", "after the limiter stopped at %v only the %d locks of someone else may remain: %s", at, held, res.Text())
	}
	r.Eval(1)
}
