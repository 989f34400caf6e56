package kc

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net/http"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	"github.com/DanLavine/willow/pkg/clients"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// TestLockDuel lets two or three calls for one lock meet at one instant, again
// and again, while a few statements of the client are slow.
func TestLockDuel(t *testing.T) {
	r := vh.Start(t, "rounds of lock client calls that meet")
	defer r.Finish()
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(150, 40000) && !r.Bad(); n++ {
		g := vh.Rand("lockduel", n)
		r.Context("case %d", n)
		r.Guard("lock client", n, func() { synctest.Test(t, func(t *testing.T) { duelCase(r, g, n) }) })
	}
	vsched.Pick(0)
}

func duelCase(r *vh.R, g *rand.Rand, n int) {
	w := &kworld{r: r, g: g, base: time.Now(), net: svc.NewNet(r), kvs: map[string]vh.KV{}, byLock: map[lockerclient.Lock]*held{}, failrun: map[string]int{}, deny: map[string]bool{}}
	w.mode = "duel"
	w.closing = true // no faults by chance
	http.DefaultTransport = w
	vsched.Set(1, uint64(2+g.IntN(12)), 0)
	vsched.Pick(uint32(8 + g.IntN(60)))
	const T = 9 * tick
	stop := w.net.Locker("locker", T)
	kv := vh.KV{"a": datatypes.Int(1)}
	kvn := vh.KVS(kv)
	w.kvs[kvn] = kv
	cs := map[string]*lockerclient.LockClient{}
	for _, name := range []string{"c0", "c1"} {
		c, err := lockerclient.NewLockClient(&clients.Config{URL: "http://" + name})
		if err != nil {
			r.Inconclusive("no client: %v", err)
			stop()
			return
		}
		cs[name] = c
	}
	var all sync.WaitGroup
	run := func(f func()) {
		all.Add(1)
		go func() { defer all.Done(); f() }()
	}
	var mu sync.Mutex
	var leave []func()
	obtain := func(name string) {
		ctx, cancel := context.WithCancel(context.Background())
		cl := w.begin(name, kvn)
		req := w.request(kv)
		req.Spec.Properties = nil
		out := func() {
			w.mu.Lock()
			if !cl.done && cl.cancel < 0 {
				cl.cancel = w.now()
			}
			w.mu.Unlock()
			cancel()
		}
		mu.Lock()
		leave = append(leave, out)
		mu.Unlock()
		w.obtain(ctx, cl, cs[name], req)
	}
	live := func() []*held {
		w.mu.Lock()
		defer w.mu.Unlock()
		var out []*held
		for _, h := range w.helds {
			if h.doneAt < 0 {
				out = append(out, h)
			}
		}
		return out
	}
	off := func(i int) { time.Sleep(tick - w.now()%tick + time.Duration(i)) }
	for round := 0; round < 12; round++ {
		off(1)
		// the state: nobody, a holder, a holder and others that wait
		who := []string{"c0", "c1"}
		if w.rnd(3) > 0 {
			who = []string{"c0", "c0", "c1"}
		}
		for k := w.rnd(4); k > 0; k-- {
			name := who[w.rnd(len(who))]
			run(func() { obtain(name) })
			if w.rnd(2) == 0 {
				time.Sleep(1)
			}
		}
		time.Sleep(time.Duration(1+w.rnd(5)) * tick / 2)
		hs := live()
		vsched.Slow(true)
		start := time.After(10 * time.Microsecond)
		if len(hs) > 0 && w.rnd(3) == 0 {
			// it is lost at a heartbeat, which is when the others come
			h := hs[w.rnd(len(hs))]
			w.mu.Lock()
			w.deny[h.session.session] = true
			at := h.session.end
			w.mu.Unlock()
			for at <= w.now() {
				at += T * 3 / 10
			}
			start = time.After(at - w.now())
		}
		ready := make(chan struct{})
		for k := 2 + w.rnd(2); k > 0; k-- {
			switch x := w.rnd(10); {
			case x < 3:
				name := who[w.rnd(len(who))]
				run(func() { <-ready; obtain(name) })
			case x < 6 && len(hs) > 0:
				h := hs[w.rnd(len(hs))]
				run(func() { <-ready; w.release(h.client, h) })
			case x < 8 && len(hs) > 0:
				// as soon as it is lost, another try
				h := hs[w.rnd(len(hs))]
				run(func() {
					select {
					case <-h.lock.Done():
					case <-time.After(2 * tick):
						return
					}
					obtain(h.client)
				})
			default:
				i := w.rnd(1 << 20)
				mu.Lock()
				var f func()
				if len(leave) > 0 {
					f = leave[i%len(leave)]
				}
				mu.Unlock()
				if f != nil {
					run(func() { <-ready; f() })
				}
			}
		}
		<-start
		close(ready)
		time.Sleep(tick)
		vsched.Slow(false)
		r.Stat("rounds", 1)
		for _, h := range live() {
			if w.rnd(2) == 0 {
				run(func() { w.release(h.client, h) })
			}
		}
		if w.rnd(2) == 0 {
			mu.Lock()
			for _, f := range leave {
				f()
			}
			leave = nil
			mu.Unlock()
		}
	}
	off(1)
	mu.Lock()
	for _, f := range leave {
		f()
	}
	mu.Unlock()
	fin := make(chan struct{})
	go func() { all.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(100 * T):
		r.PV("K01", "caller-hangs", w.history(), "case %d (%s): calls of the lock client still block although every request was canceled", n, w.mode)
	}
	for _, h := range live() {
		w.release(h.client, h)
	}
	time.Sleep(3 * T)
	w.check(n)
	stop()
	r.Eval(1)
	r.Distinct(fmt.Sprint(n))
	r.Stat("locks obtained", len(w.helds))
	r.Stat("requests sent", len(w.sents))
}
