package wl

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// counting is a limiter that counts what it is told and never refuses.
type counting struct {
	mu   sync.Mutex
	kv   map[string]vh.KV
	n    map[string]int64
	real cl
}

func (l *counting) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	l.mu.Lock()
	defer l.mu.Unlock()
	body, _ := io.ReadAll(req.Body)
	rw.Header().Set("Content-Type", "application/json")
	switch {
	case strings.HasSuffix(req.URL.Path, "/counters/query"):
		out := []any{}
		for k, n := range l.n {
			out = append(out, map[string]any{"Spec": map[string]any{"DBDefinition": map[string]any{"KeyValues": l.kv[k]}, "Properties": map[string]any{"Counters": n}}, "State": map[string]any{}})
		}
		json.NewEncoder(rw).Encode(out)
	case strings.Contains(req.URL.Path, "/counters"):
		var c v1limiter.Counter
		if err := json.Unmarshal(body, &c); err != nil {
			rw.WriteHeader(400)
			return
		}
		kv := vh.KV(c.Spec.DBDefinition.KeyValues)
		k := vh.KVS(kv)
		if strings.HasSuffix(req.URL.Path, "/set") {
			l.n[k] = 0
		}
		l.kv[k] = kv
		if l.n[k] += *c.Spec.Properties.Counters; l.n[k] <= 0 {
			delete(l.n, k)
		}
	default: // the rest is the real one's business
		res := l.real.net.Do(req.Context(), req.Method, "http://reallimiter"+req.URL.Path, body)
		rw.WriteHeader(res.Status)
		rw.Write(res.Body)
	}
}

// TestWillowRace lets a handful of requests meet at one instant again and
// again; the limiter is a stand-in that allows everything, to have many rounds.
func TestWillowRace(t *testing.T) {
	r := vh.Start(t, "histories of requests that meet at the same instants")
	defer r.Finish()
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(100, 6000) && !r.Bad(); n++ {
		g := vh.Rand("willowrace", n)
		r.Context("case %d", n)
		r.Guard("willow requests", n, func() { synctest.Test(t, func(t *testing.T) { raceCase(r, g, n) }) })
	}
}

func raceWorld(r *vh.R, g *rand.Rand, n int) (*cworld, func()) {
	w := &cworld{r: r, g: g, n: n, base: time.Now(), max: map[string]int64{"a": -1, "b": -1}, lat: 1, calm: true}
	vsched.Set(1, uint64(2+g.IntN(12)), 0)
	net := svc.NewNet(r)
	net.Dial()
	w.c = cl{net}
	stopLocker := net.Locker("locker", 5*time.Second)
	stopLimiter := net.Limiter("reallimiter", "http://locker")
	net.Handle("limiter", &counting{kv: map[string]vh.KV{}, n: map[string]int64{}, real: w.c})
	stopWillow, _ := net.Willow("willow", "http://limiter")
	return w, func() {
		stopWillow()
		synctest.Wait()
		stopLimiter()
		synctest.Wait()
		stopLocker()
		synctest.Wait()
	}
}

func raceCase(r *vh.R, g *rand.Rand, n int) {
	w, done := raceWorld(r, g, n)
	defer done()
	w.mode.deletes = n%3 == 1
	w.mode.upd = n%3 == 2
	queues := []string{"a", "b"}[:1+g.IntN(2)]
	// more consumers than items, or the other way round
	fresh, most, enq := g.IntN(3) > 0, 1+g.IntN(4), 3+g.IntN(6)
	for i := 2 + g.IntN(3); i > 0; i-- {
		w.pool = append(w.pool, channelKV(g))
	}
	for _, q := range queues {
		w.create(q)
	}

	const step = 100 * time.Millisecond
	var all sync.WaitGroup
	var mu sync.Mutex
	var held []*ev
	waiting := 0
	ctx, cancel := context.WithCancel(bg)
	for round := 0; round < 60; round++ {
		time.Sleep(step - w.now()%step)
		for k := 1 + w.rnd(5); k > 0; k-- {
			q := queues[w.rnd(len(queues))]
			kv := w.pool[w.rnd(len(w.pool))]
			run := func(f func()) {
				all.Add(1)
				go func() { defer all.Done(); f() }()
			}
			switch x := w.rnd(20); {
			case x < enq:
				data := w.nextData()
				w.mu.Lock()
				if fresh && g.IntN(2) == 0 { // a channel that does not exist yet
					kv = vh.KV{"a": datatypes.Int(100*round + k)}
					w.pool[g.IntN(len(w.pool))] = kv
				}
				p := genProps(g, data)
				w.mu.Unlock()
				p.upd = p.upd && w.mode.upd
				run(func() { w.enqueue(q, kv, p) })
			case x < 14:
				mu.Lock()
				ok := waiting < most
				if ok {
					waiting++
				}
				mu.Unlock()
				if !ok {
					continue
				}
				query := w.query()
				if w.rnd(2) == 0 {
					query = &qa.AssociatedActionQuery{}
				}
				dctx, leave := context.WithCancel(ctx)
				d := time.Duration(1+w.rnd(2*most)) * step
				if most > 1 && w.rnd(3) == 0 {
					d = 30 * step
				}
				if w.rnd(20) == 0 {
					dctx = context.WithValue(dctx, brokenKey{}, true)
				}
				tm := time.AfterFunc(d, leave)
				run(func() {
					e := w.dequeue(dctx, q, query)
					tm.Stop()
					leave()
					mu.Lock()
					defer mu.Unlock()
					waiting--
					if e.got != nil && !e.lost {
						held = append(held, e)
					}
				})
			case x < 19 && (x < 18 || w.mode.deletes):
				mu.Lock()
				var e *ev
				if len(held) > 0 {
					i := w.rnd(len(held))
					e = held[i]
					if w.rnd(4) > 0 {
						held = append(held[:i:i], held[i+1:]...)
					}
				}
				mu.Unlock()
				if e == nil {
					continue
				}
				y := w.rnd(5)
				run(func() {
					if y == 0 {
						w.beat(e.queue, e.got.id, e.got.kv)
						return
					}
					w.ack(e.queue, e.got.id, e.got.kv, y < 4)
				})
			case w.mode.deletes:
				if w.rnd(3) > 0 {
					run(func() {
						w.do(bg, &ev{kind: "delchan", queue: q, kv: kv}, "DELETE", "/"+q+"/channels", datatypes.KeyValues(kv))
					})
					continue
				}
				again := w.rnd(2) == 0
				run(func() {
					if again {
						w.create(q)
						return
					}
					w.do(bg, &ev{kind: "delqueue", queue: q}, "DELETE", "/"+q, nil)
					time.Sleep(step - w.now()%step)
					w.create(q)
				})
			}
		}
	}
	for _, q := range queues {
		w.create(q)
	}
	left := w.drainAll(ctx, queues)
	cancel()
	all.Wait()
	synctest.Wait()
	w.check(queues, left)
}

// TestWillowDuel brings a queue into one of a few states and lets two or three
// requests meet there, many times over, each time with other statements slow.
func TestWillowDuel(t *testing.T) {
	r := vh.Start(t, "histories of requests that meet in the same state")
	defer r.Finish()
	defer vsched.Pick(60)
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(80, 10000) && !r.Bad(); n++ {
		g := vh.Rand("willowduel", n)
		r.Context("case %d", n)
		r.Guard("willow requests", n, func() { synctest.Test(t, func(t *testing.T) { duelCase(r, g, n) }) })
	}
}

func duelCase(r *vh.R, g *rand.Rand, n int) {
	w, done := raceWorld(r, g, n)
	defer done()
	w.create("a")
	const gap = time.Second
	states := []string{"", "w", "h", "hw", "c", "hc", "ww", "hh", "cc"}
	state := states[g.IntN(len(states))]
	var ops []string
	can := []string{"enqueue", "enqueue", "other", "dequeue", "dequeue", "delchan", "delqueue"}
	if strings.Contains(state, "h") {
		can = append(can, "pass", "pass", "fail", "fail", "beat", "expire")
	}
	// what the property at hand is about
	switch os.Getenv("VH_PROP") {
	case "W05":
		can = append(can[:5], "other", "dequeue")
		if strings.Contains(state, "h") {
			can = append(can, "pass", "fail")
		}
	case "W07":
		can = append(can, "delchan", "delqueue")
	case "W06":
		if !strings.Contains(state, "h") {
			state += "h"
		}
		can = append(can, "pass", "fail", "beat", "pass", "fail", "beat", "expire")
	}
	if strings.Contains(state, "c") {
		can = append(can, "leave", "leave", "leave")
	}
	for k := 2 + g.IntN(2); k > 0; k-- {
		ops = append(ops, can[g.IntN(len(can))])
	}
	constant := g.IntN(3) == 0
	for _, op := range ops {
		w.mode.deletes = w.mode.deletes || op[:3] == "del"
	}
	w.mode.upd = g.IntN(3) == 0
	w.note("state %q, meeting: %v", state, ops)
	r.Distinct(fmt.Sprint(state, ops))

	for round := 0; round < 40; round++ {
		if round%10 == 0 {
			vsched.Pick(60)
		}
		time.Sleep(gap - w.now()%gap)
		kv := vh.KV{"a": datatypes.Int(round)}
		if constant {
			kv = vh.KV{"a": datatypes.Int(0)}
		}
		put := func(kv vh.KV) {
			data := w.nextData()
			w.mu.Lock()
			p := genProps(g, data)
			p.upd = p.upd && w.mode.upd
			p.timeout = gap // expires when they meet
			if g.IntN(4) == 0 {
				p.timeout = 2*gap + gap/2
			}
			w.mu.Unlock()
			w.enqueue("a", kv, p)
		}
		var all sync.WaitGroup
		var mu sync.Mutex
		var held []*ev
		ctx, cancel := context.WithCancel(bg)
		consumer := func(ctx context.Context) {
			q := &qa.AssociatedActionQuery{}
			if w.rnd(3) == 0 {
				q = exactly(kv)
			}
			all.Add(1)
			go func() {
				defer all.Done()
				e := w.dequeue(ctx, "a", q)
				if e.got != nil && !e.lost {
					mu.Lock()
					held = append(held, e)
					mu.Unlock()
				}
			}()
			synctest.Wait()
		}
		wctx, leave := context.WithCancel(ctx)
		for _, s := range state {
			switch s {
			case 'w':
				put(kv)
			case 'h':
				put(kv)
				consumer(ctx)
			case 'c':
				consumer(wctx)
			}
		}
		was := append([]*ev(nil), held...)
		time.Sleep(gap - w.now()%gap)
		vsched.Slow(true)
		for _, op := range ops {
			all.Add(1)
			lag := 0
			if w.rnd(2) == 0 {
				lag = w.rnd(300)
			}
			some := func() *ev {
				if len(was) == 0 {
					return nil
				}
				return was[w.rnd(len(was))]
			}()
			go func() {
				defer all.Done()
				for ; lag > 0; lag-- {
					runtime.Gosched()
				}
				switch op {
				case "enqueue":
					put(kv)
				case "other":
					put(vh.KV{"a": datatypes.Int(1000 + round)})
				case "dequeue":
					e := w.dequeue(ctx, "a", &qa.AssociatedActionQuery{})
					if e.got != nil && !e.lost {
						mu.Lock()
						held = append(held, e)
						mu.Unlock()
					}
				case "delchan":
					w.do(bg, &ev{kind: "delchan", queue: "a", kv: kv}, "DELETE", "/a/channels", datatypes.KeyValues(kv))
				case "delqueue":
					w.do(bg, &ev{kind: "delqueue", queue: "a"}, "DELETE", "/a", nil)
				case "leave":
					leave()
				case "beat":
					if some != nil {
						w.beat("a", some.got.id, some.got.kv)
					}
				case "pass", "fail":
					if some != nil {
						w.ack("a", some.got.id, some.got.kv, op == "pass")
					}
				}
			}()
		}
		synctest.Wait()
		vsched.Slow(false)
		time.Sleep(gap / 5)
		cancel()
		leave()
		all.Wait()
		w.create("a")
		for _, e := range held {
			w.ack("a", e.got.id, e.got.kv, true)
		}
		// what is left
		for i := 0; i < 20; i++ {
			dctx, stop := context.WithTimeout(bg, time.Millisecond)
			e := w.dequeue(dctx, "a", &qa.AssociatedActionQuery{})
			stop()
			if e.got == nil {
				break
			}
			if !e.lost {
				w.ack("a", e.got.id, e.got.kv, true)
			}
		}
	}
	stuck := w.drainAll(bg, []string{"a"})
	synctest.Wait()
	w.check([]string{"a"}, stuck)
}
