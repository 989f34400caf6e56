package bin

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// TestRestart stops one service under load (an interrupt, or a crash) and
// starts it again at the same address.
func TestRestart(t *testing.T) {
	r := vh.Start(t, "restarts of one service under load while the others keep running; distinct by case")
	defer r.Finish()
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(3, 120) && !r.Bad(); n++ {
		r.Context("case %d", n)
		g := vh.Rand("restart", n)
		w := &restart{r: r, g: g, n: n, base: time.Now()}
		which := (vh.Shard() + n) % 3
		if n%16 == 15 || !vh.Thorough() && vh.Shard()%6 == 5 && n%4 == 2 {
			which = 3
		}
		[]func(){w.locker, w.limiter, w.willow, w.order}[which]()
		r.Eval(1)
		r.Distinct(fmt.Sprint(n))
	}
}

type restart struct {
	r    *vh.R
	g    *rand.Rand
	n    int
	base time.Time
	ch   *Chain
	mu   sync.Mutex
	log  []string
}

func (w *restart) note(f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.log) < 3000 {
		w.log = append(w.log, fmt.Sprintf("%v ", time.Since(w.base).Round(time.Millisecond))+fmt.Sprintf(f, a...))
	}
}

func (w *restart) bad(key, f string, a ...any) {
	d := map[string]any{}
	w.mu.Lock()
	l := w.log
	if len(l) > 150 {
		l = l[len(l)-150:]
	}
	d["log"] = append([]string(nil), l...)
	w.mu.Unlock()
	for _, p := range []*Proc{w.ch.Locker, w.ch.Limiter, w.ch.Willow} {
		if p != nil {
			d[p.Name] = p.Tail()
		}
	}
	w.r.PV("E02,C01", key, d, fmt.Sprintf("case %d: ", w.n)+f, a...)
}

// start brings up the chain.
func (w *restart) start() bool {
	var err error
	if w.ch, err = StartChain(w.r); err != nil {
		w.r.PV("E02", "start", err.Error(), "case %d: the services do not start: %v", w.n, err)
		return false
	}
	return true
}

// limit for one request: none waits for anything but a short outage
const answerIn = 45 * time.Second

// do sends one request that is answered in bounded time.
func (w *restart) do(p *Proc, method, path string, body any) (int, []byte) {
	ctx, cancel := context.WithTimeout(context.Background(), answerIn)
	defer cancel()
	from := time.Now()
	st, b, err := w.ch.Do(ctx, method, w.ch.URL(p)+path, body)
	w.note("%s %s %s %s -> %d %.80s %v (%v)", p.Name, method, path, body, st, b, err, time.Since(from).Round(time.Millisecond))
	if ctx.Err() != nil {
		w.bad("no-answer:"+p.Name+":"+strings.SplitN(path, "?", 2)[0], "%s %s at the %s is not answered within %v", method, path, p.Name, answerIn)
	}
	if err != nil {
		return 0, []byte(err.Error())
	}
	return st, b
}

// again stops p and starts it again after a while. The others keep running.
func (w *restart) again(p **Proc, between time.Duration, start func(port string) *Proc) bool {
	old := *p
	if w.g.IntN(2) == 0 {
		w.note("%s is killed", old.Name)
		old.Kill()
	} else {
		w.note("%s is interrupted", old.Name)
		old.Signal(syscall.SIGINT)
		if ok, _ := old.Wait(hang); !ok {
			w.bad("hangs:"+old.Name, "%s still runs %v after the interrupt", old.Name, hang)
			return false
		}
	}
	w.panicked(old)
	w.ch.tr.CloseIdleConnections()
	time.Sleep(between)
	w.note("%s is started again", old.Name)
	now := start(old.Port)
	now.Port = old.Port
	w.mu.Lock()
	*p = now
	w.mu.Unlock()
	if err := now.Ready(w.ch.Client, w.ch.URL(now), hang); err != nil {
		w.bad("not-ready:"+now.Name, "%s does not get ready when it is started again: %v", now.Name, err)
		return false
	}
	w.note("%s is ready again", old.Name)
	w.r.Stat("restarts of the "+old.Name, 1)
	return true
}

func (w *restart) panicked(p *Proc) {
	if i := strings.Index(p.Output(), "panic"); i >= 0 {
		o := p.Output()[i:]
		w.r.PV("E02", "panic:"+vh.PanicSite(o), p.Tail(), "case %d: %s panicked: %.1500s", w.n, p.Name, o)
	}
}

// alive checks that nothing ended that should run.
func (w *restart) alive() {
	for _, p := range []*Proc{w.ch.Locker, w.ch.Limiter, w.ch.Willow} {
		if p == nil {
			continue
		}
		if ok, code := p.Exited(); ok {
			w.bad("ended:"+p.Name, "%s ended with code %d though only another service was restarted", p.Name, code)
		}
		w.panicked(p)
	}
}

func (w *restart) client() *limiterclient.LimitClient {
	c, err := limiterclient.NewLimiterClient(&clients.Config{URL: w.ch.URL(w.ch.Limiter)})
	if err != nil {
		panic(err)
	}
	return c
}

func having(key string, v datatypes.EncapsulatedValue) *qa.AssociatedActionQuery {
	return &qa.AssociatedActionQuery{Selection: &qa.Selection{KeyValues: qa.SelectionKeyValues{key: {Value: v, Comparison: v1common.Equals,
		TypeRestrictions: v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}}}}}
}

// counted is the sum of the counters with a key-value.
func (w *restart) counted(key string, v datatypes.EncapsulatedValue) (sum int64, cs v1limiter.Counters, ok bool) {
	cs, err := w.client().QueryCounters(context.Background(), having(key, v))
	if err != nil {
		w.bad("query-counters", "the counters cannot be queried: %v", err)
		return 0, nil, false
	}
	for _, c := range cs {
		sum += *c.Spec.Properties.Counters
	}
	return sum, cs, true
}

func counter(x, i, d int) string {
	return fmt.Sprintf(`{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":10,"Data":"%d"},"w":{"Type":10,"Data":"%d"}}},"Properties":{"Counters":%d}}}`, x, i, d)
}

// locker: the Limiter (and Willow) work through a restart of the Locker.
func (w *restart) locker() {
	w.ch = &Chain{}
	if !w.start() {
		return
	}
	defer w.ch.Stop()
	limit := 2 + w.g.IntN(4)
	if st, b := w.do(w.ch.Limiter, "POST", "/v1/limiter/rules", fmt.Sprintf(`{"Spec":{"DBDefinition":{"GroupByKeyValues":{"a":{"Type":1024}}},"Properties":{"Limit":%d}}}`, limit)); st != 201 {
		w.bad("setup", "creating a rule: %d %s", st, b)
		return
	}
	const groups = 2
	var net [groups]atomic.Int64
	var refused, failed, counted atomic.Int64
	quit := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < 3+w.g.IntN(6); i++ {
		g := vh.Rand("restartlocker", w.n*16+i)
		wg.Go(func() {
			have := [groups]int{}
			for {
				select {
				case <-quit:
					return
				default:
				}
				x, d := g.IntN(groups), 1
				if have[x] > 0 && g.IntN(2) == 0 {
					d = -1
				}
				st, b := w.do(w.ch.Limiter, "PUT", "/v1/limiter/counters", counter(x, i, d))
				switch {
				case st >= 200 && st < 300:
					have[x] += d
					net[x].Add(int64(d))
					counted.Add(1)
				case st == 409:
					refused.Add(1)
				case st >= 500:
					failed.Add(1)
				default:
					w.bad("count", "changing a counter is answered %d %s", st, b)
				}
				time.Sleep(time.Duration(g.IntN(4000)) * time.Microsecond)
			}
		})
	}
	// an item that waits for Willow's use of the Limiter
	w.do(w.ch.Willow, "POST", "/v1/queues", `{"Spec":{"DBDefinition":{"Name":"q"},"Properties":{"MaxItems":5}}}`)
	stale, b := w.do(w.ch.Locker, "POST", "/v1/locks", `{"Spec":{"DBDefinition":{"KeyValues":{"mine":{"Type":13,"Data":"x"}}},"Properties":{"Timeout":60000000000}}}`)
	var mine struct {
		State struct{ LockID, SessionID string }
	}
	json.Unmarshal(b, &mine)
	time.Sleep(time.Duration(50+w.g.IntN(300)) * time.Millisecond)
	ok := w.again(&w.ch.Locker, time.Duration(w.g.IntN(1200))*time.Millisecond, func(port string) *Proc {
		return Start("locker", nil, "-insecure-http", "-port", port)
	})
	// increments work again
	end := time.Now().Add(30 * time.Second)
	for ok {
		st, b := w.do(w.ch.Limiter, "PUT", "/v1/limiter/counters", counter(9, 0, 1))
		if st >= 200 && st < 300 {
			break
		}
		if time.Now().After(end) {
			w.bad("no-increment", "30s after the Locker is back an increment is still answered %d %s", st, b)
			ok = false
		}
		time.Sleep(20 * time.Millisecond)
	}
	time.Sleep(time.Duration(w.g.IntN(200)) * time.Millisecond)
	close(quit)
	wg.Wait()
	if !ok || w.r.Bad() {
		return
	}
	w.r.Stat("increments that failed in the outage", int(failed.Load()))
	w.r.Stat("changes of counters", int(counted.Load()))
	for x := 0; x < groups; x++ {
		is, cs, ok := w.counted("a", datatypes.Int(x))
		if !ok {
			return
		}
		if is != net[x].Load() {
			w.bad("counted", "the changes answered with success add up to %d, the counters of group %d to %d: %s", net[x].Load(), x, is, vh.JSON(cs))
		}
		// exactly what is left of the limit is granted
		var granted atomic.Int64
		var fill sync.WaitGroup
		for i := 0; i < limit+3; i++ {
			fill.Go(func() {
				st, b := w.do(w.ch.Limiter, "PUT", "/v1/limiter/counters", counter(x, 100+i, 1))
				if st >= 200 && st < 300 {
					granted.Add(1)
				} else if st != 409 {
					w.bad("count", "an increment after the restart is answered %d %s", st, b)
				}
			})
		}
		fill.Wait()
		if want := max(0, int64(limit)-is); granted.Load() != want && !w.r.Bad() {
			w.bad("limit", "group %d has %d of %d, and %d more are granted", x, is, limit, granted.Load())
		}
	}
	// the lock of the time before is gone, and can be taken
	if stale == 200 {
		if st, _ := w.do(w.ch.Locker, "POST", "/v1/locks/"+mine.State.LockID+"/heartbeat", map[string]string{"SessionID": mine.State.SessionID}); st != 404 {
			w.bad("old-lock", "a heartbeat for a lock of the Locker's previous run is answered %d", st)
		}
		if st, b := w.do(w.ch.Locker, "POST", "/v1/locks", `{"Spec":{"DBDefinition":{"KeyValues":{"mine":{"Type":13,"Data":"x"}}},"Properties":{"Timeout":60000000000}}}`); st != 200 {
			w.bad("old-lock", "a lock held in the Locker's previous run cannot be taken: %d %s", st, b)
		} else {
			json.Unmarshal(b, &mine)
			w.do(w.ch.Locker, "DELETE", "/v1/locks/"+mine.State.LockID, map[string]string{"SessionID": mine.State.SessionID})
		}
	}
	end = time.Now().Add(30 * time.Second)
	for {
		st, b := w.do(w.ch.Locker, "GET", "/v1/locks", `{}`)
		var locks []any
		if st == 200 && json.Unmarshal(b, &locks) == nil && len(locks) == 0 {
			break
		}
		if time.Now().After(end) {
			w.bad("locks-left", "30s after all requests ended locks are still held: %d %s", st, b)
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	w.alive()
	w.roundTrip("q", "after")
}

func enqueueBody(kv, data string, retries int, timeout time.Duration) string {
	return fmt.Sprintf(`{"Spec":{"DBDefinition":{"KeyValues":%s},"Properties":{"Data":%q,"Updateable":false,"RetryAttempts":%d,"RetryPosition":"back","TimeoutDuration":%d}}}`, kv, base64.StdEncoding.EncodeToString([]byte(data)), retries, timeout)
}

type got struct {
	Spec struct {
		DBDefinition struct{ KeyValues json.RawMessage }
		Properties   struct{ Data []byte }
	}
	State struct{ ID string }
}

// take dequeues an item; false when none came in time.
func (w *restart) take(queue string, d time.Duration) (it got, ok bool) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	st, b, err := w.ch.Do(ctx, "GET", w.ch.URL(w.ch.Willow)+"/v1/queues/"+queue+"/channels/items", `{}`)
	w.note("dequeue -> %d %.200s %v", st, b, err)
	if err != nil || st != 200 {
		return it, false
	}
	if err := json.Unmarshal(b, &it); err != nil || it.State.ID == "" {
		w.bad("dequeue", "a dequeued item is %s (%v)", b, err)
		return it, false
	}
	return it, true
}

func (w *restart) ack(queue string, it got, passed bool) int {
	st, _ := w.do(w.ch.Willow, "POST", "/v1/queues/"+queue+"/channels/items/ack", map[string]any{"ItemID": it.State.ID, "KeyValues": it.Spec.DBDefinition.KeyValues, "Passed": passed})
	return st
}

// roundTrip sends one item through a queue.
func (w *restart) roundTrip(queue, data string) {
	if w.r.Bad() {
		return
	}
	if st, b := w.do(w.ch.Willow, "POST", "/v1/queues/"+queue+"/channels/items", enqueueBody(kvs("rt", 1), data, 3, 20*time.Second)); st != 201 {
		w.bad("round-trip", "enqueueing %s is answered %d %s", data, st, b)
		return
	}
	it, ok := w.take(queue, 30*time.Second)
	if !ok || string(it.Spec.Properties.Data) != data {
		w.bad("round-trip", "item %s is not delivered (%v %q)", data, ok, it.Spec.Properties.Data)
		return
	}
	if st := w.ack(queue, it, true); st != 200 {
		w.bad("round-trip", "acknowledging %s is answered %d", data, st)
	}
}

// limiter: Willow keeps its items through a restart of the Limiter.
func (w *restart) limiter() {
	w.ch = &Chain{}
	if !w.start() {
		return
	}
	defer w.ch.Stop()
	if st, b := w.do(w.ch.Willow, "POST", "/v1/queues", `{"Spec":{"DBDefinition":{"Name":"q"},"Properties":{"MaxItems":-1}}}`); st != 201 {
		w.bad("setup", "creating a queue: %d %s", st, b)
		return
	}
	type state struct {
		accepted, delivered, passed bool
	}
	var mu sync.Mutex
	items := map[string]*state{}
	produce, consume := make(chan struct{}), make(chan struct{})
	open := func(c chan struct{}) bool {
		select {
		case <-c:
			return false
		default:
			return true
		}
	}
	var producers, consumers sync.WaitGroup
	for i := 0; i < 2+w.g.IntN(2); i++ {
		g := vh.Rand("restartproduce", w.n*16+i)
		producers.Go(func() {
			for k := 0; open(produce); k++ {
				data := fmt.Sprintf("%d-%d", i, k)
				mu.Lock()
				s := &state{}
				items[data] = s
				mu.Unlock()
				st, b := w.do(w.ch.Willow, "POST", "/v1/queues/q/channels/items", enqueueBody(kvs("c", g.IntN(3)), data, 1000, 2*time.Second))
				mu.Lock()
				s.accepted = st == 201
				mu.Unlock()
				if st == 0 || st == 404 || st == 400 {
					w.bad("enqueue", "enqueueing onto an unlimited queue is answered %d %s", st, b)
				}
				if st != 201 {
					// while the Limiter is away items are refused, with any error
					w.r.Stat("enqueues refused in the outage", 1)
				}
				time.Sleep(time.Duration(1+g.IntN(30)) * time.Millisecond)
			}
		})
	}
	for i := 0; i < 2+w.g.IntN(4); i++ {
		g := vh.Rand("restartconsume", w.n*16+i)
		consumers.Go(func() {
			for open(consume) {
				it, ok := w.take("q", time.Duration(300+g.IntN(5000))*time.Millisecond)
				if !ok {
					time.Sleep(10 * time.Millisecond)
					continue
				}
				data := string(it.Spec.Properties.Data)
				mu.Lock()
				s := items[data]
				switch {
				case s == nil:
					w.bad("unknown-item", "dequeued an item that was never enqueued: %q", data)
				case s.passed:
					w.bad("delivered-again", "item %q is delivered after it was acknowledged", data)
				default:
					s.delivered = true
				}
				mu.Unlock()
				if s == nil {
					return
				}
				time.Sleep(time.Duration(g.IntN(40)) * time.Millisecond)
				if pass := g.IntN(4) > 0; w.ack("q", it, pass) == 200 && pass {
					mu.Lock()
					s.passed = true
					mu.Unlock()
				}
			}
		})
	}
	time.Sleep(time.Duration(50+w.g.IntN(400)) * time.Millisecond)
	ok := w.again(&w.ch.Limiter, time.Duration(w.g.IntN(2500))*time.Millisecond, func(port string) *Proc {
		return Start("limiter", nil, "-insecure-http", "-port", port, "-locker-url", w.ch.URL(w.ch.Locker))
	})
	time.Sleep(time.Duration(w.g.IntN(300)) * time.Millisecond)
	close(produce)
	producers.Wait()
	end := time.Now().Add(60 * time.Second)
	for ok && !w.r.Bad() {
		var left []string
		mu.Lock()
		for d, s := range items {
			if s.accepted && !s.passed {
				left = append(left, fmt.Sprintf("%s delivered %v", d, s.delivered))
			}
		}
		mu.Unlock()
		st, b := w.do(w.ch.Willow, "GET", "/v1/queues/q/channels", `{}`)
		var channels []any
		if st == 200 && json.Unmarshal(b, &channels) == nil && len(channels) == 0 {
			// nothing is waiting and nothing is being processed, so all that was accepted was delivered
			for d, s := range items {
				mu.Lock()
				if s.accepted && !s.delivered {
					w.bad("lost", "item %q was accepted and is gone without ever being delivered", d)
				}
				mu.Unlock()
			}
			break
		}
		if time.Now().After(end) {
			w.bad("stuck", "60s after the Limiter is back the channels are %d %s, items are left: %v", st, b, left)
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	close(consume)
	consumers.Wait()
	w.r.Stat("items through a restart of the limiter", len(items))
	if !ok || w.r.Bad() {
		return
	}
	w.alive()
	w.roundTrip("q", "after")
}

// willow: a new Willow works with the Limiter the previous one used.
func (w *restart) willow() {
	w.ch = &Chain{}
	if !w.start() {
		return
	}
	defer w.ch.Stop()
	limit := 1 + w.g.IntN(3)
	if st, b := w.do(w.ch.Limiter, "POST", "/v1/limiter/rules", fmt.Sprintf(`{"Spec":{"DBDefinition":{"GroupByKeyValues":{"c":{"Type":1024}}},"Properties":{"Limit":%d}}}`, limit)); st != 201 {
		w.bad("setup", "creating a rule: %d %s", st, b)
		return
	}
	times := 1 + w.g.IntN(3)
	for k := 0; k < times && !w.r.Bad(); k++ {
		max := 3 + w.g.IntN(6)
		w.fresh(fmt.Sprint(k), max, limit)
		if w.r.Bad() {
			return
		}
		// load, with consumers waiting
		quit := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			g := vh.Rand("restartwillow", (w.n*4+k)*16+i)
			wg.Go(func() {
				for j := 0; ; j++ {
					select {
					case <-quit:
						return
					default:
					}
					// errors are fine: the service goes away
					ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
					if g.IntN(2) == 0 {
						w.ch.Do(ctx, "POST", w.ch.URL(w.proc())+"/v1/queues/q/channels/items", enqueueBody(kvs("c", g.IntN(3)), "old", 2, 3*time.Second))
					} else if st, b, err := w.ch.Do(ctx, "GET", w.ch.URL(w.proc())+"/v1/queues/q/channels/items", `{}`); err == nil && st == 200 && g.IntN(2) == 0 {
						var it got
						json.Unmarshal(b, &it)
						w.ch.Do(ctx, "POST", w.ch.URL(w.proc())+"/v1/queues/q/channels/items/ack", map[string]any{"ItemID": it.State.ID, "KeyValues": it.Spec.DBDefinition.KeyValues, "Passed": true})
					}
					cancel()
					time.Sleep(time.Duration(1+g.IntN(10)) * time.Millisecond)
				}
			})
		}
		time.Sleep(time.Duration(50+w.g.IntN(300)) * time.Millisecond)
		// the clients of the old service stop with it: what they sent must not mix with the new one's work
		time.AfterFunc(time.Duration(w.g.IntN(20))*time.Millisecond, func() { close(quit) })
		ok := w.again(&w.ch.Willow, time.Duration(w.g.IntN(600))*time.Millisecond, func(port string) *Proc {
			wg.Wait()
			return Start("willow", nil, "-insecure-http", "-port", port, "-limiter-url", w.ch.URL(w.ch.Limiter))
		})
		if !ok {
			return
		}
		var queues []any
		if st, b := w.do(w.ch.Willow, "GET", "/v1/queues", nil); st != 200 || json.Unmarshal(b, &queues) != nil || len(queues) != 0 {
			w.bad("queues", "a Willow that was just started lists the queues %d %s", st, b)
		}
		// whoever watches over the services clears what the previous run counted
		_, cs, ok := w.counted("_willow_queue_name", datatypes.Any())
		if !ok {
			return
		}
		w.r.Stat("counters cleared after a restart of willow", len(cs))
		for _, c := range cs {
			zero := int64(0)
			if err := w.client().SetCounters(context.Background(), &v1limiter.Counter{Spec: &v1limiter.CounterSpec{DBDefinition: c.Spec.DBDefinition, Properties: &v1limiter.CounteProperties{Counters: &zero}}}); err != nil {
				w.bad("set-counters", "clearing counters after a restart: %v", err)
			}
		}
		if sum, cs, ok := w.counted("_willow_queue_name", datatypes.Any()); ok && (sum != 0 || len(cs) != 0) {
			w.bad("set-counters", "counters that were set to zero remain: %s", vh.JSON(cs))
		}
	}
	w.fresh("end", 3+w.g.IntN(6), limit)
	w.alive()
}

func (w *restart) proc() *Proc { w.mu.Lock(); defer w.mu.Unlock(); return w.ch.Willow }

// fresh creates the queue and checks both limits from an empty state.
func (w *restart) fresh(tag string, max, limit int) {
	if w.r.Bad() {
		return
	}
	if st, b := w.do(w.ch.Willow, "POST", "/v1/queues", fmt.Sprintf(`{"Spec":{"DBDefinition":{"Name":"q"},"Properties":{"MaxItems":%d}}}`, max)); st != 201 {
		w.bad("create", "creating the queue (%s) is answered %d %s", tag, st, b)
		return
	}
	for i := 0; i <= max; i++ {
		st, b := w.do(w.ch.Willow, "POST", "/v1/queues/q/channels/items", enqueueBody(kvs("c", 7), fmt.Sprint(tag, "/", i), 2, 60*time.Second))
		if i < max && st != 201 {
			w.bad("capacity", "item %d of a queue with %d places (%s) is answered %d %s", i+1, max, tag, st, b)
			return
		}
		if i == max && st != 409 {
			w.bad("capacity", "item %d of a queue with %d places (%s) is answered %d %s", i+1, max, tag, st, b)
			return
		}
	}
	// one channel gives out at most limit items, in order
	next := 0
	for next < max && !w.r.Bad() {
		var held []got
		batch := 1 // one by one, after the first ones
		if next == 0 {
			batch = limit
		}
		for len(held) < batch && next < max {
			it, ok := w.take("q", 30*time.Second)
			if !ok || string(it.Spec.Properties.Data) != fmt.Sprint(tag, "/", next) {
				w.bad("order", "item %d (%s) is not delivered next: %v %q", next, tag, ok, it.Spec.Properties.Data)
				return
			}
			held = append(held, it)
			next++
		}
		if next < max && next == limit {
			if it, ok := w.take("q", 100*time.Millisecond); ok {
				w.bad("running-limit", "with %d items running, the rule's limit, another is delivered (%s): %q", limit, tag, it.Spec.Properties.Data)
				return
			}
		}
		for _, it := range held {
			if st := w.ack("q", it, true); st != 200 {
				w.bad("ack", "acknowledging an item (%s) is answered %d", tag, st)
				return
			}
		}
	}
	end := time.Now().Add(30 * time.Second)
	for {
		_, cs, ok := w.counted("_willow_queue_name", datatypes.Any())
		if !ok || len(cs) == 0 {
			break
		}
		if time.Now().After(end) {
			w.bad("counters-left", "all items are acknowledged (%s), counters remain: %s", tag, vh.JSON(cs))
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// order: the services are started in any order.
func (w *restart) order() {
	w.ch = &Chain{tr: &http.Transport{MaxIdleConnsPerHost: 64}}
	w.ch.Client = &http.Client{Transport: w.ch.tr}
	defer w.ch.Stop()
	lp, mp, wp := FreePort(), FreePort(), FreePort()
	for _, i := range w.g.Perm(3) {
		switch i {
		case 0:
			w.ch.Locker = Start("locker", nil, "-insecure-http", "-port", lp)
			w.ch.Locker.Port = lp
		case 1:
			w.ch.Limiter = Start("limiter", nil, "-insecure-http", "-port", mp, "-locker-url", "http://127.0.0.1:"+lp)
			w.ch.Limiter.Port = mp
		case 2:
			w.ch.Willow = Start("willow", nil, "-insecure-http", "-port", wp, "-limiter-url", "http://127.0.0.1:"+mp)
			w.ch.Willow.Port = wp
		}
		time.Sleep(time.Duration(w.g.IntN(1500)) * time.Millisecond)
	}
	for _, p := range []*Proc{w.ch.Locker, w.ch.Limiter, w.ch.Willow} {
		if err := p.Ready(w.ch.Client, w.ch.URL(p), 90*time.Second); err != nil {
			w.bad("not-ready:"+p.Name, "%s does not get ready: %v", p.Name, err)
			return
		}
	}
	if st, b := w.do(w.ch.Willow, "POST", "/v1/queues", `{"Spec":{"DBDefinition":{"Name":"q"},"Properties":{"MaxItems":5}}}`); st != 201 {
		w.bad("create", "creating a queue is answered %d %s", st, b)
		return
	}
	w.roundTrip("q", "first")
	w.alive()
	w.r.Stat("starts in any order", 1)
}
