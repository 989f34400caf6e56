package bin

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/verif/vh"
)

// rq is one request of the load.
type rq struct {
	svc, what string
	at, end   time.Duration
	done      bool
	canceled  bool
	status    int
	err       string
	body      string
}

func (q *rq) String() string {
	return fmt.Sprintf("[%v-%v] %s %s -> %d %s %s", q.at.Round(time.Millisecond), q.end.Round(time.Millisecond), q.svc, q.what, q.status, q.err, q.body)
}

type load struct {
	c    *Chain
	mu   sync.Mutex
	g    *rand.Rand
	base time.Time
	rqs  []*rq
	quit chan struct{}
	ctx  context.Context
}

func (l *load) rnd(n int) int { l.mu.Lock(); defer l.mu.Unlock(); return l.g.IntN(n) }
func (l *load) stopped() bool {
	select {
	case <-l.quit:
		return true
	default:
		return false
	}
}

func (l *load) do(ctx context.Context, p *Proc, what, method, path string, body any) (int, []byte) {
	q := &rq{svc: p.Name, what: what, at: time.Since(l.base)}
	l.mu.Lock()
	l.rqs = append(l.rqs, q)
	l.mu.Unlock()
	st, b, err := l.c.Do(ctx, method, l.c.URL(p)+path, body)
	l.mu.Lock()
	defer l.mu.Unlock()
	q.end, q.done, q.status = time.Since(l.base), true, st
	q.canceled = ctx.Err() != nil
	if err != nil {
		q.err = err.Error()
	}
	if st >= 400 {
		q.body = string(b)
	}
	return st, b
}

func kvs(k string, v int) string { return fmt.Sprintf(`{%q:{"Type":10,"Data":"%d"}}`, k, v) }

// locks takes, holds and releases locks.
func (l *load) locks() {
	for !l.stopped() {
		ctx, cancel := context.WithCancel(l.ctx)
		if l.rnd(6) == 0 {
			time.AfterFunc(time.Duration(l.rnd(200))*time.Millisecond, cancel)
		}
		st, b := l.do(ctx, l.c.Locker, "obtain", "POST", "/v1/locks", fmt.Sprintf(`{"Spec":{"DBDefinition":{"KeyValues":%s},"Properties":{"Timeout":%d}}}`, kvs("k", l.rnd(2)), 200*time.Millisecond+time.Duration(l.rnd(3000))*time.Millisecond))
		cancel()
		if st != 200 {
			time.Sleep(time.Duration(1+l.rnd(20)) * time.Millisecond)
			continue
		}
		var a struct {
			State struct{ LockID, SessionID string }
		}
		json.Unmarshal(b, &a)
		claim := map[string]string{"SessionID": a.State.SessionID}
		for i := l.rnd(3); i > 0; i-- {
			time.Sleep(time.Duration(l.rnd(60)) * time.Millisecond)
			l.do(l.ctx, l.c.Locker, "heartbeat", "POST", "/v1/locks/"+a.State.LockID+"/heartbeat", claim)
		}
		if l.rnd(4) > 0 {
			l.do(l.ctx, l.c.Locker, "release", "DELETE", "/v1/locks/"+a.State.LockID, claim)
		}
	}
}

// counters changes counters under rules.
func (l *load) counters() {
	for !l.stopped() {
		l.do(l.ctx, l.c.Limiter, "count", "PUT", "/v1/limiter/counters", fmt.Sprintf(`{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":10,"Data":"%d"},"b":{"Type":10,"Data":"1"}}},"Properties":{"Counters":%d}}}`, l.rnd(2), 1-2*l.rnd(2)))
		time.Sleep(time.Duration(l.rnd(15)) * time.Millisecond)
	}
}

func (l *load) produce() {
	for !l.stopped() {
		l.do(l.ctx, l.c.Willow, "enqueue", "POST", "/v1/queues/q/channels/items", fmt.Sprintf(`{"Spec":{"DBDefinition":{"KeyValues":%s},"Properties":{"Data":"eA==","Updateable":false,"RetryAttempts":2,"RetryPosition":"back","TimeoutDuration":%d}}}`, kvs("c", l.rnd(3)), 300*time.Millisecond+time.Duration(l.rnd(2000))*time.Millisecond))
		time.Sleep(time.Duration(l.rnd(60)) * time.Millisecond)
	}
}

func (l *load) consume() {
	for !l.stopped() {
		ctx, cancel := context.WithCancel(l.ctx)
		if l.rnd(6) == 0 {
			time.AfterFunc(time.Duration(l.rnd(200))*time.Millisecond, cancel)
		}
		st, b := l.do(ctx, l.c.Willow, "dequeue", "GET", "/v1/queues/q/channels/items", `{}`)
		cancel()
		if st != 200 {
			time.Sleep(time.Duration(1+l.rnd(20)) * time.Millisecond)
			continue
		}
		var it struct {
			Spec struct {
				DBDefinition struct{ KeyValues json.RawMessage }
			}
			State struct{ ID string }
		}
		json.Unmarshal(b, &it)
		time.Sleep(time.Duration(l.rnd(60)) * time.Millisecond)
		if l.rnd(3) == 0 {
			l.do(l.ctx, l.c.Willow, "heartbeat", "POST", "/v1/queues/q/channels/items/heartbeat", map[string]any{"ItemID": it.State.ID, "KeyValues": it.Spec.DBDefinition.KeyValues})
		}
		if l.rnd(5) > 0 {
			l.do(l.ctx, l.c.Willow, "ack", "POST", "/v1/queues/q/channels/items/ack", map[string]any{"ItemID": it.State.ID, "KeyValues": it.Spec.DBDefinition.KeyValues, "Passed": l.rnd(3) > 0})
		}
	}
}

func (l *load) manage() {
	for !l.stopped() {
		switch l.rnd(4) {
		case 0:
			l.do(l.ctx, l.c.Willow, "delete channel", "DELETE", "/v1/queues/q/channels", kvs("c", l.rnd(3)))
		case 1:
			l.do(l.ctx, l.c.Willow, "create queue", "POST", "/v1/queues", `{"Spec":{"DBDefinition":{"Name":"r"},"Properties":{"MaxItems":5}}}`)
		case 2:
			l.do(l.ctx, l.c.Willow, "delete queue", "DELETE", "/v1/queues/r", nil)
		case 3:
			l.do(l.ctx, l.c.Willow, "query channels", "GET", "/v1/queues/q/channels", `{}`)
		}
		time.Sleep(time.Duration(l.rnd(120)) * time.Millisecond)
	}
}

// TestInterrupt interrupts the real programs while they are in use.
func TestInterrupt(t *testing.T) {
	r := vh.Start(t, "interrupts of the running programs (one of them, or all in any order) with requests waiting and in progress; non-trivial when requests were in flight; distinct by case")
	defer r.Finish()
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(5, 150) && !r.Bad(); n++ {
		r.Context("case %d", n)
		interrupt(r, vh.Rand("interrupt", n), n)
	}
}

// the programs end within milliseconds; this only has to tell a hang
const hang = 60 * time.Second

func interrupt(r *vh.R, g *rand.Rand, n int) {
	c, err := StartChain(r)
	if err != nil {
		r.PV("S02", "start", err.Error(), "case %d: the services do not start: %v", n, err)
		return
	}
	defer c.Stop()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	l := &load{c: c, g: g, base: time.Now(), quit: make(chan struct{}), ctx: ctx}
	pre := func(p *Proc, method, path, body string) {
		if st, b, err := c.Do(ctx, method, c.URL(p)+path, body); err != nil || st >= 300 {
			r.Inconclusive("case %d: %s %s -> %d %s %v", n, method, path, st, b, err)
		}
	}
	pre(c.Willow, "POST", "/v1/queues", fmt.Sprintf(`{"Spec":{"DBDefinition":{"Name":"q"},"Properties":{"MaxItems":%d}}}`, []int{-1, 5, 50}[g.IntN(3)]))
	pre(c.Limiter, "POST", "/v1/limiter/rules", `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"a":{"Type":1024}}},"Properties":{"Limit":3}}}`)
	if g.IntN(2) == 0 { // hold back channels
		pre(c.Limiter, "POST", "/v1/limiter/rules", `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"c":{"Type":1024}}},"Properties":{"Limit":1}}}`)
	}
	var wg sync.WaitGroup
	for i := 1 + g.IntN(4); i > 0; i-- {
		wg.Go(l.locks)
	}
	for i := 1 + g.IntN(4); i > 0; i-- {
		wg.Go(l.counters)
	}
	for i := g.IntN(4); i > 0; i-- {
		wg.Go(l.produce)
	}
	for i := 1 + g.IntN(4); i > 0; i-- {
		wg.Go(l.consume)
	}
	wg.Go(l.manage)
	time.Sleep(350*time.Millisecond + time.Duration(l.rnd(700))*time.Millisecond)
	order := [][]*Proc{{c.Willow, c.Limiter, c.Locker}, {c.Willow, c.Limiter, c.Locker}, {c.Locker, c.Limiter, c.Willow}, {c.Limiter, c.Willow, c.Locker}, {c.Willow}, {c.Limiter}, {c.Locker}}[l.rnd(7)]
	together := len(order) > 1 && l.rnd(3) == 0
	// a dependency that went away for good is refused, not waited for
	signaled := map[string]time.Duration{}
	bad := func(key, f string, a ...any) {
		l.mu.Lock()
		var h []string
		for _, q := range l.rqs {
			if !q.done || q.end > time.Since(l.base)-2*time.Second {
				h = append(h, q.String())
			}
		}
		l.mu.Unlock()
		if len(h) > 200 {
			h = h[len(h)-200:]
		}
		d := map[string]any{"requests": h}
		for _, p := range order {
			d[p.Name] = p.Tail()
		}
		r.PV("S02", key, d, fmt.Sprintf("case %d: ", n)+f, a...)
	}
	inflight := func(p *Proc) (k int) {
		l.mu.Lock()
		defer l.mu.Unlock()
		for _, q := range l.rqs {
			if !q.done && q.svc == p.Name {
				k++
			}
		}
		return
	}
	total := 0
	signal := func(p *Proc) {
		total += inflight(p)
		l.mu.Lock()
		signaled[p.Name] = time.Since(l.base)
		l.mu.Unlock()
		p.Signal(syscall.SIGINT)
	}
	check := func(p *Proc) {
		ok, code := p.Wait(hang)
		if !ok {
			p.Signal(syscall.SIGQUIT)
			time.Sleep(500 * time.Millisecond)
			r.PV("S02", "hangs:"+p.Name, p.Output(), "case %d: %s still runs %v after the interrupt", n, p.Name, hang)
			return
		}
		if code != 0 {
			bad("exit-code:"+p.Name, "%s ended with exit code %d after an interrupt", p.Name, code)
		}
		r.Max("longest shutdown of "+p.Name+" (ms)", int((time.Since(l.base)-signaled[p.Name])/time.Millisecond))
		if conn, err := net.DialTimeout("tcp", "127.0.0.1:"+p.Port, time.Second); err == nil {
			conn.Close()
			bad("still-serving:"+p.Name, "%s still accepts connections after it ended", p.Name)
		}
		r.Stat("interrupts of "+p.Name, 1)
	}
	if together {
		for _, p := range order {
			signal(p)
		}
		for _, p := range order {
			check(p)
		}
	} else {
		for _, p := range order {
			signal(p)
			check(p)
		}
	}
	if total > 0 {
		r.Distinct(fmt.Sprint(n))
	}
	r.Stat("requests in flight at an interrupt", total)
	close(l.quit)
	// what the other services wait for ends with their clients
	time.AfterFunc(300*time.Millisecond, cancel)
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(hang):
		r.Inconclusive("case %d: the load does not end", n)
		return
	}
	for _, q := range l.rqs {
		at, was := signaled[q.svc]
		if !was || q.canceled {
			continue
		}
		if q.at < at-300*time.Millisecond && q.end > at {
			r.Stat("waiting requests answered at an interrupt", 1)
			if q.err != "" {
				bad("dropped:"+q.svc+":"+q.what, "a request that %s was serving when it was interrupted at %v got no answer: %v", q.svc, at.Round(time.Millisecond), q)
			}
			if (q.what == "obtain" || q.what == "dequeue") && q.status != 200 && q.status != http.StatusServiceUnavailable && q.status != 409 && q.err == "" {
				bad("answer:"+q.svc+":"+q.what, "a request waiting at the interrupt at %v is not told to retry: %v", at.Round(time.Millisecond), q)
			}
		}
	}
	r.Eval(1)
	for _, p := range []*Proc{c.Willow, c.Limiter, c.Locker} {
		if ok, _ := p.Exited(); ok && signaled[p.Name] == 0 {
			r.PV("S02", "died:"+p.Name, p.Tail(), "case %d: %s ended although it was not interrupted", n, p.Name)
		}
	}
}

// TestInterruptStart interrupts programs that still wait for the service they
// depend on.
func TestInterruptStart(t *testing.T) {
	r := vh.Start(t, "interrupts of programs that wait for their dependency; distinct by program and moment")
	defer r.Finish()
	g := vh.Rand("interruptstart", vh.Shard())
	for i := 0; i < vh.N(2, 40) && !r.Bad(); i++ {
		for _, name := range []string{"limiter", "willow"} {
			r.Context("case %d %s", i, name)
			dep := map[string]string{"limiter": "-locker-url", "willow": "-limiter-url"}[name]
			p := Start(name, nil, "-insecure-http", "-port", FreePort(), dep, "http://127.0.0.1:"+FreePort())
			wait := time.Duration(100+g.IntN(400)) * time.Millisecond
			// only once it waits
			for end := time.Now().Add(20 * time.Second); p.Output() == "" && time.Now().Before(end); {
				time.Sleep(10 * time.Millisecond)
			}
			time.Sleep(wait)
			p.Signal(syscall.SIGINT)
			t0 := time.Now()
			if ok, _ := p.Wait(25 * time.Second); !ok {
				p.Kill()
				r.PV("S02", "start-hangs:"+name, p.Tail(), "%s waits for a service that is not there and still runs %v after the interrupt", name, time.Since(t0))
			}
			p.Kill()
			r.Eval(1)
			r.Distinct(fmt.Sprint(name, wait))
		}
	}
}
