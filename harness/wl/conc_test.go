package wl

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/http"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// ev is one request of the history. call and ret order the events, at and end
// are virtual times. wseq and wat say when the service began its answer.
type ev struct {
	kind      string // enqueue dequeue pass fail beat delchan delqueue mkqueue
	queue     string
	kv        vh.KV
	p         props
	id        string
	q         *qa.AssociatedActionQuery
	max       int64
	call, ret int64
	at, end   time.Duration
	wseq      int64
	wat       time.Duration
	status    int
	text      string
	gone      bool // the caller had left, or the answer could not be written
	done      bool
	got       *delivered // what a dequeue delivered, or tried to
	lost      bool       // and its answer never arrived
}

func (e *ev) String() string {
	s := fmt.Sprintf("[%d %d %d] %v..%v %s %s", e.call, e.wseq, e.ret, e.at, e.end, e.kind, e.queue)
	if e.kv != nil {
		s += " " + vh.KVS(e.kv)
	}
	if e.kind == "enqueue" {
		s += " " + e.p.String()
	}
	if e.id != "" {
		s += " " + e.id[:8]
	}
	if e.q != nil {
		s += " " + vh.JSON(e.q)
	}
	s += fmt.Sprintf(" -> %d", e.status)
	if e.got != nil {
		s += fmt.Sprintf(" %s of %s %s", e.got.id[:8], vh.KVS(e.got.kv), e.got.p)
	} else if e.status >= 400 {
		s += " " + strings.TrimSpace(e.text)
	}
	if e.gone {
		s += " (caller left)"
	}
	return s
}

type cmode struct {
	deletes bool // channels and queues are deleted
	faults  bool // the limiter is unreachable at times
	limits  bool // user limits on what runs
	upd     bool // updateable items
}

type cworld struct {
	r     *vh.R
	g     *rand.Rand
	n     int
	mu    sync.Mutex
	base  time.Time
	c     cl
	evs   []*ev
	notes []string
	mode  cmode
	rules []*limit
	max   map[string]int64
	pool  []vh.KV
	data  int
	calm  bool // no more faults
	lat   int  // one request in lat to the limiter is delayed
	grid  time.Duration
}

func (w *cworld) rnd(n int) int { w.mu.Lock(); defer w.mu.Unlock(); return w.g.IntN(n) }

func (w *cworld) now() time.Duration { return time.Since(w.base) }

func (w *cworld) note(f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.notes = append(w.notes, fmt.Sprintf("%v: ", w.now())+fmt.Sprintf(f, a...))
}

func (w *cworld) history() []string {
	out := append([]string(nil), w.notes...)
	evs := append([]*ev(nil), w.evs...)
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].call < evs[j].call })
	for _, e := range evs {
		out = append(out, e.String())
	}
	return out
}

func (w *cworld) bad(props, key, f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.r.PV(props, key, w.history(), "case %d: %s", w.n, fmt.Sprintf(f, a...))
}

// do makes the request of an event; what the service did is taken from its side.
func (w *cworld) do(ctx context.Context, e *ev, method, path string, body any) *ev {
	ctx, tr := svc.WithTrace(ctx)
	w.mu.Lock()
	e.call, e.at = vh.Tick(), w.now()
	w.evs = append(w.evs, e)
	w.mu.Unlock()
	res := w.c.willow(ctx, method, path, body)
	<-tr.Done
	w.mu.Lock()
	defer w.mu.Unlock()
	e.ret, e.end, e.done = vh.Tick(), w.now(), true
	e.status, e.text, e.wseq, e.wat = tr.Status, string(tr.Body), tr.WriteSeq, tr.WriteAt.Sub(w.base)
	if tr.Status == 0 {
		e.wseq, e.wat = e.ret, e.end
	}
	e.gone = tr.Gone || tr.WriteErr || res.Err != nil
	if e.kind == "dequeue" && tr.Status == 200 {
		b := tr.Body
		if tr.WriteErr {
			b = tr.Attempt
		}
		if d, err := parseItem(b); err == nil {
			e.got, e.lost = d, e.gone
		} else if !e.gone {
			w.notes = append(w.notes, fmt.Sprintf("bad item %q: %v", b, err))
		}
	}
	w.r.Step()
	return e
}

func (w *cworld) enqueue(queue string, kv vh.KV, p props) *ev {
	return w.do(bg, &ev{kind: "enqueue", queue: queue, kv: kv, p: p}, "POST", "/"+queue+"/channels/items", itemBody(kv, p))
}

func (w *cworld) dequeue(ctx context.Context, queue string, q *qa.AssociatedActionQuery) *ev {
	return w.do(ctx, &ev{kind: "dequeue", queue: queue, q: q}, "GET", "/"+queue+"/channels/items", q)
}

func (w *cworld) ack(queue, id string, kv vh.KV, pass bool) *ev {
	kind := "fail"
	if pass {
		kind = "pass"
	}
	return w.do(bg, &ev{kind: kind, queue: queue, kv: kv, id: id}, "POST", "/"+queue+"/channels/items/ack", ackBody(id, kv, pass))
}

func (w *cworld) beat(queue, id string, kv vh.KV) *ev {
	return w.do(bg, &ev{kind: "beat", queue: queue, kv: kv, id: id}, "POST", "/"+queue+"/channels/items/heartbeat", hbBody(id, kv))
}

func (w *cworld) fault(req *http.Request, body []byte) *svc.Fault {
	w.mu.Lock()
	defer w.mu.Unlock()
	// No virtual time may pass here, willow waits for the limiter with locks held.
	pause := func() func() {
		n := w.g.IntN(300)
		return func() {
			for ; n > 0; n-- {
				runtime.Gosched()
			}
		}
	}
	switch req.URL.Host {
	case "limiter":
		f := &svc.Fault{}
		if w.mode.faults && !w.calm && req.Method != "GET" && w.g.IntN(6) == 0 {
			w.r.Stat("faults", 1)
			if w.g.IntN(2) == 0 {
				f.Refuse = true
			} else {
				f.Lose = true
			}
			w.notes = append(w.notes, fmt.Sprintf("%v: limiter %s %s refused=%v lost=%v", w.now(), req.Method, body, f.Refuse, f.Lose))
		}
		if w.g.IntN(w.lat) == 0 {
			f.Before = pause()
		}
		if w.g.IntN(2*w.lat) == 0 {
			f.After = pause()
		}
		return f
	case "willow":
		if req.Context().Value(brokenKey{}) != nil {
			return &svc.Fault{WriteErr: true}
		}
	}
	return nil
}

// TestWillowConcurrent runs producers and consumers against a willow with a
// real limiter and locker and checks the recorded history.
func TestWillowConcurrent(t *testing.T) {
	r := vh.Start(t, "histories of concurrent producers and consumers")
	defer r.Finish()
	vsched.Set(1, 4, 0)
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(150, 6000) && !r.Bad(); n++ {
		g := vh.Rand("willowconc", n)
		r.Context("case %d", n)
		r.Guard("willow requests", n, func() { synctest.Test(t, func(t *testing.T) { concCase(r, g, n) }) })
	}
}

func concCase(r *vh.R, g *rand.Rand, n int) {
	w := &cworld{r: r, g: g, n: n, base: time.Now(), max: map[string]int64{}, lat: 1 + g.IntN(8)}
	switch n % 4 {
	case 1:
		w.mode.limits = true
	case 2:
		w.mode.deletes = true
	case 3:
		w.mode.faults = g.IntN(2) == 0
		w.mode.deletes = g.IntN(2) == 0
		w.mode.limits = !w.mode.faults
	}
	w.mode.upd = g.IntN(3) == 0
	if g.IntN(2) == 0 {
		w.grid = 200 * time.Millisecond
	}
	vsched.Set(1, uint64(2+g.IntN(12)), 0)
	net := svc.NewNet(r)
	net.Dial()
	w.c = cl{net}
	stopLocker := net.Locker("locker", 5*time.Second)
	stopLimiter := net.Limiter("limiter", "http://locker")
	stopWillow, _ := net.Willow("willow", "http://limiter")
	net.Fault = w.fault
	defer func() {
		stopWillow()
		synctest.Wait()
		stopLimiter()
		synctest.Wait()
		stopLocker()
		synctest.Wait()
	}()
	queues := []string{"a", "b"}[:1+g.IntN(2)]
	for i := 1 + g.IntN(3); i > 0; i-- {
		w.pool = append(w.pool, channelKV(g))
	}
	if w.mode.limits {
		w.addLimits()
	}
	w.calm = true
	for _, q := range queues {
		w.max[q] = []int64{-1, 1, 2, 4, 8}[g.IntN(5)]
		w.create(q)
	}
	w.calm = false

	var producers, consumers sync.WaitGroup
	for i := 1 + g.IntN(4); i > 0; i-- {
		producers.Add(1)
		go func() {
			defer producers.Done()
			w.produce(queues)
		}()
	}
	stop := make(chan struct{})
	ctx, cancel := context.WithCancel(bg)
	for i := 1 + g.IntN(5); i > 0; i-- {
		consumers.Add(1)
		go func() {
			defer consumers.Done()
			w.consume(ctx, stop, queues)
		}()
	}
	if w.mode.deletes {
		producers.Add(1)
		go func() {
			defer producers.Done()
			w.remove(queues)
		}()
	}
	producers.Wait()
	w.mu.Lock()
	w.calm = true
	w.mu.Unlock()
	w.note("no more items")
	stuck := w.drainAll(ctx, queues)
	close(stop)
	cancel()
	consumers.Wait()
	synctest.Wait()
	w.check(queues, stuck)
}

// drainAll takes whatever remains.
func (w *cworld) drainAll(ctx context.Context, queues []string) (stuck bool) {
	ctx, cancel := context.WithCancel(ctx)
	var drains sync.WaitGroup
	for _, q := range queues {
		for i := 0; i < 2; i++ {
			drains.Add(1)
			go func() {
				defer drains.Done()
				w.drain(ctx, q)
			}()
		}
	}
	var left []string
	for i := 0; ; i++ {
		time.Sleep(5 * time.Second)
		left = w.channels(queues)
		if i >= 2 && len(left) == 0 || i == 60 {
			break
		}
	}
	if len(left) > 0 {
		w.bad("W01,W05,W07", "stuck", "channels %v still exist although two consumers have been waiting for anything for 5 minutes", left)
	}
	cancel()
	drains.Wait()
	return len(left) > 0
}

func (w *cworld) create(queue string) *ev {
	return w.do(bg, &ev{kind: "mkqueue", queue: queue, max: w.max[queue]}, "POST", "", queueBody(queue, w.max[queue]))
}

func (w *cworld) addLimits() {
	g := w.g
	for i := 1 + g.IntN(2); i > 0; i-- {
		kv := vh.KV{"_willow_running": datatypes.String("true")}
		if g.IntN(2) == 0 {
			kv["_willow_queue_name"] = datatypes.Any()
		}
		src := w.pool[g.IntN(len(w.pool))]
		for k, v := range src {
			if g.IntN(2) == 0 {
				kv[k] = []datatypes.EncapsulatedValue{v, datatypes.Any()}[g.IntN(2)]
			}
		}
		l := &limit{kv: kv, limit: int64(1 + g.IntN(3))}
		res := w.c.limiter("POST", "rules", &v1limiter.Rule{Spec: &v1limiter.RuleSpec{
			DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.KeyValues(kv)},
			Properties:   &v1limiter.RuleProperties{Limit: &l.limit},
		}})
		var got v1limiter.Rule
		if res.Status != 201 || json.Unmarshal(res.Body, &got) != nil || got.State == nil {
			continue
		}
		w.notes = append(w.notes, fmt.Sprintf("limit %d on %s", l.limit, vh.KVS(kv)))
		w.rules = append(w.rules, l)
	}
}

// channels lists what exists, with the counters.
func (w *cworld) channels(queues []string) (out []string) {
	for _, q := range queues {
		res := w.c.willow(bg, "GET", "/"+q+"/channels", &qa.AssociatedActionQuery{})
		if res.Status == 404 {
			continue
		}
		cs, err := channelsOf(res.Body)
		if err != nil || res.Status != 200 {
			w.bad("W07", "channels", "%s", res.Text())
			return nil
		}
		for _, c := range cs {
			out = append(out, q+" "+c)
		}
	}
	return
}

func (w *cworld) nextData() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.data++
	return fmt.Sprintf("i%d", w.data)
}

// nap lets time pass, or not. With a grid everything happens at a few
// instants, together with what the others do.
func (w *cworld) nap(max int) {
	if w.grid > 0 {
		if w.rnd(5) > 0 {
			time.Sleep(w.grid - w.now()%w.grid)
		}
		return
	}
	if d := w.rnd(2 * max); d > max {
		time.Sleep(time.Duration(w.rnd(d*1e6)) * time.Nanosecond)
	}
}

func (w *cworld) produce(queues []string) {
	kv := w.pool[w.rnd(len(w.pool))]
	q := queues[w.rnd(len(queues))]
	n := 2 + w.rnd(8)
	if w.grid > 0 {
		n *= 2
	}
	for i := n; i > 0; i-- {
		if w.rnd(4) == 0 {
			kv = w.pool[w.rnd(len(w.pool))]
			q = queues[w.rnd(len(queues))]
		}
		data := w.nextData()
		w.mu.Lock()
		p := genProps(w.g, data)
		w.mu.Unlock()
		if !w.mode.upd {
			p.upd = false
		}
		w.enqueue(q, kv, p)
		w.nap(3000)
	}
}

func (w *cworld) remove(queues []string) {
	for i := 1 + w.rnd(5); i > 0; i-- {
		w.nap(5000)
		q := queues[w.rnd(len(queues))]
		if w.rnd(3) > 0 {
			kv := w.pool[w.rnd(len(w.pool))]
			w.do(bg, &ev{kind: "delchan", queue: q, kv: kv}, "DELETE", "/"+q+"/channels", datatypes.KeyValues(kv))
			continue
		}
		for {
			e := w.do(bg, &ev{kind: "delqueue", queue: q}, "DELETE", "/"+q, nil)
			if e.status == 204 {
				break
			}
			if !w.mode.faults {
				w.bad("W07,W09", "queue-delete", "deleting a queue is answered %d %s", e.status, e.text)
			}
			time.Sleep(time.Second)
		}
		w.nap(3000)
		for {
			e := w.create(q)
			if e.status == 201 {
				break
			}
			if !w.mode.faults {
				w.bad("W07,W09", "queue-create", "creating a deleted queue again is refused: %s", e)
				return
			}
			time.Sleep(time.Second)
		}
	}
}

func (w *cworld) query() *qa.AssociatedActionQuery {
	w.mu.Lock()
	defer w.mu.Unlock()
	return genQuery(w.g, w.pool)
}

func (w *cworld) consume(ctx context.Context, stop chan struct{}, queues []string) {
	for {
		select {
		case <-stop:
			return
		default:
		}
		dctx, cancel := context.WithCancel(ctx)
		switch w.rnd(4) {
		case 0: // leaves
			d := time.Duration(w.rnd(3e9)) * time.Nanosecond
			if w.grid > 0 {
				d = w.grid - w.now()%w.grid + time.Duration(w.rnd(3))*w.grid
			}
			defer time.AfterFunc(d, cancel).Stop()
		case 1: // leaves at the moment something happens
			if w.rnd(3) == 0 {
				dctx = context.WithValue(dctx, brokenKey{}, true)
			}
		}
		q := queues[w.rnd(len(queues))]
		// not for ever, what it waits for may never come
		late := time.AfterFunc(30*time.Second+time.Duration(w.rnd(1e9)), cancel)
		e := w.dequeue(dctx, q, w.query())
		late.Stop()
		cancel()
		if e.got == nil || e.lost {
			w.nap(500)
			if e.status == 404 {
				time.Sleep(time.Second)
			}
			continue
		}
		w.process(q, e.got)
	}
}

func (w *cworld) process(queue string, d *delivered) {
	switch w.rnd(8) {
	case 0, 1:
		w.nap(500)
		w.ack(queue, d.id, d.kv, true)
	case 2, 3:
		w.nap(500)
		w.ack(queue, d.id, d.kv, false)
	case 4: // heartbeats for a while
		for i := w.rnd(4); i >= 0; i-- {
			time.Sleep(d.p.timeout*9/10 - time.Duration(w.rnd(1e8)))
			w.beat(queue, d.id, d.kv)
		}
		w.ack(queue, d.id, d.kv, w.rnd(2) == 0)
	case 5: // silent, then late
		time.Sleep(d.p.timeout + time.Duration(w.rnd(1e9)))
		switch w.rnd(3) {
		case 0:
			w.ack(queue, d.id, d.kv, w.rnd(2) == 0)
		case 1:
			w.beat(queue, d.id, d.kv)
		}
	case 6: // right when it expires
		time.Sleep(d.p.timeout - time.Duration(w.rnd(3)))
		w.ack(queue, d.id, d.kv, w.rnd(2) == 0)
	case 7: // twice
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w.nap(100)
				w.ack(queue, d.id, d.kv, w.rnd(2) == 0)
			}()
		}
		wg.Wait()
	}
}

// drain passes everything until the context ends.
func (w *cworld) drain(ctx context.Context, queue string) {
	for ctx.Err() == nil {
		e := w.dequeue(ctx, queue, &qa.AssociatedActionQuery{})
		if e.got != nil && !e.lost {
			w.ack(queue, e.got.id, e.got.kv, true)
		} else if ctx.Err() == nil {
			time.Sleep(time.Second)
		}
	}
}
