package wl

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/http"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// mitem is an item of the model.
type mitem struct {
	props
	id       string // known once delivered
	fails    uint64
	running  bool
	deadline time.Time
}

type mchannel struct {
	kv      vh.KV
	waiting []*mitem
	running []*mitem
}

type mqueue struct {
	name  string
	max   int64
	chans map[string]*mchannel
}

func (q *mqueue) size() (n int64) {
	for _, c := range q.chans {
		n += int64(len(c.waiting) + len(c.running))
	}
	return
}

type consumer struct {
	n      int
	queue  string
	q      *qa.AssociatedActionQuery
	cancel func()
	left   bool
	broken bool // its answer cannot be written
	trace  *svc.Trace
	res    svc.Resp
	at     time.Time
	done   chan struct{}
	seen   bool
}

type gone struct {
	queue, id string
	kv        vh.KV
}

type mworld struct {
	r       *vh.R
	g       *rand.Rand
	n       int
	c       cl
	queues  map[string]*mqueue
	rules   []*limit
	pool    []vh.KV
	waiting []*consumer
	past    []gone
	log     []string
	starve  map[string]time.Time
	start   time.Time
	quick   bool // short timeouts
	items   int
	served  int
	ruleID  string
}

func (w *mworld) say(f string, a ...any) {
	w.log = append(w.log, fmt.Sprintf("%v: ", time.Since(w.start))+fmt.Sprintf(f, a...))
	w.r.Step()
}

func (w *mworld) bad(props, key, f string, a ...any) {
	w.r.PV(props, key, w.log, "case %d: %s", w.n, fmt.Sprintf(f, a...))
}

func (w *mworld) status(props, key string, res svc.Resp, want ...int) bool {
	for _, s := range want {
		if res.Err == nil && res.Status == s {
			if s >= 400 {
				var e struct{ Message string }
				if json.Unmarshal(res.Body, &e) != nil || e.Message == "" {
					w.bad("V02", key+"-message", "a refusal without a message: %s to %s", res.Text(), w.log[len(w.log)-1])
				}
			}
			return true
		}
	}
	w.bad(props, key, "%s instead of %v to: %s", res.Text(), want, w.log[len(w.log)-1])
	return false
}

func names[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// TestWillowModel runs random sequences of requests against a model, in
// virtual time.
func TestWillowModel(t *testing.T) {
	r := vh.Start(t, "sequences delivering and redelivering items")
	defer r.Finish()
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(800, 15000) && !r.Bad(); n++ {
		g := vh.Rand("willowmodel", n)
		r.Context("case %d", n)
		r.Guard("willow requests", n, func() { synctest.Test(t, func(t *testing.T) { modelCase(r, g, n) }) })
	}
}

type brokenKey struct{}

func newWorld(r *vh.R, g *rand.Rand, n int) (*mworld, func()) {
	net := svc.NewNet(r)
	net.Dial()
	stopLocker := net.Locker("locker", 5*time.Second)
	stopLimiter := net.Limiter("limiter", "http://locker")
	stopWillow, ruleID := net.Willow("willow", "http://limiter")
	net.Fault = func(req *http.Request, _ []byte) *svc.Fault {
		if req.Context().Value(brokenKey{}) != nil {
			return &svc.Fault{WriteErr: true}
		}
		return nil
	}
	w := &mworld{r: r, g: g, n: n, c: cl{net}, queues: map[string]*mqueue{}, starve: map[string]time.Time{}, start: time.Now(), ruleID: ruleID}
	return w, func() {
		for _, c := range w.waiting {
			c.cancel()
		}
		synctest.Wait()
		stopWillow()
		synctest.Wait()
		stopLimiter()
		synctest.Wait()
		stopLocker()
		synctest.Wait()
	}
}

func modelCase(r *vh.R, g *rand.Rand, n int) {
	w, stop := newWorld(r, g, n)
	defer stop()
	for i := 2 + g.IntN(3); i > 0; i-- {
		w.pool = append(w.pool, channelKV(g))
	}
	if g.IntN(3) == 0 {
		for i := 1 + g.IntN(2); i > 0; i-- {
			w.addRule()
		}
	}
	w.quick = !w.limited() && g.IntN(3) == 0
	w.createQueue("one")
	for step := 0; step < 40+g.IntN(50) && !r.Bad(); step++ {
		w.step()
		synctest.Wait()
		w.reconcile()
		if !r.Bad() {
			w.advance(w.pause())
		}
	}
	if !r.Bad() {
		w.finish()
	}
	r.Eval(1)
	if w.served > 3 {
		r.Distinct(fmt.Sprint(n))
	}
	r.Stat("items", w.items)
	r.Stat("deliveries", w.served)
	r.Stat("requests", int(w.c.net.Requests.Load()))
}

func (w *mworld) pause() time.Duration {
	switch w.g.IntN(6) {
	case 0:
		return time.Duration(w.g.IntN(3e9))
	case 1:
		return time.Duration(w.g.IntN(5e8))
	}
	return time.Duration(1 + w.g.IntN(1e6))
}

// ---- what should have happened

func (w *mworld) limited() bool { return len(w.rules) > 0 }

// blocked: a limit keeps the channel's next item back.
func (w *mworld) blocked(q *mqueue, c *mchannel, more int) (string, bool) {
	for _, l := range inForce(w.rules, runningKV(q.name, c.kv)) {
		if l.limit == -1 {
			continue
		}
		var n int64
		for _, q2 := range w.queues {
			for _, c2 := range q2.chans {
				if covers(l.kv, runningKV(q2.name, c2.kv)) {
					n += int64(len(c2.running))
				}
			}
		}
		if n+int64(more) > l.limit {
			return fmt.Sprintf("%d of %d run in the group %s", n, l.limit, vh.KVS(l.kv)), true
		}
	}
	return "", false
}

func (w *mworld) end(q *mqueue, c *mchannel, it *mitem) {
	if it.id != "" {
		w.past = append(w.past, gone{q.name, it.id, c.kv})
	}
}

func (w *mworld) unrun(c *mchannel, it *mitem) {
	for i, x := range c.running {
		if x == it {
			c.running = append(c.running[:i:i], c.running[i+1:]...)
		}
	}
	it.running = false
}

func (w *mworld) tidy(q *mqueue, c *mchannel) {
	if len(c.waiting)+len(c.running) == 0 {
		delete(q.chans, vh.KVS(c.kv))
	}
}

func (w *mworld) fail(q *mqueue, c *mchannel, it *mitem) string {
	w.unrun(c, it)
	it.fails++
	defer w.tidy(q, c)
	switch {
	case it.fails > it.retries:
		w.end(q, c, it)
		w.r.Stat("items exhausted", 1)
		return "is exhausted"
	case it.pos == "front":
		if len(c.waiting) > 0 && it.upd {
			w.end(q, c, it)
			w.r.Stat("updateable items dropped at the front", 1)
			return "is dropped for newer work"
		}
		c.waiting = append([]*mitem{it}, c.waiting...)
		return "is put in front"
	default:
		if l := len(c.waiting); l > 0 && c.waiting[l-1].upd {
			w.end(q, c, c.waiting[l-1])
			c.waiting[l-1] = it
			w.r.Stat("updateable items replaced by failed ones", 1)
			return "replaces the last"
		}
		c.waiting = append(c.waiting, it)
		return "is put last"
	}
}

// nextExpiry finds the running item that expires first.
func (w *mworld) nextExpiry() (q *mqueue, c *mchannel, it *mitem) {
	for _, q2 := range w.queues {
		for _, c2 := range q2.chans {
			for _, x := range c2.running {
				if it == nil || x.deadline.Before(it.deadline) {
					q, c, it = q2, c2, x
				}
			}
		}
	}
	return
}

// advance lets time pass.
func (w *mworld) advance(d time.Duration) {
	end := time.Now().Add(d)
	for !w.r.Bad() {
		q, c, it := w.nextExpiry()
		until := end
		if w.limited() && until.Sub(time.Now()) > 500*time.Millisecond { // a delivery can happen at any moment; timeouts are longer than this
			until = time.Now().Add(500 * time.Millisecond)
		}
		if it != nil && !it.deadline.After(until) {
			time.Sleep(time.Until(it.deadline))
			synctest.Wait()
			what := w.fail(q, c, it)
			w.say("%s %s times out, %s", vh.KVS(c.kv), it.id, what)
			w.r.Stat("timeouts", 1)
			w.reconcile()
			continue
		}
		time.Sleep(time.Until(until))
		synctest.Wait()
		w.reconcile()
		if until == end {
			return
		}
	}
}

// reconcile compares the dequeues answered since with what they could get.
func (w *mworld) reconcile() {
	type got struct {
		c *consumer
		d *delivered
	}
	byChan := map[*mchannel][]got{}
	qOf := map[*mchannel]*mqueue{}
	var order []*mchannel
	var rest []*consumer
	now := time.Now()
	for _, c := range w.waiting {
		select {
		case <-c.done:
		default:
			rest = append(rest, c)
			continue
		}
		body, served := c.res.Body, c.res.Err == nil && c.res.Status == 200
		if c.broken && c.trace.WriteErr {
			body, served = c.trace.Attempt, c.trace.Status == 200
		}
		q := w.queues[c.queue]
		switch {
		case served:
			d, err := parseItem(body)
			if err != nil {
				w.bad("W05,K02", "malformed-item", "dequeue %d: %v", c.n, err)
				return
			}
			if q == nil {
				w.bad("W05,W07", "item-of-deleted-queue", "dequeue %d got %s %s of a queue that does not exist", c.n, vh.KVS(d.kv), d.p)
				return
			}
			if c.left {
				w.bad("W05", "served-after-leaving", "dequeue %d got %s %s although its client had left", c.n, vh.KVS(d.kv), d.p)
				return
			}
			ch := q.chans[vh.KVS(d.kv)]
			if ch == nil {
				w.bad("W01,W07,W05", "item-of-no-channel", "dequeue %d got %s %s %s but the queue has no such channel", c.n, d.id, vh.KVS(d.kv), d.p)
				return
			}
			if len(byChan[ch]) == 0 {
				order = append(order, ch)
			}
			byChan[ch] = append(byChan[ch], got{c, d})
			qOf[ch] = q
		case c.left:
		case q == nil:
			w.say("dequeue %d of a deleted queue is answered: %s", c.n, c.res.Text())
			if !c.broken && (c.res.Err != nil || c.res.Status < 400 || c.res.Status >= 500) {
				w.bad("W07,V02", "dequeue-of-deleted-queue", "dequeue %d of a queue that was deleted is answered %s", c.n, c.res.Text())
			}
		default:
			w.bad("W05", "dequeue-fails", "dequeue %d ends with %s", c.n, c.res.Text())
			return
		}
	}
	w.waiting = rest
	var served []func()
	delivered := false
	for _, ch := range order {
		q := qOf[ch]
		gs := byChan[ch]
		// one after the other, each takes the first item. What could not be
		// written is first again.
		for len(gs) > 0 {
			var head *mitem
			pick := -1
			if len(ch.waiting) > 0 {
				head = ch.waiting[0]
				for i, x := range gs {
					if x.d.p.data == head.data && (pick == -1 || x.c.broken) {
						pick = i
					}
				}
			}
			if pick == -1 {
				x := gs[0]
				var want []string
				props := "W01"
				for _, h := range ch.waiting {
					want = append(want, h.props.String())
					if h.data == x.d.p.data {
						props = "W02"
					}
				}
				if head != nil && head.upd || props == "W01" {
					props += ",W03"
				}
				w.bad(props, "wrong-item", "dequeue %d got %s of %s, where these wait: %v", x.c.n, x.d.p, vh.KVS(ch.kv), want)
				return
			}
			x, it := gs[pick], head
			gs = append(gs[:pick:pick], gs[pick+1:]...)
			w.say("dequeue %d gets %s %s %s", x.c.n, x.d.id, vh.KVS(ch.kv), x.d.p)
			if it.props != x.d.p {
				w.bad("W03,W02", "wrong-settings", "dequeue %d got %s instead of %s", x.c.n, x.d.p, it.props)
			}
			if it.id != "" && it.id != x.d.id {
				w.bad("W01", "id-changed", "%s was delivered as %s and now as %s", x.d.p, it.id, x.d.id)
			}
			it.id = x.d.id
			if x.c.queue != q.name || !vh.QueryHolds(x.c.q, "", ch.kv) {
				w.bad("W05", "not-selected", "dequeue %d of %s with query %s got an item of the channel %s in %s", x.c.n, x.c.queue, vh.JSON(x.c.q), vh.KVS(ch.kv), q.name)
			}
			served = append(served, func() {
				more := 0
				if x.c.broken {
					if delivered { // it is not known which came first
						return
					}
					more = 1
				}
				if why, b := w.blocked(q, ch, more); b {
					w.bad("W08", "over-limit", "dequeue %d got %s of %s: %s", x.c.n, x.d.p, vh.KVS(ch.kv), why)
				}
			})
			if x.c.broken {
				w.r.Stat("deliveries that could not be written", 1)
				if it.upd && len(ch.waiting) > 1 {
					w.end(q, ch, it)
					ch.waiting = ch.waiting[1:]
				}
				continue
			}
			ch.waiting = ch.waiting[1:]
			it.running = true
			it.deadline = x.c.at.Add(it.timeout)
			ch.running = append(ch.running, it)
			w.served++
			delivered = true
		}
		w.tidy(q, ch)
	}
	for _, f := range served {
		f()
	}
	// nobody waits for an item that could be delivered
	hungry := map[string]bool{}
	for _, c := range w.waiting {
		if c.left {
			continue
		}
		q := w.queues[c.queue]
		if q == nil {
			w.bad("W07", "dequeue-of-deleted-queue-waits", "dequeue %d still waits for the queue %s which was deleted", c.n, c.queue)
			continue
		}
		for k, ch := range q.chans {
			if len(ch.waiting) == 0 || !vh.QueryHolds(c.q, "", ch.kv) {
				continue
			}
			if _, b := w.blocked(q, ch, 1); b {
				w.r.Stat("moments an item is held back by a limit", 1)
				continue
			}
			key := fmt.Sprintf("%d %s", c.n, k)
			hungry[key] = true
			since, ok := w.starve[key]
			if !ok {
				since = now
				w.starve[key] = now
			}
			grace := time.Duration(0)
			if w.limited() {
				grace = 5*time.Second + 500*time.Millisecond
			}
			if now.Sub(since) >= grace {
				w.bad("W05,W08", "not-served", "dequeue %d waits since %v although the channel %s of %s has a waiting item (%s) and no limit holds it back", c.n, since.Sub(w.start), k, q.name, ch.waiting[0].props)
				return
			}
		}
	}
	for k := range w.starve {
		if !hungry[k] {
			delete(w.starve, k)
		}
	}
}

// ---- requests

func (w *mworld) createQueue(name string) {
	max := []int64{-1, -1, 0, 1, 2, 3, 5}[w.g.IntN(7)]
	w.say("create queue %s max %d", name, max)
	res := w.c.willow(bg, "POST", "", queueBody(name, max))
	if w.queues[name] != nil {
		w.status("W09", "create-duplicate", res, 409)
	} else if w.status("W09", "create-queue", res, 201) {
		w.queues[name] = &mqueue{name: name, max: max, chans: map[string]*mchannel{}}
	}
}

func (w *mworld) addRule() {
	kv := vh.KV{}
	base := w.pool[w.g.IntN(len(w.pool))]
	for k, v := range base {
		if w.g.IntN(2) == 0 || len(kv) == 0 {
			kv[k] = v
			if w.g.IntN(2) == 0 {
				kv[k] = datatypes.Any()
			}
		}
	}
	if w.g.IntN(3) == 0 {
		kv["_willow_running"] = datatypes.String("true")
	}
	if w.g.IntN(5) == 0 {
		kv["_willow_queue_name"] = datatypes.String("one")
		kv["_willow_running"] = datatypes.Any()
	}
	for _, r := range w.rules {
		if vh.KVS(r.kv) == vh.KVS(kv) {
			return
		}
	}
	l := &limit{kv: kv, limit: int64(w.g.IntN(4) - w.g.IntN(2))}
	w.say("limit %s to %d running", vh.KVS(kv), l.limit)
	res := w.c.limiter("POST", "rules", &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues(kv)}, Properties: &v1limiter.RuleProperties{Limit: &l.limit}}})
	var got v1limiter.Rule
	if json.Unmarshal(res.Body, &got) != nil || res.Status != 201 || got.State == nil {
		w.bad("R04", "create-rule", "%s", res.Text())
		return
	}
	l.id = got.State.ID
	w.rules = append(w.rules, l)
	for i := w.g.IntN(3); i > 0; i-- {
		okv := vh.KV{}
		for k, v := range kv {
			okv[k] = v
			if v.Type == datatypes.T_any {
				if b, ok := base[k]; ok {
					okv[k] = b
				}
			}
		}
		if w.g.IntN(3) == 0 {
			okv[vh.QKeys[w.g.IntN(3)]] = val(w.g)
		}
		dup := false
		for _, o := range l.over {
			dup = dup || vh.KVS(o.kv) == vh.KVS(okv)
		}
		if dup {
			continue
		}
		o := &limit{kv: okv, limit: int64(w.g.IntN(4) - w.g.IntN(2))}
		w.say("   except %s to %d", vh.KVS(okv), o.limit)
		res := w.c.limiter("POST", "rules/"+l.id+"/overrides", &v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues(okv)}, Properties: &v1limiter.OverrideProperties{Limit: &o.limit}}})
		if res.Status != 201 {
			w.bad("R04", "create-override", "%s", res.Text())
			return
		}
		l.over = append(l.over, o)
	}
}

func (w *mworld) anyQueue() string {
	ns := names(w.queues)
	if len(ns) == 0 || w.g.IntN(25) == 0 {
		return "none"
	}
	return ns[w.g.IntN(len(ns))]
}

func (w *mworld) kv() vh.KV {
	if w.g.IntN(15) == 0 {
		return channelKV(w.g)
	}
	return vh.Clone(w.pool[w.g.IntN(len(w.pool))])
}

// some picks an item to name in an ack or heartbeat: mostly a running one.
func (w *mworld) some() (q *mqueue, c *mchannel, it *mitem, ref gone) {
	type pick struct {
		q  *mqueue
		c  *mchannel
		it *mitem
	}
	var running, waiting []pick
	for _, n := range names(w.queues) {
		q := w.queues[n]
		for _, k := range names(q.chans) {
			c := q.chans[k]
			for _, x := range c.running {
				running = append(running, pick{q, c, x})
			}
			for _, x := range c.waiting {
				if x.id != "" {
					waiting = append(waiting, pick{q, c, x})
				}
			}
		}
	}
	k := w.g.IntN(20)
	switch {
	case k < 2 && len(waiting) > 0:
		p := waiting[w.g.IntN(len(waiting))]
		q, c, it = p.q, p.c, p.it
	case k < 4 && len(w.past) > 0:
		ref = w.past[w.g.IntN(len(w.past))]
		return nil, nil, nil, ref
	case k == 4:
		return nil, nil, nil, gone{w.anyQueue(), "no-such-item", w.kv()}
	case len(running) > 0:
		p := running[w.g.IntN(len(running))]
		q, c, it = p.q, p.c, p.it
		if w.g.IntN(15) == 0 { // in the wrong channel or queue
			ref = gone{q.name, it.id, vh.Clone(w.pool[w.g.IntN(len(w.pool))])}
			if w.g.IntN(3) == 0 {
				ref = gone{"none", it.id, c.kv}
			}
			if ref.queue != q.name || vh.KVS(ref.kv) != vh.KVS(c.kv) {
				return nil, nil, nil, ref
			}
		}
	default:
		return nil, nil, nil, gone{w.anyQueue(), "no-such-item", w.kv()}
	}
	return q, c, it, gone{q.name, it.id, c.kv}
}

func (w *mworld) dequeue(queue string, q *qa.AssociatedActionQuery, broken bool) *consumer {
	c := &consumer{n: w.served*1000 + len(w.log), queue: queue, q: q, broken: broken, done: make(chan struct{})}
	ctx, cancel := context.WithCancel(bg)
	c.cancel = cancel
	if broken {
		ctx = context.WithValue(ctx, brokenKey{}, 1)
	}
	ctx, c.trace = svc.WithTrace(ctx)
	w.waiting = append(w.waiting, c)
	go func() {
		res := w.c.willow(ctx, "GET", "/"+queue+"/channels/items", q)
		c.at = time.Now()
		if res.Err != nil { // what really happened
			<-c.trace.Done
			synctestNop()
		}
		c.res = res
		close(c.done)
		cancel()
	}()
	return c
}

func synctestNop() {}

func (w *mworld) step() {
	g := w.g
	switch op := g.IntN(40); {
	case op < 13: // enqueue
		name, kv := w.anyQueue(), w.kv()
		w.items++
		p := genProps(g, fmt.Sprintf("i%d", w.items))
		if w.quick && g.IntN(2) == 0 {
			p.timeout = time.Duration(1 + g.IntN(1<<(6+g.IntN(25))))
		}
		w.say("enqueue %s %s %s", name, vh.KVS(kv), p)
		res := w.c.willow(bg, "POST", "/"+name+"/channels/items", itemBody(kv, p))
		q := w.queues[name]
		if q == nil {
			w.status("W09", "enqueue-no-queue", res, 404)
			return
		}
		ch := q.chans[vh.KVS(kv)]
		if ch != nil {
			if l := len(ch.waiting); l > 0 && ch.waiting[l-1].upd {
				if w.status("W03,W04", "replace-refused", res, 201) {
					it := ch.waiting[l-1]
					it.props, it.fails = p, 0
					w.r.Stat("items replaced in place", 1)
				}
				return
			}
		}
		if q.max != -1 && q.size() >= q.max {
			w.r.Stat("enqueues into a full queue", 1)
			if res.Status == 201 {
				w.bad("W04,W09", "over-max", "accepted although the queue has %d of %d items", q.size(), q.max)
			} else {
				w.status("W04", "full-status", res, 409)
			}
			return
		}
		if w.status("W04,W09", "refused-not-full", res, 201) {
			if ch == nil {
				ch = &mchannel{kv: kv}
				q.chans[vh.KVS(kv)] = ch
			}
			ch.waiting = append(ch.waiting, &mitem{props: p})
		}
	case op < 24: // dequeue
		name, q := w.anyQueue(), genQuery(g, w.pool)
		broken := g.IntN(8) == 0
		c := w.dequeue(name, q, broken)
		w.say("dequeue %d from %s %s broken=%v", c.n, name, vh.JSON(q), broken)
		if w.queues[name] == nil {
			synctest.Wait()
			select {
			case <-c.done:
				if !broken {
					w.status("W09", "dequeue-no-queue", c.res, 404)
				}
				w.waiting = w.waiting[:len(w.waiting)-1]
			default:
				w.bad("W09,W05", "dequeue-no-queue-waits", "a dequeue of a queue that does not exist waits")
			}
		}
	case op < 30: // ack
		q, ch, it, ref := w.some()
		passed := g.IntN(2) == 0
		w.say("ack %v %s %s %s", passed, ref.queue, ref.id, vh.KVS(ref.kv))
		res := w.c.willow(bg, "POST", "/"+ref.queue+"/channels/items/ack", ackBody(ref.id, ref.kv, passed))
		if it == nil || !it.running {
			w.status("W06", "ack-not-running", res, 404)
			return
		}
		if !w.status("W06", "ack", res, 200) {
			return
		}
		if passed {
			w.unrun(ch, it)
			w.end(q, ch, it)
			w.tidy(q, ch)
		} else {
			w.say("  %s", w.fail(q, ch, it))
		}
	case op < 33: // heartbeat
		_, _, it, ref := w.some()
		w.say("heartbeat %s %s %s", ref.queue, ref.id, vh.KVS(ref.kv))
		res := w.c.willow(bg, "POST", "/"+ref.queue+"/channels/items/heartbeat", hbBody(ref.id, ref.kv))
		if it == nil || !it.running {
			w.status("W06", "heartbeat-not-running", res, 404)
		} else if w.status("W06", "heartbeat", res, 200) {
			it.deadline = time.Now().Add(it.timeout)
		}
	case op == 33: // a consumer leaves
		if len(w.waiting) > 0 {
			c := w.waiting[g.IntN(len(w.waiting))]
			w.say("dequeue %d leaves", c.n)
			c.left = true
			c.cancel()
		}
	case op == 34: // delete a channel
		name, kv := w.anyQueue(), w.kv()
		w.say("delete channel %s %s", name, vh.KVS(kv))
		res := w.c.willow(bg, "DELETE", "/"+name+"/channels", kv)
		q := w.queues[name]
		if q == nil {
			w.status("W09", "delete-channel-no-queue", res, 404)
			return
		}
		ch := q.chans[vh.KVS(kv)]
		if ch == nil {
			w.status("W07", "delete-missing-channel", res, 204, 404)
			return
		}
		if w.status("W07", "delete-channel", res, 204) {
			w.r.Stat("channels deleted", 1)
			w.drop(q, ch)
		}
	case op == 35: // delete a queue
		if g.IntN(3) > 0 {
			return
		}
		name := w.anyQueue()
		w.say("delete queue %s", name)
		res := w.c.willow(bg, "DELETE", "/"+name, nil)
		q := w.queues[name]
		if q == nil {
			w.status("W09", "delete-missing-queue", res, 204, 404)
			return
		}
		if w.status("W09,W07", "delete-queue", res, 204) {
			w.r.Stat("queues deleted", 1)
			for _, ch := range q.chans {
				w.drop(q, ch)
			}
			delete(w.queues, name)
		}
	case op == 36:
		w.createQueue([]string{"one", "two", "three"}[g.IntN(3)])
	case op == 37: // update
		name := w.anyQueue()
		max := []int64{-1, 0, 1, 2, 4}[g.IntN(5)]
		w.say("update queue %s max %d", name, max)
		res := w.c.willow(bg, "PUT", "/"+name, &v1willow.QueueProperties{MaxItems: &max})
		if q := w.queues[name]; q == nil {
			w.status("W09", "update-missing-queue", res, 404)
		} else if w.status("W09", "update-queue", res, 200) {
			q.max = max
		}
	case op == 38: // reads
		name := w.anyQueue()
		q := w.queues[name]
		switch g.IntN(3) {
		case 0:
			w.say("get queue %s", name)
			res := w.c.willow(bg, "GET", "/"+name, nil)
			if q == nil {
				w.status("W09", "get-missing-queue", res, 404)
			} else if w.status("W09", "get-queue", res, 200) {
				var got v1willow.Queue
				if err := json.Unmarshal(res.Body, &got); err != nil || got.Validate() != nil || *got.Spec.DBDefinition.Name != name || *got.Spec.Properties.MaxItems != q.max {
					w.bad("W09", "get-answer", "%s instead of queue %s with max %d", res.Text(), name, q.max)
				}
			}
		case 1:
			w.list()
		default:
			w.queryChannels(name, genQuery(g, w.pool))
		}
	default: // limits change
		if len(w.rules) == 0 {
			return
		}
		l := w.rules[g.IntN(len(w.rules))]
		k := int64(g.IntN(5) - 1)
		w.say("limit %s is now %d", vh.KVS(l.kv), k)
		if res := w.c.limiter("PUT", "rules/"+l.id, &v1limiter.RuleProperties{Limit: &k}); res.Status != 200 {
			w.bad("R04", "update-rule", "%s", res.Text())
		}
		l.limit = k
	}
}

func (w *mworld) drop(q *mqueue, ch *mchannel) {
	for _, it := range append(append([]*mitem{}, ch.waiting...), ch.running...) {
		if it.id != "" {
			w.end(q, ch, it)
		}
	}
	delete(q.chans, vh.KVS(ch.kv))
}

func (w *mworld) list() {
	w.say("list queues")
	res := w.c.willow(bg, "GET", "", nil)
	if !w.status("W09", "list", res, 200) {
		return
	}
	var qs v1willow.Queues
	got := []string{}
	if err := json.Unmarshal(res.Body, &qs); err != nil || qs.Validate() != nil {
		w.bad("W09", "list-answer", "%s", res.Text())
		return
	}
	for _, q := range qs {
		got = append(got, fmt.Sprintf("%s %d", *q.Spec.DBDefinition.Name, *q.Spec.Properties.MaxItems))
	}
	sort.Strings(got)
	want := []string{}
	for _, n := range names(w.queues) {
		want = append(want, fmt.Sprintf("%s %d", n, w.queues[n].max))
	}
	if strings.Join(got, ";") != strings.Join(want, ";") {
		w.bad("W09", "list-answer", "the queues are listed as %v instead of %v", got, want)
	}
}

func (w *mworld) queryChannels(name string, query *qa.AssociatedActionQuery) {
	w.say("query channels of %s %s", name, vh.JSON(query))
	res := w.c.willow(bg, "GET", "/"+name+"/channels", query)
	q := w.queues[name]
	if q == nil {
		if res.Status != 404 && !(res.Status == 200 && strings.TrimSpace(string(res.Body)) == "[]") {
			w.bad("W09", "channels-no-queue", "the channels of a queue that does not exist: %s", res.Text())
		}
		return
	}
	if !w.status("W07", "channels", res, 200) {
		return
	}
	got, err := channelsOf(res.Body)
	want := []string{}
	for _, k := range names(q.chans) {
		if vh.QueryHolds(query, "", q.chans[k].kv) {
			want = append(want, k)
		}
	}
	if err != nil || strings.Join(got, ";") != strings.Join(want, ";") {
		w.bad("W07", "channels-answer", "the channels of %s are %v (%v) instead of %v", name, got, err, want)
	}
}

// counted compares the limiter's counters with the items.
func (w *mworld) counted() {
	got, err := w.c.counters()
	want := map[string]int64{}
	for _, q := range w.queues {
		for _, ch := range q.chans {
			want[vh.KVS(enqueuedKV(q.name, ch.kv))] += int64(len(ch.waiting) + len(ch.running))
			want[vh.KVS(runningKV(q.name, ch.kv))] += int64(len(ch.running))
		}
	}
	if err != nil || counterText(got) != counterText(want) {
		w.bad("W04", "counters", "the counters are [%s] (%v) instead of [%s]", counterText(got), err, counterText(want))
	}
}

// finish checks the accounts and empties everything.
func (w *mworld) finish() {
	w.counted()
	w.list()
	for _, n := range names(w.queues) {
		w.queryChannels(n, &qa.AssociatedActionQuery{})
	}
	for _, c := range w.waiting {
		c.left = true
		c.cancel()
	}
	synctest.Wait()
	w.reconcile()
	// every item left comes out, in order, within its budget
	for _, l := range w.rules {
		res := w.c.limiter("DELETE", "rules/"+l.id, nil)
		if res.Status != 204 {
			w.bad("R04", "delete-rule", "%s", res.Text())
		}
	}
	w.say("the limits are removed")
	if len(w.rules) > 0 {
		w.advance(6 * time.Second) // they are noticed
		w.rules = nil
	}
	for _, n := range names(w.queues) {
		q := w.queues[n]
		for i := 0; len(q.chans) > 0 && !w.r.Bad(); i++ {
			if i > 2000 {
				w.bad("W02", "endless", "items keep coming")
				return
			}
			waits := false
			for _, ch := range q.chans {
				waits = waits || len(ch.waiting) > 0
			}
			if !waits {
				for _, ch := range q.chans {
					for len(ch.running) > 0 && !w.r.Bad() {
						it := ch.running[0]
						w.say("ack true %s %s", it.id, vh.KVS(ch.kv))
						if !w.status("W06", "ack", w.c.willow(bg, "POST", "/"+n+"/channels/items/ack", ackBody(it.id, ch.kv, true)), 200) {
							return
						}
						w.unrun(ch, it)
					}
					w.tidy(q, ch)
				}
				continue
			}
			c := w.dequeue(n, &qa.AssociatedActionQuery{}, false)
			w.say("final dequeue %d", c.n)
			synctest.Wait()
			w.reconcile()
			w.advance(1)
		}
		if !w.r.Bad() {
			w.queryChannels(n, &qa.AssociatedActionQuery{})
		}
	}
	if !w.r.Bad() {
		w.counted()
	}
}
