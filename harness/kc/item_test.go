package kc

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	"github.com/DanLavine/willow/pkg/clients"
	willowclient "github.com/DanLavine/willow/pkg/clients/willow_client"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// isent is one request of a consumer as the network saw it.
type isent struct {
	kind, id string // dequeue, heartbeat, ack
	item     int
	kvs      string
	passed   bool
	at, end  time.Duration
	done     bool
	fault    string
	served   int
	status   int
	timeout  time.Duration
	ctxEnded bool
	seq      int64
	data     string
	trace    string
}

func (s *isent) String() string {
	return fmt.Sprintf("[%v-%v done=%v] %s %.8s passed=%v fault=%q served=%d got=%d gaveup=%v", s.at, s.end, s.done, s.kind, s.id, s.passed, s.fault, s.served, s.status, s.ctxEnded)
}

// work is one item a consumer holds.
type work struct {
	n        int
	item     *willowclient.Item
	deq      *isent
	id, kvs  string
	data     string
	from     time.Duration
	doneAt   time.Duration // -1: not done
	ackAt    time.Duration // first ACK, -1: none
	ackRet   time.Duration
	acks     int
	passed   []bool
	ackErr   error
	doneSeen bool
}

func (h *work) String() string {
	return fmt.Sprintf("item%d(%.8s from=%v timeout=%v done=%v ack=%v)", h.n, h.id, h.from, h.deq.timeout, h.doneAt, h.ackAt)
}

type iworld struct {
	r       *vh.R
	g       *rand.Rand
	net     *svc.Net
	base    time.Time
	mu      sync.Mutex
	sents   []*isent
	works   []*work
	log     []string
	mode    string
	closing bool
	failrun map[string]int
	cbs     int
	odd     bool // the service's dequeue answers are scripted
	nodd    int
	oddID   string
}

func (w *iworld) now() time.Duration { return time.Since(w.base) }
func (w *iworld) rnd(n int) int      { w.mu.Lock(); defer w.mu.Unlock(); return w.g.IntN(n) }

func (w *iworld) history() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	out := append([]string(nil), w.log...)
	for _, s := range w.sents {
		out = append(out, s.String())
	}
	for _, h := range w.works {
		out = append(out, h.String())
	}
	return out
}

// RoundTrip is the network between the consumers and willow.
func (w *iworld) RoundTrip(req *http.Request) (*http.Response, error) {
	kind := ""
	switch {
	case strings.HasSuffix(req.URL.Path, "/heartbeat"):
		kind = "heartbeat"
	case strings.HasSuffix(req.URL.Path, "/ack"):
		kind = "ack"
	case req.Method == "GET" && strings.HasSuffix(req.URL.Path, "/channels/items"):
		kind = "dequeue"
	default:
		return w.net.RoundTrip(req)
	}
	s := &isent{kind: kind, at: w.now(), item: -1, seq: vh.Tick(), trace: req.Header.Get(clients.TraceHeader)}
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	if kind != "dequeue" {
		var a v1willow.ACK
		json.Unmarshal(body, &a)
		s.id, s.kvs, s.passed = a.ItemID, vh.KVS(vh.KV(a.KeyValues)), a.Passed
	}
	w.mu.Lock()
	w.sents = append(w.sents, s)
	g := w.g
	var before, after time.Duration
	var odd *http.Response
	if !w.closing && w.mode != "calm" {
		k := kind + s.id
		fail := false
		switch {
		case kind == "heartbeat" && w.mode == "mild":
			fail = g.IntN(2) == 0 && w.failrun[k] < 2
		case kind == "heartbeat":
			fail = g.IntN(2) == 0
		default:
			fail = g.IntN(6) == 0
		}
		if fail {
			w.failrun[k]++
			switch x := g.IntN(10); {
			case x < 2:
				s.fault = "refuse"
			case x < 4:
				s.fault = "lose"
			case x < 6:
				s.fault = "odd"
				st := []int{500, 503, 502, 418, 204, 201, 429}
				if w.mode == "hostile" {
					st = append(st, 400, 404, 409)
				}
				odd = answer(st[g.IntN(len(st))], oddBodies[g.IntN(len(oddBodies))])
			case w.mode == "mild" || x < 7:
				s.fault = "garbled"
			case x < 8:
				s.fault = "blackhole"
			case x < 9:
				s.fault = "loseanswer"
			default:
				before = time.Duration(g.IntN(30))*tick/2 + time.Duration(1+g.IntN(1000))*time.Microsecond
				after = time.Duration(g.IntN(30))*tick/2 + time.Duration(1+g.IntN(1000))*time.Microsecond
				if kind != "heartbeat" {
					after = 0
				}
				s.fault = "slow"
			}
			if kind == "ack" && (s.fault == "blackhole" || s.fault == "loseanswer") {
				s.fault = "lose"
			}
			if kind == "dequeue" {
				s.fault = ""
				if g.IntN(2) == 0 {
					s.fault = "refuse"
				}
			}
		} else {
			w.failrun[k] = 0
		}
	}
	if w.oddID != "" && s.id == w.oddID && kind == "heartbeat" {
		s.fault = "refuse"
	}
	w.mu.Unlock()
	end := func(st int) {
		w.mu.Lock()
		s.end, s.done, s.status, s.ctxEnded = w.now(), true, st, req.Context().Err() != nil
		w.mu.Unlock()
	}
	if !sleep(req.Context(), before) {
		end(0)
		return nil, req.Context().Err()
	}
	switch s.fault {
	case "refuse":
		end(0)
		return nil, fmt.Errorf("dial: connection refused")
	case "blackhole":
		select {
		case <-req.Context().Done():
			end(0)
			return nil, req.Context().Err()
		case <-time.After(10000 * tick): // the connection breaks at last
			end(0)
			return nil, fmt.Errorf("connection timed out")
		}
	case "odd":
		odd.Request = req
		end(odd.StatusCode)
		return odd, nil
	}
	in := req.Clone(req.Context())
	in.Body = io.NopCloser(bytes.NewReader(body))
	resp, err := w.net.RoundTrip(in)
	if err != nil {
		end(0)
		return nil, err
	}
	b, _ := io.ReadAll(resp.Body)
	resp.Body = io.NopCloser(bytes.NewReader(b))
	w.mu.Lock()
	s.served = resp.StatusCode
	if kind == "dequeue" && resp.StatusCode == 200 {
		var it v1willow.Item
		json.Unmarshal(b, &it)
		s.id, s.kvs, s.timeout, s.data = it.State.ID, vh.KVS(vh.KV(it.Spec.DBDefinition.KeyValues)), *it.Spec.Properties.TimeoutDuration, string(it.Spec.Properties.Data)
		if w.odd && w.nodd == 0 {
			// an odd answer of a service: the timeout is tiny
			w.nodd++
			w.oddID = s.id
			tm := []time.Duration{1, 2, 3, 9, 10, 11}[g.IntN(6)]
			it.Spec.Properties.TimeoutDuration = &tm
			s.timeout = tm
			nb, _ := json.Marshal(it)
			resp.Body = io.NopCloser(bytes.NewReader(nb))
		}
	}
	w.mu.Unlock()
	if !sleep(req.Context(), after) {
		end(0)
		return nil, req.Context().Err()
	}
	switch s.fault {
	case "lose":
		end(0)
		return nil, fmt.Errorf("connection reset by peer")
	case "loseanswer":
		select {
		case <-req.Context().Done():
			end(0)
			return nil, req.Context().Err()
		case <-time.After(10000 * tick):
			end(0)
			return nil, fmt.Errorf("connection timed out")
		}
	case "garbled":
		resp.Body = io.NopCloser(io.MultiReader(bytes.NewReader(b[:len(b)/2]), errReader{}))
	}
	end(resp.StatusCode)
	return resp, nil
}

// consumer dequeues items, works on them and acknowledges them.
func (w *iworld) consumer(c *willowclient.WillowClient, life context.Context, end time.Duration) {
	for w.now() < end {
		ctx, cancel := context.WithCancel(life)
		if w.rnd(3) == 0 {
			time.AfterFunc(time.Duration(w.rnd(20))*tick+time.Duration(1+w.rnd(1000))*time.Microsecond, cancel)
		}
		trace := fmt.Sprint("dequeue", vh.Tick())
		it, err := c.DequeueQueueItem(context.WithValue(ctx, clients.TraceID, trace), "q", &qa.AssociatedActionQuery{})
		if it == nil {
			if err == nil {
				w.r.PV("K02", "no-item-no-error", w.history(), "DequeueQueueItem returned neither an item nor an error")
			}
			if life.Err() == nil && w.rnd(3) > 0 {
				time.Sleep(time.Duration(1+w.rnd(4)) * tick)
			}
			cancel()
			continue
		}
		w.mu.Lock()
		h := &work{n: len(w.works), item: it, from: w.now(), doneAt: -1, ackAt: -1, data: string(it.Data())}
		for i := len(w.sents) - 1; i >= 0 && h.deq == nil; i-- {
			s := w.sents[i]
			if s.kind == "dequeue" && s.status == 200 && s.trace == trace {
				h.deq, h.id, h.kvs, s.item = s, s.id, s.kvs, h.n
			}
		}
		if h.deq == nil {
			w.mu.Unlock()
			w.r.PV("K02", "item-from-nowhere", w.history(), "DequeueQueueItem returned an item although no request was answered")
			cancel()
			continue
		}
		w.works = append(w.works, h)
		w.mu.Unlock()
		var cb func(error)
		cbseen := 0
		cb = func(err error) {
			w.mu.Lock()
			w.cbs++
			cbseen++
			w.mu.Unlock()
			if err == nil {
				w.r.PV("K02", "callback-nil", w.history(), "the heartbeat error callback is called without an error")
			}
			switch w.rnd(5) {
			case 0:
				it.SetHeartbeatErrorCallback(cb) // a callback may replace itself
			case 1:
				it.SetHeartbeatErrorCallback(nil)
			}
		}
		if w.rnd(2) == 0 {
			it.SetHeartbeatErrorCallback(cb)
		}
		watch := func() {
			<-it.Done()
			w.mu.Lock()
			h.doneAt = w.now()
			w.mu.Unlock()
		}
		select {
		case <-it.Done():
			h.doneAt = w.now()
		default:
			go watch()
		}
		if w.rnd(2) == 0 {
			cancel() // an item outlives the request that dequeued it
		}
		hold := time.Duration(w.rnd(40))*tick/2 + time.Duration(1+w.rnd(1000))*time.Microsecond
		select {
		case <-it.Done():
			w.r.Stat("items lost while working", 1)
			if w.rnd(2) == 0 {
				cancel()
				continue
			}
		case <-time.After(hold):
		case <-life.Done():
		}
		w.ack(h, w.rnd(3) > 0)
		if h.ackErr != nil && w.mode == "hostile" && w.rnd(2) == 0 {
			w.ack(h, w.rnd(2) == 0) // tries again
		}
		cancel()
	}
}

func (w *iworld) ack(h *work, passed bool) {
	w.mu.Lock()
	if h.ackAt < 0 {
		h.ackAt = w.now()
	}
	h.acks++
	h.passed = append(h.passed, passed)
	trace := fmt.Sprintf("item%d-%d", h.n, h.acks)
	w.mu.Unlock()
	err := h.item.ACK(context.WithValue(context.Background(), clients.TraceID, trace), passed)
	bad := func(key, f string, a ...any) {
		hist := w.history()
		w.r.PV("K02", key, hist, f, a...)
	}
	select {
	case <-h.item.Done():
	default:
		bad("ack-not-done", "%v is not done after ACK returned", h)
	}
	w.mu.Lock()
	h.ackErr = err
	h.ackRet = w.now()
	var mine []*isent
	for _, s := range w.sents {
		if s.kind == "ack" && s.trace == trace {
			mine = append(mine, s)
		}
	}
	w.log = append(w.log, fmt.Sprintf("[%v] ACK(%v) of %v -> %v", w.now(), passed, h, err))
	w.mu.Unlock()
	if len(mine) != 1 {
		bad("ack-requests", "ACK of %v sent %d requests: %v", h, len(mine), mine)
		return
	}
	s := mine[0]
	if s.passed != passed || s.id != h.id || s.kvs != h.kvs {
		bad("ack-body", "ACK(%v) of %v sent %v", passed, h, s)
	}
	if (err == nil) != (s.status == 200) && s.status/100 != 2 {
		bad("ack-outcome", "ACK(%v) of %v returned %v: %v", passed, h, err, s)
	}
	if s.status == 200 && err != nil {
		bad("ack-outcome", "ACK(%v) of %v returned %v: %v", passed, h, err, s)
	}
}

// TestItems runs consumers with the real client against a real Willow over a
// network that fails in every way.
func TestItems(t *testing.T) {
	r := vh.Start(t, "histories of consumers with at least one item dequeued")
	defer r.Finish()
	vsched.Set(1, 6, 0)
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(500, 40000) && !r.Bad(); n++ {
		g := vh.Rand("items", n)
		r.Context("case %d", n)
		r.Guard("items", n, func() { synctest.Test(t, func(t *testing.T) { itemCase(r, g, n) }) })
	}
}

func itemCase(r *vh.R, g *rand.Rand, n int) {
	w := &iworld{r: r, g: g, base: time.Now(), net: svc.NewNet(r), failrun: map[string]int{}}
	w.mode = []string{"calm", "mild", "hostile", "hostile"}[g.IntN(4)]
	w.odd = g.IntN(8) == 0
	http.DefaultTransport = w
	stopLocker := w.net.Locker("locker", 10*tick)
	stopLimiter := w.net.Limiter("limiter", "http://locker")
	stopWillow, _ := w.net.Willow("willow", "http://limiter")
	defer stopLocker()
	defer stopLimiter()
	defer stopWillow()
	c, err := willowclient.NewWillowClient(&clients.Config{URL: "http://willow"})
	if err != nil {
		r.Inconclusive("no client: %v", err)
		return
	}
	bg := context.Background()
	if err := c.CreateQueue(bg, genQueue0("q", -1)); err != nil {
		r.PV("K02", "create", w.history(), "CreateQueue failed: %v", err)
		return
	}
	kvs := []vh.KV{{"a": datatypes.Int(1)}, {"a": datatypes.String("x"), "b": datatypes.Uint8(3)}}
	data := map[string]bool{}
	m := 1 + g.IntN(4)
	for i := 0; i < m; i++ {
		it := genItem(g, vh.Clone(kvs[g.IntN(2)]))
		it.Spec.Properties.Data = []byte(fmt.Sprint("data", i))
		it.Spec.Properties.Updateable = vh.Ptr(false)
		it.Spec.Properties.TimeoutDuration = vh.Ptr(time.Duration(1+g.IntN(12)) * tick)
		data[string(it.Spec.Properties.Data)] = true
		if err := c.EnqueueQueueItem(bg, "q", it); err != nil {
			r.PV("K02", "enqueue", w.history(), "EnqueueQueueItem failed: %v", err)
			return
		}
	}
	end := time.Duration(20+g.IntN(60)) * tick
	life, die := context.WithCancel(bg)
	var wg sync.WaitGroup
	for i := 1 + g.IntN(3); i > 0; i-- {
		wg.Go(func() { w.consumer(c, life, end) })
	}
	time.Sleep(end)
	w.mu.Lock()
	w.closing = true
	w.mu.Unlock()
	die()
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(600 * tick):
		r.PV("K02", "caller-hangs", w.history(), "case %d (%s): consumers still block long after every request was canceled", n, w.mode)
		time.Sleep(20000 * tick)
	}
	w.mu.Lock()
	left := append([]*work(nil), w.works...)
	w.mu.Unlock()
	// what is kept is heartbeated until somebody acknowledges it
	time.Sleep(time.Duration(g.IntN(40))*tick + 1)
	for _, h := range left {
		select {
		case <-h.item.Done():
		default:
			w.ack(h, true)
		}
	}
	time.Sleep(30 * tick)
	w.check(n, data)
	r.Eval(1)
	if len(w.works) > 0 {
		r.Distinct(vh.JSON(n))
	}
	r.Stat("items dequeued", len(w.works))
	r.Stat("heartbeat errors reported", w.cbs)
}

func genQueue0(name string, max int64) *v1willow.Queue {
	return &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: &name}, Properties: &v1willow.QueueProperties{MaxItems: &max}}}
}

func (w *iworld) check(n int, data map[string]bool) {
	r := w.r
	bad := func(key, f string, a ...any) {
		r.PV("K02", key, w.history(), fmt.Sprintf("case %d (%s): ", n, w.mode)+f, a...)
	}
	w.mu.Lock()
	sents, works := w.sents, w.works
	w.mu.Unlock()
	for _, h := range works {
		if !data[h.data] {
			bad("data", "%v has the data %q that nobody enqueued", h, h.data)
		}
		if h.doneAt < 0 {
			bad("never-done", "%v", h)
			continue
		}
		T := h.deq.timeout
		exp := h.deq.end + T
		// the same item may be delivered again: heartbeats of this holder are
		// those between its delivery and its end
		next := time.Duration(1 << 62)
		for _, o := range works {
			if o != h && o.id == h.id && o.from >= h.from && o.n > h.n {
				next = min(next, o.from)
			}
		}
		shared := false // another holder of the same item overlaps: who sent a heartbeat is not known
		for _, o := range works {
			if o != h && o.id == h.id && o.from < h.doneAt && (o.doneAt < 0 || h.from < o.doneAt) {
				shared = true
			}
		}
		if shared {
			r.Stat("items held by two consumers", 1)
			if w.mode != "hostile" && !w.odd {
				bad("delivered-twice", "%v is delivered again while it is kept", h)
			}
			continue
		}
		refused := time.Duration(-1)
		maybe := time.Duration(-1)
		hbs := 0
		for _, s := range sents {
			if s.kind != "heartbeat" || s.id != h.id || s.at <= h.from {
				continue
			}
			if s.at > h.doneAt {
				if s.at < next {
					bad("heartbeat-after-done", "%v is sent after %v was done", s, h)
				}
				continue
			}
			hbs++
			if s.kvs != h.kvs {
				bad("heartbeat-request", "%v for %v", s, h)
			}
			if s.done && s.status == 200 && s.end <= exp && !s.ctxEnded {
				exp = max(exp, s.at+T)
			}
			if s.done && s.end <= exp && (s.status == 404 || s.status == 400) && refused < 0 {
				refused = s.end
			}
			if s.done && s.end <= exp && s.status == 409 && maybe < 0 {
				maybe = s.end
			}
		}
		r.Stat("heartbeats sent", hbs)
		if hbs == 0 && h.doneAt-h.from > T/2 && T > 100 {
			bad("no-heartbeats", "%v was kept for %v without a heartbeat", h, h.doneAt-h.from)
		}
		acked := h.ackAt >= 0 && h.ackAt == h.doneAt
		switch {
		case h.doneAt > exp:
			bad("done-late", "%v could not be trusted after %v", h, exp)
		case refused >= 0 && h.doneAt > refused:
			bad("done-late", "%v: a heartbeat was refused at %v", h, refused)
		case acked:
		case refused >= 0 || maybe >= 0:
			r.Stat("items lost by a refusal", 1)
		case h.doneAt < exp-T/10-1:
			bad("done-early", "%v was given up although it could be trusted until %v", h, exp)
		default:
			r.Stat("items lost by a timeout", 1)
		}
		if w.mode != "hostile" && !acked && !w.odd {
			bad("not-kept", "%v was lost although Willow could be reached", h)
		}
	}
}
