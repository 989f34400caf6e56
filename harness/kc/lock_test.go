// Package kc watches the client libraries.
package kc

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"bytes"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	"github.com/DanLavine/willow/pkg/clients"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

const tick = 100 * time.Millisecond

// sent is one request of a client as the network saw it.
type sent struct {
	client, method, kind, id string // kind: obtain, heartbeat, release
	kvs, session             string
	at, end                  time.Duration
	done                     bool
	fault                    string        // what the network did
	status                   int           // the answer the client got, 0: none
	served                   int           // the answer the locker gave
	timeout                  time.Duration // of an obtained lock
	delay                    time.Duration // before the answer was delivered
	ctxEnded                 bool
}

func (s *sent) String() string {
	x := fmt.Sprintf("[%v-%v] %s %s", s.at, s.end, s.client, s.kind)
	if !s.done {
		x = fmt.Sprintf("[%v- ] %s %s", s.at, s.client, s.kind)
	}
	return x + fmt.Sprintf(" kv=%s id=%.6s session=%.6s fault=%q served=%d got=%d gaveup=%v", s.kvs, s.id, s.session, s.fault, s.served, s.status, s.ctxEnded)
}

// call is one call of a user.
type call struct {
	client, what, kvs string
	at, ret, cancel   time.Duration
	done              bool
	lock              *held
	err               error
	nothing           bool
	over              map[*held]bool // the locks known to be done when it began
}

func (c *call) String() string {
	return fmt.Sprintf("[%v-%v done=%v cancel=%v] %s %s %s err=%v nothing=%v lock=%v", c.at, c.ret, c.done, c.cancel, c.client, c.what, c.kvs, c.err, c.nothing, c.lock)
}

// held is one lock object a client handed out.
type held struct {
	n           int
	client, kvs string
	lock        lockerclient.Lock
	from        time.Duration // the first time it was handed out
	fromDone    bool          // it was already done then
	doneAt      time.Duration // -1: not done
	released    time.Duration // first call of Release, -1: none
	session     *sent         // the obtain request
}

func (h *held) String() string {
	if h == nil {
		return "-"
	}
	return fmt.Sprintf("lock%d(from=%v done=%v released=%v)", h.n, h.from, h.doneAt, h.released)
}

type kworld struct {
	r       *vh.R
	g       *rand.Rand
	net     *svc.Net
	base    time.Time
	mu      sync.Mutex
	sents   []*sent
	calls   []*call
	helds   []*held
	byLock  map[lockerclient.Lock]*held
	kvs     map[string]vh.KV
	names   []string
	mode    string // calm, mild, hostile
	closing bool
	failrun map[string]int
	restart bool
	cbs     int
	deny    map[string]bool // sessions whose heartbeats are refused
}

func (w *kworld) now() time.Duration { return time.Since(w.base) }

func (w *kworld) history() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []string
	for _, s := range w.sents {
		out = append(out, s.String())
	}
	for _, c := range w.calls {
		out = append(out, c.String())
	}
	return out
}

func (w *kworld) rnd(n int) int { w.mu.Lock(); defer w.mu.Unlock(); return w.g.IntN(n) }

// sleep waits unless the caller leaves.
func sleep(ctx context.Context, d time.Duration) bool {
	if d <= 0 {
		return true
	}
	select {
	case <-time.After(d):
		return true
	case <-ctx.Done():
		return false
	}
}

func answer(status int, body string) *http.Response {
	return &http.Response{StatusCode: status, Status: http.StatusText(status), Header: http.Header{"Content-Type": {"application/json"}},
		Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
}

var oddBodies = []string{"", "{", "null", "{}", `{"Message":""}`, `{"Message":"no"}`, `[1]`, `{"Spec":{}}`,
	`{"Spec":{"DBDefinition":{"KeyValues":{"k1":{"Type":13,"Data":"a"}}}},"State":{"LockID":"a","SessionID":"b"}}`,
	`{"Spec":{"DBDefinition":{"KeyValues":{"k1":{"Type":13,"Data":"a"}}},"Properties":{}},"State":{"LockID":"a","SessionID":"b"}}`,
	`{"Spec":{"DBDefinition":{"KeyValues":{"k1":{"Type":13,"Data":"a"}}},"Properties":{"Timeout":0}},"State":{"LockID":"a","SessionID":"b"}}`,
	`{"Spec":{"DBDefinition":{"KeyValues":{"k1":{"Type":13,"Data":"a"}}},"Properties":{"Timeout":-5}},"State":{"LockID":"a","SessionID":"b"}}`,
	`{"Spec":{"Properties":{"Timeout":50000000}},"State":{"LockID":"a","SessionID":"b"}}`,
	`{"Spec":{"DBDefinition":{"KeyValues":{"k1":{"Type":13,"Data":"a"}}},"Properties":{"Timeout":50000000}}}`,
	`{"State":{"LockID":"a","SessionID":"b"}}`}

// RoundTrip is the network between the clients and the locker.
func (w *kworld) RoundTrip(req *http.Request) (*http.Response, error) {
	s := &sent{client: req.URL.Host, method: req.Method, at: w.now()}
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	parts := strings.Split(strings.Trim(req.URL.Path, "/"), "/")
	switch {
	case req.Method == "POST" && len(parts) == 2:
		s.kind = "obtain"
		var l v1locker.Lock
		json.Unmarshal(body, &l)
		if l.Spec != nil && l.Spec.DBDefinition != nil {
			s.kvs = vh.KVS(vh.KV(l.Spec.DBDefinition.KeyValues))
		}
	case req.Method == "POST" && len(parts) == 4:
		s.kind, s.id = "heartbeat", parts[2]
	case req.Method == "DELETE":
		s.kind, s.id = "release", parts[2]
	}
	if s.kind != "obtain" {
		var c v1locker.LockClaim
		json.Unmarshal(body, &c)
		s.session = c.SessionID
	}
	w.mu.Lock()
	w.sents = append(w.sents, s)
	var before, after time.Duration
	var odd *http.Response
	g := w.g
	if s.kind == "heartbeat" && w.deny[s.session] {
		s.fault, odd = "odd", answer(404, `{"Message":"no"}`)
	} else if !w.closing && w.mode != "calm" {
		k := s.kind + s.id
		fail := false
		switch {
		case w.mode == "mild" && s.kind == "heartbeat":
			// never three failures in a row, and the network is fast
			fail = g.IntN(2) == 0 && w.failrun[k] < 2
		case w.mode == "mild":
			fail = g.IntN(8) == 0
		default:
			fail = g.IntN(3) == 0
		}
		if fail {
			w.failrun[k]++
			switch x := g.IntN(10); {
			case x < 2:
				s.fault = "refuse"
			case x < 4:
				s.fault = "lose"
			case x < 6:
				s.fault = "odd"
				st := []int{200, 500, 503, 502, 418, 204, 201}
				if w.mode == "hostile" {
					st = append(st, 400, 404, 409)
				}
				if s.kind == "heartbeat" {
					st = st[1:]
				}
				odd = answer(st[g.IntN(len(st))], oddBodies[g.IntN(len(oddBodies))])
			case w.mode == "mild" || x < 7:
				s.fault = "garbled"
			case x < 8:
				s.fault = "blackhole"
			case x < 9:
				s.fault = "loseanswer" // served, but the answer never comes
			default:
				before = time.Duration(g.IntN(30))*tick/2 + time.Duration(1+g.IntN(1000))*time.Microsecond
				if s.kind != "obtain" {
					after = time.Duration(g.IntN(30))*tick/2 + time.Duration(1+g.IntN(1000))*time.Microsecond
				}
				s.fault = "slow"
			}
		} else {
			w.failrun[k] = 0
		}
	}
	s.delay = after
	w.mu.Unlock()
	end := func(st int) {
		w.mu.Lock()
		s.end, s.done, s.status = w.now(), true, st
		s.ctxEnded = req.Context().Err() != nil
		w.mu.Unlock()
	}
	if !sleep(req.Context(), before) {
		end(0)
		return nil, req.Context().Err()
	}
	switch s.fault {
	case "refuse":
		end(0)
		return nil, fmt.Errorf("dial: connection refused")
	case "blackhole":
		<-req.Context().Done()
		end(0)
		return nil, req.Context().Err()
	case "odd":
		odd.Request = req
		end(odd.StatusCode)
		return odd, nil
	}
	in := req.Clone(req.Context())
	in.URL.Host = "locker"
	in.Body = io.NopCloser(bytes.NewReader(body))
	resp, err := w.net.RoundTrip(in)
	if err != nil {
		end(0)
		return nil, err
	}
	w.mu.Lock()
	s.served = resp.StatusCode
	if s.kind == "obtain" && resp.StatusCode == 200 {
		b, _ := io.ReadAll(resp.Body)
		resp.Body = io.NopCloser(bytes.NewReader(b))
		var l v1locker.Lock
		json.Unmarshal(b, &l)
		s.id, s.session, s.timeout = l.State.LockID, l.State.SessionID, *l.Spec.Properties.Timeout
	}
	w.mu.Unlock()
	if !sleep(req.Context(), after) {
		end(0)
		return nil, req.Context().Err()
	}
	switch s.fault {
	case "lose":
		end(0)
		return nil, fmt.Errorf("connection reset by peer")
	case "loseanswer":
		<-req.Context().Done()
		end(0)
		return nil, req.Context().Err()
	case "garbled":
		b, _ := io.ReadAll(resp.Body)
		resp.Body = io.NopCloser(io.MultiReader(bytes.NewReader(b[:len(b)/2]), errReader{}))
	}
	end(resp.StatusCode)
	return resp, nil
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

func (w *kworld) request(kv vh.KV) *v1locker.Lock {
	l := &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: datatypes.TypedKeyValues(vh.Clone(kv))}}}
	if w.rnd(2) == 0 {
		l.Spec.Properties = &v1locker.LockProperties{Timeout: vh.Ptr(time.Duration(1+w.rnd(10)) * tick)}
	}
	return l
}

// begin notes a call of ObtainLock.
func (w *kworld) begin(name, kvn string) *call {
	w.mu.Lock()
	defer w.mu.Unlock()
	cl := &call{client: name, what: "obtain", kvs: kvn, at: w.now(), cancel: -1, over: map[*held]bool{}}
	for _, h := range w.helds {
		select {
		case <-h.lock.Done():
			cl.over[h] = true
		default:
		}
	}
	w.calls = append(w.calls, cl)
	return cl
}

// obtain makes the call and notes what came of it.
func (w *kworld) obtain(ctx context.Context, cl *call, c *lockerclient.LockClient, req *v1locker.Lock) (lockerclient.Lock, *held) {
	name, kvn := cl.client, cl.kvs
	var cb func(datatypes.KeyValues, error)
	if w.rnd(2) == 0 {
		cb = func(kv datatypes.KeyValues, err error) {
			w.mu.Lock()
			w.cbs++
			bad := err == nil || vh.KVS(vh.KV(kv)) != kvn
			w.mu.Unlock()
			if bad {
				w.r.PV("K01", "error-callback", w.history(), "the heartbeat error callback was called with key values %v and error %v", kv, err)
			}
		}
	}
	lock, err := c.ObtainLock(ctx, req, cb)
	// the request belongs to the caller again
	req.Spec.DBDefinition.KeyValues["changed"] = datatypes.Int(1)
	w.mu.Lock()
	defer w.mu.Unlock()
	cl.ret, cl.done, cl.err, cl.nothing = w.now(), true, err, lock == nil
	if lock == nil {
		return nil, nil
	}
	h := w.byLock[lock]
	if h == nil {
		h = &held{n: len(w.helds), client: name, kvs: kvn, lock: lock, from: w.now(), doneAt: -1, released: -1}
		for i := len(w.sents) - 1; i >= 0 && h.session == nil; i-- {
			if s := w.sents[i]; s.kind == "obtain" && s.client == name && s.kvs == kvn && s.done && s.status == 200 && s.session != "" {
				h.session = s
			}
		}
		w.helds = append(w.helds, h)
		w.byLock[lock] = h
		select {
		case <-lock.Done():
			h.fromDone, h.doneAt = true, w.now()
		default:
			go func() {
				<-lock.Done()
				w.mu.Lock()
				h.doneAt = w.now()
				w.mu.Unlock()
			}()
		}
	}
	cl.lock = h
	return lock, h
}

// user obtains, holds and releases locks.
func (w *kworld) user(name string, c *lockerclient.LockClient, life context.Context, end time.Duration) {
	again := ""
	for w.now() < end {
		kvn := w.names[w.rnd(len(w.names))]
		if again != "" {
			kvn, again = again, ""
		}
		req := w.request(w.kvs[kvn])
		ctx, cancel := context.WithCancel(life)
		cl := w.begin(name, kvn)
		stop := func() bool { return true }
		if w.rnd(2) == 0 {
			// an odd moment, so that nothing else happens at the same instant
			at := time.Duration(w.rnd(20))*tick/2 + time.Duration(1+w.rnd(1000))*time.Microsecond
			if w.rnd(6) == 0 {
				at = 0
			}
			tm := time.AfterFunc(at, func() {
				w.mu.Lock()
				if !cl.done {
					cl.cancel = w.now()
				}
				w.mu.Unlock()
				cancel()
			})
			stop = tm.Stop
		}
		lock, h := w.obtain(ctx, cl, c, req)
		if w.rnd(3) > 0 {
			stop()
			if w.rnd(2) == 0 {
				cancel() // a lock outlives the request that obtained it
			}
		}
		if lock == nil {
			stop()
			cancel()
			time.Sleep(time.Duration(w.rnd(4)) * tick)
			continue
		}
		hold := time.Duration(w.rnd(25))*tick/2 + time.Duration(1+w.rnd(1000))*time.Microsecond
		lost := false
		select {
		case <-lock.Done():
			lost = true
			w.r.Stat("locks lost or released by others while held", 1)
		case <-time.After(hold):
		case <-life.Done():
		}
		if lost && w.rnd(3) > 0 {
			stop()
			cancel()
			again = kvn // at once
			continue
		}
		w.release(name, h)
		stop()
		cancel()
		time.Sleep(time.Duration(w.rnd(4)) * tick)
	}
}

func (w *kworld) release(name string, h *held) {
	rc := &call{client: name, what: "release", kvs: h.kvs, at: w.now(), cancel: -1, lock: h}
	w.mu.Lock()
	w.calls = append(w.calls, rc)
	if h.released < 0 {
		h.released = w.now()
	}
	w.mu.Unlock()
	rctx, rcancel := context.WithCancel(context.Background())
	if w.rnd(3) == 0 {
		rcancel()
	}
	err := h.lock.Release(rctx)
	rcancel()
	w.mu.Lock()
	rc.ret, rc.done, rc.err = w.now(), true, err
	w.mu.Unlock()
	select {
	case <-h.lock.Done():
	case <-time.After(1): // another call may be about to signal it
		w.r.PV("K01", "release-not-done", w.history(), "Release of %v returned but Done is not signalled", h)
	}
}

// TestLockClient runs users of the locker client against a real locker over a
// network that fails in every way.
func TestLockClient(t *testing.T) {
	r := vh.Start(t, "histories of lock clients with at least one lock obtained")
	defer r.Finish()
	vsched.Set(1, 6, 0)
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(900, 40000) && !r.Bad(); n++ {
		g := vh.Rand("lockclient", n)
		r.Context("case %d", n)
		r.Guard("lock client", n, func() { synctest.Test(t, func(t *testing.T) { lockCase(r, g, n) }) })
	}
}

func lockCase(r *vh.R, g *rand.Rand, n int) {
	w := &kworld{r: r, g: g, base: time.Now(), net: svc.NewNet(r), kvs: map[string]vh.KV{}, byLock: map[lockerclient.Lock]*held{}, failrun: map[string]int{}}
	w.mode = []string{"calm", "mild", "hostile", "hostile"}[g.IntN(4)]
	http.DefaultTransport = w
	def := time.Duration(1+g.IntN(10)) * tick
	stop := w.net.Locker("locker", def)
	pool := []vh.KV{{"a": datatypes.Int(1)}, {"a": datatypes.Int(2)}, {"a": datatypes.Int(1), "b": datatypes.String("x")}}
	for _, kv := range pool[:1+g.IntN(len(pool))] {
		w.kvs[vh.KVS(kv)] = kv
		w.names = append(w.names, vh.KVS(kv))
	}
	end := time.Duration(20+g.IntN(40)) * tick
	life, die := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	nc := 1 + g.IntN(3)
	restarts := w.mode == "hostile" && g.IntN(3) == 0
	var users []int
	for i := 0; i < nc; i++ {
		users = append(users, 1+g.IntN(3))
	}
	for i := 0; i < nc; i++ {
		name := fmt.Sprintf("c%d", i)
		c, err := lockerclient.NewLockClient(&clients.Config{URL: "http://" + name})
		if err != nil {
			r.Inconclusive("no client: %v", err)
			die()
			stop()
			return
		}
		for j := 0; j < users[i]; j++ {
			wg.Go(func() { w.user(name, c, life, end) })
		}
	}
	if restarts {
		w.restart = true
		time.Sleep(end/2 + time.Duration(g.IntN(300))*time.Millisecond)
		stop()
		w.net.Handle("locker", nil)
		time.Sleep(time.Duration(w.rnd(8)) * tick)
		stop = w.net.Locker("locker", def)
		r.Stat("restarts of the locker", 1)
	}
	if d := end - w.now(); d > 0 {
		time.Sleep(d)
	}
	w.mu.Lock()
	w.closing = true
	for _, cl := range w.calls {
		if !cl.done && cl.cancel < 0 {
			cl.cancel = w.now()
		}
	}
	w.mu.Unlock()
	die()
	closeAt := w.now()
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(600 * tick):
		h := w.history()
		r.PV("K01", "caller-hangs", h, "case %d (%s): calls of the lock client still block %v after every request was canceled", n, w.mode, w.now()-closeAt)
	}
	// what nobody released must be released, or end because nobody heartbeats
	w.mu.Lock()
	hs := append([]*held(nil), w.helds...)
	w.mu.Unlock()
	for _, h := range hs {
		select {
		case <-h.lock.Done():
		default:
			w.release(h.client, h)
		}
	}
	time.Sleep(30 * tick)
	w.check(n)
	stop()
	r.Eval(1)
	if len(w.helds) > 0 {
		r.Distinct(vh.JSON(n))
	}
	r.Stat("locks obtained", len(w.helds))
	r.Stat("requests sent", len(w.sents))
	r.Stat("heartbeat errors reported", w.cbs)
}

func (w *kworld) check(n int) {
	r := w.r
	bad := func(key, f string, a ...any) {
		r.PV("K01", key, w.history(), fmt.Sprintf("case %d (%s): ", n, w.mode)+f, a...)
	}
	w.mu.Lock()
	sents, calls, helds := w.sents, w.calls, w.helds
	w.mu.Unlock()
	// calls
	for _, c := range calls {
		if !c.done {
			bad("call-hangs:"+c.what, "%v never returned", c)
			continue
		}
		switch c.what {
		case "obtain":
			if c.cancel >= 0 && c.ret > c.cancel {
				bad("cancel-slow", "%v returned %v after it was canceled", c, c.ret-c.cancel)
			}
			if c.lock != nil && c.err != nil {
				bad("lock-and-error", "%v", c)
			}
			if c.lock == nil && c.err == nil && c.cancel < 0 {
				bad("no-lock-no-error", "%v", c)
			}
			if c.over[c.lock] {
				bad("handed-out-done", "%v handed out a lock that was known to be over when it was called", c)
			}
			if c.lock != nil && c.lock.kvs != c.kvs {
				bad("other-lock", "%v", c)
			}
			if c.lock != nil && c.lock.session == nil {
				bad("lock-without-session", "%v: no successful obtain request", c)
			}
			if c.err != nil {
				// some request for this lock must have failed at the end of the call
				ok := false
				for _, s := range sents {
					if s.kind == "obtain" && s.client == c.client && s.kvs == c.kvs && s.done && s.end == c.ret && s.status != 503 &&
						(s.status != 200 || s.fault != "") {
						ok = true
					}
				}
				if !ok {
					bad("obtain-error", "%v failed although no request failed", c)
				}
			}
		case "release":
			// when the lock is live, exactly this call must release it
			s := c.lock.session
			if c.ret > c.at+s.timeout {
				bad("release-slow", "%v took %v", c, c.ret-c.at)
			}
			var del *sent
			for _, d := range sents {
				if d.kind == "release" && d.session == s.session && d.at >= c.at && d.at <= c.ret {
					del = d
				}
			}
			first := c.at == c.lock.released
			if c.err == nil && (del == nil || del.status != 204) {
				bad("release-false-success", "%v reported a success but the locker did not: %v", c, del)
			}
			if first && c.lock.doneAt == c.at && !c.lock.fromDone && del == nil && !w.otherRelease(c) && !w.lostAt(c.lock, c.at) {
				bad("release-not-sent", "%v did not ask the locker to release", c)
			}
		}
	}
	dels := map[string]int{}
	for _, s := range sents {
		if s.kind == "release" {
			dels[s.session]++
			if dels[s.session] > 1 {
				bad("released-twice", "%v sent twice", s)
			}
			if s.id == "" || s.session == "" {
				bad("release-request", "%v without id or session", s)
			}
		}
	}
	// whoever waits for a lock is asking for it, or was just told to come back in a second
	for _, c := range calls {
		if c.what != "obtain" {
			continue
		}
		to := c.ret
		if c.cancel >= 0 && (!c.done || c.cancel < to) {
			to = c.cancel
		} else if !c.done {
			continue
		}
		r.Max("longest wait of a caller, ms", int((to-c.at)/time.Millisecond))
		at := c.at
		for _, s := range sents { // in the order they were sent
			if s.kind != "obtain" || s.client != c.client || s.kvs != c.kvs {
				continue
			}
			if s.at > at {
				break
			}
			switch {
			case !s.done:
				at = max(at, to)
			case s.status == 503:
				at = max(at, s.end+time.Second)
			default:
				at = max(at, s.end)
			}
		}
		if at < to {
			bad("idle", "%v waits but from %v on nobody asks for the lock", c, at)
		}
	}
	// one request for a lock of a client at a time
	for i, a := range sents {
		if a.kind != "obtain" {
			continue
		}
		for _, b := range sents[i+1:] {
			if b.kind == "obtain" && b.client == a.client && b.kvs == a.kvs && b.at >= a.at && (!a.done || b.at < a.end) {
				bad("not-shared", "two requests of one client for the same lock: %v and %v", a, b)
			}
		}
	}
	for _, h := range helds {
		if h.session == nil {
			continue
		}
		if h.doneAt < 0 {
			bad("never-done", "%v released but never done", h)
			continue
		}
		// no request for a lock that the client holds
		for _, s := range sents {
			if s.kind == "obtain" && s.client == h.client && s.kvs == h.kvs && s.at > h.from && s.at < h.doneAt {
				bad("not-shared-held", "%v was requested again: %v", h, s)
			}
		}
		T := h.session.timeout
		from := h.session.end
		exp := from + T // a full timeout without success
		refused := time.Duration(-1)
		hbs, failed := 0, 0
		for _, s := range sents {
			if s.kind != "heartbeat" || s.session != h.session.session {
				continue
			}
			hbs++
			if s.id != h.session.id {
				bad("heartbeat-request", "%v for %v", s, h)
			}
			if s.at > h.doneAt {
				bad("heartbeat-after-done", "%v is sent after %v was done", s, h)
			}
			if s.at > exp {
				continue
			}
			if s.done && s.status == 200 && s.end <= exp && !s.ctxEnded {
				if e := s.at + T; e > exp {
					exp = e
				}
			} else {
				failed++
			}
			if s.done && (s.status == 400 || s.status == 404 || s.status == 409) && s.end <= exp {
				refused = s.end
			}
		}
		r.Stat("heartbeats sent", hbs)
		r.Stat("heartbeats that failed", failed)
		// every third of the timeout there is a heartbeat
		if last := h.doneAt - from; hbs == 0 && last > T/2 && h.session.fault == "" {
			bad("no-heartbeats", "%v lived for %v without any heartbeat (timeout %v)", h, last, T)
		}
		byRelease := h.released >= 0 && h.released == h.doneAt
		switch {
		case h.fromDone:
		case byRelease:
			if refused >= 0 && refused < h.doneAt {
				bad("done-late", "%v: a heartbeat was refused at %v", h, refused)
			} else if h.doneAt > exp {
				bad("done-late", "%v could not be trusted after %v (timeout %v)", h, exp, T)
			}
		case refused >= 0 && refused == h.doneAt:
			r.Stat("locks lost by a refusal", 1)
		case refused >= 0 && refused < h.doneAt:
			bad("done-late", "%v: a heartbeat was refused at %v", h, refused)
		case h.doneAt < exp:
			bad("done-early", "%v was reported as lost although it could be trusted until %v (timeout %v)", h, exp, T)
		case h.doneAt > exp:
			bad("done-late", "%v could not be trusted after %v (timeout %v)", h, exp, T)
		default:
			r.Stat("locks lost by a timeout", 1)
		}
		if w.mode != "hostile" && w.mode != "duel" && !byRelease && !h.fromDone {
			bad("not-kept", "%v was lost although the locker could be reached (timeout %v)", h, T)
		}
	}
	if w.restart {
		return
	}
	for i, a := range helds {
		for _, b := range helds[i+1:] {
			if a.kvs != b.kvs || a.fromDone || b.fromDone {
				continue
			}
			if max(a.from, b.from) < min(a.doneAt, b.doneAt) {
				bad("two-owners", "%s trusts %v and %s trusts %v at the same time", a.client, a, b.client, b)
			}
		}
	}
}

// otherRelease says whether another call released the lock at the same instant.
func (w *kworld) otherRelease(c *call) bool {
	for _, o := range w.calls {
		if o != c && o.what == "release" && o.lock == c.lock && o.at == c.at {
			return true
		}
	}
	return false
}

// lostAt says whether the lock was lost at that very instant.
func (w *kworld) lostAt(h *held, at time.Duration) bool {
	T := h.session.timeout
	if h.session.end+T == at {
		return true
	}
	for _, s := range w.sents {
		if s.kind == "heartbeat" && s.session == h.session.session && (s.at+T == at || s.end == at) {
			return true
		}
	}
	return false
}
