package lk

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// op is one request as its caller saw it. Times are virtual and exact;
// requests need none of it unless they wait for a lock. seq orders the
// moments of one instant.
type op struct {
	what           string // obtain, heartbeat, release
	kv             string // obtain: the set
	id, session    string
	timeout        time.Duration // obtain: asked for (or the default)
	call, ret      time.Duration
	callSeq, retSq int
	cancel         time.Duration // obtain: when the caller gave up, -1 never
	goneSeq        int           // obtain: when the service could see that, 0 never
	status         int
	noAnswer       bool // the caller got no answer
	done           bool
	writeErr       bool
	body           string
	leave          func() // obtain: gives up
}

func (o *op) String() string {
	s := fmt.Sprintf("[%v-%v] %s", o.call, o.ret, o.what)
	if !o.done {
		s = fmt.Sprintf("[%v-...] %s", o.call, o.what)
	}
	if o.what == "obtain" {
		s += " " + o.kv + fmt.Sprintf(" timeout %v", o.timeout)
		if o.cancel >= 0 {
			s += fmt.Sprintf(" cancelled at %v", o.cancel)
		}
		if o.writeErr {
			s += " answer could not be written"
		}
	}
	return s + fmt.Sprintf(" id=%.8s session=%.8s -> %d", o.id, o.session, o.status)
}

type snap struct {
	at    time.Duration
	query *qa.AssociatedActionQuery
	resp  svc.Resp
}

type world struct {
	odd     bool // timeouts that are not whole seconds
	r       *vh.R
	g       *rand.Rand
	base    time.Time
	net     *svc.Net
	mu      sync.Mutex
	seq     int
	ops     []*op
	snaps   []snap
	seen    []*op // grants, for requests with other sessions
	kvs     map[string]vh.KV
	names   []string
	faults  map[string]bool
	defTime time.Duration
}

func (w *world) now() time.Duration { return time.Since(w.base) }

func (w *world) rnd(n int) int { w.mu.Lock(); defer w.mu.Unlock(); return w.g.IntN(n) }

func (w *world) begin(o *op) *op {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seq++
	o.callSeq, o.call, o.cancel = w.seq, w.now(), -1
	w.ops = append(w.ops, o)
	return o
}

func (w *world) end(o *op, res svc.Resp) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seq++
	o.retSq, o.ret, o.done = w.seq, w.now(), true
	o.status, o.noAnswer = res.Status, res.Err != nil
	o.body = res.Text()
	w.r.Step()
}

type failKey struct{}

func (w *world) obtain(name string, timeout *time.Duration, giveUp time.Duration, fail bool) *op {
	o := &op{what: "obtain", kv: name, timeout: w.defTime}
	lock := &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: w.kvs[name]}}}
	if timeout != nil {
		o.timeout = *timeout
		lock.Spec.Properties = &v1locker.LockProperties{Timeout: timeout}
	}
	body, _ := json.Marshal(lock)
	ctx := context.Background()
	cancel := func() {}
	ctx, cancel = context.WithCancel(ctx)
	defer cancel()
	if fail {
		ctx = context.WithValue(ctx, failKey{}, true)
	}
	ctx, tr := svc.WithTrace(ctx)
	tr.OnGone = func() {
		w.mu.Lock()
		w.seq++
		o.goneSeq = w.seq
		w.mu.Unlock()
	}
	o.leave = func() {
		w.mu.Lock()
		if !o.done && o.cancel < 0 {
			o.cancel = w.now()
		}
		w.mu.Unlock()
		cancel()
	}
	w.begin(o)
	if giveUp >= 0 {
		tm := time.AfterFunc(giveUp, o.leave)
		defer tm.Stop()
	}
	res := w.net.Do(ctx, "POST", "http://locker/v1/locks", body)
	if res.Err != nil {
		// what the server did with it, for the monitor only
		<-res.Trace.Done
		o.writeErr = res.Trace.WriteErr
		st, b := res.Trace.Status, res.Trace.Body
		w.end(o, res)
		if st == 200 && len(b) > 0 {
			w.grant(o, b)
		}
		o.noAnswer = true
		return o
	}
	w.end(o, res)
	if res.Status == 200 {
		w.grant(o, res.Body)
	}
	return o
}

func (w *world) grant(o *op, body []byte) {
	l := &v1locker.Lock{}
	if err := json.Unmarshal(body, l); err != nil || l.State == nil || l.State.SessionID == "" || l.State.LockID == "" {
		w.r.PV("L01,L05", "grant-answer", string(body), "a granted lock's answer lacks id or session: %s", body)
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	o.id, o.session, o.status = l.State.LockID, l.State.SessionID, 200
	w.seen = append(w.seen, o)
	if l.Spec == nil || l.Spec.DBDefinition == nil || vh.KVS(vh.KV(l.Spec.DBDefinition.KeyValues)) != vh.KVS(w.kvs[o.kv]) {
		w.r.PV("L01,L05", "grant-keys", string(body), "a granted lock's answer carries other key-values than %s: %s", o.kv, body)
	}
}

func (w *world) claim(what, id, session string) *op {
	o := w.begin(&op{what: what, id: id, session: session})
	body, _ := json.Marshal(&v1locker.LockClaim{SessionID: session})
	m, p := "POST", "http://locker/v1/locks/"+id+"/heartbeat"
	if what == "release" {
		m, p = "DELETE", "http://locker/v1/locks/"+id
	}
	w.end(o, w.net.Do(context.Background(), m, p, body))
	return o
}

func (w *world) other() (id, session string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	id, session = "no-such-lock", "no-such-session"
	if len(w.seen) > 0 && w.g.IntN(5) > 0 {
		id = w.seen[w.g.IntN(len(w.seen))].id
	}
	if len(w.seen) > 0 && w.g.IntN(4) > 0 {
		session = w.seen[w.g.IntN(len(w.seen))].session
	}
	return
}

const tick = time.Second

// holder asks for locks again and again and leaves them in all ways.
func (w *world) holder(steps int) {
	for i := 0; i < steps; i++ {
		time.Sleep(time.Duration(w.rnd(4)) * tick)
		name := w.names[w.rnd(len(w.names))]
		var timeout *time.Duration
		if w.rnd(4) > 0 {
			d := time.Duration(1+w.rnd(5)) * tick
			if w.odd { // not whole seconds, also far below one
				d = time.Millisecond + time.Duration(w.rnd(int([]time.Duration{tick / 50, tick, 5 * tick}[w.rnd(3)])))
			}
			timeout = &d
		}
		giveUp := time.Duration(-1)
		if w.rnd(3) == 0 {
			giveUp = time.Duration(w.rnd(7)) * tick
		}
		o := w.obtain(name, timeout, giveUp, w.rnd(15) == 0)
		if o.session == "" || o.noAnswer {
			continue
		}
		// heartbeats
		alive := true
		beat := func(gap time.Duration) {
			if alive {
				time.Sleep(gap)
				alive = w.claim("heartbeat", o.id, o.session).status == 200
			}
		}
		t := int(o.timeout)
		fine := true
		switch w.rnd(12) {
		case 0: // far more heartbeats than needed
			for n, gap := 10+w.rnd(30), 8+w.rnd(30); n > 0; n-- {
				beat(time.Duration(t/gap + w.rnd(t/100)))
			}
		case 1: // a few in quick succession, then one just in time
			for m := 1 + w.rnd(2); m > 0; m-- {
				beat(time.Duration(w.rnd(t)))
				for n := 1 + w.rnd(3); n > 0; n-- {
					beat(time.Duration(w.rnd(t / 8)))
				}
				beat(o.timeout - time.Duration(1+w.rnd([]int{1, 1000, t / 1000, t / 12}[w.rnd(4)])))
			}
		case 2: // any instants
			for n := w.rnd(6); n > 0; n-- {
				beat(time.Duration(w.rnd(t + t/20)))
			}
		default:
			fine = false
			for n := w.rnd(4); n > 0; n-- {
				gap := time.Duration(w.rnd(t/int(tick)+1)) * tick
				if w.rnd(6) == 0 {
					gap += tick
				}
				beat(gap)
			}
		}
		if fine {
			w.r.Stat("holders with heartbeats at any instant", 1)
			if w.rnd(2) == 0 && alive { // leaves just in time, or is too late
				time.Sleep(o.timeout + time.Duration([]int{-1, -1 - w.rnd(t/12), 1 + w.rnd(t/12)}[w.rnd(3)]))
			} else { // back to whole ticks
				time.Sleep(tick - w.now()%tick)
			}
		}
		switch w.rnd(7) {
		case 0: // leaves it to expire
		case 1: // releases late
			time.Sleep(time.Duration(w.rnd(int(o.timeout/tick)+2)) * tick)
			w.claim("release", o.id, o.session)
		case 2: // twice, at once
			var wg sync.WaitGroup
			for j := 0; j < 2; j++ {
				wg.Go(func() { w.claim([]string{"release", "heartbeat"}[w.rnd(2)], o.id, o.session) })
			}
			wg.Wait()
			w.claim("release", o.id, o.session)
		default:
			w.claim("release", o.id, o.session)
		}
		if w.rnd(5) == 0 {
			w.claim([]string{"release", "heartbeat"}[w.rnd(2)], o.id, o.session)
		}
	}
}

// intruder sends heartbeats and releases that are not its own.
func (w *world) intruder(steps int) {
	for i := 0; i < steps; i++ {
		time.Sleep(time.Duration(w.rnd(3)) * tick)
		id, session := w.other()
		what := "heartbeat"
		if w.rnd(2) == 0 {
			what = "release"
		}
		w.claim(what, id, session)
	}
}

func (w *world) observer(stop chan struct{}) {
	for time.Sleep(tick / 2); ; {
		w.snapshot()
		select {
		case <-stop:
			return
		case <-time.After(tick):
		}
	}
}

func (w *world) snapshot() {
	synctest.Wait()
	q := &qa.AssociatedActionQuery{}
	w.mu.Lock()
	var ids []string
	for _, o := range w.seen {
		ids = append(ids, o.id)
	}
	if w.g.IntN(3) == 0 {
		q = vh.GenQuery(w.g, 1, ids)
	}
	w.mu.Unlock()
	body, _ := json.Marshal(q)
	res := w.net.Do(context.Background(), "GET", "http://locker/v1/locks", body)
	w.mu.Lock()
	w.snaps = append(w.snaps, snap{w.now(), q, res})
	w.mu.Unlock()
}

var families = [][]vh.KV{
	{{"a": datatypes.Int(1)}},
	{{"a": datatypes.Int(1)}, {"a": datatypes.String("1")}},
	{{"a": datatypes.Int(1)}, {"a": datatypes.Int(1), "b": datatypes.Int(1)}, {"b": datatypes.Int(1)}},
	{{"a": datatypes.Int(1)}, {"a": datatypes.Int8(1)}, {"a": datatypes.Int(2)}, {"b": datatypes.Int(1)}},
	{{"a": datatypes.Int(1), "b": datatypes.Int(2)}, {"a": datatypes.Int(2), "b": datatypes.Int(1)}, {"a": datatypes.Int(2), "b": datatypes.Int(2)}},
}

// TestLocker drives the locker's endpoints in virtual time and checks the
// recorded history of every lock.
func TestLocker(t *testing.T) {
	r := vh.Start(t, "histories with at least two grants of one lock")
	defer r.Finish()
	vsched.Set(1, 4, 0)
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(1000, 60000) && !r.Bad(); n++ {
		g := vh.Rand("locker", n)
		r.Context("case %d", n)
		r.Guard("locker requests", n, func() { synctest.Test(t, func(t *testing.T) { locker(r, g, n) }) })
	}
}

func locker(r *vh.R, g *rand.Rand, n int) {
	w := &world{r: r, g: g, base: time.Now(), net: svc.NewNet(r), kvs: map[string]vh.KV{}, defTime: time.Duration(1+g.IntN(6)) * tick, odd: g.IntN(4) == 0}
	if w.odd {
		w.defTime += time.Duration(g.IntN(int(tick)))
	}
	w.net.Fault = svc.WriteFaults(failKey{})
	stop := w.net.Locker("locker", w.defTime)
	for _, kv := range families[g.IntN(len(families))] {
		w.kvs[vh.KVS(kv)] = kv
		w.names = append(w.names, vh.KVS(kv))
	}
	synctest.Wait()
	clients, steps, intr := 2+g.IntN(4), 2+g.IntN(4), g.IntN(3)
	var wg sync.WaitGroup
	for i := 0; i < clients; i++ {
		wg.Go(func() { w.holder(steps) })
	}
	for i := 0; i < intr; i++ {
		wg.Go(func() { w.intruder(8) })
	}
	stopObs := make(chan struct{})
	defer close(stopObs)
	go w.observer(stopObs)
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	limit := time.NewTimer(time.Duration(clients*steps) * 40 * tick)
	select {
	case <-fin:
		limit.Stop()
	case <-limit.C:
		r.PV("L01,L02,L03,L04", "stuck", w.history(), "requests are still unanswered after %v: the locker is stuck", w.now())
		return // synctest reports the goroutines left
	}
	// every lock left expires
	time.Sleep(10 * tick)
	end := w.now()
	final := w.net.Do(context.Background(), "GET", "http://locker/v1/locks", []byte(`{}`))
	if final.Text() != "200 []" {
		r.PV("L03,L05", "left-over", w.history(), "locks are left at %v when nobody holds or waits for one: %s", end, final.Text())
	}
	stop()
	w.check(n)
}

func (w *world) history() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	type ev struct {
		seq int
		s   string
	}
	var evs []ev
	for _, o := range w.ops {
		evs = append(evs, ev{o.callSeq, o.String()})
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].seq < evs[j].seq })
	var out []string
	for _, e := range evs {
		out = append(out, e.s)
	}
	return out
}

// lease is one grant and how it ended.
type lease struct {
	o        *op
	from     time.Duration
	last     time.Duration // last successful heartbeat
	end      time.Duration
	released *op
	beats    []*op
}

func (w *world) check(n int) {
	r := w.r
	hist := w.history()
	w.mu.Lock()
	defer w.mu.Unlock()
	viol := func(props, key, format string, a ...any) {
		r.PV(props, key, hist, "case %d: "+format, append([]any{n}, a...)...)
	}

	sessions := map[string]*lease{}
	byLock := map[string][]*lease{}
	lockOf := map[string]string{}
	for _, o := range w.ops {
		if o.what != "obtain" {
			continue
		}
		if o.session == "" {
			// only a caller that gave up may leave without the lock
			if o.done && o.cancel < 0 && !o.writeErr {
				viol("L01,L03", "obtain-refused", "an obtain that was not cancelled was answered with %s: %v", o.body, o)
			}
			continue
		}
		if sessions[o.session] != nil {
			viol("L01", "session-reused", "two grants carry the session %s: %v and %v", o.session, sessions[o.session].o, o)
		}
		l := &lease{o: o, from: o.ret, last: o.ret}
		if o.writeErr { // given back by the service itself
			l.released = o
		}
		sessions[o.session] = l
		byLock[o.kv] = append(byLock[o.kv], l)
		if kv, ok := lockOf[o.id]; ok && kv != o.kv {
			viol("L01,L02", "id-shared", "locks of %s and %s have the same id %s", kv, o.kv, o.id)
		}
		lockOf[o.id] = o.kv
	}

	// heartbeats and releases in the order of their completion
	claims := []*op{}
	for _, o := range w.ops {
		if o.what != "obtain" && o.done {
			claims = append(claims, o)
		}
	}
	sort.Slice(claims, func(i, j int) bool { return claims[i].retSq < claims[j].retSq })
	for _, o := range claims {
		if o.call != o.ret {
			viol("L02,L03", "claim-blocked", "a %s was not answered for %v: %v", o.what, o.ret-o.call, o)
		}
		ok := o.status >= 200 && o.status < 300
		l := sessions[o.session]
		if ok {
			r.Stat("accepted "+o.what+"s", 1)
			switch {
			case l == nil || l.o.id != o.id:
				viol("L02", "wrong-accepted", "a %s with a session that does not hold that lock was accepted: %v", o.what, o)
				continue
			case l.o.callSeq > o.retSq:
				viol("L02", "early-accepted", "a %s was accepted before its session was granted: %v", o.what, o)
			case o.ret > l.last+l.o.timeout:
				viol("L02,L04", "expired-accepted", "a %s was accepted at %v although the lock, granted at %v and last heartbeated at %v, had a timeout of %v: %v", o.what, o.ret, l.from, l.last, l.o.timeout, o)
			case l.released != nil && l.released.retSq < o.callSeq:
				viol("L02", "released-accepted", "a %s was accepted after the session was released: %v", o.what, o)
			}
			if o.what == "heartbeat" {
				l.last = o.ret
				l.beats = append(l.beats, o)
			} else {
				if l.released != nil {
					viol("L02", "released-twice", "a session was released twice: %v", o)
				}
				l.released = o
			}
			continue
		}
		r.Stat("refused "+o.what+"s", 1)
		if o.status != 404 && o.status != 409 {
			viol("L02", "refusal-status", "a %s was refused with %s, 404 and 409 are documented: %v", o.what, o.body, o)
		}
		// must it have been accepted?
		if l != nil && l.o.id == o.id && !l.o.noAnswer && l.o.retSq < o.callSeq && o.ret < l.last+l.o.timeout {
			others := false
			for _, x := range claims {
				if x != o && x.what == "release" && x.session == o.session && x.id == o.id && x.callSeq < o.retSq {
					others = true
				}
			}
			if !others {
				viol("L02,L04", "live-refused", "the holder's %s was refused at %v with %d although its lock, last heartbeated at %v with a timeout of %v, was live: %v", o.what, o.ret, o.status, l.last, l.o.timeout, o)
			}
		}
	}

	// one holder at a time, and never nobody while somebody waits
	for kv, ls := range byLock {
		for _, l := range ls {
			l.end = l.last + l.o.timeout
			if l.released != nil && l.released.ret < l.end {
				l.end = l.released.ret
			}
		}
		sort.SliceStable(ls, func(i, j int) bool {
			if ls[i].from != ls[j].from {
				return ls[i].from < ls[j].from
			}
			// within one instant the order of release and grant decides
			a, b := ls[i], ls[j]
			if a.end != b.end && (a.end == a.from || b.end == b.from) {
				return a.end < b.end
			}
			return a.o.retSq < b.o.retSq
		})
		for i, l := range ls {
			if i == 0 {
				continue
			}
			p := ls[i-1]
			if l.o.goneSeq > 0 && p.released != nil && p.released != p.o && p.end == p.released.ret && p.released.callSeq > l.o.goneSeq {
				viol("L03", "cancelled-granted", "%s was granted at %v to a caller that had left before its holder called release: %v", kv, l.from, l.o)
			}
			if l.from < p.end {
				viol("L01,L04", "two-holders", "%s was granted at %v to %.8s while %.8s held it until %v (last heartbeat %v, timeout %v)", kv, l.from, l.o.session, p.o.session, p.end, p.last, p.o.timeout)
			}
			if l.from == p.end && p.released != nil && p.released != p.o && p.end != p.last+p.o.timeout && l.o.retSq < p.released.callSeq {
				viol("L01", "two-holders", "%s was granted to %.8s before %.8s called release", kv, l.o.session, p.o.session)
			}
		}
		if len(ls) > 1 {
			r.Distinct(fmt.Sprint(n))
			r.Stat("locks handed over", 1)
		}
		r.Stat("grants", len(ls))
	}
	for _, o := range w.ops {
		if o.what != "obtain" {
			continue
		}
		until := o.ret
		if o.cancel >= 0 && o.cancel < until {
			until = o.cancel
		}
		if !o.done && o.cancel < 0 {
			until = w.now()
		}
		// [call, until] must be covered by leases of that lock
		t := o.call
		for moved := true; moved && t < until; {
			moved = false
			for _, l := range byLock[o.kv] {
				if l.from <= t && l.end > t && l.o != o {
					t, moved = l.end, true
				}
			}
		}
		if t < until {
			viol("L03,L04", "free-but-waiting", "%s was free from %v on but a client waiting for it since %v had not obtained it by %v", o.kv, t, o.call, until)
		}
		if o.ret > until {
			viol("L03", "cancel-blocked", "an obtain cancelled at %v kept the service busy until %v: %v", until, o.ret, o)
		}
		// a caller that left before the lock was free must not get it
		if o.cancel >= 0 && o.session != "" {
			r.Stat("cancelled while being granted", 1)
			if o.ret > o.cancel {
				viol("L03", "cancelled-granted", "an obtain cancelled at %v was granted at %v: %v", o.cancel, o.ret, o)
			}
		}
		r.Stat("obtains", 1)
		if o.cancel >= 0 {
			r.Stat("obtains cancelled", 1)
		}
	}
	for _, s := range w.snaps {
		w.checkSnap(s, byLock, viol)
	}
	r.Eval(1)
	if n%1000 == 0 {
		r.Sample(map[string]any{"case": n, "history": hist})
	}
}

func (w *world) checkSnap(s snap, byLock map[string][]*lease, viol func(props, key, format string, a ...any)) {
	r := w.r
	if s.resp.Status != 200 {
		viol("L05", "query-failed", "a lock query at %v was answered with %s", s.at, s.resp.Text())
		return
	}
	var got v1locker.Locks
	if err := json.Unmarshal(s.resp.Body, &got); err != nil {
		viol("L05", "query-answer", "a lock query's answer cannot be read: %v", err)
		return
	}
	// what happens in the same instant may be in the answer or not
	for _, o := range w.ops {
		if o.call == s.at || o.done && o.ret == s.at || o.cancel == s.at {
			r.Stat("lock queries at the instant of a change", 1)
			return
		}
	}
	for _, ls := range byLock {
		for _, l := range ls {
			if l.end == s.at {
				r.Stat("lock queries at the instant of a change", 1)
				return
			}
		}
	}
	want := map[string]string{}
	for kv, ls := range byLock {
		for _, l := range ls {
			if l.from < s.at && s.at < l.end {
				last := l.from
				for _, b := range l.beats {
					if b.ret < s.at && b.ret > last {
						last = b.ret
					}
				}
				if !vh.QueryHolds(s.query, l.o.id, w.kvs[kv]) {
					continue
				}
				n := 1
				for _, o := range w.ops {
					if o.what == "obtain" && o.kv == kv && o.call < s.at && (!o.done || o.ret > s.at) && (o.cancel < 0 || o.cancel > s.at) {
						n++
					}
				}
				want[kv] = fmt.Sprintf("id %s session %s timeout %v expires in %v clients %d", l.o.id, l.o.session, l.o.timeout, last+l.o.timeout-s.at, n)
			}
		}
	}
	w.r.Stat("lock queries", 1)
	w.r.Stat("locks in query answers", len(got))
	have := map[string]string{}
	for _, l := range got {
		if l.Spec == nil || l.Spec.DBDefinition == nil || l.Spec.Properties == nil || l.Spec.Properties.Timeout == nil || l.State == nil {
			viol("L05", "query-answer", "a lock query's answer is incomplete: %s", s.resp.Text())
			return
		}
		k := vh.KVS(vh.KV(l.Spec.DBDefinition.KeyValues))
		if have[k] != "" {
			viol("L05", "query-twice", "a lock query lists %s twice", k)
		}
		have[k] = fmt.Sprintf("id %s session %s timeout %v expires in %v clients %d", l.State.LockID, l.State.SessionID, *l.Spec.Properties.Timeout, l.State.TimeTillExipre, l.State.LocksHeldOrWaiting)
	}
	if a, b := vh.JSON(have), vh.JSON(want); a != b {
		key := "query-differs"
		if strings.Count(a, "session") != strings.Count(b, "session") {
			key = "query-other-locks"
		}
		viol("L05", key, "a lock query %s at %v returned %s, but these locks existed: %s", vh.JSON(s.query), s.at, a, b)
	}
}
