package mx

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/url"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
)

// TestHostile sends the same valid requests to two equal worlds, and hostile
// requests to the first only: the worlds must stay equal.
func TestHostile(t *testing.T) {
	r := vh.Start(t, "(kind of request, what is wrong with it, answer) of hostile requests between valid ones")
	defer r.Finish()
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(400, 12000) && !r.Bad(); n++ {
		g := vh.Rand("hostile", n)
		r.Context("case %d", n)
		r.Guard("hostile requests", n, func() { synctest.Test(t, func(t *testing.T) { hostileCase(r, g, n) }) })
	}
}

type pending struct {
	q      call
	fa, fb *flight
	until  time.Time
}

func hostileCase(r *vh.R, g *rand.Rand, n int) {
	net := svc.NewNet(r)
	net.Dial()
	a, b := newWorld("a", net), newWorld("b", net)
	defer b.close()
	defer a.close()
	k := &known{}
	var log []string
	failed := false
	bad := func(key, f string, x ...any) {
		failed = true
		if len(log) > 60 {
			log = log[len(log)-60:]
		}
		r.PV("V02", key, log, "case %d: %s", n, fmt.Sprintf(f, x...))
	}
	say := func(f string, x ...any) { log = append(log, fmt.Sprintf(f, x...)); r.Step() }
	net.Panics = func(path string, p any, stack []byte) {
		failed = true
		r.Panic("request "+path, log, p, stack)
	}
	// same compares two answers; false ends the case
	same := func(q call, fa, fb *flight) bool {
		ra, rb := fa.res, fb.res
		if (ra.Err != nil) != (rb.Err != nil) || ra.Status != rb.Status || ra.OK() && plain(ra.Body) != plain(rb.Body) {
			if q.kind == "deq" && q.class != valid && ra.OK() && rb.OK() {
				r.Stat("cases left when a dequeue had a choice", 1)
				failed = true
				return false
			}
			bad("differs:"+q.kind, "%v\n answers %s\n and without the refused requests %s", q, ra.Text(), rb.Text())
			return false
		}
		return true
	}
	capture := func(q call, fa, fb *flight) {
		if q.handle == "" || !fa.res.OK() || !fb.res.OK() {
			return
		}
		for _, x := range []struct {
			w *world
			f *flight
		}{{a, fa}, {b, fb}} {
			switch q.kind {
			case "lock":
				x.w.ids[q.handle+".id"] = field(x.f.res.Body, "State", "LockID")
				x.w.ids[q.handle+".session"] = field(x.f.res.Body, "State", "SessionID")
			default:
				x.w.ids[q.handle] = field(x.f.res.Body, "State", "ID")
			}
		}
		switch q.kind {
		case "lock":
			k.locks = append(k.locks, q.handle)
		case "rule":
			k.rules = append(k.rules, q.handle)
		case "over":
			k.overs = append(k.overs, [2]string{q.queue, q.handle})
		case "deq":
			k.items = append(k.items, item{q.handle, q.queue, q.kv})
		}
	}
	var waiting []*pending
	settle := func() {
		var rest []*pending
		for _, p := range waiting {
			if !p.fa.finished() && !p.fb.finished() && !time.Now().Before(p.until) {
				p.fa.cancel()
				p.fb.cancel()
				synctest.Wait()
			}
			da, db := p.fa.finished(), p.fb.finished()
			if da != db {
				bad("differs:"+p.q.kind, "%v\n answers %s\n and without the refused requests %s", p.q, p.fa.text(), p.fb.text())
			} else if !da {
				rest = append(rest, p)
			} else if same(p.q, p.fa, p.fb) {
				say("%v (waited) -> %s", p.q, p.fa.text())
				capture(p.q, p.fa, p.fb)
			}
		}
		waiting = rest
	}
	defer func() {
		for _, p := range waiting {
			p.fa.cancel()
			p.fb.cancel()
		}
		synctest.Wait()
	}()
	advance := func(d time.Duration) {
		// all at the same instants: one step per 100ms so that pending requests end on time
		for end := time.Now().Add(d); ; {
			next := end
			for _, p := range waiting {
				if p.until.Before(next) {
					next = p.until
				}
			}
			if x := time.Until(next); x > 0 {
				time.Sleep(x)
			}
			synctest.Wait()
			settle()
			if !time.Now().Before(end) {
				return
			}
		}
	}
	compareAll := func() {
		var qs []string
		for _, q := range queueNames {
			qs = append(qs, url.PathEscape(q))
		}
		for _, q := range states(qs, k.rules) {
			fa, fb := both(a, b, q)
			if !fa.finished() || !fb.finished() {
				bad("no-answer:state", "%v: %s, %s", q, fa.text(), fb.text())
				return
			}
			if fa.res.Err != nil || fa.res.Status >= 500 {
				bad("error:state", "%v: %s", q, fa.text())
				return
			}
			if !same(q, fa, fb) {
				return
			}
		}
	}
	start := time.Now()
	steps := 40 + g.IntN(40)
	for i := 0; i < steps && !failed; i++ {
		// no two steps on the same millisecond of a tenth of a second, so that no
		// timeout expires at the instant of another step
		d := time.Duration(g.IntN(4)) * 100 * time.Millisecond
		at := time.Since(start).Truncate(100*time.Millisecond) + d + time.Duration(i+1)*time.Millisecond
		if at < time.Since(start) {
			at += 100 * time.Millisecond
		}
		advance(at - time.Since(start))
		if failed {
			return
		}
		if i >= 6 && g.IntN(2) == 0 {
			q := hostile(g, k)
			fa := a.send(q)
			synctest.Wait()
			say("HOSTILE %v -> %s", q, fa.text())
			r.Eval(1)
			if failed {
				return
			}
			switch {
			case !fa.finished() && q.class == invalid:
				bad("waits:"+q.kind, "an invalid request is not answered: %v", q)
			case !fa.finished():
				fb := b.send(q)
				synctest.Wait()
				if fb.finished() {
					bad("differs:"+q.kind, "%v\n waits, and without the refused requests answers %s", q, fb.text())
				}
				fa.cancel()
				synctest.Wait()
				fb.cancel()
				synctest.Wait()
				r.Stat("hostile requests left waiting", 1)
			case fa.res.Err != nil:
				bad("aborted:"+q.kind, "the connection is aborted: %v: %v", q, fa.res.Err)
			case fa.res.Status >= 500:
				bad(fmt.Sprintf("status-%d:%s", fa.res.Status, q.kind), "%s to %v", fa.text(), q)
			case fa.res.Status >= 400:
				r.Stat("hostile requests refused", 1)
				if !hasMessage(fa.res) {
					bad("message:"+q.kind, "a refusal without a message: %d %q to %v", fa.res.Status, fa.res.Body, q)
				}
			case fa.res.Status < 200 || fa.res.Status >= 300:
				bad("status:"+q.kind, "%s to %v", fa.text(), q)
			case q.class == invalid:
				bad("accepted:"+q.kind, "an invalid request is accepted: %s to %v", fa.text(), q)
			default:
				r.Stat("hostile requests accepted", 1)
				fb := b.send(q)
				synctest.Wait()
				if !fb.finished() {
					bad("differs:"+q.kind, "%v\n answers %s, and without the refused requests waits", q, fa.text())
				} else if same(q, fa, fb) {
					capture(q, fa, fb)
				}
			}
			if fa.finished() {
				r.Distinct(fmt.Sprintf("%s %s %d %d", q.kind, q.label, fa.res.Status, len(fa.res.Body)))
			}
			if g.IntN(4) == 0 && !failed {
				settle()
				compareAll()
			}
			continue
		}
		kind := kinds[g.IntN(len(kinds))]
		if i < 6 {
			kind = []string{"queue", "rule", "lock", "enq", "over", "deq"}[i]
		}
		q := request(g, k, kind)
		if q.waitKey != "" {
			for _, p := range waiting {
				if p.q.waitKey == q.waitKey {
					q.kind = ""
				}
			}
			if q.kind == "" {
				continue
			}
		}
		fa, fb := both(a, b, q)
		if failed {
			return
		}
		if fa.finished() != fb.finished() {
			bad("differs:"+q.kind, "%v\n answers %s\n and without the refused requests %s", q, fa.text(), fb.text())
			return
		}
		if !fa.finished() {
			if q.wait == 0 {
				bad("waits:"+q.kind, "no answer to %v", q)
				return
			}
			say("%v waits", q)
			waiting = append(waiting, &pending{q, fa, fb, time.Now().Add(q.wait)})
			continue
		}
		say("%v -> %s", q, fa.text())
		switch {
		case fa.res.Err != nil || fa.res.Status >= 500:
			bad(fmt.Sprintf("status-%d:%s", fa.res.Status, q.kind), "%s to the valid %v", fa.text(), q)
		case fa.res.Status == 400 && q.kind != "over":
			bad("refused:"+q.kind, "%s to the valid %v", fa.text(), q)
		case fa.res.Status > 400 && !hasMessage(fa.res):
			bad("message:"+q.kind, "a refusal without a message: %d %q to %v", fa.res.Status, fa.res.Body, q)
		case same(q, fa, fb):
			capture(q, fa, fb)
			r.Stat("valid requests", 1)
		}
		settle()
	}
	if !failed {
		compareAll()
	}
	if !failed {
		advance(10*time.Second + 999*time.Microsecond)
		if !failed {
			compareAll()
		}
	}
	for _, p := range waiting {
		p.fa.cancel()
		p.fb.cancel()
	}
	synctest.Wait()
	if x := net.InFlight.Load(); x != 0 && !failed {
		bad("stuck", "%d requests are never answered", x)
	}
}

func hasMessage(res svc.Resp) bool {
	var e struct{ Message string }
	if json.Unmarshal(res.Body, &e) == nil {
		return e.Message != ""
	}
	return strings.TrimSpace(string(res.Body)) != ""
}
