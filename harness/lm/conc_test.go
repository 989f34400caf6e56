package lm

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
)

// cop is one change of a counter. What the service did is taken from the
// service's side, also when the caller left or the answer was lost.
type cop struct {
	kv        vh.KV
	n         int64 // negative: decrement
	call, ret int
	at        time.Duration
	status    int // what the service answered
	body      string
	gone      bool // the caller left before
	done      bool
	took      time.Duration
}

func (o *cop) String() string {
	s := fmt.Sprintf("[%d-%d] %v +%d %s -> %d", o.call, o.ret, o.at, o.n, vh.KVS(o.kv), o.status)
	if o.gone {
		s += " (caller left)"
	}
	return s
}

type cworld struct {
	r    *vh.R
	g    *rand.Rand
	mu   sync.Mutex
	seq  int
	base time.Time
	net  *svc.Net
	c    cl
	m    *model // the rules, fixed
	ops  []*cop
	n    int

	// faults between limiter and locker
	faulty  bool
	notes   []string
	noDrop  bool // no release was disturbed and no granted answer lost
	healthy bool
}

func (w *cworld) rnd(n int) int { w.mu.Lock(); defer w.mu.Unlock(); return w.g.IntN(n) }

func (w *cworld) history() []string {
	out := append([]string(nil), w.notes...)
	for _, o := range w.ops {
		out = append(out, o.String())
	}
	return out
}

func (w *cworld) bad(props, key, f string, a ...any) {
	w.r.PV(props, key, w.history(), "case %d: %s", w.n, fmt.Sprintf(f, a...))
}

func (w *cworld) change(kv vh.KV, n int64, giveUp time.Duration) *cop {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ctx, tr := svc.WithTrace(ctx)
	w.mu.Lock()
	w.seq++
	o := &cop{kv: kv, n: n, call: w.seq, at: time.Since(w.base)}
	w.ops = append(w.ops, o)
	w.mu.Unlock()
	if giveUp >= 0 {
		if giveUp == 0 {
			go cancel()
		} else {
			defer time.AfterFunc(giveUp, cancel).Stop()
		}
	}
	res := cl{net: w.net, ctx: ctx}.do("PUT", "counters", counterBody(kv, n))
	<-tr.Done
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seq++
	o.ret, o.done, o.gone = w.seq, true, res.Err != nil
	o.status, o.body = tr.Status, string(tr.Body)
	o.took = time.Since(w.base) - o.at
	w.r.Step()
	return o
}

// ok says whether the change took place.
func (o *cop) ok() bool { return o.status == 200 }

func shareKV(g *rand.Rand, pool []vh.KV) vh.KV { return vh.Clone(pool[g.IntN(len(pool))]) }

// TestLimiterConcurrent runs concurrent increments and decrements against
// fixed rules, with a real locker, and checks the recorded history.
func TestLimiterConcurrent(t *testing.T) {
	r := vh.Start(t, "histories with two increments in flight under one limit")
	defer r.Finish()
	vsched.Set(1, 4, 0)
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(250, 20000) && !r.Bad(); n++ {
		g := vh.Rand("limiterconc", n)
		r.Context("case %d", n)
		r.Guard("limiter requests", n, func() { synctest.Test(t, func(t *testing.T) { concCase(t, r, g, n) }) })
	}
}

func (w *cworld) setup() (stop func()) {
	w.net = svc.NewNet(w.r)
	w.net.Dial()
	w.base = time.Now()
	w.net.Fault = w.fault
	stopLocker := w.net.Locker("locker", 5*time.Second)
	stopLimiter := w.net.Limiter("limiter", "http://locker")
	w.c = cl{net: w.net}
	w.m = &model{rules: map[string]*entry{}, counters: map[string]*counter{}}
	w.healthy, w.noDrop = true, true
	return func() { stopLimiter(); synctest.Wait(); stopLocker(); synctest.Wait() }
}

func (w *cworld) addRules() {
	for i := 1 + w.g.IntN(3); i > 0; i-- {
		kv, limit := groupKV(w.g), genLimit(w.g)
		res := w.c.do("POST", "rules", ruleBody(kv, limit))
		var got v1limiter.Rule
		if res.Status != 201 || json.Unmarshal(res.Body, &got) != nil || got.State == nil {
			continue
		}
		e := &entry{id: got.State.ID, kv: kv, limit: limit, over: map[string]*entry{}}
		w.m.rules[e.id] = e
		w.notes = append(w.notes, "rule "+entryLine("", kv, limit))
		for j := w.g.IntN(3); j > 0; j-- {
			okv, olimit := overrideKV(w.g, kv), genLimit(w.g)
			res := w.c.do("POST", "rules/"+e.id+"/overrides", overBody(okv, olimit))
			var got v1limiter.Override
			if res.Status != 201 || json.Unmarshal(res.Body, &got) != nil || got.State == nil {
				continue
			}
			e.over[got.State.ID] = &entry{id: got.State.ID, kv: okv, limit: olimit}
			w.notes = append(w.notes, "   override "+entryLine("", okv, olimit))
		}
	}
}

// answers a locker should never give, and some that it may
var oddAnswers = []struct {
	status int
	body   string
}{
	{500, `{"Message":"broken"}`}, {500, ``}, {500, `<html>`}, {503, ``}, {404, ``}, {409, `{"Message":"busy"}`},
	{400, `{"Message":"bad"}`}, {400, `nope`}, {200, ``}, {200, `{}`}, {200, `null`}, {200, `[]`}, {200, `{"Spec":null}`}, {200, `garbage`}, {204, ``}, {302, ``},
	{200, `{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":13,"Data":"x"}}},"Properties":{"Timeout":1000000000}}}`},
	{200, `{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":13,"Data":"x"}}}},"State":{"LockID":"l","SessionID":"s","LocksHeldOrWaiting":1}}`},
	{200, `{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":13,"Data":"x"}}},"Properties":{"Timeout":0}},"State":{"LockID":"l","SessionID":"s","LocksHeldOrWaiting":1}}`},
	{200, `{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":13,"Data":"x"}}},"Properties":{"Timeout":1}},"State":{"LockID":"l","SessionID":"s","LocksHeldOrWaiting":1}}`},
	{200, `{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":13,"Data":"x"}}},"Properties":{"Timeout":-5}},"State":{"LockID":"l","SessionID":"s","LocksHeldOrWaiting":1}}`},
	{200, `{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":13,"Data":"x"}}},"Properties":{"Timeout":1000000000}},"State":{"LockID":"","SessionID":"","LocksHeldOrWaiting":1}}`},
	{200, `{"Spec":{"Properties":{"Timeout":1000000000}},"State":{"LockID":"l","SessionID":"s","LocksHeldOrWaiting":1}}`},
}

func (w *cworld) fault(req *http.Request, body []byte) *svc.Fault {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.faulty || req.URL.Host != "locker" {
		return nil
	}
	note := func(f string, a ...any) {
		w.notes = append(w.notes, fmt.Sprintf("%v %s %s: ", time.Since(w.base), req.Method, req.URL.Path)+fmt.Sprintf(f, a...))
		w.r.Stat("faults", 1)
	}
	beat := strings.HasSuffix(req.URL.Path, "/heartbeat")
	if beat {
		if w.g.IntN(3) > 0 {
			note("refused")
			return &svc.Fault{Refuse: true}
		}
		return nil
	}
	if req.Method == "DELETE" {
		if w.g.IntN(10) == 0 {
			note("refused")
			w.noDrop = false
			return &svc.Fault{Refuse: true}
		}
		return nil
	}
	switch w.g.IntN(10) {
	case 0:
		note("refused")
		return &svc.Fault{Refuse: true}
	case 1:
		note("answer lost")
		w.noDrop = false
		return &svc.Fault{Lose: true}
	case 2, 3:
		a := oddAnswers[w.g.IntN(len(oddAnswers))]
		note("answered %d %s", a.status, a.body)
		return &svc.Fault{Answer: &http.Response{StatusCode: a.status, Status: fmt.Sprint(a.status), Header: http.Header{"Content-Type": {"application/json"}}, ContentLength: int64(len(a.body)),
			Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Body: io.NopCloser(strings.NewReader(a.body))}}
	case 4:
		d := time.Duration(1+w.g.IntN(30)) * 77 * time.Millisecond
		note("delayed by %v", d)
		return &svc.Fault{Before: func() { time.Sleep(d) }}
	}
	return nil
}

func concCase(t *testing.T, r *vh.R, g *rand.Rand, n int) {
	w := &cworld{r: r, g: g, n: n}
	stop := w.setup()
	w.addRules()
	var pool []vh.KV
	for i := 2 + g.IntN(3); i > 0; i-- {
		pool = append(pool, counterKV(g))
	}
	for _, e := range w.m.rules { // some that match
		kv := counterKV(g)
		for k, v := range e.kv {
			kv[k] = v
			if v.Type == 1024 {
				kv[k] = val(g)
			}
		}
		pool = append(pool, kv)
	}
	w.faulty = g.IntN(2) == 0
	giveUps := g.IntN(3) == 0
	var wg sync.WaitGroup
	for i := 2 + g.IntN(4); i > 0; i-- {
		steps := 2 + g.IntN(5)
		wg.Go(func() {
			var held []*cop
			for ; steps > 0; steps-- {
				if w.rnd(4) == 0 {
					time.Sleep(time.Duration(w.rnd(300)) * time.Millisecond)
				}
				if len(held) > 0 && w.rnd(3) == 0 {
					o := held[0]
					k := o.n
					if k > 1 && w.rnd(2) == 0 {
						k = 1
					}
					held = held[1:]
					if d := w.change(o.kv, -k, -1); !d.ok() {
						w.bad("R03", "decrement", "a decrement was answered %d %s", d.status, d.body)
					}
					continue
				}
				w.mu.Lock()
				kv, k := shareKV(w.g, pool), int64(1)
				if w.g.IntN(3) == 0 {
					k += int64(w.g.IntN(3))
				}
				giveUp := time.Duration(-1)
				if giveUps && w.g.IntN(3) == 0 {
					giveUp = time.Duration(w.g.IntN(4)) * 450 * time.Millisecond
				}
				w.mu.Unlock()
				if o := w.change(kv, k, giveUp); o.ok() {
					held = append(held, o)
				}
			}
		})
	}
	wg.Wait()
	synctest.Wait()
	w.check()
	if !r.Bad() {
		w.heal()
	}
	stop()
	r.Eval(1)
	r.Stat("requests", int(w.net.Requests.Load()))
}

// check decides the history.
func (w *cworld) check() {
	groups := map[string]vh.KV{}
	limit := map[string]int64{} // the largest limit of a group some increment was held to
	both := false
	for _, o := range w.ops {
		if o.n < 0 {
			continue
		}
		if !o.ok() && o.status != 409 && (!w.faulty || o.status != 500) && !o.gone {
			w.bad("R05,R02", "answer", "an increment was answered %d %s: %s", o.status, o.body, o)
		}
		if !o.ok() && !o.gone {
			var e struct{ Message string }
			if json.Unmarshal([]byte(o.body), &e) != nil || e.Message == "" {
				w.bad("R05", "answer-message", "a refusal without a message: %d %q", o.status, o.body)
			}
		}
		for _, l := range w.m.limitsOf(o.kv) {
			if l.limit != -1 {
				groups[vh.KVS(l.kv)] = l.kv
				if l.limit > limit[vh.KVS(l.kv)] {
					limit[vh.KVS(l.kv)] = l.limit
				}
			}
		}
	}
	// R01: at the moment an increment is accepted under a limit, what its
	// group certainly counts then is within it
	for _, o := range w.ops {
		if o.n < 0 {
			continue
		}
		for _, l := range w.m.limitsOf(o.kv) {
			if l.limit == -1 {
				continue
			}
			e := &entry{kv: l.kv}
			if o.ok() {
				// taken in before o was asked for, not given back before o was done
				sure := o.n
				for _, p := range w.ops {
					if p == o || !matches(e, p.kv) || !p.ok() {
						continue
					}
					if p.n > 0 && p.ret < o.call {
						sure += p.n
					}
					if p.n < 0 && p.call < o.ret {
						sure += p.n
					}
				}
				if sure > l.limit {
					w.bad("R01,R02", "over-limit", "%s was accepted under %s with limit %d: its group counts at least %d then", o, l.what, l.limit, sure)
				}
			}
			for _, p := range w.ops {
				if p != o && p.n > 0 && matches(e, p.kv) && p.call < o.ret && o.call < p.ret {
					both = true
				}
			}
		}
		if o.status == 409 {
			possible := false
			ls := w.m.limitsOf(o.kv)
			for _, l := range ls {
				if l.limit == -1 {
					continue
				}
				e := &entry{kv: l.kv}
				most := o.n
				for _, p := range w.ops {
					if p == o || !matches(e, p.kv) || !p.ok() {
						continue
					}
					if p.n > 0 && p.call < o.ret {
						most += p.n
					}
					if p.n < 0 && p.ret < o.call {
						most += p.n
					}
				}
				if most > l.limit {
					possible = true
				}
			}
			if !possible {
				w.bad("R02", "refused", "%s was refused although none of its limits can have been reached: %v", o, ls)
			}
		}
	}
	if both {
		w.r.Distinct(fmt.Sprint(w.n))
	}
	// totals of groups all of whose increments are held to the limit
	for gk, gkv := range groups {
		e := &entry{kv: gkv}
		all := true
		for _, o := range w.ops {
			if o.n > 0 && matches(e, o.kv) {
				held := false
				for _, l := range w.m.limitsOf(o.kv) {
					held = held || vh.KVS(l.kv) == gk && l.limit != -1
				}
				all = all && held
			}
		}
		if !all {
			continue
		}
		w.r.Stat("groups under a limit", 1)
		var at []int
		for _, o := range w.ops {
			if o.n > 0 && o.ok() && matches(e, o.kv) {
				at = append(at, o.ret)
			}
		}
		for _, s := range at {
			least := int64(0)
			for _, p := range w.ops {
				if matches(e, p.kv) && p.ok() && (p.n > 0 && p.ret <= s || p.n < 0 && p.call < s) {
					least += p.n
				}
			}
			w.r.Max("units counted in a group", int(least))
			if least == limit[gk] {
				w.r.Stat("times a group was full", 1)
			}
			if least > limit[gk] {
				w.bad("R01", "group-over-limit", "the group %s counts at least %d at %d although its limit is %d", gk, least, s, limit[gk])
			}
		}
	}
	w.conserved("R03,R05", "conservation")
}

func (w *cworld) sums() map[string]int64 {
	sums := map[string]int64{}
	for _, o := range w.ops {
		if o.ok() {
			sums[vh.KVS(o.kv)] += o.n
		}
	}
	return sums
}

// conserved compares the counters with the changes that took place; no
// decrement ever took away more than was there.
func (w *cworld) conserved(props, key string) {
	res := w.c.do("GET", "counters/query", anyQuery)
	got, err := countersOf(res.Body)
	var want []string
	for k, v := range w.sums() {
		if v > 0 {
			want = append(want, fmt.Sprintf("%s=%d", k, v))
		}
	}
	sort.Strings(want)
	if err != nil || res.Status != 200 || strings.Join(got, "\n") != strings.Join(want, "\n") {
		w.bad(props, key, "the counters are %v (%d, error %v) although the accepted changes add up to %v", got, res.Status, err, want)
	}
}

func (w *cworld) locks() (n int, text string) {
	res := w.net.Do(context.Background(), "GET", "http://locker/v1/locks", []byte("{}"))
	var ls []any
	if res.Status != 200 || json.Unmarshal(res.Body, &ls) != nil {
		return -1, res.Text()
	}
	return len(ls), string(res.Body)
}

// heal ends the faults: nothing must be left of what failed.
func (w *cworld) heal() {
	w.mu.Lock()
	was := w.faulty
	w.faulty = false
	w.mu.Unlock()
	if w.noDrop {
		if n, s := w.locks(); n != 0 {
			w.bad("R05", "locks-left", "all increments are answered but the locker still has %d locks: %s", n, s)
			return
		}
		w.r.Stat("times all locks were seen returned", 1)
	} else {
		time.Sleep(1001 * time.Millisecond) // the locks that nobody could give back expire
		synctest.Wait()
		if n, s := w.locks(); n != 0 {
			w.bad("R05", "locks-left-later", "all increments were answered a second ago but the locker still has %d locks: %s", n, s)
			return
		}
	}
	if was {
		w.r.Stat("times healed", 1)
	}
	// later increments are decided as if nothing had failed
	w.mu.Lock()
	ops := append([]*cop(nil), w.ops...)
	w.mu.Unlock()
	for _, o := range ops {
		if o.n < 0 {
			continue
		}
		m := &model{rules: w.m.rules, counters: map[string]*counter{}}
		for _, p := range w.ops {
			if p.ok() {
				if m.counters[vh.KVS(p.kv)] == nil {
					m.counters[vh.KVS(p.kv)] = &counter{kv: p.kv}
				}
				m.counters[vh.KVS(p.kv)].n += p.n
			}
		}
		why := m.refusedBy(o.kv, 1)
		x := w.change(o.kv, 1, -1)
		if (why == "") != x.ok() || why != "" && x.status != 409 {
			w.bad("R05,R02", "after", "%d %s to %s afterwards, when it should be refused by %q", x.status, x.body, x, why)
			return
		}
		if x.took > 0 {
			w.bad("R05", "after-slow", "%s waited %v for its locks although nothing else is going on", x, x.took)
			return
		}
	}
	w.conserved("R03,R05", "conservation-later")
}
