package wl

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/http"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// aop is one request about a queue: create get list update delete enqueue.
type aop struct {
	what   string
	name   string
	max    int64
	status int
	has    bool // get, list: the queue is reported
	got    int64
	text   string
}

func (o *aop) String() string {
	s := fmt.Sprintf("%s %s", o.what, o.name)
	if o.what == "create" || o.what == "update" {
		s += fmt.Sprintf(" max=%d", o.max)
	}
	s += fmt.Sprintf(" -> %d", o.status)
	if o.has {
		s += fmt.Sprintf(" max=%d", o.got)
	} else if o.status >= 400 {
		s += " " + o.text
	}
	return s
}

type ahistory struct {
	mu    sync.Mutex
	ops   []vh.LOp
	notes []string
}

func (h *ahistory) text() []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	out := append([]string(nil), h.notes...)
	for _, o := range h.ops {
		out = append(out, fmt.Sprintf("[%d-%d] %s", o.Call, o.Ret, o.In))
	}
	return out
}

// TestWillowAdmin runs concurrent requests that manage queues, with consumers
// waiting for items and a limiter that fails at times, and looks for an order
// that explains all the answers.
func TestWillowAdmin(t *testing.T) {
	r := vh.Start(t, "histories with overlapping requests about one queue")
	defer r.Finish()
	vsched.Set(1, 4, 0)
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(400, 15000) && !r.Bad(); n++ {
		g := vh.Rand("willowadmin", n)
		r.Context("case %d", n)
		r.Guard("willow requests", n, func() { synctest.Test(t, func(t *testing.T) { adminCase(r, g, n) }) })
	}
}

func adminCase(r *vh.R, g *rand.Rand, n int) {
	net := svc.NewNet(r)
	net.Dial()
	stopLocker := net.Locker("locker", 5*time.Second)
	stopLimiter := net.Limiter("limiter", "http://locker")
	stopWillow, ruleID := net.Willow("willow", "http://limiter")
	defer func() {
		stopWillow()
		synctest.Wait()
		stopLimiter()
		synctest.Wait()
		stopLocker()
		synctest.Wait()
	}()
	c := cl{net}
	h := &ahistory{}
	faulty, calm := n%3 == 2, false
	vsched.Set(1, uint64(2+g.IntN(12)), 0)
	net.Fault = func(req *http.Request, body []byte) *svc.Fault {
		h.mu.Lock()
		defer h.mu.Unlock()
		// One failure is survived; the Limiter answers the lookup that follows.
		if !faulty || calm || req.URL.Host != "limiter" || !strings.Contains(req.URL.Path, "/overrides") || req.Method == "GET" && !strings.HasSuffix(req.URL.Path, "query") || g.IntN(5) > 0 {
			return nil
		}
		r.Stat("limiter failures", 1)
		f := &svc.Fault{Refuse: g.IntN(2) == 0}
		f.Lose = !f.Refuse
		h.notes = append(h.notes, fmt.Sprintf("at %d: limiter %s %s refused=%v lost=%v", vh.Tick(), req.Method, req.URL.Path, f.Refuse, f.Lose))
		return f
	}
	names := []string{"a", "b"}
	kv := vh.KV{"k": datatypes.Int(1)}
	run := func(o *aop, method, path string, body any) *aop {
		lo := vh.LOp{Call: vh.Tick(), In: o}
		res := c.willow(bg, method, path, body)
		r.Step()
		o.status, o.text = res.Status, res.Text()
		switch {
		case o.what == "get" && res.Status == 200:
			var q v1willow.Queue
			if err := json.Unmarshal(res.Body, &q); err == nil && q.Validate() == nil && *q.Spec.DBDefinition.Name == o.name {
				o.has, o.got = true, *q.Spec.Properties.MaxItems
			} else {
				o.status = -1
			}
		case o.what == "list" && res.Status == 200:
			var qs v1willow.Queues
			if err := json.Unmarshal(res.Body, &qs); err != nil {
				o.status = -1
			}
			for _, q := range qs {
				if q.Validate() != nil {
					o.status = -1
				} else if *q.Spec.DBDefinition.Name == o.name {
					if o.has {
						o.status = -2
					}
					o.has, o.got = true, *q.Spec.Properties.MaxItems
				}
			}
		}
		lo.Ret = vh.Tick()
		h.mu.Lock()
		h.ops = append(h.ops, lo)
		h.mu.Unlock()
		r.Stat(fmt.Sprintf("%s -> %d", o.what, o.status), 1)
		return o
	}
	maxes := []int64{-1, 0, 1, 2, 3}
	var workers, consumers sync.WaitGroup
	for i := 2 + g.IntN(3); i > 0; i-- {
		g := rand.New(rand.NewPCG(g.Uint64(), 1))
		workers.Go(func() {
			for i := 0; i < 7; i++ {
				o := &aop{name: names[g.IntN(4)/3], max: maxes[g.IntN(len(maxes))]}
				switch k := g.IntN(16); {
				case k < 4:
					o.what = "create"
					run(o, "POST", "", queueBody(o.name, o.max))
				case k < 6:
					o.what = "delete"
					for run(o, "DELETE", "/"+o.name, nil).status == 500 && faulty {
						// a queue that could not be deleted is left in between until it is
						time.Sleep(time.Duration(g.IntN(1e6)))
						o = &aop{what: "delete", name: o.name}
					}
				case k < 9:
					o.what = "update"
					run(o, "PUT", "/"+o.name, &v1willow.QueueProperties{MaxItems: &o.max})
				case k < 11:
					o.what = "get"
					run(o, "GET", "/"+o.name, nil)
				case k == 11:
					o.what = "list"
					run(o, "GET", "", nil)
				default:
					o.what = "enqueue"
					run(o, "POST", "/"+o.name+"/channels/items", itemBody(kv, props{data: "x", retries: 9, pos: "back", timeout: time.Hour}))
				}
				if g.IntN(4) == 0 {
					time.Sleep(time.Duration(g.IntN(1e7)))
				}
			}
		})
	}
	ctx, cancel := context.WithCancel(bg)
	for i := g.IntN(4); i > 0; i-- {
		name := names[g.IntN(4)/3]
		consumers.Go(func() {
			for ctx.Err() == nil {
				res := c.willow(ctx, "GET", "/"+name+"/channels/items", &qa.AssociatedActionQuery{})
				if res.Err == nil && res.Status != 200 && res.Status != 404 && res.Status != 409 {
					r.PV("W07,W09", "dequeue-answer", h.text(), "case %d: a dequeue is answered %s", n, res.Text())
				}
				time.Sleep(time.Millisecond)
			}
		})
	}
	workers.Wait()
	h.mu.Lock()
	calm = true
	h.mu.Unlock()
	// what is left: the maximum reported is the one enforced
	for _, name := range names {
		run(&aop{what: "get", name: name}, "GET", "/"+name, nil)
		for i := 0; i < 4; i++ {
			run(&aop{what: "enqueue", name: name}, "POST", "/"+name+"/channels/items", itemBody(kv, props{data: "x", retries: 9, pos: "back", timeout: time.Hour}))
		}
		run(&aop{what: "list", name: name}, "GET", "", nil)
	}
	r.Eval(1)
	overlap := 0
	for _, name := range names {
		var ops []vh.LOp
		for _, o := range h.ops {
			if o.In.(*aop).name == name {
				ops = append(ops, o)
			}
		}
		for i, x := range ops {
			for _, y := range ops[i+1:] {
				if x.Call < y.Ret && y.Call < x.Ret {
					overlap++
				}
			}
		}
		ok, decided := explain(ops, faulty)
		if !decided {
			r.Stat("undecided", 1)
		} else if !ok {
			r.PV("W09", "not-atomic", h.text(), "case %d: no order of the requests explains the answers about queue %s", n, name)
		}
	}
	r.Stat("overlapping pairs", overlap)
	if overlap > 0 {
		r.Distinct(fmt.Sprint(n))
	}
	// every queue can be removed, and nothing remains
	for _, name := range names {
		if res := c.willow(bg, "DELETE", "/"+name, nil); res.Status != 204 && res.Status != 404 {
			r.PV("W09", "delete-last", h.text(), "case %d: deleting queue %s is answered %s", n, name, res.Text())
		}
	}
	cancel()
	consumers.Wait()
	synctest.Wait()
	if got, err := c.counters(); err != nil || counterText(got) != "" {
		r.PV("W04,W07,W09", "leftover-counters", h.text(), "case %d: no queue is left, but the Limiter still counts %s %v", n, counterText(got), err)
	}
	if res := c.limiter("GET", "rules/"+ruleID+"/overrides/query", &qa.AssociatedActionQuery{}); res.Status != 200 || strings.TrimSpace(string(res.Body)) != "[]" && !faulty {
		r.PV("W09", "leftover-limit", h.text(), "case %d: no queue is left, but the Limiter answers %s about their limits", n, res.Text())
	}
	r.Sample(h.text())
}

type qstate struct {
	there bool
	half  bool // a deletion failed half way
	max   int64
	shown int64 // the maximum reported; max is the one enforced
	doing *aop  // the update that is enforced but not reported yet
	held  int64
}

// shown is the second step of an update: while it is in progress, the Limiter
// already enforces the new maximum and Willow still reports the old one.
type shown struct{ *aop }

func explain(ops []vh.LOp, faulty bool) (ok, decided bool) {
	busy := func(lo *vh.LOp) bool { // a deletion is in progress meanwhile
		for _, p := range ops {
			if p.In.(*aop).what == "delete" && p.Call < lo.Ret && lo.Call < p.Ret && p.In != lo.In {
				return true
			}
		}
		return false
	}
	steps := ops
	for _, lo := range ops {
		if o := lo.In.(*aop); o.what == "update" && o.status == 200 {
			lo.In = shown{o}
			steps = append(steps[:len(steps):len(steps)], lo)
		}
	}
	if len(steps) > 64 {
		return true, false
	}
	return vh.Linearizable(qstate{}, steps, func(v qstate, lo *vh.LOp) []qstate {
		same := []qstate{v}
		if s, ok := lo.In.(shown); ok {
			if v.doing != s.aop {
				return nil
			}
			v.shown, v.doing = v.max, nil
			return []qstate{v}
		}
		o := lo.In.(*aop)
		if o.status == 409 && busy(lo) && o.what != "list" {
			return same
		}
		switch o.what {
		case "create":
			if o.status == 201 && !v.there {
				return []qstate{{there: true, max: o.max, shown: o.max}}
			}
			if o.status == 409 && v.there || o.status == 500 && faulty && !v.there {
				return same
			}
		case "delete":
			if o.status == 204 && v.doing == nil {
				return []qstate{{}}
			}
			if o.status == 404 && !v.there {
				return same
			}
			if o.status == 500 && faulty && v.there {
				v.half, v.held = true, 0
				return []qstate{v}
			}
		case "update":
			if o.status == 200 && v.there && v.doing == nil {
				v.max, v.doing = o.max, o
				return []qstate{v}
			}
			if o.status == 404 && !v.there || o.status == 500 && faulty && v.there {
				return same
			}
		case "get":
			if v.there && o.status == 200 && o.has && o.got == v.shown || !v.there && o.status == 404 {
				return same
			}
		case "list":
			if o.status == 200 && v.there == o.has && (!o.has || o.got == v.shown) || o.status == 200 && busy(lo) && !o.has {
				return same
			}
		case "enqueue":
			if !v.there {
				if o.status == 404 {
					return same
				}
				return nil
			}
			if v.half && (o.status == 201 || o.status == 409) {
				if o.status == 201 {
					v.held++
				}
				return []qstate{v}
			}
			room := v.max < 0 || v.held < v.max
			if o.status == 201 && room {
				v.held++
				return []qstate{v}
			}
			if o.status == 409 && !room {
				return same
			}
		}
		return nil
	})
}
