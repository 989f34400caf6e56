package lm

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// aop is one request of a history that must be linearizable.
type aop struct {
	what   string
	slot   int // which entity
	n      int64
	id     string // the id asked for
	status int
	got    string // what was read
	body   string
}

type history struct {
	r   *vh.R
	mu  sync.Mutex
	ops []vh.LOp
	n   int
}

func (h *history) run(o *aop, f func() svc.Resp) svc.Resp {
	call := vh.Tick()
	res := f()
	ret := vh.Tick()
	h.mu.Lock()
	o.status, o.body = res.Status, res.Text()
	h.ops = append(h.ops, vh.LOp{Call: call, Ret: ret, In: o})
	h.mu.Unlock()
	h.r.Step()
	return res
}

func (h *history) text() []string {
	var out []string
	for _, o := range h.ops {
		a := o.In.(*aop)
		out = append(out, fmt.Sprintf("[%d-%d] %s #%d n=%d id=%.6s -> %d %s", o.Call, o.Ret, a.what, a.slot, a.n, a.id, a.status, a.got))
	}
	return out
}

// TestLimiterCounter checks that the counters are atomic: concurrent
// increments, decrements, sets and reads of a few exact key-value sets.
func TestLimiterCounter(t *testing.T) {
	r := vh.Start(t, "histories with overlapping changes of one counter")
	defer r.Finish()
	vsched.Set(1, 3, 0)
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(2000, 60000) && !r.Bad(); n++ {
		g := vh.Rand("limitercounter", n)
		r.Context("case %d", n)
		r.Guard("limiter requests", n, func() { synctest.Test(t, func(t *testing.T) { counterCase(r, g, n) }) })
	}
}

func counterCase(r *vh.R, g *rand.Rand, n int) {
	net := svc.NewNet(r)
	net.Dial()
	stopLocker := net.Locker("locker", 5*time.Second)
	stopLimiter := net.Limiter("limiter", "http://locker")
	defer func() { stopLimiter(); synctest.Wait(); stopLocker(); synctest.Wait() }()
	c := cl{net: net}
	// sets of which none is matched by another's query
	sets := []vh.KV{{"a": datatypes.Int(1)}, {"a": datatypes.Int(2), "b": datatypes.Int(1)}}
	limit := int64(-1)
	if g.IntN(2) == 0 {
		limit = int64(1 + g.IntN(4))
		if res := c.do("POST", "rules", ruleBody(vh.KV{"a": datatypes.Any()}, limit)); res.Status != 201 {
			r.PV("R03,R04", "create", nil, "case %d: rule refused: %s", n, res.Text())
			return
		}
	}
	h := &history{r: r, n: n}
	heavy := limit == -1 && g.IntN(3) == 0 // mostly sets
	gs := make([]*rand.Rand, 2+g.IntN(3))
	for i := range gs {
		gs[i] = rand.New(rand.NewPCG(g.Uint64(), 1))
	}
	var wg sync.WaitGroup
	for _, g := range gs {
		wg.Go(func() {
			for i := 0; i < 5; i++ {
				s := g.IntN(2)
				o := &aop{slot: s}
				kind := g.IntN(8)
				if heavy && kind < 5 {
					kind = []int{0, 3, 5, 5, 5}[kind]
				}
				switch kind {
				case 0, 1, 2:
					o.what, o.n = "inc", int64(1+g.IntN(2))
					h.run(o, func() svc.Resp { return c.do("PUT", "counters", counterBody(vh.Clone(sets[s]), o.n)) })
				case 3, 4:
					o.what, o.n = "dec", int64(1+g.IntN(2))
					h.run(o, func() svc.Resp { return c.do("PUT", "counters", counterBody(vh.Clone(sets[s]), -o.n)) })
				case 5:
					if limit != -1 { // a set between the check and the increment may go over the limit
						continue
					}
					o.what, o.n = "set", int64(g.IntN(4)-1)
					if heavy {
						o.n = int64(g.IntN(12) - 1)
					}
					h.run(o, func() svc.Resp { return c.do("PUT", "counters/set", counterBody(vh.Clone(sets[s]), o.n)) })
				default:
					o.what = "read"
					q := &qa.AssociatedActionQuery{Selection: &qa.Selection{KeyValues: qa.SelectionKeyValues{"a": qa.ValueQuery{Value: sets[s]["a"], Comparison: "=", TypeRestrictions: vh.AllTypes}}}}
					res := h.run(o, func() svc.Resp { return c.do("GET", "counters/query", q) })
					lines, err := countersOf(res.Body)
					h.mu.Lock()
					o.got = strings.Join(lines, ";")
					if err != nil {
						o.got = err.Error()
					}
					h.mu.Unlock()
				}
			}
		})
	}
	wg.Wait()
	synctest.Wait()
	overlap := 0
	for s, kv := range sets {
		var ops []vh.LOp
		for _, o := range h.ops {
			if o.In.(*aop).slot == s {
				ops = append(ops, o)
			}
		}
		for i, a := range ops {
			for _, b := range ops[i+1:] {
				if a.Call < b.Ret && b.Call < a.Ret {
					overlap++
				}
			}
		}
		ok, decided := vh.Linearizable(int64(0), ops, func(v int64, lo *vh.LOp) []int64 {
			o := lo.In.(*aop)
			switch o.what {
			case "inc":
				if limit != -1 && v+o.n > limit {
					if o.status == 409 {
						return []int64{v}
					}
					return nil
				}
				if o.status == 200 {
					return []int64{v + o.n}
				}
			case "dec":
				if o.status == 200 {
					return []int64{max(v-o.n, 0)}
				}
			case "set":
				if o.status == 200 {
					return []int64{max(o.n, 0)}
				}
			case "read":
				want := ""
				if v > 0 {
					want = fmt.Sprintf("%s=%d", vh.KVS(kv), v)
				}
				if o.status == 200 && o.got == want {
					return []int64{v}
				}
			}
			return nil
		})
		if !decided {
			r.Stat("undecided", 1)
		} else if !ok {
			r.PV("R03", "counter-not-atomic", h.text(), "case %d: no order of the requests explains the answers for the counter %s (limit %d)", n, vh.KVS(kv), limit)
		}
	}
	r.Eval(1)
	r.Stat("overlapping pairs", overlap)
	if overlap > 0 {
		r.Distinct(fmt.Sprint(n))
	}
}

// TestLimiterAdmin checks that rules and overrides are atomic collections:
// concurrent create, get, update, delete and search of a few group-by sets.
func TestLimiterAdmin(t *testing.T) {
	r := vh.Start(t, "histories with overlapping changes of one rule or override")
	defer r.Finish()
	vsched.Set(1, 3, 0)
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(2000, 60000) && !r.Bad(); n++ {
		g := vh.Rand("limiteradmin", n)
		r.Context("case %d", n)
		r.Guard("limiter requests", n, func() { synctest.Test(t, func(t *testing.T) { adminCase(r, g, n) }) })
	}
}

func adminCase(r *vh.R, g *rand.Rand, n int) {
	net := svc.NewNet(r)
	net.Dial()
	stopLocker := net.Locker("locker", 5*time.Second)
	stopLimiter := net.Limiter("limiter", "http://locker")
	defer func() { stopLimiter(); synctest.Wait(); stopLocker(); synctest.Wait() }()
	c := cl{net: net}
	a, any, one := "a", datatypes.Any(), datatypes.Int(1)
	sets := []vh.KV{{a: any}, {a: one}}
	if g.IntN(2) == 0 {
		sets[1] = vh.KV{a: any, "b": one}
	}
	h := &history{r: r, n: n}
	prefix, isRule := "rules", true
	root := ""
	overrideOfDead := g.IntN(3) == 0
	if g.IntN(2) == 0 { // the overrides of one rule
		isRule = false
		var got v1limiter.Rule
		res := c.do("POST", "rules", ruleBody(vh.KV{a: any}, 5))
		if json.Unmarshal(res.Body, &got) != nil || got.State == nil {
			r.PV("R04", "create", nil, "case %d: rule refused: %s", n, res.Text())
			return
		}
		root = got.State.ID
		prefix = "rules/" + root + "/overrides"
	}
	var mu sync.Mutex
	ids := [2][]string{}
	gs := make([]*rand.Rand, 2+g.IntN(3))
	for i := range gs {
		gs[i] = rand.New(rand.NewPCG(g.Uint64(), 1))
	}
	var wg sync.WaitGroup
	body := func(s int, limit int64) any2 {
		if isRule {
			return ruleBody(vh.Clone(sets[s]), limit)
		}
		return overBody(vh.Clone(sets[s]), limit)
	}
	linesOf := func(b []byte) []string {
		f := oversOf
		if isRule {
			f = rulesOf
		}
		l, err := f(b)
		if err != nil {
			return []string{err.Error()}
		}
		return l
	}
	line := func(s int, id string, limit int64) string { return entryLine(id, sets[s], limit) }
	for _, g := range gs {
		wg.Go(func() {
			for i := 0; i < 6; i++ {
				s := g.IntN(2)
				mu.Lock()
				id := fmt.Sprintf("missing%d", s)
				if l := len(ids[s]); l > 0 {
					id = ids[s][l-1]
					if g.IntN(5) == 0 {
						id = ids[s][g.IntN(l)]
					}
				}
				mu.Unlock()
				o := &aop{slot: s, id: id}
				switch k := g.IntN(10); {
				case k < 3:
					o.what, o.n = "create", int64(g.IntN(9))
					res := h.run(o, func() svc.Resp { return c.do("POST", prefix, body(s, o.n)) })
					if res.Status == 201 {
						var got struct{ State struct{ ID string } }
						_ = json.Unmarshal(res.Body, &got)
						h.mu.Lock()
						o.id = got.State.ID
						h.mu.Unlock()
						mu.Lock()
						ids[s] = append(ids[s], got.State.ID)
						mu.Unlock()
					}
				case k < 5:
					o.what = "delete"
					h.run(o, func() svc.Resp { return c.do("DELETE", prefix+"/"+id, nil) })
				case k == 5:
					o.what, o.n = "update", int64(g.IntN(9))
					h.run(o, func() svc.Resp { return c.do("PUT", prefix+"/"+id, &v1limiter.RuleProperties{Limit: &o.n}) })
				case k < 8:
					o.what = "get"
					res := h.run(o, func() svc.Resp { return c.do("GET", prefix+"/"+id, nil) })
					h.mu.Lock()
					if res.Status == 200 {
						o.got = strings.Join(linesOf([]byte("["+string(res.Body)+"]")), ";")
					}
					h.mu.Unlock()
				case k == 8:
					o.what = "query"
					q := &qa.AssociatedActionQuery{Selection: &qa.Selection{KeyValues: qa.SelectionKeyValues{}, MaxNumberOfKeyValues: vh.Ptr(len(sets[s]))}}
					for key, v := range sets[s] {
						tr := vh.AllTypes
						tr.MinDataType, tr.MaxDataType = v.Type, v.Type
						q.Selection.KeyValues[key] = qa.ValueQuery{Value: v, Comparison: "=", TypeRestrictions: tr}
					}
					res := h.run(o, func() svc.Resp { return c.do("GET", prefix+"/query", q) })
					h.mu.Lock()
					o.got = strings.Join(linesOf(res.Body), ";")
					h.mu.Unlock()
				default: // the limits are looked up meanwhile
					res := c.do("PUT", "counters", counterBody(vh.KV{a: one, "b": one}, 1))
					if res.Status != 200 && res.Status != 409 {
						r.PV("R04,R02", "increment", h.text(), "case %d: an increment during administration was answered %s", n, res.Text())
					}
				}
			}
		})
	}
	deleted := make(chan struct{})
	if !isRule && overrideOfDead {
		wg.Go(func() {
			time.Sleep(0)
			for i := g.IntN(30); i > 0; i-- {
				net.Do(context.Background(), "GET", host+"rules/none", nil)
			}
			close(deleted)
			if res := c.do("DELETE", "rules/"+root, nil); res.Status != 204 {
				r.PV("R04", "delete-with-overrides", h.text(), "case %d: deleting a rule while its overrides change: %s", n, res.Text())
			}
		})
	}
	wg.Wait()
	synctest.Wait()
	r.Eval(1)
	if !isRule && overrideOfDead {
		adminAfterDelete(r, c, h, n, root, prefix, ids)
		return
	}
	overlap := 0
	for s := range sets {
		var ops []vh.LOp
		for _, o := range h.ops {
			if o.In.(*aop).slot == s {
				ops = append(ops, o)
			}
		}
		for i, x := range ops {
			for _, y := range ops[i+1:] {
				if x.Call < y.Ret && y.Call < x.Ret {
					overlap++
				}
			}
		}
		type st struct {
			id    string
			limit int64
		}
		busy := func(lo *vh.LOp) bool { // a deletion is in progress meanwhile
			for _, p := range ops {
				if p.In.(*aop).what == "delete" && p.Call < lo.Ret && lo.Call < p.Ret && p.In != lo.In {
					return true
				}
			}
			return false
		}
		ok, decided := vh.Linearizable(st{}, ops, func(v st, lo *vh.LOp) []st {
			o := lo.In.(*aop)
			here := v.id != "" && v.id == o.id
			switch o.what {
			case "create":
				if o.status == 201 && v.id == "" {
					return []st{{o.id, o.n}}
				}
				if o.status == 409 && (v.id != "" || busy(lo)) {
					return []st{v}
				}
			case "delete":
				if o.status == 204 && here {
					return []st{{}}
				}
				if !here && (o.status == 404 && isRule || o.status == 204 && !isRule) || busy(lo) && (o.status == 409 || o.status == 204) {
					return []st{v}
				}
			case "update":
				if o.status == 200 && here {
					return []st{{v.id, o.n}}
				}
				if o.status == 404 && !here {
					return []st{v}
				}
				if o.status == 409 && busy(lo) {
					return []st{v}
				}
			case "get":
				if o.status == 200 && here && o.got == line(s, v.id, v.limit) || o.status == 404 && !here || o.status == 409 && busy(lo) {
					return []st{v}
				}
			case "query":
				want := ""
				if v.id != "" {
					want = line(s, v.id, v.limit)
				}
				if o.status == 200 && o.got == want {
					return []st{v}
				}
			}
			return nil
		})
		if !decided {
			r.Stat("undecided", 1)
		} else if !ok {
			r.PV("R04", "not-atomic", h.text(), "case %d: no order of the requests explains the answers for %s #%d %s", n, prefix, s, vh.KVS(sets[s]))
		}
	}
	r.Stat("overlapping pairs", overlap)
	if overlap > 0 {
		r.Distinct(fmt.Sprint(n))
	}
}

type any2 = interface{}

// adminAfterDelete: the rule is gone and nothing of its overrides is left.
func adminAfterDelete(r *vh.R, c cl, h *history, n int, root, prefix string, ids [2][]string) {
	r.Stat("rules deleted while their overrides changed", 1)
	for _, o := range h.ops {
		a := o.In.(*aop)
		if a.status >= 500 || a.status == 0 {
			r.PV("R04", "answer", h.text(), "case %d: %s of an override while its rule was deleted: %s", n, a.what, a.body)
		}
	}
	if res := c.do("GET", "rules/"+root, nil); res.Status != 404 {
		r.PV("R04", "rule-left", h.text(), "case %d: a deleted rule: %s", n, res.Text())
	}
	for _, l := range ids {
		for _, id := range l {
			if res := c.do("GET", prefix+"/"+id, nil); res.Status != 404 {
				r.PV("R04", "override-left", h.text(), "case %d: an override of a deleted rule: %s", n, res.Text())
			}
		}
	}
	if res := c.do("PUT", "counters", counterBody(vh.KV{"a": datatypes.Int(1)}, 1000)); res.Status != 200 {
		r.PV("R04,R02", "limit-left", h.text(), "case %d: no rule is left but an increment is answered %s", n, res.Text())
	}
	var got v1limiter.Rule
	res := c.do("POST", "rules", ruleBody(vh.KV{"a": datatypes.Any()}, 5))
	if json.Unmarshal(res.Body, &got) != nil || got.State == nil || res.Status != 201 {
		r.PV("R04", "create-again", h.text(), "case %d: the group-by of a deleted rule cannot be used again: %s", n, res.Text())
		return
	}
	res = c.do("GET", "rules/"+got.State.ID+"/overrides/query", anyQuery)
	if l, err := oversOf(res.Body); err != nil || len(l) != 0 {
		r.PV("R04", "overrides-left", h.text(), "case %d: a new rule has overrides: %s", n, res.Text())
	}
	r.Distinct(fmt.Sprint(n))
}
