package lm

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// entry is a rule or an override of the model.
type entry struct {
	id    string
	kv    vh.KV
	limit int64
	over  map[string]*entry // by id
}

func matches(e *entry, kv vh.KV) bool {
	for k, v := range e.kv {
		have, ok := kv[k]
		if !ok || v.Type != datatypes.T_any && vh.Compare(v, have) != 0 {
			return false
		}
	}
	return true
}

type counter struct {
	kv vh.KV
	n  int64
}

type limits struct {
	kv    vh.KV // the values of the group
	limit int64
	what  string
}

type model struct {
	rules    map[string]*entry
	counters map[string]*counter
}

// limitsOf lists the limits that apply to an increment.
func (m *model) limitsOf(kv vh.KV) (out []limits) {
	add := func(e *entry, what string) {
		group := vh.KV{}
		for k := range e.kv {
			group[k] = kv[k]
		}
		out = append(out, limits{group, e.limit, what + " " + vh.KVS(e.kv)})
	}
	for _, id := range keys(m.rules) {
		r := m.rules[id]
		if !matches(r, kv) {
			continue
		}
		found := false
		for _, oid := range keys(r.over) {
			if matches(r.over[oid], kv) {
				found = true
				add(r.over[oid], "override")
			}
		}
		if !found {
			add(r, "rule")
		}
	}
	return
}

func (m *model) total(group vh.KV) *big.Int {
	n := new(big.Int)
	e := &entry{kv: group}
	for _, c := range m.counters {
		if matches(e, c.kv) {
			n.Add(n, big.NewInt(c.n))
		}
	}
	return n
}

func (m *model) refusedBy(kv vh.KV, n int64) string {
	for _, l := range m.limitsOf(kv) {
		if t := m.total(l.kv); l.limit != -1 && new(big.Int).Add(t, big.NewInt(n)).Cmp(big.NewInt(l.limit)) > 0 {
			return fmt.Sprintf("%s with limit %d: its group counts %d already", l.what, l.limit, t)
		}
	}
	if x := m.counters[vh.KVS(kv)]; x != nil && x.n > math.MaxInt64-n {
		return fmt.Sprintf("the counter cannot represent %d more than %d", n, x.n)
	}
	return ""
}

func keys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- requests

const host = "http://limiter/v1/limiter/"

type cl struct {
	net *svc.Net
	ctx context.Context
}

func (c cl) do(method, path string, body any) svc.Resp {
	b, err := json.Marshal(body)
	if err != nil {
		panic(err)
	}
	if body == nil {
		b = nil
	}
	ctx := c.ctx
	if ctx == nil {
		ctx = context.Background()
	}
	return c.net.Do(ctx, method, host+path, b)
}

func ruleBody(kv vh.KV, limit int64) *v1limiter.Rule {
	return &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues(kv)}, Properties: &v1limiter.RuleProperties{Limit: &limit}}}
}

func overBody(kv vh.KV, limit int64) *v1limiter.Override {
	return &v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues(kv)}, Properties: &v1limiter.OverrideProperties{Limit: &limit}}}
}

func counterBody(kv vh.KV, n int64) *v1limiter.Counter {
	return &v1limiter.Counter{Spec: &v1limiter.CounterSpec{DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: datatypes.TypedKeyValues(kv)}, Properties: &v1limiter.CounteProperties{Counters: &n}}}
}

var anyQuery = &qa.AssociatedActionQuery{}

func entryLine(id string, kv vh.KV, limit int64) string {
	return fmt.Sprintf("%s %s limit %d", id, vh.KVS(kv), limit)
}

func rulesOf(body []byte) (out []string, err error) {
	var rs v1limiter.Rules
	if err = json.Unmarshal(body, &rs); err != nil {
		return
	}
	for _, r := range rs {
		if r == nil || r.Spec == nil || r.Spec.DBDefinition == nil || r.Spec.Properties == nil || r.Spec.Properties.Limit == nil || r.State == nil {
			return nil, fmt.Errorf("incomplete rule")
		}
		out = append(out, entryLine(r.State.ID, vh.KV(r.Spec.DBDefinition.GroupByKeyValues), *r.Spec.Properties.Limit))
	}
	sort.Strings(out)
	return
}

func oversOf(body []byte) (out []string, err error) {
	var rs v1limiter.Overrides
	if err = json.Unmarshal(body, &rs); err != nil {
		return
	}
	for _, r := range rs {
		if r == nil || r.Spec == nil || r.Spec.DBDefinition == nil || r.Spec.Properties == nil || r.Spec.Properties.Limit == nil || r.State == nil {
			return nil, fmt.Errorf("incomplete override")
		}
		out = append(out, entryLine(r.State.ID, vh.KV(r.Spec.DBDefinition.GroupByKeyValues), *r.Spec.Properties.Limit))
	}
	sort.Strings(out)
	return
}

func countersOf(body []byte) (out []string, err error) {
	var cs v1limiter.Counters
	if err = json.Unmarshal(body, &cs); err != nil {
		return
	}
	for _, c := range cs {
		if c == nil || c.Spec == nil || c.Spec.DBDefinition == nil || c.Spec.Properties == nil || c.Spec.Properties.Counters == nil {
			return nil, fmt.Errorf("incomplete counter")
		}
		out = append(out, fmt.Sprintf("%s=%d", vh.KVS(vh.KV(c.Spec.DBDefinition.KeyValues)), *c.Spec.Properties.Counters))
	}
	sort.Strings(out)
	return
}

// ---- generators: few keys and values, so that they meet

func val(g *rand.Rand) datatypes.EncapsulatedValue {
	switch g.IntN(8) {
	case 0:
		return datatypes.Int8(int8(g.IntN(2)))
	case 1:
		return datatypes.String(fmt.Sprint(g.IntN(2)))
	}
	return datatypes.Int(g.IntN(2))
}

func counterKV(g *rand.Rand) vh.KV {
	kv := vh.KV{}
	for n := 1 + g.IntN(4); len(kv) < n; {
		kv[vh.QKeys[g.IntN(4)]] = val(g)
	}
	return kv
}

func groupKV(g *rand.Rand) vh.KV {
	kv := vh.KV{}
	for n := 1 + g.IntN(3); len(kv) < n; {
		v := val(g)
		if g.IntN(2) == 0 {
			v = datatypes.Any()
		}
		kv[vh.QKeys[g.IntN(4)]] = v
	}
	return kv
}

func overrideKV(g *rand.Rand, rule vh.KV) vh.KV {
	kv := vh.KV{}
	for k, v := range rule {
		kv[k] = v
		if g.IntN(2) == 0 {
			kv[k] = val(g)
		}
		if g.IntN(6) == 0 {
			kv[k] = datatypes.Any()
		}
	}
	if g.IntN(2) == 0 {
		kv[vh.QKeys[g.IntN(4)]] = val(g)
	}
	if g.IntN(12) == 0 {
		for k := range rule {
			delete(kv, k)
			break
		}
		if len(kv) == 0 {
			kv["zz"] = val(g)
		}
	}
	return kv
}

func genLimit(g *rand.Rand) int64 {
	return []int64{-1, 0, 1, 2, 3, 3, 5, 7}[g.IntN(8)]
}

// TestLimiterModel runs random sequences of requests against a model.
func TestLimiterModel(t *testing.T) {
	r := vh.Start(t, "sequences with an increment decided by a limit")
	defer r.Finish()
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(400, 40000) && !r.Bad(); n++ {
		g := vh.Rand("limitermodel", n)
		r.Context("case %d", n)
		r.Guard("limiter requests", n, func() { synctest.Test(t, func(t *testing.T) { modelCase(r, g, n) }) })
	}
}

func modelCase(r *vh.R, g *rand.Rand, n int) {
	net := svc.NewNet(r)
	net.Dial()
	stop := net.Locker("locker", 5*time.Second)
	defer stop()
	defer net.Limiter("limiter", "http://locker")()
	c := cl{net: net}
	m := &model{rules: map[string]*entry{}, counters: map[string]*counter{}}
	var log []string
	var dead []string // ids of the past
	decided := false
	bad := func(props, key, f string, a ...any) {
		r.PV(props, key, log, "case %d: %s", n, fmt.Sprintf(f, a...))
	}
	say := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)); r.Step() }
	pick := func() *entry {
		ids := keys(m.rules)
		if len(ids) == 0 || g.IntN(12) == 0 {
			if len(dead) > 0 && g.IntN(2) == 0 {
				return &entry{id: dead[g.IntN(len(dead))]}
			}
			return &entry{id: "no-such-id"}
		}
		return m.rules[ids[g.IntN(len(ids))]]
	}
	pickOver := func(e *entry) *entry {
		ids := keys(e.over)
		if len(ids) == 0 || g.IntN(10) == 0 {
			if len(dead) > 0 && g.IntN(2) == 0 {
				return &entry{id: dead[g.IntN(len(dead))]}
			}
			return &entry{id: "no-such-id"}
		}
		return e.over[ids[g.IntN(len(ids))]]
	}
	same := func(props, key, what string, got []string, err error, want []string) {
		sort.Strings(want)
		if err != nil || strings.Join(got, "\n") != strings.Join(want, "\n") {
			bad(props, key, "%s answered %v (error %v) instead of %v", what, got, err, want)
		}
	}
	status := func(props, key string, res svc.Resp, want int) bool {
		if res.Err != nil || res.Status != want {
			bad(props, key, "%s instead of %d to %s", res.Text(), want, log[len(log)-1])
			return false
		}
		if res.Status >= 400 {
			var e struct{ Message string }
			if json.Unmarshal(res.Body, &e) != nil || e.Message == "" {
				bad(props, key+"-message", "a refusal without a message: %s to %s", res.Text(), log[len(log)-1])
			}
		}
		return true
	}
	counterLines := func(f func(*counter) bool) (out []string) {
		for _, x := range m.counters {
			if f(x) {
				out = append(out, fmt.Sprintf("%s=%d", vh.KVS(x.kv), x.n))
			}
		}
		return
	}
	// numbers at the far end now and then
	huge := g.IntN(8) == 0
	far := func(n int64) int64 {
		if huge && g.IntN(3) == 0 {
			return []int64{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - int64(g.IntN(6)), math.MaxInt64/2 + 1, 1 << 62}[g.IntN(5)]
		}
		return n
	}
	genLimit := func(g *rand.Rand) int64 { return far(genLimit(g)) }
	var recent []vh.KV
	ckv := func() vh.KV {
		if len(recent) > 0 && g.IntN(3) > 0 {
			return vh.Clone(recent[g.IntN(len(recent))])
		}
		kv := counterKV(g)
		recent = append(recent, kv)
		return vh.Clone(kv)
	}
	for step := 0; step < 30+g.IntN(40) && !r.Bad(); step++ {
		switch op := g.IntN(30); {
		case op < 4: // create a rule
			kv, limit := groupKV(g), genLimit(g)
			if len(m.rules) > 0 && g.IntN(5) == 0 {
				kv = vh.Clone(m.rules[keys(m.rules)[g.IntN(len(m.rules))]].kv)
			}
			var dup *entry
			for _, e := range m.rules {
				if vh.KVS(e.kv) == vh.KVS(kv) {
					dup = e
				}
			}
			say("create rule %s limit %d", vh.KVS(kv), limit)
			res := c.do("POST", "rules", ruleBody(kv, limit))
			if dup != nil {
				status("R04", "create-duplicate", res, 409)
				break
			}
			if !status("R04", "create", res, 201) {
				break
			}
			var got v1limiter.Rule
			if json.Unmarshal(res.Body, &got) != nil || got.State == nil || got.State.ID == "" {
				bad("R04", "create-answer", "a created rule's answer has no id: %s", res.Text())
				break
			}
			say("   is %s", got.State.ID)
			m.rules[got.State.ID] = &entry{id: got.State.ID, kv: kv, limit: limit, over: map[string]*entry{}}
		case op < 7: // create an override
			e := pick()
			kv := overrideKV(g, e.kv)
			if len(kv) == 0 {
				kv = counterKV(g)
			}
			limit := genLimit(g)
			if len(e.over) > 0 && g.IntN(5) == 0 {
				kv = vh.Clone(e.over[keys(e.over)[g.IntN(len(e.over))]].kv)
			}
			say("create override %s limit %d of rule %s", vh.KVS(kv), limit, e.id)
			res := c.do("POST", "rules/"+e.id+"/overrides", overBody(kv, limit))
			if e.kv == nil {
				status("R04", "override-of-missing", res, 404)
				break
			}
			missing := false
			for k := range e.kv {
				if _, ok := kv[k]; !ok {
					missing = true
				}
			}
			if missing {
				status("R04", "override-lacks-key", res, 400)
				break
			}
			dup := false
			for _, o := range e.over {
				dup = dup || vh.KVS(o.kv) == vh.KVS(kv)
			}
			if dup {
				status("R04", "override-duplicate", res, 409)
				break
			}
			if !status("R04", "create-override", res, 201) {
				break
			}
			var got v1limiter.Override
			if json.Unmarshal(res.Body, &got) != nil || got.State == nil || got.State.ID == "" {
				bad("R04", "create-override-answer", "a created override's answer has no id: %s", res.Text())
				break
			}
			say("   is %s", got.State.ID)
			e.over[got.State.ID] = &entry{id: got.State.ID, kv: kv, limit: limit}
		case op == 7: // update a rule
			e, limit := pick(), genLimit(g)
			say("update rule %s limit %d", e.id, limit)
			res := c.do("PUT", "rules/"+e.id, &v1limiter.RuleProperties{Limit: &limit})
			if e.kv == nil {
				status("R04", "update-missing", res, 404)
			} else if status("R04", "update", res, 200) {
				e.limit = limit
			}
		case op == 8:
			e := pick()
			o, limit := pickOver(e), genLimit(g)
			say("update override %s of rule %s limit %d", o.id, e.id, limit)
			res := c.do("PUT", "rules/"+e.id+"/overrides/"+o.id, &v1limiter.OverrideProperties{Limit: &limit})
			if e.kv == nil || o.kv == nil {
				status("R04", "update-missing-override", res, 404)
			} else if status("R04", "update-override", res, 200) {
				o.limit = limit
			}
		case op == 9: // delete
			e := pick()
			say("delete rule %s", e.id)
			res := c.do("DELETE", "rules/"+e.id, nil)
			if e.kv == nil {
				status("R04", "delete-missing", res, 404)
			} else if status("R04", "delete", res, 204) {
				delete(m.rules, e.id)
				dead = append(dead, e.id)
				dead = append(dead, keys(e.over)...)
			}
		case op == 10:
			e := pick()
			o := pickOver(e)
			say("delete override %s of rule %s", o.id, e.id)
			res := c.do("DELETE", "rules/"+e.id+"/overrides/"+o.id, nil)
			if e.kv == nil {
				status("R04", "delete-override-of-missing", res, 404)
			} else if o.kv == nil { // a no-op
				status("R04", "delete-missing-override", res, 204)
			} else if status("R04", "delete-override", res, 204) {
				delete(e.over, o.id)
				dead = append(dead, o.id)
			}
		case op == 11: // get
			e := pick()
			say("get rule %s", e.id)
			res := c.do("GET", "rules/"+e.id, nil)
			if e.kv == nil {
				status("R04", "get-missing", res, 404)
			} else if status("R04", "get", res, 200) {
				got, err := rulesOf([]byte("[" + string(res.Body) + "]"))
				same("R04", "get-answer", "get", got, err, []string{entryLine(e.id, e.kv, e.limit)})
			}
		case op == 12:
			e := pick()
			o := pickOver(e)
			say("get override %s of rule %s", o.id, e.id)
			res := c.do("GET", "rules/"+e.id+"/overrides/"+o.id, nil)
			if e.kv == nil || o.kv == nil {
				status("R04", "get-missing-override", res, 404)
			} else if status("R04", "get-override", res, 200) {
				got, err := oversOf([]byte("[" + string(res.Body) + "]"))
				same("R04", "get-override-answer", "get override", got, err, []string{entryLine(o.id, o.kv, o.limit)})
			}
		case op < 15: // search rules or overrides
			q := anyQuery
			mq := vh.GenMatch(g)
			holds := func(e *entry) bool { return vh.QueryHolds(q, e.id, e.kv) }
			path, body := "query", any(q)
			if g.IntN(3) > 0 {
				q = vh.GenQuery(g, 1, append(keys(m.rules), dead...))
				body = q
			} else if g.IntN(2) == 0 {
				path, body = "match", any(mq)
				holds = func(e *entry) bool { return vh.MatchHolds(mq, e.kv) }
			}
			if op == 13 {
				say("%s rules %s", path, vh.JSON(body))
				res := c.do("GET", "rules/"+path, body)
				if status("R04", path+"-rules", res, 200) {
					var want []string
					for _, e := range m.rules {
						if holds(e) {
							want = append(want, entryLine(e.id, e.kv, e.limit))
						}
					}
					got, err := rulesOf(res.Body)
					same("R04", path+"-rules-answer", log[len(log)-1], got, err, want)
				}
				break
			}
			e := pick()
			say("%s overrides of rule %s %s", path, e.id, vh.JSON(body))
			res := c.do("GET", "rules/"+e.id+"/overrides/"+path, body)
			if e.kv == nil {
				status("R04", path+"-overrides-of-missing", res, 404)
			} else if status("R04", path+"-overrides", res, 200) {
				var want []string
				for _, o := range e.over {
					if holds(o) {
						want = append(want, entryLine(o.id, o.kv, o.limit))
					}
				}
				got, err := oversOf(res.Body)
				same("R04", path+"-overrides-answer", log[len(log)-1], got, err, want)
			}
		case op < 24: // increment
			kv, k := ckv(), int64(1)
			if g.IntN(3) == 0 {
				k = int64(1 + g.IntN(4))
			}
			k = far(k)
			why := m.refusedBy(kv, k)
			say("increment %s by %d", vh.KVS(kv), k)
			res := c.do("PUT", "counters", counterBody(kv, k))
			if ls := m.limitsOf(kv); len(ls) > 0 {
				decided = true
				r.Stat("increments under limits", 1)
				r.Max("limits on one increment", len(ls))
				if why != "" {
					r.Stat("increments refused", 1)
				}
			}
			if why != "" {
				if res.Status == 200 {
					bad("R01,R02", "accepted", "accepted although %s", why)
				} else {
					status("R02", "refused-status", res, 409)
				}
			} else if res.Status != 200 {
				bad("R02", "refused", "%s although no limit is reached; limits: %v", res.Text(), m.limitsOf(kv))
			} else if x := m.counters[vh.KVS(kv)]; x != nil {
				x.n += k
			} else {
				m.counters[vh.KVS(kv)] = &counter{kv, k}
			}
		case op < 26: // decrement
			kv, k := ckv(), far(int64(g.IntN(4)))
			say("decrement %s by %d", vh.KVS(kv), k)
			if status("R03", "decrement", c.do("PUT", "counters", counterBody(kv, -k)), 200) {
				if x := m.counters[vh.KVS(kv)]; x != nil {
					if x.n -= k; x.n <= 0 {
						delete(m.counters, vh.KVS(kv))
					}
				}
			}
		case op == 26:
			kv, k := ckv(), far(int64(g.IntN(8)-2))
			say("set %s to %d", vh.KVS(kv), k)
			if status("R03", "set", c.do("PUT", "counters/set", counterBody(kv, k)), 200) {
				delete(m.counters, vh.KVS(kv))
				if k > 0 {
					m.counters[vh.KVS(kv)] = &counter{kv, k}
				}
			}
		default: // search counters
			q := anyQuery
			if g.IntN(2) == 0 {
				q = vh.GenQuery(g, 1, nil)
			}
			say("query counters %s", vh.JSON(q))
			res := c.do("GET", "counters/query", q)
			if status("R03", "query", res, 200) {
				got, err := countersOf(res.Body)
				same("R03", "counters", log[len(log)-1], got, err, counterLines(func(x *counter) bool { return vh.QueryHolds(q, "", x.kv) }))
			}
		}
	}
	if r.Bad() {
		return
	}
	res := c.do("GET", "counters/query", anyQuery)
	got, err := countersOf(res.Body)
	same("R03", "counters", "the final query of all counters", got, err, counterLines(func(*counter) bool { return true }))
	res = c.do("GET", "rules/query", anyQuery)
	got, err = rulesOf(res.Body)
	var want []string
	for _, e := range m.rules {
		want = append(want, entryLine(e.id, e.kv, e.limit))
	}
	same("R04", "rules", "the final query of all rules", got, err, want)
	r.Eval(1)
	if decided {
		r.Distinct(fmt.Sprint(n))
	}
	r.Stat("requests", int(net.Requests.Load()))
	r.Max("rules", len(m.rules))
	if n%64 == 0 {
		r.Sample(log)
	}
}
