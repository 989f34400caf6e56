package kc

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	willowclient "github.com/DanLavine/willow/pkg/clients/willow_client"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// wire is the network of the calls: it records each request and answers it
// itself (scripted) or lets the real services answer.
type wire struct {
	mu    sync.Mutex
	net   *svc.Net
	plan  func(kind string) *plan // of the next request; nil: the services answer
	reqs  []*wreq
	limit int
}

// plan is what happens to a request.
type plan struct {
	refuse, lose, garble, drop bool
	status                     int
	body                       string
	scripted                   bool
}

func (p *plan) String() string {
	if p == nil {
		return "served"
	}
	return fmt.Sprintf("refuse=%v lose=%v garble=%v drop=%v scripted=%v %d %q", p.refuse, p.lose, p.garble, p.drop, p.scripted, p.status, p.body)
}

type wreq struct {
	method, path, query, ctype, trace, host string
	raw                                     string
	body                                    []byte
	kind                                    string
	plan                                    *plan
	status                                  int // that the client saw, 0: none
	served                                  int // that the service answered, 0: none
	answer                                  []byte
	readable                                bool
	at, end                                 time.Time
	tracked                                 *tracked
}

func (q *wreq) String() string {
	return fmt.Sprintf("%s %s%s %s -> [%v] client saw %d %q", q.method, q.host, q.raw, q.body, q.plan, q.status, q.answer)
}

func (w *wire) RoundTrip(req *http.Request) (*http.Response, error) {
	q := &wreq{method: req.Method, path: req.URL.Path, query: req.URL.RawQuery, ctype: req.Header.Get("Content-Type"), trace: req.Header.Get("X-Request-ID"), host: req.URL.Host, raw: req.URL.RequestURI(), at: time.Now()}
	if req.Body != nil {
		q.body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	if strings.HasSuffix(q.path, "/heartbeat") {
		q.kind = "heartbeat"
	}
	w.mu.Lock()
	w.reqs = append(w.reqs, q)
	if w.plan != nil && strings.HasPrefix(q.host, "c-") {
		q.plan = w.plan(q.kind)
	}
	p := q.plan
	w.mu.Unlock()
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	if p == nil {
		p = &plan{}
	}
	if p.refuse {
		return nil, fmt.Errorf("dial: connection refused")
	}
	if p.drop {
		<-req.Context().Done()
		return nil, req.Context().Err()
	}
	var resp *http.Response
	if p.scripted {
		resp = answer(p.status, p.body)
		resp.Request = req
	} else {
		in := req.Clone(req.Context())
		in.URL.Host = strings.TrimPrefix(in.URL.Host, "c-")
		in.Body = io.NopCloser(bytes.NewReader(q.body))
		var err error
		if resp, err = w.net.RoundTrip(in); err != nil {
			return nil, err
		}
	}
	b, _ := io.ReadAll(resp.Body)
	w.mu.Lock()
	defer w.mu.Unlock()
	q.end, q.served = time.Now(), resp.StatusCode
	if p.lose {
		return nil, fmt.Errorf("connection reset by peer")
	}
	q.status, q.answer, q.readable = resp.StatusCode, b, true
	q.tracked = &tracked{r: bytes.NewReader(b)}
	if p.garble {
		q.readable = false
		q.tracked.r = io.MultiReader(bytes.NewReader(b[:len(b)/2]), errReader{})
	}
	resp.Body = q.tracked
	return resp, nil
}

// tracked is the body of an answer; its connection is free again once it is
// closed or read to its end.
type tracked struct {
	r    io.Reader
	free atomic.Bool
}

func (t *tracked) Read(p []byte) (int, error) {
	n, err := t.r.Read(p)
	if err != nil {
		t.free.Store(true)
	}
	return n, err
}
func (t *tracked) Close() error { t.free.Store(true); return nil }

type kclients struct {
	w *willowclient.WillowClient
	l *limiterclient.LimitClient
}

// want is one call of a client and what it must ask for.
type want struct {
	name, method, path string
	body               any // nil: none
	ok                 int // the status of a success
	call               func(ctx context.Context) (any, error)
	result             func() any // an empty object of the result, nil: no result
	gen                func(g *rand.Rand) any
}

// ids known to a case
type known struct {
	queues, rules []string
	overrides     map[string][]string
	kvs           []vh.KV
}

func pick(g *rand.Rand, l []string, odd bool) string {
	if len(l) > 0 && g.IntN(5) > 0 {
		return l[g.IntN(len(l))]
	}
	if odd && g.IntN(2) == 0 {
		return oddNames[g.IntN(len(oddNames))]
	}
	return "none"
}

var oddNames = []string{"q1?x=1", "q1#frag", "q1/items", "a b", "100%", "%2e", "q1%3F", "ä", "q1;x", "q1&y=2", "a+b", "q1/../q2", "a\"b", "q1/channels", "{id}", ":queue_name"}

func genKVs(g *rand.Rand, any bool) vh.KV {
	for {
		if kv := vh.GenKV(g, 3, any); len(kv) > 0 {
			return kv
		}
	}
}

func genItem(g *rand.Rand, kv vh.KV) *v1willow.Item {
	data := make([]byte, 1+g.IntN(8))
	for i := range data {
		data[i] = byte(g.Uint32())
	}
	return &v1willow.Item{Spec: &v1willow.ItemSpec{
		DBDefinition: &v1willow.ItemDBDefinition{KeyValues: datatypes.TypedKeyValues(kv)},
		Properties: &v1willow.ItemProperties{Data: data, Updateable: vh.Ptr(g.IntN(2) == 0), RetryAttempts: vh.Ptr(uint64(g.IntN(4))),
			RetryPosition: vh.Ptr([]string{"front", "back"}[g.IntN(2)]), TimeoutDuration: vh.Ptr(time.Duration(1+g.IntN(50)) * tick)},
	}}
}

func genQueue(g *rand.Rand, name string) *v1willow.Queue {
	return &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: &name}, Properties: &v1willow.QueueProperties{MaxItems: vh.Ptr(int64(g.IntN(12) - 1))}}}
}

func genRule(g *rand.Rand) *v1limiter.Rule {
	return &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues(genKVs(g, true))},
		Properties: &v1limiter.RuleProperties{Limit: vh.Ptr(int64(g.IntN(12) - 1))}}}
}

func genOverride(g *rand.Rand) *v1limiter.Override {
	return &v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues(genKVs(g, true))},
		Properties: &v1limiter.OverrideProperties{Limit: vh.Ptr(int64(g.IntN(12) - 1))}}}
}

func genCounter(g *rand.Rand, kv vh.KV) *v1limiter.Counter {
	return &v1limiter.Counter{Spec: &v1limiter.CounterSpec{DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: datatypes.TypedKeyValues(kv)},
		Properties: &v1limiter.CounteProperties{Counters: vh.Ptr(int64(g.IntN(9) - 3))}}}
}

func list[T any](g *rand.Rand, f func() *T) (out []*T) {
	out = []*T{}
	for i := g.IntN(4); i > 0; i-- {
		out = append(out, f())
	}
	return
}

func doneRule(g *rand.Rand, withOver bool) *v1limiter.Rule {
	r := genRule(g)
	r.State = &v1limiter.RuleState{ID: fmt.Sprint("rule", g.IntN(9))}
	if withOver {
		for i := g.IntN(3); i > 0; i-- {
			r.State.Overrides = append(r.State.Overrides, doneOverride(g))
		}
	}
	return r
}

func doneOverride(g *rand.Rand) *v1limiter.Override {
	o := genOverride(g)
	o.State = &v1limiter.OverrideState{ID: fmt.Sprint("over", g.IntN(9)), Deleting: g.IntN(4) == 0}
	return o
}

// seg is a name as a segment of a path on the wire.
func seg(s string) string { return s }

// genCall draws a call.
func genCall(g *rand.Rand, c *kclients, k *known, scripted bool) *want {
	anyKV := func() vh.KV { return vh.Clone(k.kvs[g.IntN(len(k.kvs))]) }
	query := func() *qa.AssociatedActionQuery {
		switch g.IntN(3) {
		case 0:
			return &qa.AssociatedActionQuery{}
		}
		for {
			if q := vh.GenQuery(g, 1, nil); q.Validate() == nil {
				return q
			}
		}
	}
	switch n := g.IntN(24); n {
	case 0, 1:
		q := genQueue(g, pick(g, []string{"q1", "q2", "q3"}, true))
		return &want{name: "CreateQueue", method: "POST", path: "/v1/queues", body: q, ok: 201,
			call: func(ctx context.Context) (any, error) { return nil, c.w.CreateQueue(ctx, q) }}
	case 2:
		return &want{name: "ListQueues", method: "GET", path: "/v1/queues", ok: 200,
			call:   func(ctx context.Context) (any, error) { return c.w.ListQueues(ctx) },
			result: func() any { return &v1willow.Queues{} },
			gen: func(g *rand.Rand) any {
				return list(g, func() *v1willow.Queue {
					q := genQueue(g, fmt.Sprint("q", g.IntN(5)))
					q.State = &v1willow.QueueState{Deleting: g.IntN(2) == 0}
					return q
				})
			}}
	case 3:
		name, q := pick(g, k.queues, true), query()
		return &want{name: "GetQueue", method: "GET", path: "/v1/queues/" + seg(name), body: q, ok: 200,
			call:   func(ctx context.Context) (any, error) { return c.w.GetQueue(ctx, name, q) },
			result: func() any { return &v1willow.Queue{} },
			gen: func(g *rand.Rand) any {
				q := genQueue(g, name)
				q.State = &v1willow.QueueState{Deleting: g.IntN(2) == 0}
				return q
			}}
	case 4:
		name, p := pick(g, k.queues, true), &v1willow.QueueProperties{MaxItems: vh.Ptr(int64(g.IntN(12) - 1))}
		return &want{name: "UpdateQueue", method: "PUT", path: "/v1/queues/" + seg(name), body: p, ok: 200,
			call: func(ctx context.Context) (any, error) { return nil, c.w.UpdateQueue(ctx, name, p) }}
	case 5:
		name := pick(g, k.queues, true)
		return &want{name: "DeleteQueue", method: "DELETE", path: "/v1/queues/" + seg(name), ok: 204,
			call: func(ctx context.Context) (any, error) { return nil, c.w.DeleteQueue(ctx, name) }}
	case 6, 7, 8:
		name, it := pick(g, k.queues, true), genItem(g, anyKV())
		return &want{name: "EnqueueQueueItem", method: "POST", path: "/v1/queues/" + seg(name) + "/channels/items", body: it, ok: 201,
			call: func(ctx context.Context) (any, error) { return nil, c.w.EnqueueQueueItem(ctx, name, it) }}
	case 9, 10:
		name, q := pick(g, k.queues, true), query()
		return &want{name: "DequeueQueueItem", method: "GET", path: "/v1/queues/" + seg(name) + "/channels/items", body: q, ok: 200,
			call: func(ctx context.Context) (any, error) {
				it, err := c.w.DequeueQueueItem(ctx, name, q)
				if it == nil {
					return nil, err
				}
				return it, err
			},
			result: func() any { return &v1willow.Item{} },
			gen: func(g *rand.Rand) any {
				it := genItem(g, genKVs(g, false))
				it.State = &v1willow.ItemState{ID: fmt.Sprint("item", g.IntN(9))}
				return it
			}}
	case 11:
		name, kv := pick(g, k.queues, true), anyKV()
		return &want{name: "DeleteQueueChannel", method: "DELETE", path: "/v1/queues/" + seg(name) + "/channels", body: datatypes.KeyValues(kv), ok: 204,
			call: func(ctx context.Context) (any, error) {
				return nil, c.w.DeleteQueueChannel(ctx, name, datatypes.KeyValues(kv))
			}}
	case 12, 13:
		r := genRule(g)
		return &want{name: "CreateRule", method: "POST", path: "/v1/limiter/rules", body: r, ok: 201,
			call:   func(ctx context.Context) (any, error) { return c.l.CreateRule(ctx, r) },
			result: func() any { return &v1limiter.Rule{} },
			gen:    func(g *rand.Rand) any { return doneRule(g, false) }}
	case 14:
		id := pick(g, k.rules, true)
		return &want{name: "GetRule", method: "GET", path: "/v1/limiter/rules/" + seg(id), ok: 200,
			call:   func(ctx context.Context) (any, error) { return c.l.GetRule(ctx, id) },
			result: func() any { return &v1limiter.Rule{} },
			gen:    func(g *rand.Rand) any { return doneRule(g, true) }}
	case 15:
		rules := func(g *rand.Rand) any { return list(g, func() *v1limiter.Rule { return doneRule(g, true) }) }
		if g.IntN(2) == 0 {
			q := query()
			return &want{name: "QueryRules", method: "GET", path: "/v1/limiter/rules/query", body: q, ok: 200,
				call:   func(ctx context.Context) (any, error) { return c.l.QueryRules(ctx, q) },
				result: func() any { return &v1limiter.Rules{} }, gen: rules}
		}
		m := vh.GenMatch(g)
		return &want{name: "MatchRules", method: "GET", path: "/v1/limiter/rules/match", body: m, ok: 200,
			call:   func(ctx context.Context) (any, error) { return c.l.MatchRules(ctx, m) },
			result: func() any { return &v1limiter.Rules{} }, gen: rules}
	case 16:
		id, p := pick(g, k.rules, true), &v1limiter.RuleProperties{Limit: vh.Ptr(int64(g.IntN(12) - 1))}
		return &want{name: "UpdateRule", method: "PUT", path: "/v1/limiter/rules/" + seg(id), body: p, ok: 200,
			call: func(ctx context.Context) (any, error) { return nil, c.l.UpdateRule(ctx, id, p) }}
	case 17:
		id := pick(g, k.rules, true)
		return &want{name: "DeleteRule", method: "DELETE", path: "/v1/limiter/rules/" + seg(id), ok: 204,
			call: func(ctx context.Context) (any, error) { return nil, c.l.DeleteRule(ctx, id) }}
	case 18, 19:
		id := pick(g, k.rules, true)
		switch g.IntN(4) {
		case 0, 1:
			o := genOverride(g)
			return &want{name: "CreateOverride", method: "POST", path: "/v1/limiter/rules/" + seg(id) + "/overrides", body: o, ok: 201,
				call:   func(ctx context.Context) (any, error) { return c.l.CreateOverride(ctx, id, o) },
				result: func() any { return &v1limiter.Override{} }, gen: func(g *rand.Rand) any { return doneOverride(g) }}
		case 2:
			q := query()
			return &want{name: "QueryOverrides", method: "GET", path: "/v1/limiter/rules/" + seg(id) + "/overrides/query", body: q, ok: 200,
				call:   func(ctx context.Context) (any, error) { return c.l.QueryOverrides(ctx, id, q) },
				result: func() any { return &v1limiter.Overrides{} },
				gen:    func(g *rand.Rand) any { return list(g, func() *v1limiter.Override { return doneOverride(g) }) }}
		}
		m := vh.GenMatch(g)
		return &want{name: "MatchOverrides", method: "GET", path: "/v1/limiter/rules/" + seg(id) + "/overrides/match", body: m, ok: 200,
			call:   func(ctx context.Context) (any, error) { return c.l.MatchOverrides(ctx, id, m) },
			result: func() any { return &v1limiter.Overrides{} },
			gen:    func(g *rand.Rand) any { return list(g, func() *v1limiter.Override { return doneOverride(g) }) }}
	case 20:
		id := pick(g, k.rules, true)
		oid := pick(g, k.overrides[id], true)
		p := "/v1/limiter/rules/" + seg(id) + "/overrides/" + seg(oid)
		switch g.IntN(3) {
		case 0:
			return &want{name: "GetOverride", method: "GET", path: p, ok: 200,
				call:   func(ctx context.Context) (any, error) { return c.l.GetOverride(ctx, id, oid) },
				result: func() any { return &v1limiter.Override{} }, gen: func(g *rand.Rand) any { return doneOverride(g) }}
		case 1:
			u := &v1limiter.OverrideProperties{Limit: vh.Ptr(int64(g.IntN(12) - 1))}
			return &want{name: "UpdateOverride", method: "PUT", path: p, body: u, ok: 200,
				call: func(ctx context.Context) (any, error) { return nil, c.l.UpdateOverride(ctx, id, oid, u) }}
		}
		return &want{name: "DeleteOverride", method: "DELETE", path: p, ok: 204,
			call: func(ctx context.Context) (any, error) { return nil, c.l.DeleteOverride(ctx, id, oid) }}
	case 21:
		ct := genCounter(g, anyKV())
		if g.IntN(3) == 0 {
			return &want{name: "SetCounters", method: "PUT", path: "/v1/limiter/counters/set", body: ct, ok: 200,
				call: func(ctx context.Context) (any, error) { return nil, c.l.SetCounters(ctx, ct) }}
		}
		return &want{name: "UpdateCounter", method: "PUT", path: "/v1/limiter/counters", body: ct, ok: 200,
			call: func(ctx context.Context) (any, error) { return nil, c.l.UpdateCounter(ctx, ct) }}
	case 22:
		q := query()
		return &want{name: "QueryCounters", method: "GET", path: "/v1/limiter/counters/query", body: q, ok: 200,
			call:   func(ctx context.Context) (any, error) { return c.l.QueryCounters(ctx, q) },
			result: func() any { return &v1limiter.Counters{} },
			gen: func(g *rand.Rand) any {
				return list(g, func() *v1limiter.Counter {
					c := genCounter(g, genKVs(g, false))
					c.State = &v1limiter.CounterState{}
					return c
				})
			}}
	}
	if !scripted {
		return nil // the in-memory services have no health endpoint
	}
	if g.IntN(2) == 0 {
		return &want{name: "Healthy(willow)", method: "GET", path: "/health", ok: 200, call: func(context.Context) (any, error) { return nil, c.w.Healthy() }}
	}
	return &want{name: "Healthy(limiter)", method: "GET", path: "/health", ok: 200, call: func(context.Context) (any, error) { return nil, c.l.Healthy() }}
}

// mutate breaks a valid answer.
func mutate(g *rand.Rand, s string) string {
	switch g.IntN(6) {
	case 0:
		return s[:g.IntN(len(s))]
	case 1:
		return oddBodies[g.IntN(len(oddBodies))]
	case 2: // a field is gone
		var v any
		if json.Unmarshal([]byte(s), &v) != nil {
			return "{"
		}
		drop(g, v)
		b, _ := json.Marshal(v)
		return string(b)
	case 3:
		return []string{"[null]", "[{}]", "null", `[{"Spec":null}]`, `[{"Spec":{"DBDefinition":{},"Properties":{}}}]`, "[[]]", `{"Message":5}`, `"x"`, "7"}[g.IntN(9)]
	case 4:
		b := []byte(s)
		b[g.IntN(len(b))] = byte(32 + g.IntN(95))
		return string(b)
	}
	return strings.Replace(s, `"Data":`, `"Data":[],"x":`, 1)
}

func drop(g *rand.Rand, v any) {
	switch v := v.(type) {
	case map[string]any:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		if len(ks) == 0 {
			return
		}
		k := ks[0]
		for _, x := range ks {
			if x < k {
				k = x
			}
		}
		if n := g.IntN(len(ks)); n > 0 || g.IntN(2) == 0 {
			// deterministic choice
			for i, x := range sorted(ks) {
				if i == n {
					k = x
				}
			}
		}
		if g.IntN(3) == 0 {
			if g.IntN(2) == 0 {
				delete(v, k)
			} else {
				v[k] = nil
			}
			return
		}
		drop(g, v[k])
	case []any:
		if len(v) > 0 {
			i := g.IntN(len(v))
			if g.IntN(4) == 0 {
				v[i] = nil
				return
			}
			drop(g, v[i])
		}
	}
}

func sorted(l []string) []string {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

func sameJSON(a, b []byte) bool {
	var x, y any
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

var statuses = []int{200, 201, 204, 400, 404, 409, 500, 503, 502, 418, 301, 401, 403, 429, 504, 100 + 102, 405, 413}

// TestCalls makes every call of the Willow and the Limiter clients against
// scripted answers and against the real services, and compares what the caller
// is told with what the service did.
func TestCalls(t *testing.T) {
	r := vh.Start(t, "client calls, by method, answer and outcome")
	defer r.Finish()
	vsched.Set(1, 8, 0)
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(1200, 60000) && !r.Bad(); n++ {
		g := vh.Rand("calls", n)
		r.Context("case %d", n)
		r.Guard("client calls", n, func() { synctest.Test(t, func(t *testing.T) { callsCase(r, g, n) }) })
	}
}

func callsCase(r *vh.R, g *rand.Rand, n int) {
	w := &wire{net: svc.NewNet(r)}
	http.DefaultTransport = w
	scripted := g.IntN(2) == 0
	k := &known{overrides: map[string][]string{}}
	for i := 0; i < 3; i++ {
		k.kvs = append(k.kvs, genKVs(g, false))
	}
	stop, stop2 := func() {}, func() {}
	if !scripted {
		stop = w.net.Locker("locker", 10*tick)
		stop2 = w.net.Limiter("limiter", "http://locker")
		stopWillow, _ := w.net.Willow("willow", "http://limiter")
		defer stopWillow()
	}
	defer stop()
	defer stop2()
	wc, err1 := willowclient.NewWillowClient(&clients.Config{URL: "http://c-willow"})
	lc, err2 := limiterclient.NewLimiterClient(&clients.Config{URL: "http://c-limiter"})
	if err1 != nil || err2 != nil {
		r.Inconclusive("no clients: %v %v", err1, err2)
		return
	}
	c := &kclients{wc, lc}
	var hist []string
	for i, m := 0, 10+g.IntN(30); i < m && !r.Bad(); i++ {
		one := genCall(g, c, k, scripted)
		if one == nil {
			continue
		}
		if scripted && g.IntN(12) == 0 {
			k.queues, k.rules = []string{"q1", "q2"}, []string{"r1", "r2"}
		}
		var p *plan
		switch {
		case scripted:
			p = &plan{scripted: true, status: statuses[g.IntN(len(statuses))]}
			if g.IntN(3) > 0 {
				p.status = one.ok
			}
			valid := ""
			if p.status == one.ok && one.gen != nil {
				valid = vh.JSON(one.gen(g))
			} else if p.status != one.ok {
				valid = vh.JSON(map[string]string{"Message": fmt.Sprintf("the reason %d", g.IntN(100))})
			}
			p.body = valid
			if valid != "" && g.IntN(2) == 0 {
				p.body = mutate(g, valid)
			}
			if valid == "" && p.status != 204 && g.IntN(3) == 0 {
				p.body = oddBodies[g.IntN(len(oddBodies))]
			}
			switch g.IntN(10) {
			case 0:
				p.refuse = true
			case 1:
				p.lose = true
			case 2:
				p.garble = len(p.body) > 1
			}
		case g.IntN(6) == 0:
			p = &plan{refuse: g.IntN(2) == 0}
			p.lose = !p.refuse
		}
		ctx, cancel := context.WithCancel(context.Background())
		trace := ""
		if g.IntN(2) == 0 {
			trace = fmt.Sprint("trace", i)
			ctx = context.WithValue(ctx, clients.TraceID, trace)
		}
		if one.name == "DequeueQueueItem" {
			// there may be nothing to dequeue
			time.AfterFunc(time.Duration(g.IntN(60))*tick, cancel)
		}
		w.mu.Lock()
		from := len(w.reqs)
		first := true
		w.plan = func(kind string) *plan {
			if kind == "heartbeat" {
				return &plan{drop: true}
			}
			if first {
				first = false
				return p
			}
			return nil
		}
		w.mu.Unlock()
		var res any
		var err error
		r.Guard(one.name, hist, func() { res, err = one.call(ctx) })
		gaveup := ctx.Err() != nil
		w.mu.Lock()
		w.plan = nil
		var qs []*wreq
		for _, q := range w.reqs[from:] {
			if strings.HasPrefix(q.host, "c-") && q.kind == "" {
				qs = append(qs, q)
			}
		}
		w.mu.Unlock()
		r.Eval(1)
		hist = append(hist, fmt.Sprintf("%s -> err=%v %v", one.name, err, qs))
		bad := func(key, f string, a ...any) {
			r.PV("K02", key+":"+one.name, hist, fmt.Sprintf("case %d: %s: ", n, one.name)+f, a...)
		}
		if len(qs) != 1 {
			if len(qs) == 0 && err != nil {
				r.Stat("calls that could not be sent", 1)
				cancel()
				continue
			}
			bad("requests", "%d requests are sent: %v", len(qs), qs)
			cancel()
			continue
		}
		q := qs[0]
		// the request
		if q.method != one.method || q.path != one.path || q.query != "" {
			bad("request-line", "asked for %s %s instead of %s %s", q.method, q.raw, one.method, one.path)
		}
		if one.body != nil {
			if b, _ := json.Marshal(one.body); !sameJSON(b, q.body) {
				bad("request-body", "sent %s instead of %s", q.body, b)
			}
		}
		if q.ctype != "application/json" && one.path != "/health" {
			bad("content-type", "sent with content type %q", q.ctype)
		}
		if q.trace != trace && one.path != "/health" {
			bad("trace", "sent with request id %q instead of %q", q.trace, trace)
		}
		if q.tracked != nil && !q.tracked.free.Load() && len(q.answer) > 0 {
			bad("connection-kept", "the answer is neither read to its end nor closed, its connection is kept: %v", q)
		}
		// the answer
		success := q.status == one.ok
		decided := true
		var got any
		if success && one.result != nil {
			got = one.result()
			if q.readable {
				if e := json.Unmarshal(bytes.TrimSpace(q.answer), got); e != nil {
					success = false
					// a decoder may stop after the first value
					if d := json.NewDecoder(bytes.NewReader(q.answer)).Decode(one.result()); d == nil {
						decided = false
					}
				} else if v, ok := got.(interface{ Validate() error }); ok && v.Validate() != nil {
					success = false
				} else if !valid(r, got) {
					// an answer that lacks something may be refused
					decided = false
				}
			} else {
				success = false
			}
		}
		if q.status/100 == 2 && q.status != one.ok {
			decided = false
		}
		if gaveup && err != nil {
			decided = false
		}
		if decided && success && err != nil {
			bad("false-error", "the service did it, but the client reports %v: %v", err, q)
		}
		if decided && !success && err == nil {
			bad("false-success", "the client reports a success: %v", q)
		}
		if err != nil && !isNil(res) {
			bad("result-and-error", "returned %v and error %v", res, err)
		}
		if err == nil && one.result != nil && isNil(res) && one.name != "QueryCounters" && !strings.HasSuffix(one.name, "s") {
			bad("no-result", "returned neither result nor error: %v", q)
		}
		if !success && err != nil && q.readable {
			var m struct{ Message string }
			if json.Unmarshal(q.answer, &m) == nil && m.Message != "" && reported[q.status] && !strings.Contains(err.Error(), m.Message) && !strings.Contains(err.Error(), fmt.Sprint(q.status)) {
				bad("reason", "the service answered %d %q but the error is %q", q.status, m.Message, err)
			}
			if err.Error() == "" {
				bad("empty-error", "an error without a text: %v", q)
			}
		}
		if success && err == nil && one.result != nil && decided {
			if it, ok := res.(*willowclient.Item); ok {
				if d := got.(*v1willow.Item).Spec.Properties.Data; !bytes.Equal(it.Data(), d) {
					bad("result", "returned data %q instead of %q", it.Data(), d)
				}
			} else if !sameJSON([]byte(vh.JSON(res)), []byte(vh.JSON(deref(got)))) {
				bad("result", "returned %s instead of %s", vh.JSON(res), q.answer)
			}
		}
		r.Distinct(fmt.Sprintf("%s/%d/%v/%v/%d", one.name, q.status, err == nil, q.plan != nil && (q.plan.lose || q.plan.refuse), n%50*1000+i))
		if err == nil {
			r.Stat("calls that succeed", 1)
		} else {
			r.Stat("calls that fail", 1)
		}
		// what a success leaves for the calls to come
		if err == nil {
			switch v := res.(type) {
			case *v1limiter.Rule:
				if v.State != nil {
					k.rules = append(k.rules, v.State.ID)
				}
			case *v1limiter.Override:
				if one.name == "CreateOverride" && v.State != nil {
					id := strings.Split(one.path, "/")[4]
					k.overrides[id] = append(k.overrides[id], v.State.ID)
				}
			case *willowclient.Item:
				hist = append(hist, ackCase(r, g, w, v, got.(*v1willow.Item), one, !scripted, n)...)
			}
			if one.name == "CreateQueue" {
				k.queues = append(k.queues, *one.body.(*v1willow.Queue).Spec.DBDefinition.Name)
			}
		}
		cancel()
	}
	w.mu.Lock()
	w.plan = nil
	w.mu.Unlock()
}

var reported = map[int]bool{400: true, 404: true, 409: true, 500: true}

func valid(r *vh.R, v any) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	m := reflect.ValueOf(v).MethodByName("Validate")
	if !m.IsValid() {
		return true
	}
	return m.Call(nil)[0].IsNil()
}

func deref(v any) any { return reflect.ValueOf(v).Elem().Interface() }

func isNil(v any) bool {
	if v == nil {
		return true
	}
	x := reflect.ValueOf(v)
	switch x.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Map:
		return x.IsNil()
	}
	return false
}

// ackCase acknowledges an item that was just dequeued.
func ackCase(r *vh.R, g *rand.Rand, w *wire, it *willowclient.Item, got *v1willow.Item, one *want, real bool, n int) (hist []string) {
	passed := g.IntN(2) == 0
	p := &plan{scripted: true, status: statuses[g.IntN(len(statuses))], body: `{"Message":"why"}`}
	switch g.IntN(8) {
	case 0:
		p.refuse = true
	case 1:
		p.lose, p.status = true, 200
	case 2, 3:
		p.status, p.body = 200, ""
	case 4:
		p = nil
	case 5:
		p.body = oddBodies[g.IntN(len(oddBodies))]
	case 6:
		p.garble = true
	}
	if p == nil && !real {
		p = &plan{scripted: true, status: 200}
	}
	w.mu.Lock()
	from := len(w.reqs)
	w.plan = func(kind string) *plan {
		if kind == "heartbeat" {
			return &plan{drop: true}
		}
		return p
	}
	if p == nil {
		w.plan = nil
	}
	w.mu.Unlock()
	var err error
	r.Guard("ACK", hist, func() { err = it.ACK(context.Background(), passed) })
	w.mu.Lock()
	var qs []*wreq
	for _, q := range w.reqs[from:] {
		if strings.HasSuffix(q.path, "/ack") {
			qs = append(qs, q)
		}
	}
	w.plan = nil
	w.mu.Unlock()
	r.Eval(1)
	hist = append(hist, fmt.Sprintf("ACK %v -> %v %v", passed, err, qs))
	bad := func(key, f string, a ...any) {
		r.PV("K02", key, hist, fmt.Sprintf("case %d: ACK: ", n)+f, a...)
	}
	select {
	case <-it.Done():
	default:
		bad("ack-not-done", "the item is not done after it was acknowledged")
	}
	if len(qs) != 1 {
		bad("ack-requests", "%d requests are sent: %v", len(qs), qs)
		return
	}
	q := qs[0]
	if q.tracked != nil && !q.tracked.free.Load() && len(q.answer) > 0 {
		bad("connection-kept:ACK", "the answer is neither read to its end nor closed, its connection is kept: %v", q)
	}
	var a v1willow.ACK
	if e := json.Unmarshal(q.body, &a); e != nil || a.Passed != passed || a.ItemID != got.State.ID || vh.KVS(vh.KV(a.KeyValues)) != vh.KVS(vh.KV(got.Spec.DBDefinition.KeyValues)) {
		bad("ack-body", "sent %s for item %s %v passed=%v", q.body, got.State.ID, got.Spec.DBDefinition.KeyValues, passed)
	}
	if q.method != "POST" || q.path != one.path+"/ack" {
		bad("ack-request", "sent %s %s for an item of %s", q.method, q.path, one.path)
	}
	if q.status == 200 && err != nil {
		bad("ack-false-error", "the service accepted it, but the client reports %v: %v", err, q)
	}
	if q.status/100 != 2 && err == nil {
		bad("ack-false-success", "the client reports a success: %v", q)
	}
	return
}
