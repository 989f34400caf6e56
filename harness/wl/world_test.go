package wl

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// ---- requests

type cl struct{ net *svc.Net }

func (c cl) to(ctx context.Context, method, url string, body any) svc.Resp {
	var b []byte
	if body != nil {
		var err error
		if b, err = json.Marshal(body); err != nil {
			panic(err)
		}
	}
	return c.net.Do(ctx, method, url, b)
}

func (c cl) willow(ctx context.Context, method, path string, body any) svc.Resp {
	return c.to(ctx, method, "http://willow/v1/queues"+path, body)
}

func (c cl) limiter(method, path string, body any) svc.Resp {
	return c.to(context.Background(), method, "http://limiter/v1/limiter/"+path, body)
}

var bg = context.Background()

type props struct {
	data    string
	upd     bool
	retries uint64
	pos     string
	timeout time.Duration
}

func (p props) String() string {
	u := ""
	if p.upd {
		u = " updateable"
	}
	return fmt.Sprintf("%q%s retries=%d %s timeout=%v", p.data, u, p.retries, p.pos, p.timeout)
}

func itemBody(kv vh.KV, p props) *v1willow.Item {
	return &v1willow.Item{Spec: &v1willow.ItemSpec{
		DBDefinition: &v1willow.ItemDBDefinition{KeyValues: datatypes.TypedKeyValues(kv)},
		Properties:   &v1willow.ItemProperties{Data: []byte(p.data), Updateable: &p.upd, RetryAttempts: &p.retries, RetryPosition: &p.pos, TimeoutDuration: &p.timeout},
	}}
}

func queueBody(name string, max int64) *v1willow.Queue {
	return &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: &name}, Properties: &v1willow.QueueProperties{MaxItems: &max}}}
}

func ackBody(id string, kv vh.KV, passed bool) *v1willow.ACK {
	return &v1willow.ACK{ItemID: id, KeyValues: datatypes.TypedKeyValues(kv), Passed: passed}
}

func hbBody(id string, kv vh.KV) *v1willow.Heartbeat {
	return &v1willow.Heartbeat{ItemID: id, KeyValues: datatypes.TypedKeyValues(kv)}
}

// delivered is what a dequeue returned.
type delivered struct {
	id string
	kv vh.KV
	p  props
}

func parseItem(b []byte) (*delivered, error) {
	var it v1willow.Item
	if err := json.Unmarshal(b, &it); err != nil {
		return nil, err
	}
	if it.Spec == nil || it.Spec.DBDefinition == nil || it.Spec.Properties == nil || it.State == nil || it.State.ID == "" {
		return nil, fmt.Errorf("incomplete item %s", b)
	}
	p := it.Spec.Properties
	if p.Updateable == nil || p.RetryAttempts == nil || p.RetryPosition == nil || p.TimeoutDuration == nil {
		return nil, fmt.Errorf("incomplete properties %s", b)
	}
	return &delivered{it.State.ID, vh.KV(it.Spec.DBDefinition.KeyValues), props{string(p.Data), *p.Updateable, *p.RetryAttempts, *p.RetryPosition, *p.TimeoutDuration}}, nil
}

func (c cl) counters() (map[string]int64, error) {
	res := c.limiter("GET", "counters/query", &qa.AssociatedActionQuery{})
	var cs v1limiter.Counters
	if err := json.Unmarshal(res.Body, &cs); err != nil || res.Status != 200 {
		return nil, fmt.Errorf("%s %v", res.Text(), err)
	}
	out := map[string]int64{}
	for _, c := range cs {
		out[vh.KVS(vh.KV(c.Spec.DBDefinition.KeyValues))] += *c.Spec.Properties.Counters
	}
	return out, nil
}

func counterText(m map[string]int64) string {
	var out []string
	for k, v := range m {
		if v != 0 {
			out = append(out, fmt.Sprintf("%s=%d", k, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func runningKV(queue string, kv vh.KV) vh.KV {
	out := vh.KV{"_willow_queue_name": datatypes.String(queue), "_willow_running": datatypes.String("true")}
	for k, v := range kv {
		out[k] = v
	}
	return out
}

func enqueuedKV(queue string, kv vh.KV) vh.KV {
	out := vh.KV{"_willow_queue_name": datatypes.String(queue), "_willow_enqueued": datatypes.String("true")}
	for k, v := range kv {
		out["_willow_"+k] = v
	}
	return out
}

// channels lists the key-values of the channels of a queue.
func channelsOf(body []byte) ([]string, error) {
	var cs v1willow.Channels
	if err := json.Unmarshal(body, &cs); err != nil {
		return nil, err
	}
	out := []string{}
	for _, c := range cs {
		if c == nil || c.Spec == nil || c.Spec.DBDefinition == nil {
			return nil, fmt.Errorf("incomplete channel %s", body)
		}
		out = append(out, vh.KVS(vh.KV(c.Spec.DBDefinition.KeyValues)))
	}
	sort.Strings(out)
	return out, nil
}

// ---- user limits on running items

type limit struct {
	id    string
	kv    vh.KV
	limit int64
	over  []*limit
}

func covers(e, kv vh.KV) bool {
	for k, v := range e {
		have, ok := kv[k]
		if !ok || v.Type != datatypes.T_any && vh.Compare(v, have) != 0 {
			return false
		}
	}
	return true
}

// inForce lists the limits that apply to an item running in a channel: the
// group they count and the limit.
func inForce(rules []*limit, kv vh.KV) (out []limit) {
	add := func(l *limit) {
		group := vh.KV{}
		for k := range l.kv {
			group[k] = kv[k]
		}
		out = append(out, limit{kv: group, limit: l.limit})
	}
	for _, r := range rules {
		if !covers(r.kv, kv) {
			continue
		}
		n := len(out)
		for _, o := range r.over {
			if covers(o.kv, kv) {
				add(o)
			}
		}
		if len(out) == n {
			add(r)
		}
	}
	return
}

// ---- generators

func val(g *rand.Rand) datatypes.EncapsulatedValue {
	switch g.IntN(8) {
	case 0:
		return datatypes.Int8(int8(g.IntN(2)))
	case 1:
		return datatypes.String(fmt.Sprint(g.IntN(2)))
	}
	return datatypes.Int(g.IntN(2))
}

func channelKV(g *rand.Rand) vh.KV {
	kv := vh.KV{}
	for n := 1 + g.IntN(3); len(kv) < n; {
		kv[vh.QKeys[g.IntN(3)]] = val(g)
	}
	return kv
}

func genProps(g *rand.Rand, data string) props {
	return props{data: data, upd: g.IntN(3) == 0, retries: uint64(g.IntN(4) * g.IntN(2)), pos: []string{"front", "back"}[g.IntN(2)],
		timeout: time.Duration(1+g.IntN(4))*time.Second + time.Duration(g.IntN(1e8))*time.Nanosecond}
}

var allTypes = vh.AllTypes

func exactly(kv vh.KV) *qa.AssociatedActionQuery {
	q := &qa.AssociatedActionQuery{Selection: &qa.Selection{KeyValues: qa.SelectionKeyValues{}, MinNumberOfKeyValues: vh.Ptr(len(kv)), MaxNumberOfKeyValues: vh.Ptr(len(kv))}}
	for k, v := range kv {
		tr := allTypes
		tr.MinDataType, tr.MaxDataType = v.Type, v.Type
		q.Selection.KeyValues[k] = qa.ValueQuery{Value: v, Comparison: "=", TypeRestrictions: tr}
	}
	return q
}

func genQuery(g *rand.Rand, pool []vh.KV) *qa.AssociatedActionQuery {
	switch g.IntN(4) {
	case 0:
		return &qa.AssociatedActionQuery{}
	case 1, 2:
		return exactly(pool[g.IntN(len(pool))])
	}
	return vh.GenQuery(g, 1, nil)
}
