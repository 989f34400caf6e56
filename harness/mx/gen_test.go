package mx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/DanLavine/willow/internal/verif/vh"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// known is what the generator knows to exist, by handle.
type known struct {
	locks, rules []string
	overs        [][2]string // rule, override
	items        []item
	n            int
}

type item struct {
	handle, queue string
	kv            vh.KV
}

func (k *known) fresh(what string) string { k.n++; return fmt.Sprintf("%s%d", what, k.n) }

func marshal(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func smallKV(g *rand.Rand) vh.KV {
	kv := vh.KV{}
	for n := 1 + g.IntN(2); len(kv) < n; {
		v := datatypes.Int(g.IntN(2))
		if g.IntN(5) == 0 {
			v = vh.SmallValue(g, false)
		}
		kv[[]string{"a", "b", "c"}[g.IntN(3)]] = v
	}
	return kv
}

func groupKV(g *rand.Rand) vh.KV {
	kv := smallKV(g)
	for k := range kv {
		if g.IntN(2) == 0 {
			kv[k] = datatypes.Any()
		}
	}
	return kv
}

var queueNames = []string{"q0", "q1", "a queue?%25#"}

func queuePath(q string) string { return "/v1/queues/" + url.PathEscape(q) }

func pick[T any](g *rand.Rand, l []T) (z T, ok bool) {
	if len(l) == 0 {
		return z, false
	}
	if len(l) > 4 && g.IntN(3) > 0 {
		l = l[len(l)-4:]
	}
	return l[g.IntN(len(l))], true
}

var kinds = []string{"lock", "lock", "lockhb", "lockdel", "lockq", "rule", "ruleget", "ruleupd", "ruledel", "ruleq", "rulem", "over", "overget", "overupd",
	"overdel", "overq", "overm", "incr", "incr", "set", "counterq", "queue", "queue", "queueget", "queuelist", "queueupd", "queuedel", "chq", "chdel", "enq", "enq", "enq", "deq", "deq", "ack", "itemhb"}

// request makes a valid request.
func request(g *rand.Rand, k *known, kind string) call {
	q := call{kind: kind, ctype: "application/json"}
	rule, _ := pick(g, k.rules)
	over, _ := pick(g, k.overs)
	limit := func() *int64 { return vh.Ptr([]int64{-1, 0, 1, 3, 5}[g.IntN(5)]) }
	limiter := func(method, path string, body any) {
		q.svc, q.method, q.path = "limiter", method, "/v1/limiter/"+path
		if body != nil {
			q.body = marshal(body)
		}
	}
	query := func() any { return vh.GenQuery(g, 1, nil) }
	match := func() any { return vh.GenMatch(g) }
	switch kind {
	case "lock":
		q.svc, q.method, q.path = "locker", "POST", "/v1/locks"
		q.kv = smallKV(g)
		l := &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: q.kv}}}
		if g.IntN(3) > 0 {
			l.Spec.Properties = &v1locker.LockProperties{Timeout: vh.Ptr(time.Duration(1+g.IntN(20)) * 100 * time.Millisecond)}
		}
		q.body, q.handle = marshal(l), k.fresh("lock")
		q.wait, q.waitKey = time.Duration(1+g.IntN(20))*100*time.Millisecond, "lock "+vh.KVS(q.kv)
	case "lockhb", "lockdel":
		l, _ := pick(g, k.locks)
		q.svc, q.method, q.path = "locker", "POST", "/v1/locks/@{"+l+".id}/heartbeat"
		if kind == "lockdel" {
			q.method, q.path = "DELETE", "/v1/locks/@{"+l+".id}"
		}
		q.body = marshal(&v1locker.LockClaim{SessionID: "@{" + l + ".session}"})
	case "lockq":
		q.svc, q.method, q.path, q.body = "locker", "GET", "/v1/locks", marshal(query())
	case "rule":
		limiter("POST", "rules", &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: groupKV(g)}, Properties: &v1limiter.RuleProperties{Limit: limit()}}})
		q.handle = k.fresh("rule")
	case "ruleget":
		limiter("GET", "rules/@{"+rule+"}", nil)
	case "ruleupd":
		limiter("PUT", "rules/@{"+rule+"}", &v1limiter.RuleProperties{Limit: limit()})
	case "ruledel":
		limiter("DELETE", "rules/@{"+rule+"}", nil)
	case "ruleq":
		limiter("GET", "rules/query", query())
	case "rulem":
		limiter("GET", "rules/match", match())
	case "over":
		limiter("POST", "rules/@{"+rule+"}/overrides", &v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: groupKV(g)}, Properties: &v1limiter.OverrideProperties{Limit: limit()}}})
		q.handle, q.queue = k.fresh("over"), rule
	case "overget":
		limiter("GET", "rules/@{"+over[0]+"}/overrides/@{"+over[1]+"}", nil)
	case "overupd":
		limiter("PUT", "rules/@{"+over[0]+"}/overrides/@{"+over[1]+"}", &v1limiter.OverrideProperties{Limit: limit()})
	case "overdel":
		limiter("DELETE", "rules/@{"+over[0]+"}/overrides/@{"+over[1]+"}", nil)
	case "overq":
		limiter("GET", "rules/@{"+rule+"}/overrides/query", query())
	case "overm":
		limiter("GET", "rules/@{"+rule+"}/overrides/match", match())
	case "incr", "set":
		n := int64(g.IntN(4))
		if kind == "incr" {
			n = []int64{1, 1, 1, 2, -1, -1}[g.IntN(6)]
		}
		limiter("PUT", map[string]string{"incr": "counters", "set": "counters/set"}[kind], &v1limiter.Counter{Spec: &v1limiter.CounterSpec{
			DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: smallKV(g)}, Properties: &v1limiter.CounteProperties{Counters: &n}}})
	case "counterq":
		limiter("GET", "counters/query", query())
	default:
		name := queueNames[[]int{0, 0, 0, 1, 1, 2}[g.IntN(6)]]
		q.svc, q.queue = "willow", name
		switch kind {
		case "queue":
			q.method, q.path = "POST", "/v1/queues"
			q.body = marshal(&v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: &name}, Properties: &v1willow.QueueProperties{MaxItems: vh.Ptr([]int64{-1, 1, 2, 5}[g.IntN(4)])}}})
		case "queueget":
			q.method, q.path = "GET", queuePath(name)
		case "queuelist":
			q.method, q.path = "GET", "/v1/queues"
		case "queueupd":
			q.method, q.path = "PUT", queuePath(name)
			q.body = marshal(&v1willow.QueueProperties{MaxItems: vh.Ptr([]int64{-1, 1, 2, 5}[g.IntN(4)])})
		case "queuedel":
			q.method, q.path = "DELETE", queuePath(name)
		case "chq":
			q.method, q.path, q.body = "GET", queuePath(name)+"/channels", marshal(query())
		case "chdel":
			q.method, q.path, q.body = "DELETE", queuePath(name)+"/channels", marshal(smallKV(g))
		case "enq":
			q.method, q.path = "POST", queuePath(name)+"/channels/items"
			q.body = marshal(&v1willow.Item{Spec: &v1willow.ItemSpec{DBDefinition: &v1willow.ItemDBDefinition{KeyValues: smallKV(g)},
				Properties: &v1willow.ItemProperties{Data: []byte(fmt.Sprint("d", g.IntN(1000))), Updateable: vh.Ptr(g.IntN(3) == 0), RetryAttempts: vh.Ptr(uint64(g.IntN(3))),
					RetryPosition: vh.Ptr([]string{"front", "back"}[g.IntN(2)]), TimeoutDuration: vh.Ptr(time.Duration(1+g.IntN(20)) * 100 * time.Millisecond)}}})
		case "deq":
			q.kv = smallKV(g)
			q.method, q.path = "GET", queuePath(name)+"/channels/items"
			q.body, q.handle = marshal(qa.KeyValuesToExactAssociatedActionQuery(q.kv)), k.fresh("item")
			q.wait, q.waitKey = time.Duration(1+g.IntN(20))*100*time.Millisecond, "deq "+name+vh.KVS(q.kv)
		case "ack", "itemhb":
			it, ok := pick(g, k.items)
			if !ok {
				it = item{"none", name, smallKV(g)}
			}
			q.method, q.path = "POST", queuePath(it.queue)+"/channels/items/ack"
			q.body = marshal(&v1willow.ACK{ItemID: "@{" + it.handle + "}", KeyValues: it.kv, Passed: g.IntN(3) > 0})
			if kind == "itemhb" {
				q.path = queuePath(it.queue) + "/channels/items/heartbeat"
				q.body = marshal(&v1willow.Heartbeat{ItemID: "@{" + it.handle + "}", KeyValues: it.kv})
			}
		}
	}
	return q
}

// ---- mutations of JSON

type node struct {
	get  func() any
	set  func(any)
	del  func() // nil when it cannot be removed
	path string
}

func parse(s string) any {
	d := json.NewDecoder(bytes.NewReader([]byte(s)))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil
	}
	return v
}

func nodes(root *any) (out []node) {
	out = append(out, node{func() any { return *root }, func(v any) { *root = v }, nil, ""})
	var walk func(v any, path string)
	walk = func(v any, path string) {
		switch x := v.(type) {
		case map[string]any:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				out = append(out, node{func() any { return x[k] }, func(v any) { x[k] = v }, func() { delete(x, k) }, path + "." + k})
				walk(x[k], path+"."+k)
			}
		case []any:
			for i := range x {
				out = append(out, node{func() any { return x[i] }, func(v any) { x[i] = v }, nil, fmt.Sprintf("%s[%d]", path, i)})
				walk(x[i], fmt.Sprintf("%s[%d]", path, i))
			}
		}
	}
	walk(*root, "")
	return
}

func find(root *any, path string) *node {
	for _, n := range nodes(root) {
		if n.path == path {
			return &n
		}
	}
	return nil
}

func odd(g *rand.Rand) any {
	switch g.IntN(20) {
	case 0:
		return nil
	case 1:
		return true
	case 2:
		return false
	case 3:
		return ""
	case 4:
		return "x"
	case 5:
		return map[string]any{}
	case 6:
		return []any{}
	case 7:
		return []any{nil}
	case 8:
		return json.Number("0")
	case 9:
		return json.Number("-1")
	case 10:
		return json.Number("9223372036854775807")
	case 11:
		return json.Number("-9223372036854775808")
	case 12:
		return json.Number("1.5")
	case 13:
		return json.Number("1e400")
	case 14:
		return json.Number(fmt.Sprint(g.IntN(2000) - 5))
	case 15:
		return strings.Repeat("k", 3000)
	case 16:
		return "\x00\u2028\ufffd'\"\\"
	case 17:
		return map[string]any{"Type": json.Number(fmt.Sprint(g.IntN(16) - 1)), "Data": []any{"1", json.Number("1"), nil, "x", "-0", "1e5", "99999999999999999999"}[g.IntN(7)]}
	case 18:
		return map[string]any{"Type": json.Number("1024"), "Data": "x"}
	}
	return json.Number("18446744073709551616")
}

// scramble changes a JSON value somewhere.
func scramble(g *rand.Rand, body string) string {
	v := parse(body)
	for i := 0; i < 1+g.IntN(2); i++ {
		ns := nodes(&v)
		n := ns[g.IntN(len(ns))]
		switch g.IntN(8) {
		case 0, 1, 2, 3:
			n.set(odd(g))
		case 4, 5:
			if n.del != nil {
				n.del()
			}
		case 6: // swap with another part
			o := ns[g.IntN(len(ns))]
			if !strings.HasPrefix(n.path, o.path) && !strings.HasPrefix(o.path, n.path) {
				a, b := n.get(), o.get()
				n.set(b)
				o.set(a)
			}
		case 7: // something more
			if m, ok := n.get().(map[string]any); ok {
				m[[]string{"", "State", "Spec", "x", "_associated_id", "_willow_enqueued", "Selection", "And", "Or"}[g.IntN(9)]] = odd(g)
			} else {
				n.set([]any{n.get(), odd(g)})
			}
		}
	}
	return marshal(v)
}

// noise changes bytes.
func noise(g *rand.Rand, body string) string {
	b := []byte(body)
	if len(b) == 0 || g.IntN(8) == 0 {
		b = make([]byte, 1+g.IntN(60))
		for i := range b {
			b[i] = byte(g.IntN(256))
		}
		return string(b)
	}
	for i := 0; i < 1+g.IntN(3); i++ {
		p := g.IntN(len(b))
		switch g.IntN(4) {
		case 0:
			b[p] = byte(g.IntN(256))
		case 1:
			b = append(b[:p:p], b[p+1:]...)
		case 2:
			b = append(b[:p:p], append([]byte{"{}[]\",:0-\\n"[g.IntN(11)]}, b[p:]...)...)
		case 3:
			b[p] ^= 1 << g.IntN(8)
		}
		if len(b) == 0 {
			return " "
		}
	}
	return string(b)
}

var noType = "no-such-type"

// badValue is no value of a key, whatever the service.
func badValue(g *rand.Rand, anyIsFine bool) any {
	if !anyIsFine && g.IntN(5) == 0 {
		return map[string]any{"Type": json.Number("1024")}
	}
	m := func(t string, d any) any { return map[string]any{"Type": json.Number(t), "Data": d} }
	return []any{
		m("0", "1"), m("14", "1"), m("-1", "1"), m("1023", "1"), m("1024", "1"), m("10", "abc"), m("10", nil), m("10", json.Number("5")), m("10", ""), m("1", "256"), m("1", "-1"), m("6", "128"),
		m("11", "NaN"), m("12", "nan"), m("12", "one"), m("4", "18446744073709551616"), m("9", "9223372036854775808"), m("13", json.Number("5")), m("10", "1.5"), m("10", " 1"),
		map[string]any{}, map[string]any{"Data": "1"}, json.Number("5"), "x", []any{}, map[string]any{"Type": "x", "Data": "1"}, m("10.5", "1"), m("10", map[string]any{}), m("10", []any{"1"}),
		map[string]any{"Type": json.Number("13")},
	}[g.IntN(30)]
}

// spoil makes a body that must be refused, or returns false.
func spoil(g *rand.Rand, q call) (body, label string, ok bool) {
	v := parse(q.body)
	kvPath, anyFine := "", false
	var must []string // fields that must be there
	bad := map[string][]any{}
	num := func(s string) any { return json.Number(s) }
	notInt := []any{"1", true, num("1.5"), []any{}, map[string]any{}, num("1e30"), num("9223372036854775808")}
	notString := []any{num("5"), true, []any{}, map[string]any{}}
	switch q.kind {
	case "lock":
		kvPath = ".Spec.DBDefinition.KeyValues"
		must = []string{".Spec", ".Spec.DBDefinition", kvPath}
		bad[".Spec.Properties.Timeout"] = append([]any{num("0"), num("-1"), num("-9223372036854775808")}, notInt...)
		bad["+.State"] = []any{map[string]any{}, map[string]any{"LockID": "x", "SessionID": "y"}, "x", num("5")}
		bad[".Spec"] = []any{"x", []any{}, num("1")}
	case "lockhb", "lockdel":
		must = []string{".SessionID"}
		bad[".SessionID"] = append([]any{""}, notString...)
	case "rule", "over":
		kvPath, anyFine = ".Spec.DBDefinition.GroupByKeyValues", true
		must = []string{".Spec", ".Spec.DBDefinition", kvPath, ".Spec.Properties", ".Spec.Properties.Limit"}
		bad[".Spec.Properties.Limit"] = append([]any{num("-2"), num("-9223372036854775808")}, notInt...)
	case "ruleupd", "overupd":
		must = []string{".Limit"}
		bad[".Limit"] = append([]any{num("-2")}, notInt...)
	case "incr", "set":
		kvPath = ".Spec.DBDefinition.KeyValues"
		must = []string{".Spec", ".Spec.DBDefinition", kvPath, ".Spec.Properties", ".Spec.Properties.Counters"}
		bad[".Spec.Properties.Counters"] = notInt
	case "queue":
		must = []string{".Spec", ".Spec.DBDefinition", ".Spec.DBDefinition.Name", ".Spec.Properties", ".Spec.Properties.MaxItems"}
		bad[".Spec.DBDefinition.Name"] = append([]any{""}, notString...)
		bad[".Spec.Properties.MaxItems"] = append([]any{num("-2"), num("-100")}, notInt...)
		bad["+.State"] = []any{map[string]any{}, map[string]any{"Deleting": false}, "x"}
	case "queueupd":
		must = []string{".MaxItems"}
		bad[".MaxItems"] = append([]any{num("-2")}, notInt...)
	case "chdel":
		kvPath = ""
		if m, isMap := v.(map[string]any); isMap && g.IntN(3) > 0 {
			for k := range m {
				if len(m) == 1 || g.IntN(2) == 0 {
					m[k] = badValue(g, false)
					return marshal(v), "a bad value for " + k, true
				}
			}
		}
		return "{}", "no key values", true
	case "enq":
		kvPath = ".Spec.DBDefinition.KeyValues"
		p := ".Spec.Properties."
		must = []string{".Spec", ".Spec.DBDefinition", kvPath, ".Spec.Properties", p + "Data", p + "Updateable", p + "RetryAttempts", p + "RetryPosition", p + "TimeoutDuration"}
		bad[p+"Data"] = []any{"", "%%%", num("5"), true}
		bad[p+"Updateable"] = []any{"true", num("1"), map[string]any{}}
		bad[p+"RetryAttempts"] = []any{num("-1"), "1", num("1.5"), true}
		bad[p+"RetryPosition"] = []any{"", "middle", "Front", num("0"), true}
		bad[p+"TimeoutDuration"] = append([]any{num("0"), num("-1")}, notInt...)
		bad["+.State"] = []any{map[string]any{}, map[string]any{"ID": "x"}, "x"}
		bad["+"+kvPath+"."+[]string{"_willow_enqueued", "_willow_running", "_willow_queue_name"}[g.IntN(3)]] = []any{map[string]any{"Type": num("13"), "Data": "true"}}
	case "ack", "itemhb":
		kvPath = ".KeyValues"
		must = []string{".ItemID", ".KeyValues"}
		bad[".ItemID"] = append([]any{""}, notString...)
		if q.kind == "ack" {
			bad[".Passed"] = []any{"true", num("1"), []any{}, map[string]any{}}
		}
	case "lockq", "ruleq", "overq", "counterq", "chq", "deq":
		sel := func(s any) any { return map[string]any{"Selection": s} }
		kv := func(x any) any { return sel(map[string]any{"KeyValues": map[string]any{"a": x}}) }
		one := map[string]any{"Type": num("10"), "Data": "1"}
		tr := map[string]any{"MinDataType": num("1"), "MaxDataType": num("1024")}
		q1 := func(value, comparison, restr any) any {
			m := map[string]any{}
			if value != nil {
				m["Value"] = value
			}
			if comparison != nil {
				m["Comparison"] = comparison
			}
			if restr != nil {
				m["TypeRestrictions"] = restr
			}
			return kv(m)
		}
		trs := func(a, b string) any { return map[string]any{"MinDataType": num(a), "MaxDataType": num(b)} }
		bads := []any{
			sel(map[string]any{}), sel(map[string]any{"IDs": []any{}}), sel(map[string]any{"MinNumberOfKeyValues": num("3"), "MaxNumberOfKeyValues": num("2")}), sel("x"), sel([]any{}),
			sel(map[string]any{"IDs": "x"}), sel(map[string]any{"IDs": []any{num("5")}}), sel(map[string]any{"MinNumberOfKeyValues": "1"}), sel(map[string]any{"MaxNumberOfKeyValues": num("1.5")}),
			q1(one, "==", tr), q1(one, "", tr), q1(one, nil, tr), q1(one, "<>", tr), q1(one, num("1"), tr), q1(nil, "=", tr), q1(one, "=", nil), q1(one, "=", trs("0", "13")), q1(one, "=", trs("1", "14")), q1(one, "=", trs("5", "2")),
			q1(one, "!=", trs("1024", "13")), q1(map[string]any{"Type": num("1024")}, "<", tr), q1(map[string]any{"Type": num("1024")}, ">=", tr), q1(badValue(g, true), "=", tr), q1(badValue(g, true), "<=", tr),
		}
		x := bads[g.IntN(len(bads))]
		switch g.IntN(6) {
		case 0:
			x = map[string]any{"And": []any{map[string]any{}, x}}
		case 1:
			x = map[string]any{"Or": []any{x}}
		case 2:
			x = map[string]any{"Or": []any{map[string]any{"And": []any{x}}}, "And": []any{}}
		case 3:
			if g.IntN(2) == 0 {
				x = nil
			}
			l := []any{x}
			for k := g.IntN(3); k > 0; k-- {
				l = append(l, map[string]any{})
			}
			g.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			x = map[string]any{[]string{"Or", "And"}[g.IntN(2)]: l}
		}
		return marshal(x), "an invalid query", true
	case "rulem", "overm":
		must = []string{".KeyValues"}
		bad[".KeyValues"] = []any{map[string]any{}, "x", []any{}, map[string]any{"a": map[string]any{}}, map[string]any{"a": map[string]any{"Value": badValue(g, true), "TypeRestrictions": map[string]any{"MinDataType": num("1"), "MaxDataType": num("1024")}}},
			map[string]any{"a": map[string]any{"Value": map[string]any{"Type": num("10"), "Data": "1"}}}, map[string]any{"a": map[string]any{"Value": map[string]any{"Type": num("10"), "Data": "1"}, "TypeRestrictions": map[string]any{"MinDataType": num("9"), "MaxDataType": num("3")}}}}
		bad["+.MinNumberOfPermutationKeyValues"] = []any{"x", num("1.5")}
	default:
		return "", "", false
	}
	switch {
	case kvPath != "" && g.IntN(3) == 0:
		n := find(&v, kvPath)
		m := n.get().(map[string]any)
		if g.IntN(4) == 0 {
			n.set([]any{map[string]any{}, "x", []any{}, num("1"), nil}[g.IntN(5)])
			return marshal(v), "no key values", true
		}
		k := "zz"
		if g.IntN(2) == 0 {
			for k = range m {
				break
			}
		}
		m[k] = badValue(g, anyFine)
		return marshal(v), "a bad value for " + k, true
	case len(must) > 0 && g.IntN(2) == 0:
		p := must[g.IntN(len(must))]
		n := find(&v, p)
		if n == nil {
			return "", "", false
		}
		if g.IntN(2) == 0 {
			n.del()
		} else {
			n.set(nil)
		}
		return marshal(v), "without " + p, true
	}
	var ps []string
	for p := range bad {
		ps = append(ps, p)
	}
	if len(ps) == 0 {
		return "", "", false
	}
	sort.Strings(ps)
	p := ps[g.IntN(len(ps))]
	x := bad[p][g.IntN(len(bad[p]))]
	if strings.HasPrefix(p, "+") {
		p = p[1:]
		i := strings.LastIndex(p, ".")
		m, isMap := find(&v, p[:i]).get().(map[string]any)
		if !isMap {
			return "", "", false
		}
		m[p[i+1:]] = x
	} else {
		n := find(&v, p)
		if n == nil {
			return "", "", false
		}
		n.set(x)
	}
	return marshal(v), "a bad " + p, true
}

// hostile makes a request that is, or may be, invalid.
func hostile(g *rand.Rand, k *known) call {
	q := request(g, k, kinds[g.IntN(len(kinds))])
	q.class, q.wait, q.waitKey = unknown, 0, ""
	hasBody := q.body != ""
	if (q.kind == "rulem" || q.kind == "overm") && g.IntN(3) == 0 { // numbers of keys that may contradict each other
		v := parse(q.body).(map[string]any)
		for _, f := range []string{"MinNumberOfPermutationKeyValues", "MaxNumberOfPermutationKeyValues"} {
			delete(v, f)
			if g.IntN(4) > 0 {
				v[f] = json.Number(fmt.Sprint(g.IntN(9) - 3))
			}
		}
		q.body, q.label = marshal(v), "numbers of keys"
		return q
	}
	switch g.IntN(12) {
	case 0, 1, 2, 3:
		if body, label, ok := spoil(g, q); ok {
			q.body, q.label, q.class = body, label, invalid
			return q
		}
		fallthrough
	case 4, 5, 6:
		if hasBody {
			q.body, q.label = scramble(g, q.body), "scrambled"
			return q
		}
		fallthrough
	case 7:
		q.body, q.label = noise(g, q.body), "noise"
	case 8:
		switch {
		case hasBody && g.IntN(4) > 0:
			q.body, q.label, q.class = q.body[:g.IntN(len(q.body))], "truncated", invalid
		case hasBody:
			q.body, q.label, q.class = []string{"[]", "5", "\"x\"", "true", "nul", "{", "}", "\xff\xfe", "{}}"[:1], "<a/>", "a=1"}[g.IntN(11)], "another format", invalid
		default:
			q.body, q.label = "{\"x\":1}", "a body"
		}
		if hasBody && g.IntN(6) == 0 {
			q.body, q.noBody = "", true
		}
	case 9:
		q.ctype, q.label, q.class = "", "no content type", invalid
		if g.IntN(2) == 0 {
			q.ctype, q.class = []string{"text/plain", "x", "application/json; charset=utf-8", "\t", strings.Repeat("a", 5000)}[g.IntN(5)], unknown
		}
	case 10:
		q.label, q.class = "method", invalid
		q.method = []string{"PATCH", "OPTIONS", "TRACE", "PROPFIND", "FOO", "post", "get"}[g.IntN(7)]
	case 11:
		switch g.IntN(4) {
		case 0:
			q.label, q.class = "path", invalid
			q.path = []string{"/", "/v1", "/v1/", "/v2/locks", "/v1/lock", "/v1/limiter", "/v1/limiter/", "/v1/limiter/counters/none/x", "/v1/queue", "/v1/queues/q0/channel/items", "/v1/locks/x/beat", "/v1/locks/a/b/c/d",
				"/v1/limiter/rules/a/b/c/d", "/v1/queues/q0/channels/items/nack", "//", "/v1//locks", "/" + strings.Repeat("a/", 500)}[g.IntN(17)]
		case 1: // another part
			ps := strings.Split(q.path, "/")
			i := 1 + g.IntN(len(ps)-1)
			ps[i] = []string{"", "x", "%2F", "%00", "%FF%FE", "..", "%2e%2e", "*", "@{lock1.id}", "@{rule1}", "%E2%82%AC", strings.Repeat("z", 4000)}[g.IntN(12)]
			q.path, q.label = strings.Join(ps, "/"), "path"
		case 2:
			q.path, q.label = q.path+[]string{"/", "/x", "?a=b", "?%zz", "/../..", "%20"}[g.IntN(6)], "path"
		case 3:
			q.label = "headers"
			q.headers = map[string]string{[]string{"X-Request-ID", "Accept", "Content-Length", "Content-Encoding", "Transfer-Encoding", "Expect", "Range", "Authorization"}[g.IntN(8)]: []string{"", "-1", "gzip", "x\x01y", strings.Repeat("h", 3000)}[g.IntN(5)]}
		}
	}
	return q
}
