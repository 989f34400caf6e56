package ds

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"net/http/httptest"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/pkg/models/api"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	qm "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

func wideAny(g *rand.Rand) datatypes.EncapsulatedValue {
	if g.IntN(12) == 0 {
		return datatypes.Any()
	}
	v := vh.WideValue(g)
	if g.IntN(40) == 0 {
		switch v.Type {
		case datatypes.T_float32:
			return datatypes.Float32(float32(math.Inf(1 - 2*g.IntN(2))))
		case datatypes.T_float64:
			return datatypes.Float64(math.Inf(1 - 2*g.IntN(2)))
		}
	}
	return v
}

func near(g *rand.Rand, v datatypes.EncapsulatedValue) datatypes.EncapsulatedValue {
	if g.IntN(3) > 0 {
		return wideAny(g)
	}
	b, _ := json.Marshal(v)
	var m map[string]any
	json.Unmarshal(b, &m)
	if s, ok := m["Data"].(string); ok && g.IntN(2) == 0 { // same text, another type
		t := vh.Types[g.IntN(13)]
		if d, err := datatypes.StringDecoding(t, s); err == nil {
			return datatypes.EncapsulatedValue{Type: t, Data: d}
		}
	}
	return v
}

// TestV01_Order checks the laws of the order of typed values.
func TestV01_Order(t *testing.T) {
	r := vh.Start(t, "pairs of typed values with comparisons in both directions")
	defer r.Finish()
	g := vh.Rand("V01order", vh.Shard())
	for n := 0; n < vh.N(40000, 4000000) && !r.Bad(); n++ {
		a := wideAny(g)
		b := near(g, a)
		r.Guard("Less", []string{vh.VS(a), vh.VS(b)}, func() {
			c := vh.Compare(a, b)
			if a.LessMatchType(b) != (c < 0) || b.LessMatchType(a) != (c > 0) {
				r.Violation("order", nil, "%s and %s compare as %d, but LessMatchType gives %v and %v", vh.VS(a), vh.VS(b), c, a.LessMatchType(b), b.LessMatchType(a))
			}
			isAny := a.Type == datatypes.T_any || b.Type == datatypes.T_any
			if a.Less(b) != (c < 0 && !isAny) || b.Less(a) != (c > 0 && !isAny) {
				r.Violation("less", nil, "%s and %s compare as %d, but Less gives %v and %v", vh.VS(a), vh.VS(b), c, a.Less(b), b.Less(a))
			}
			if a.Type.LessMatchType(b.Type) != (a.Type < b.Type) || a.Type.Less(b.Type) != (a.Type < b.Type && !isAny) {
				r.Violation("type-order", nil, "types %s and %s", a.Type.ToString(), b.Type.ToString())
			}
			if err := a.Validate(datatypes.MinDataType, datatypes.MaxDataType); err != nil {
				r.Violation("valid", nil, "%s is refused: %v", vh.VS(a), err)
			}
			if lo, hi := vh.Types[g.IntN(14)], vh.Types[g.IntN(14)]; (a.Validate(lo, hi) == nil) != (a.Type >= lo && a.Type <= hi) {
				r.Violation("valid-range", nil, "%s against types %s to %s: %v", vh.VS(a), lo.ToString(), hi.ToString(), a.Validate(lo, hi))
			}
			r.Eval(1)
			if c != 0 {
				r.Distinct(vh.VS(a) + "?" + vh.VS(b))
			} else {
				r.Stat("equal pairs", 1)
			}
		})
	}
}

func wideKV(g *rand.Rand, any bool) vh.KV {
	kv := vh.KV{}
	for n := 1 + g.IntN(4); len(kv) < n; {
		k := []string{"a", "b", "c", "", " ", "Type", "Data", "é", "\"", "a.b", "<k>", "key" + strconv.Itoa(g.IntN(50))}[g.IntN(12)]
		if kv[k] = vh.WideValue(g); any {
			kv[k] = wideAny(g)
		}
	}
	return kv
}

func i64(g *rand.Rand) *int64 {
	return ptr([]int64{0, 1, -1, 5, math.MaxInt64, g.Int64()}[g.IntN(6)])
}

func limit(g *rand.Rand) *int64 {
	return ptr([]int64{0, 1, -1, 5, math.MaxInt64, g.Int64()}[g.IntN(6)])
}

func genObject(g *rand.Rand) (api.APIObject, api.APIObject) {
	dur := func() *time.Duration { return ptr(time.Duration(1 + g.Int64N(math.MaxInt64-1))) }
	switch g.IntN(6) {
	case 0:
		l := &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: wideKV(g, false)}}}
		if g.IntN(2) == 0 {
			l.Spec.Properties = &v1locker.LockProperties{}
			if g.IntN(3) > 0 {
				l.Spec.Properties.Timeout = dur()
			}
		}
		return l, &v1locker.Lock{}
	case 1:
		return &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: wideKV(g, true)}, Properties: &v1limiter.RuleProperties{Limit: limit(g)}}}, &v1limiter.Rule{}
	case 2:
		return &v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: wideKV(g, true)}, Properties: &v1limiter.OverrideProperties{Limit: limit(g)}}}, &v1limiter.Override{}
	case 3:
		return &v1limiter.Counter{Spec: &v1limiter.CounterSpec{DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: wideKV(g, false)}, Properties: &v1limiter.CounteProperties{Counters: i64(g)}}}, &v1limiter.Counter{}
	case 4:
		data := make([]byte, 1+g.IntN(40))
		for i := range data {
			data[i] = byte(g.IntN(256))
		}
		return &v1willow.Item{Spec: &v1willow.ItemSpec{DBDefinition: &v1willow.ItemDBDefinition{KeyValues: wideKV(g, false)}, Properties: &v1willow.ItemProperties{
			Data: data, Updateable: ptr(g.IntN(2) == 0), RetryAttempts: ptr([]uint64{0, 1, math.MaxUint64}[g.IntN(3)]), RetryPosition: ptr([]string{"front", "back"}[g.IntN(2)]), TimeoutDuration: dur()}}}, &v1willow.Item{}
	default:
		q := &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: ptr([]string{"q", "é", "a b/c", "\""}[g.IntN(4)])}}}
		q.Spec.Properties = &v1willow.QueueProperties{MaxItems: i64(g)}
		return q, &v1willow.Queue{}
	}
}

// show renders anything with its typed values spelled out (%#v would print
// pointers).
func show(x any) string {
	var b strings.Builder
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		if v.IsValid() && v.CanInterface() {
			if e, ok := v.Interface().(datatypes.EncapsulatedValue); ok {
				fmt.Fprintf(&b, "%s/%T(%#v)", e.Type.ToString(), e.Data, e.Data)
				return
			}
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			rec(v.Elem())
		case reflect.Struct:
			b.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				b.WriteString(v.Type().Field(i).Name + ":")
				rec(v.Field(i))
				b.WriteString(" ")
			}
			b.WriteString("}")
		case reflect.Map:
			keys := v.MapKeys()
			m := map[string]reflect.Value{}
			var ks []string
			for _, k := range keys {
				m[k.String()] = k
				ks = append(ks, k.String())
			}
			b.WriteString("map[")
			for _, k := range slices.Sorted(slices.Values(ks)) {
				fmt.Fprintf(&b, "%q:", k)
				rec(v.MapIndex(m[k]))
				b.WriteString(" ")
			}
			b.WriteString("]")
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				fmt.Fprintf(&b, "%x", v.Bytes())
				return
			}
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
				b.WriteString(" ")
			}
			b.WriteString("]")
		default:
			fmt.Fprintf(&b, "%#v", v.Interface())
		}
	}
	rec(reflect.ValueOf(x))
	return b.String()
}

// TestV01_RoundTrip encodes and decodes values, sets, queries and objects.
func TestV01_RoundTrip(t *testing.T) {
	r := vh.Start(t, "encodings decoded again, beyond a plain small value")
	defer r.Finish()
	g := vh.Rand("V01rt", vh.Shard())
	for n := 0; n < vh.N(8000, 800000) && !r.Bad(); n++ {
		same := func(kind string, in, out any, b []byte) {
			r.Eval(1)
			r.Stat(kind, 1)
			if a, b2 := show(in), show(out); a != b2 {
				r.Violation("roundtrip:"+kind, nil, "%s was encoded as %s and decoded as %s", a, b, b2)
			} else {
				r.Distinct(kind + a)
			}
		}
		fail := func(kind string, in any, b []byte, err error) {
			r.Violation("refused:"+kind, nil, "valid %s (encoded %s) is refused: %v", show(in), b, err)
		}
		r.Guard("roundtrip", nil, func() {
			v := wideAny(g)
			b, err := json.Marshal(v)
			var v2 datatypes.EncapsulatedValue
			if err == nil {
				err = json.Unmarshal(b, &v2)
			}
			if err != nil {
				fail("value", v, b, err)
			}
			same("value", v, v2, b)

			kv := wideKV(g, true)
			b, err = json.Marshal(kv)
			var kv2 datatypes.KeyValues
			if err == nil {
				err = json.Unmarshal(b, &kv2)
			}
			if err != nil {
				fail("key-values", kv, b, err)
			}
			same("key-values", kv, kv2, b)

			q := genQuery(g, 2, nil)
			if q.Selection != nil && g.IntN(2) == 0 {
				q.Selection.IDs = []string{"id1", "é"}
			}
			if b, err = api.ModelEncodeRequest(q); err != nil {
				fail("query", q, b, err)
			} else {
				q2 := &qa.AssociatedActionQuery{}
				if err := api.ModelDecodeRequest(httptest.NewRequest("POST", "/", bytes.NewReader(b)), q2); err != nil {
					fail("query", q, b, err)
				}
				same("query", normQuery(q), normQuery(q2), b)
			}

			m := genMatch(g)
			if b, err = api.ModelEncodeRequest(m); err != nil {
				fail("match", m, b, err)
			} else {
				m2 := &qm.MatchActionQuery{}
				if err := api.ModelDecodeRequest(httptest.NewRequest("POST", "/", bytes.NewReader(b)), m2); err != nil {
					fail("match", m, b, err)
				}
				same("match", m, m2, b)
			}

			o, o2 := genObject(g)
			if b, err = api.ObjectEncodeRequest(o); err != nil {
				fail("object", o, b, err)
			} else {
				if err := api.ObjectDecodeRequest(httptest.NewRequest("POST", "/", bytes.NewReader(b)), o2); err != nil {
					fail("object", o, b, err)
				}
				same(fmt.Sprintf("%T", o), o, o2, b)
			}

			switch g.IntN(2) {
			case 0:
				a, a2 := &v1willow.ACK{ItemID: "é1", KeyValues: wideKV(g, false), Passed: g.IntN(2) == 0}, &v1willow.ACK{}
				if b, err = api.ModelEncodeRequest(a); err != nil {
					fail("ack", a, b, err)
				} else if err := api.ModelDecodeRequest(httptest.NewRequest("POST", "/", bytes.NewReader(b)), a2); err != nil {
					fail("ack", a, b, err)
				}
				same("ack", a, a2, b)
			default:
				a, a2 := &v1willow.Heartbeat{ItemID: "é1", KeyValues: wideKV(g, false)}, &v1willow.Heartbeat{}
				if b, err = api.ModelEncodeRequest(a); err != nil {
					fail("heartbeat", a, b, err)
				} else if err := api.ModelDecodeRequest(httptest.NewRequest("POST", "/", bytes.NewReader(b)), a2); err != nil {
					fail("heartbeat", a, b, err)
				}
				same("heartbeat", a, a2, b)
			}
		})
	}
}

// normQuery drops the difference between absent and empty parts.
func normQuery(q *qa.AssociatedActionQuery) *qa.AssociatedActionQuery {
	c := &qa.AssociatedActionQuery{}
	if q.Selection != nil {
		s := *q.Selection
		if len(s.IDs) == 0 {
			s.IDs = nil
		}
		if len(s.KeyValues) == 0 {
			s.KeyValues = nil
		}
		c.Selection = &s
	}
	for _, x := range q.And {
		c.And = append(c.And, normQuery(x))
	}
	for _, x := range q.Or {
		c.Or = append(c.Or, normQuery(x))
	}
	return c
}

func bits(t datatypes.DataType) (bits int, signed bool) {
	switch t {
	case datatypes.T_uint8:
		return 8, false
	case datatypes.T_uint16:
		return 16, false
	case datatypes.T_uint32:
		return 32, false
	case datatypes.T_uint64, datatypes.T_uint:
		return 64, false
	case datatypes.T_int8:
		return 8, true
	case datatypes.T_int16:
		return 16, true
	case datatypes.T_int32:
		return 32, true
	case datatypes.T_int64, datatypes.T_int:
		return 64, true
	}
	return 0, false
}

// TestV01_Decode feeds text that does and does not denote a value of the
// declared type.
func TestV01_Decode(t *testing.T) {
	r := vh.Start(t, "decodings of text for a declared type")
	defer r.Finish()
	g := vh.Rand("V01dec", vh.Shard())
	for n := 0; n < vh.N(20000, 2000000) && !r.Bad(); n++ {
		typ := vh.Types[g.IntN(14)]
		var text any
		ok, either := false, false
		var want any
		switch k := g.IntN(11); {
		case k == 10: // decimal in an unusual way: refused, or read as decimal
			either, text = true, []any{"010", "-010", "+1", "0099", "0000000000000000000000000000012", "-0", "+0"}[g.IntN(7)]
			if f, _ := strconv.ParseFloat(text.(string), 64); typ == datatypes.T_float32 || typ == datatypes.T_float64 {
				ok = true
				want = fmt.Sprint(f)
				if f == 0 {
					want = nil
				}
			} else if b, signed := bits(typ); b > 0 {
				x, _ := new(big.Int).SetString(text.(string), 10)
				ok = signed || x.Sign() >= 0
				want = x.String()
			}
		case k < 4: // a whole number around some power of two
			x := new(big.Int).Lsh(big.NewInt(1), uint(g.IntN(70)))
			x.Add(x, big.NewInt(int64(g.IntN(3)-1)))
			if g.IntN(2) == 0 {
				x.Neg(x)
			}
			text = x.String()
			if b, signed := bits(typ); b > 0 {
				lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(b))
				if signed {
					lo.Neg(new(big.Int).Lsh(big.NewInt(1), uint(b-1)))
					hi.Lsh(big.NewInt(1), uint(b-1))
				}
				ok = x.Cmp(lo) >= 0 && x.Cmp(hi) < 0
				want = x.String()
			} else if typ == datatypes.T_float32 || typ == datatypes.T_float64 {
				ok, want = true, nil
			}
		case k < 6: // not a number
			text = []any{"", "abc", "1.5.2", "1x", " 1", "1 ", "--1", "1,5", "0x", "NaN", "nan", "1e", "true", "null", "٣", "1\x00", "é", "½", "0x1f", "1_000", "0b11", "0o7", "NAN", "+nan", "-NaN", "+Inf", "1/2", "0x"}[g.IntN(28)]
		case k == 6: // fractions
			text = []any{"1.5", "-0.25", "1e-3", "1.5E+00"}[g.IntN(4)]
			ok = typ == datatypes.T_float32 || typ == datatypes.T_float64
		case k == 7: // too large
			text = []any{"1e400", "-1e400", "1e39", "340282356779733661637539395458142568448"}[g.IntN(4)]
			ok = typ == datatypes.T_float64 && !strings.HasSuffix(text.(string), "400")
			if typ == datatypes.T_float32 {
				ok = false
			}
		case k == 8: // not text
			text = []any{1, 1.5, true, []any{"1"}, map[string]any{"a": "1"}, nil}[g.IntN(6)]
			ok = typ == datatypes.T_any && text == nil
		default:
			text = "1"
			typ = datatypes.DataType([]int{0, -1, 14, 100, 1023, 1025, 1 << 40}[g.IntN(7)])
		}
		if s, isText := text.(string); isText && (typ == datatypes.T_float32 || typ == datatypes.T_float64) {
			if w, odd := map[string]string{"1_000": "1000", "+Inf": "+Inf", "0x1f": "31", "0b11": "3", "0o7": "7"}[s]; odd {
				ok, either, want = true, true, w
			}
		}
		if s, isText := text.(string); isText && typ == datatypes.T_string {
			ok, want = true, s
		}
		if typ == datatypes.T_any {
			ok = text == nil
		}
		b, _ := json.Marshal(map[string]any{"Type": typ, "Data": text})
		r.Guard("decode", string(b), func() {
			check := func(where string, v datatypes.EncapsulatedValue, err error) {
				if verr := v.Validate(datatypes.MinDataType, datatypes.MaxDataType); err == nil && verr != nil {
					err = verr
				}
				switch {
				case ok && err != nil && either:
				case ok && err != nil:
					r.Violation("decode-refused:"+typ.ToString(), nil, "%s (%s) denotes a value, but is refused: %v", b, where, err)
				case !ok && err == nil:
					r.Violation("decode-accepted:"+typ.ToString(), nil, "%s (%s) does not denote a value, but is taken as %s", b, where, show(v))
				case ok && want != nil && fmt.Sprint(v.Data) != want:
					r.Violation("decode-value:"+typ.ToString(), nil, "%s (%s) is taken as %s", b, where, show(v))
				case ok && want == nil && typ == datatypes.T_float64:
					if f, _ := strconv.ParseFloat(text.(string), 64); f != v.Data {
						r.Violation("decode-value:float64", nil, "%s (%s) is taken as %s", b, where, show(v))
					}
				case ok && want == nil && typ == datatypes.T_float32:
					if f, _ := strconv.ParseFloat(text.(string), 32); float32(f) != v.Data {
						r.Violation("decode-value:float32", nil, "%s (%s) is taken as %s", b, where, show(v))
					}
				}
				if err == nil && v.Type != typ {
					r.Violation("decode-type", nil, "%s (%s) is taken as %s", b, where, show(v))
				}
			}
			var v datatypes.EncapsulatedValue
			err := json.Unmarshal(b, &v)
			check("value", v, err)
			var kv datatypes.KeyValues
			err = json.Unmarshal([]byte(`{"k":`+string(b)+`}`), &kv)
			check("key-values", kv["k"], err)
			l := &v1locker.Lock{}
			serr := api.ObjectDecodeRequest(httptest.NewRequest("POST", "/", strings.NewReader(`{"Spec":{"DBDefinition":{"KeyValues":{"k":`+string(b)+`}}}}`)), l)
			if (serr == nil) != (ok && typ != datatypes.T_any) && !either {
				r.Violation("decode-request:"+typ.ToString(), nil, "a lock with %s: %v", b, serr)
			}
			qr := &qa.AssociatedActionQuery{}
			serr = api.ModelDecodeRequest(httptest.NewRequest("POST", "/", strings.NewReader(`{"Selection":{"KeyValues":{"k":{"Value":`+string(b)+`,"Comparison":"=","TypeRestrictions":{"MinDataType":1,"MaxDataType":1024}}}}}`)), qr)
			if (serr == nil) != ok && !either {
				r.Violation("decode-query:"+typ.ToString(), nil, "a query with %s: %v", b, serr)
			}
			r.Eval(1)
			if ok {
				r.Stat("accepted", 1)
			} else {
				r.Stat("rejected", 1)
			}
			r.Distinct(string(b))
		})
	}
}
