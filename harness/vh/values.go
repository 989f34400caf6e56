package vh

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// KV is shorthand for a set of key-values.
type KV = datatypes.KeyValues

// SmallValue draws a value from a small pool, so that values collide across
// types ("1" as string, int, uint8, ...) and within a type.
func SmallValue(g *rand.Rand, withAny bool) datatypes.EncapsulatedValue {
	n := g.IntN(4)
	switch k := g.IntN(20); {
	case k < 5:
		return datatypes.String(fmt.Sprint(n))
	case k < 8:
		return datatypes.Int(n - 1)
	case k == 8:
		return datatypes.Uint8(uint8(n))
	case k == 9:
		return datatypes.Uint16(uint16(n))
	case k == 10:
		return datatypes.Uint32(uint32(n))
	case k == 11:
		return datatypes.Uint64(uint64(n))
	case k == 12:
		return datatypes.Uint(uint(n))
	case k == 13:
		return datatypes.Int8(int8(n - 1))
	case k == 14:
		return datatypes.Int16(int16(n - 1))
	case k == 15:
		return datatypes.Int32(int32(n - 1))
	case k == 16:
		return datatypes.Int64(int64(n - 1))
	case k == 17:
		return datatypes.Float32(float32(n) - 1)
	case k == 18:
		return datatypes.Float64(float64(n) - 0.5)
	default:
		if withAny {
			return datatypes.Any()
		}
		return datatypes.String(fmt.Sprint(n))
	}
}

// AnyWide draws values over the whole range of every type, extremes included.
func WideValue(g *rand.Rand) datatypes.EncapsulatedValue {
	u := g.Uint64()
	switch g.IntN(6) {
	case 0:
		u = 0
	case 1:
		u = math.MaxUint64
	case 2:
		u = 1 << g.IntN(64)
	case 3:
		u = 1<<g.IntN(64) - 1
	}
	switch g.IntN(13) {
	case 0:
		return datatypes.Uint8(uint8(u))
	case 1:
		return datatypes.Uint16(uint16(u))
	case 2:
		return datatypes.Uint32(uint32(u))
	case 3:
		return datatypes.Uint64(u)
	case 4:
		return datatypes.Uint(uint(u))
	case 5:
		return datatypes.Int8(int8(u))
	case 6:
		return datatypes.Int16(int16(u))
	case 7:
		return datatypes.Int32(int32(u))
	case 8:
		return datatypes.Int64(int64(u))
	case 9:
		return datatypes.Int(int(u))
	case 10:
		fs := []float32{0, 1, -1, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 16777217, float32(u), math.Float32frombits(uint32(u))}
		f := fs[g.IntN(len(fs))]
		if f != f || math.IsInf(float64(f), 0) {
			f = 3.5
		}
		return datatypes.Float32(f)
	case 11:
		fs := []float64{0, 1, -1, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1e300, float64(u), math.Float64frombits(u)}
		f := fs[g.IntN(len(fs))]
		if f != f || math.IsInf(f, 0) {
			f = 3.5
		}
		return datatypes.Float64(f)
	default:
		ss := []string{"", " ", "a", "A", "0", "1", "true", "null", "\"", "\\", "é", "日本", "\u2028", "<>&", "a\x00b", "\U0001F600", strings.Repeat("x", 300), fmt.Sprint(u)}
		return datatypes.String(ss[g.IntN(len(ss))])
	}
}

// Rank is an independent total order of values: type first, then value.
// It returns -1, 0 or 1.
func Compare(a, b datatypes.EncapsulatedValue) int {
	ra, rb := typeRank(a.Type), typeRank(b.Type)
	if ra != rb {
		if ra < rb {
			return -1
		}
		return 1
	}
	switch x := a.Data.(type) {
	case nil:
		return 0
	case string:
		return strings.Compare(x, b.Data.(string))
	case float32:
		return cmp(x, b.Data.(float32))
	case float64:
		return cmp(x, b.Data.(float64))
	case uint8:
		return cmp(x, b.Data.(uint8))
	case uint16:
		return cmp(x, b.Data.(uint16))
	case uint32:
		return cmp(x, b.Data.(uint32))
	case uint64:
		return cmp(x, b.Data.(uint64))
	case uint:
		return cmp(x, b.Data.(uint))
	case int8:
		return cmp(x, b.Data.(int8))
	case int16:
		return cmp(x, b.Data.(int16))
	case int32:
		return cmp(x, b.Data.(int32))
	case int64:
		return cmp(x, b.Data.(int64))
	case int:
		return cmp(x, b.Data.(int))
	}
	panic(fmt.Sprintf("unknown data %T", a.Data))
}

func cmp[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | float32 | float64](a, b T) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

// Types in the documented order, any last.
var Types = []datatypes.DataType{datatypes.T_uint8, datatypes.T_uint16, datatypes.T_uint32, datatypes.T_uint64, datatypes.T_uint, datatypes.T_int8, datatypes.T_int16, datatypes.T_int32, datatypes.T_int64, datatypes.T_int, datatypes.T_float32, datatypes.T_float64, datatypes.T_string, datatypes.T_any}

func typeRank(t datatypes.DataType) int {
	for i, x := range Types {
		if x == t {
			return i
		}
	}
	panic(fmt.Sprintf("unknown type %d", t))
}

// VS renders a value unambiguously.
func VS(v datatypes.EncapsulatedValue) string {
	switch x := v.Data.(type) {
	case nil:
		return "any"
	case string:
		return fmt.Sprintf("%q", x)
	default:
		return fmt.Sprintf("%T(%v)", x, x)
	}
}

// KVS renders a set of key-values canonically.
func KVS(kv datatypes.KeyValues) string {
	var p []string
	for k, v := range kv {
		p = append(p, fmt.Sprintf("%q=%s", k, VS(v)))
	}
	sort.Strings(p)
	return "{" + strings.Join(p, ",") + "}"
}

func Clone(kv datatypes.KeyValues) datatypes.KeyValues {
	c := datatypes.KeyValues{}
	for k, v := range kv {
		c[k] = v
	}
	return c
}
