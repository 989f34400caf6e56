package ds

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/DanLavine/willow/internal/datastructures/btree"
	"github.com/DanLavine/willow/internal/verif/vh"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

type ev = datatypes.EncapsulatedValue

var all = v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}

// the searches of the ordered store: the keys that must be visited
var searches = []struct {
	name string
	any  bool // takes any as the key
	want func(key ev, tr v1common.TypeRestrictions, k ev) bool
	call func(t btree.BTree, key ev, tr v1common.TypeRestrictions, cb btree.BTreeIterate) error
}{
	{"Find", true, func(key ev, tr v1common.TypeRestrictions, k ev) bool {
		if !inRange(tr, k) {
			return false
		}
		return key.Type == datatypes.T_any || k.Type == datatypes.T_any || vh.Compare(key, k) == 0
	}, func(t btree.BTree, key ev, tr v1common.TypeRestrictions, cb btree.BTreeIterate) error {
		return t.Find(key, tr, cb)
	}},
	{"FindNotEqual", false, func(key ev, tr v1common.TypeRestrictions, k ev) bool {
		return inRange(tr, k) && vh.Compare(key, k) != 0
	}, func(t btree.BTree, key ev, tr v1common.TypeRestrictions, cb btree.BTreeIterate) error {
		return t.FindNotEqual(key, tr, cb)
	}},
	{"FindLessThan", false, func(key ev, tr v1common.TypeRestrictions, k ev) bool {
		return inRange(tr, k) && (k.Type == datatypes.T_any || vh.Compare(k, key) < 0)
	}, func(t btree.BTree, key ev, tr v1common.TypeRestrictions, cb btree.BTreeIterate) error {
		return t.FindLessThan(key, tr, cb)
	}},
	{"FindLessThanOrEqual", false, func(key ev, tr v1common.TypeRestrictions, k ev) bool {
		return inRange(tr, k) && (k.Type == datatypes.T_any || vh.Compare(k, key) <= 0)
	}, func(t btree.BTree, key ev, tr v1common.TypeRestrictions, cb btree.BTreeIterate) error {
		return t.FindLessThanOrEqual(key, tr, cb)
	}},
	{"FindGreaterThan", false, func(key ev, tr v1common.TypeRestrictions, k ev) bool {
		return inRange(tr, k) && vh.Compare(k, key) > 0
	}, func(t btree.BTree, key ev, tr v1common.TypeRestrictions, cb btree.BTreeIterate) error {
		return t.FindGreaterThan(key, tr, cb)
	}},
	{"FindGreaterThanOrEqual", false, func(key ev, tr v1common.TypeRestrictions, k ev) bool {
		return inRange(tr, k) && vh.Compare(k, key) >= 0
	}, func(t btree.BTree, key ev, tr v1common.TypeRestrictions, cb btree.BTreeIterate) error {
		return t.FindGreaterThanOrEqual(key, tr, cb)
	}},
}

type modelEntry struct {
	k ev
	v any
}

// TestD01_Model drives random sequences of operations against the ordered
// store and a map, and compares every answer and, after every operation, the
// whole contents.
func TestD01_Model(t *testing.T) {
	r := vh.Start(t, "a random sequence of up to 250 operations on one ordered store (node sizes 2-6, one to many key types, any keys, declined creations, vetoed deletions, stopped searches, restricted types); non-trivial when it holds at least 8 keys at some point and deletes at least 4; distinct by the operations' text")
	defer r.Finish()
	for c := 0; c < vh.N(700, 9000) && !r.Bad(); c++ {
		g := vh.Rand(t.Name(), c)
		size := 2 + g.IntN(5)
		tree, err := btree.NewThreadSafe(size)
		if err != nil {
			r.Violation("new", size, "NewThreadSafe(%d): %v", size, err)
			return
		}
		model := map[string]modelEntry{}
		mode := g.IntN(3)
		key := func() ev {
			switch {
			case mode == 0:
				return datatypes.Int(g.IntN(40))
			case mode == 1 && g.IntN(4) > 0:
				return datatypes.String(fmt.Sprintf("%02d", g.IntN(40)))
			default:
				if g.IntN(12) == 0 {
					return datatypes.Any()
				}
				return vh.SmallValue(g, true)
			}
		}
		var log []string
		peak, deleted := 0, 0
		n := 60 + g.IntN(190)
		fail := func(what, format string, a ...any) {
			tail := log
			r.Violation(what, map[string]any{"case": c, "nodeSize": size, "ops": tail}, "ordered store: "+format, a...)
		}
		grow := 3 + g.IntN(6) // how many of 10 changes create
		ok := r.Guard("D01 case", map[string]any{"case": c, "nodeSize": size, "ops": &log}, func() {
			for i := 0; i < n && !r.Bad(); i++ {
				k := key()
				ks := vh.VS(k)
				old, exists := model[ks]
				if g.IntN(40) == 0 {
					grow = 1 + g.IntN(9)
				}
				op := g.IntN(20)
				switch {
				case op < 10 && g.IntN(10) < grow: // create
					val := any(fmt.Sprintf("v%d", i))
					decline := g.IntN(6) == 0
					created, found := 0, []any{}
					onCreate := func() any {
						created++
						if decline {
							return nil
						}
						return val
					}
					if g.IntN(2) == 0 {
						log = append(log, fmt.Sprintf("Create(%s,decline=%v)", ks, decline))
						r.Context("%s", log[len(log)-1])
						err := tree.Create(k, onCreate)
						if exists && (err != btree.ErrorKeyAlreadyExists || created != 0) {
							fail("create-existing", "Create of an existing key: err %v, onCreate called %d times", err, created)
						}
						if !exists && (err != nil || created != 1) {
							fail("create-new", "Create of a new key: err %v, onCreate called %d times", err, created)
						}
					} else {
						log = append(log, fmt.Sprintf("CreateOrFind(%s,decline=%v)", ks, decline))
						r.Context("%s", log[len(log)-1])
						err := tree.CreateOrFind(k, onCreate, func(item any) { found = append(found, item) })
						if err != nil {
							fail("cof-err", "CreateOrFind: %v", err)
						}
						if exists && (created != 0 || len(found) != 1 || found[0] != old.v) {
							fail("cof-existing", "CreateOrFind of an existing key: created %d, found %v, want found %v", created, found, old.v)
						}
						if !exists && (created != 1 || len(found) != 0) {
							fail("cof-new", "CreateOrFind of a new key: created %d, found %v", created, found)
						}
					}
					if !exists && !decline {
						model[ks] = modelEntry{k, val}
					}
				case op < 10: // delete or destroy
					if g.IntN(3) > 0 && len(model) > 0 { // an existing one
						var keys []string
						for s := range model {
							keys = append(keys, s)
						}
						sort.Strings(keys)
						ks = keys[g.IntN(len(keys))]
						old, exists = model[ks]
						k = old.k
					}
					veto := g.IntN(5) == 0
					useNil := !veto && g.IntN(3) == 0
					var seen []any
					can := func(kk ev, item any) bool {
						seen = append(seen, item)
						if vh.Compare(kk, k) != 0 {
							fail("delete-key", "deleting %s asked about key %s", ks, vh.VS(kk))
						}
						return !veto
					}
					if useNil {
						can = nil
					}
					var err error
					if g.IntN(2) == 0 {
						log = append(log, fmt.Sprintf("Delete(%s,veto=%v)", ks, veto))
						r.Context("%s", log[len(log)-1])
						err = tree.Delete(k, can)
					} else {
						log = append(log, fmt.Sprintf("Destroy(%s,veto=%v)", ks, veto))
						r.Context("%s", log[len(log)-1])
						err = tree.Destroy(k, can)
					}
					if err != nil {
						fail("delete-err", "%v", err)
					}
					if !useNil {
						if exists && (len(seen) != 1 || seen[0] != old.v) || !exists && len(seen) != 0 {
							fail("delete-callback", "canDelete called with %v, existing %v (%v)", seen, exists, old.v)
						}
					}
					if !veto && exists {
						delete(model, ks)
						deleted++
					}
				case op == 19 && g.IntN(12) == 0: // destroy all
					stopAt := -1
					if g.IntN(2) == 0 {
						stopAt = g.IntN(len(model) + 1)
					}
					log = append(log, fmt.Sprintf("DestroyAll(stopAt=%d)", stopAt))
					r.Context("%s", log[len(log)-1])
					count := 0
					seen := map[string]bool{}
					removed := []string{}
					err := tree.DestroyAll(func(kk ev, item any) bool {
						s := vh.VS(kk)
						if m, ok := model[s]; !ok || m.v != item || seen[s] {
							fail("destroyall-callback", "DestroyAll visited %s=%v (known %v, again %v)", s, item, ok, seen[s])
						}
						seen[s] = true
						count++
						if count-1 == stopAt {
							return false
						}
						removed = append(removed, s)
						return true
					})
					if err != nil {
						fail("destroyall-err", "%v", err)
					}
					want := len(model)
					if stopAt >= 0 && stopAt < want {
						want = stopAt + 1
					}
					if count != want {
						fail("destroyall-count", "DestroyAll visited %d of %d", count, want)
					}
					for _, s := range removed {
						delete(model, s)
						deleted++
					}
				default: // search
					s := searches[g.IntN(len(searches))]
					if k.Type == datatypes.T_any && !s.any {
						k = datatypes.Int(g.IntN(40))
					}
					tr := all
					switch g.IntN(4) {
					case 0:
						a, b := g.IntN(len(vh.Types)), g.IntN(len(vh.Types))
						if a > b {
							a, b = b, a
						}
						tr = v1common.TypeRestrictions{MinDataType: vh.Types[a], MaxDataType: vh.Types[b]}
					case 1:
						tr = v1common.TypeRestrictions{MinDataType: k.Type, MaxDataType: k.Type}
					case 2:
						tr = v1common.TypeRestrictions{MinDataType: k.Type, MaxDataType: datatypes.T_any}
					}
					want := map[string]bool{}
					for ms, m := range model {
						if s.want(k, tr, m.k) {
							want[ms] = true
						}
					}
					stop := -1
					if g.IntN(3) == 0 {
						stop = 1 + g.IntN(len(want)+1)
					}
					log = append(log, fmt.Sprintf("%s(%s,[%d,%d],stop=%d)", s.name, vh.VS(k), tr.MinDataType, tr.MaxDataType, stop))
					r.Context("%s", log[len(log)-1])
					got := map[string]int{}
					count := 0
					err := s.call(tree, k, tr, func(kk ev, item any) bool {
						ms := vh.VS(kk)
						if m, ok := model[ms]; !ok || m.v != item {
							fail("search-visit:"+s.name, "%s visited %s=%v, stored %v", log[len(log)-1], ms, item, model[ms])
						}
						got[ms]++
						count++
						return count != stop
					})
					if err != nil {
						fail("search-err:"+s.name, "%s: %v", log[len(log)-1], err)
					}
					wantN := len(want)
					if stop > 0 && stop < wantN {
						wantN = stop
					}
					for ms, x := range got {
						if x != 1 {
							fail("search-twice:"+s.name, "%s visited %s %d times", log[len(log)-1], ms, x)
						}
						if !want[ms] {
							fail("search-extra:"+s.name, "%s visited %s, which does not match", log[len(log)-1], ms)
						}
					}
					if count != wantN {
						fail("search-count:"+s.name, "%s visited %d keys, want %d", log[len(log)-1], count, wantN)
					}
				}
				r.Step()
				if len(model) > peak {
					peak = len(model)
				}
				// the whole contents
				if e := tree.Empty(); e != (len(model) == 0) {
					fail("empty", "Empty() = %v with %d keys after %s", e, len(model), log[len(log)-1])
				}
				got := map[string]any{}
				dup := false
				if err := tree.Find(datatypes.Any(), all, func(kk ev, item any) bool {
					ms := vh.VS(kk)
					if _, again := got[ms]; again {
						dup = true
					}
					got[ms] = item
					return true
				}); err != nil {
					fail("contents-err", "%v", err)
				}
				if dup || len(got) != len(model) {
					fail("contents", "after %s the store shows %d keys (twice: %v), want %d", log[len(log)-1], len(got), dup, len(model))
				}
				for ms, m := range model {
					if got[ms] != m.v {
						fail("contents-value", "after %s key %s shows %v, want %v", log[len(log)-1], ms, got[ms], m.v)
					}
				}
				// look every key up as well: the order inside must be right
				if i%7 == 0 {
					for ms, m := range model {
						hit := 0
						tree.Find(m.k, v1common.TypeRestrictions{MinDataType: m.k.Type, MaxDataType: m.k.Type}, func(kk ev, item any) bool {
							hit++
							if item != m.v {
								fail("lookup", "lookup of %s gives %v, want %v", ms, item, m.v)
							}
							return true
						})
						if hit != 1 && m.k.Type != datatypes.T_any {
							fail("lookup-missing", "lookup of %s hit %d times after %s", ms, hit, log[len(log)-1])
						}
					}
				}
			}
		})
		_ = ok
		r.Eval(1)
		r.Stat("operations", len(log))
		r.Max("largest_store", peak)
		if peak >= 8 && deleted >= 4 {
			r.Distinct(strings.Join(log, ";"))
		}
		if c < 2 {
			if len(log) > 25 {
				log = log[:25]
			}
			r.Sample(map[string]any{"nodeSize": size, "first_ops": log, "peak": peak, "deleted": deleted})
		}
	}
}
