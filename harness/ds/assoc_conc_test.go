package ds

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"sync"
	"sync/atomic"
	"testing"

	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	qm "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

type cIn struct {
	Op  string // create cof find delete deleteID destroyID all
	Set string
	Val int // the value to create, or the one whose id is meant
	No  bool
}

func cStep(s int, o *vh.LOp) []int {
	in := o.In.(cIn)
	out := o.Out.(bOut)
	if len(out.Seen) > 1 {
		return nil
	}
	seen := 0
	if len(out.Seen) == 1 {
		seen = out.Seen[0]
	}
	if out.Err == "destroying" {
		if out.Created || seen != 0 {
			return nil
		}
		return []int{s}
	}
	if out.Err == "skipped" { // a search passing over an entry in the middle of its destruction
		return []int{s}
	}
	switch in.Op {
	case "create":
		if out.Err == "exists" {
			if s == 0 || out.Created {
				return nil
			}
			return []int{s}
		}
		if s != 0 || !out.Created || out.Err != "" {
			return nil
		}
		if in.No {
			return []int{0}
		}
		return []int{in.Val}
	case "cof":
		if out.Err != "" {
			return nil
		}
		if s != 0 {
			if out.Created || seen != s {
				return nil
			}
			return []int{s}
		}
		if !out.Created || seen != 0 {
			return nil
		}
		if in.No {
			return []int{0}
		}
		return []int{in.Val}
	case "find":
		if out.Err != "" || seen != s {
			return nil
		}
		return []int{s}
	case "delete", "all":
		if out.Err != "" || seen != s {
			return nil
		}
		if in.No {
			return []int{s}
		}
		return []int{0}
	case "deleteID", "destroyID":
		if out.Err != "" {
			return nil
		}
		if s != in.Val {
			if seen != 0 {
				return nil
			}
			return []int{s}
		}
		if seen != s {
			return nil
		}
		if in.No {
			return []int{s}
		}
		return []int{0}
	}
	return nil
}

func assocErr(err error) string {
	switch err {
	case nil:
		return ""
	case btreeassociated.ErrorKeyValuesAlreadyExists:
		return "exists"
	case btreeassociated.ErrorTreeDestroying, btreeassociated.ErrorTreeItemDestroying:
		return "destroying"
	}
	return err.Error()
}

// TestD04_Linear records short concurrent histories on overlapping key-value
// sets and searches, per set, for an order a map would accept.
func TestD04_Linear(t *testing.T) {
	r := vh.Start(t, "concurrent histories: 3-6 goroutines each doing 6-14 operations (create, find-or-create, deletes by set and id, destroys, searches by set, key, everything and match, now and then a bulk destroy) on 3-8 overlapping key-value sets of one collection, with random yields between its statements; non-trivial when operations of different goroutines on the same set overlapped; distinct by the order of calls and returns")
	defer r.Finish()
	vsched.Set(2, 12, 900)
	defer vsched.Pick(0)
	for c := 0; c < vh.N(1300, 40000) && !r.Bad(); c++ {
		g := vh.Rand(t.Name(), c)
		if vsched.Pick(0); c%2 == 1 {
			vsched.Pick(uint32(8 + g.IntN(60))) // these statements are slow in this history
			vsched.Slow(true)
		}
		tree := btreeassociated.NewThreadSafe()
		sets := map[string]vh.KV{}
		var keys []string
		for n := 3 + g.IntN(6); len(sets) < n; {
			kv := vh.KV{}
			for m := 1 + g.IntN(3); len(kv) < m; {
				kv[string(rune('a'+g.IntN(3)))] = datatypes.Int(g.IntN(2))
			}
			if _, ok := sets[vh.KVS(kv)]; !ok {
				sets[vh.KVS(kv)] = kv
				keys = append(keys, vh.KVS(kv))
			}
		}
		withAll := g.IntN(4) == 0
		hist := map[string][]vh.LOp{}
		var mu sync.Mutex
		val := atomic.Int64{}
		ids := map[string][]string{} // ids of a set, oldest first
		valOf := map[string]int{}    // value created under an id
		type scan struct {
			call, ret int64
			got       map[string][]int
			name      string
			in        func(kv vh.KV) bool
		}
		var scans []scan
		var excl exclusion
		n := 3 + g.IntN(4)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for p := 0; p < n; p++ {
			wg.Add(1)
			pg := rand.New(rand.NewPCG(g.Uint64(), uint64(p)))
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						r.Panic("concurrent operations on a key-value collection", map[string]any{"case": c}, x, stack())
					}
				}()
				<-start
				for i, ops := 0, 6+pg.IntN(9); i < ops; i++ {
					ks := keys[pg.IntN(len(keys))]
					kv := vh.Clone(sets[ks])
					in := cIn{Set: ks, Val: int(val.Add(1)), No: pg.IntN(5) == 0}
					var out bOut
					newID := ""
					onCreate := func() any {
						defer excl.enter()()
						out.Created = true
						pause(pg)
						if in.No {
							return nil
						}
						return in.Val
					}
					see := func(it btreeassociated.AssociatedKeyValues) {
						defer excl.enter()()
						if got := vh.KVS(it.KeyValues()); got != ks {
							r.Violation("wrong-set", map[string]any{"case": c, "set": ks}, "an operation on %s was shown an entry of %s", ks, got)
						}
						out.Seen = append(out.Seen, it.Value().(int))
						pause(pg)
					}
					can := func(it btreeassociated.AssociatedKeyValues) bool { see(it); return !in.No }
					someID := func() bool {
						mu.Lock()
						defer mu.Unlock()
						l := ids[ks]
						if len(l) == 0 {
							return false
						}
						newID = l[len(l)-1-pg.IntN(min(2, len(l)))]
						in.Val = valOf[newID]
						return true
					}
					op := pg.IntN(24)
					s := vh.Tick()
					switch {
					case op < 4:
						in.Op = "create"
						var err error
						newID, err = tree.Create(kv, onCreate)
						out.Err = assocErr(err)
					case op < 10:
						in.Op = "cof"
						var err error
						newID, err = tree.CreateOrFind(kv, onCreate, see)
						out.Err = assocErr(err)
						if out.Err == "" && len(out.Seen) == 1 {
							mu.Lock()
							if v, ok := valOf[newID]; ok && v != out.Seen[0] {
								r.Violation("id-mismatch", map[string]any{"case": c}, "CreateOrFind of %s showed value %d but returned the id of value %d", ks, out.Seen[0], v)
							}
							mu.Unlock()
						}
					case op < 12:
						in.Op = "find"
						if pg.IntN(2) == 0 {
							out.Err = assocErr(tree.QueryAction(qa.KeyValuesToExactAssociatedActionQuery(kv), func(it btreeassociated.AssociatedKeyValues) bool { see(it); return true }))
						} else {
							out.Err = assocErr(tree.MatchAction(exactMatch(kv), func(it btreeassociated.AssociatedKeyValues) bool { see(it); return true }))
						}
					case op < 16:
						in.Op = "delete"
						out.Err = assocErr(tree.Delete(kv, can))
					case op < 18:
						in.Op = "deleteID"
						if !someID() {
							continue
						}
						out.Err = assocErr(tree.DeleteByAssociatedID(newID, can))
					case op < 20:
						in.Op = "destroyID"
						if !someID() {
							continue
						}
						out.Err = assocErr(tree.DestroyByAssociatedID(newID, can))
					case op == 20 && withAll:
						seen := map[string]int{}
						alone := excl.bulk()
						err := tree.DestroyTree(func(it btreeassociated.AssociatedKeyValues) bool {
							alone()
							seen[vh.KVS(it.KeyValues())] = it.Value().(int)
							pause(pg)
							alone()
							return true
						})
						e := vh.Tick()
						mu.Lock()
						for _, kk := range keys {
							o := bOut{Err: assocErr(err)}
							if v := seen[kk]; v != 0 {
								o.Seen = []int{v}
							}
							hist[kk] = append(hist[kk], vh.LOp{Call: s, Ret: e, Proc: p, In: cIn{Op: "all", Set: kk}, Out: o})
						}
						mu.Unlock()
						continue
					default:
						sc := scan{call: s, got: map[string][]int{}}
						cb := func(it btreeassociated.AssociatedKeyValues) bool {
							defer excl.enter()()
							kk := vh.KVS(it.KeyValues())
							sc.got[kk] = append(sc.got[kk], it.Value().(int))
							return true
						}
						var err error
						key, v := string(rune('a'+pg.IntN(3))), datatypes.Int(pg.IntN(2))
						switch pg.IntN(4) {
						case 0:
							sc.name, sc.in = "query of everything", func(vh.KV) bool { return true }
							err = tree.QueryAction(&qa.AssociatedActionQuery{}, cb)
						case 1:
							sc.name, sc.in = "query of one key", func(kv vh.KV) bool { return kv[key] == v }
							err = tree.QueryAction(&qa.AssociatedActionQuery{Selection: &qa.Selection{KeyValues: qa.SelectionKeyValues{key: {Value: v, Comparison: v1common.Equals, TypeRestrictions: all}}}}, cb)
						case 2:
							sc.name, sc.in = "not-equals query", func(kv vh.KV) bool { return kv[key] != v }
							err = tree.QueryAction(&qa.AssociatedActionQuery{Selection: &qa.Selection{KeyValues: qa.SelectionKeyValues{key: {Value: v, Comparison: v1common.NotEquals, TypeRestrictions: all}}}}, cb)
						default:
							m := &qm.MatchActionQuery{KeyValues: qm.MatchKeyValues{}}
							for _, k := range []string{"a", "b", "c"} {
								m.KeyValues[k] = qm.MatchValue{Value: datatypes.Int(pg.IntN(2)), TypeRestrictions: all}
							}
							sc.name, sc.in = "match", func(kv vh.KV) bool { return matchHolds(m, kv) }
							err = tree.MatchAction(m, cb)
						}
						sc.ret = vh.Tick()
						if assocErr(err) == "" {
							mu.Lock()
							scans = append(scans, sc)
							mu.Unlock()
						}
						continue
					}
					e := vh.Tick()
					mu.Lock()
					hist[ks] = append(hist[ks], vh.LOp{Call: s, Ret: e, Proc: p, In: in, Out: out})
					if out.Created && !in.No && out.Err == "" {
						ids[ks] = append(ids[ks], newID)
						valOf[newID] = in.Val
					}
					mu.Unlock()
					r.Step()
				}
			}()
		}
		close(start)
		wg.Wait()
		if excl.broken.Load() > 0 {
			r.Violation("all-exclusive", map[string]any{"case": c}, "a callback of another operation ran in the middle of DestroyTree")
		}
		for _, ks := range keys {
			var seen []int
			s := vh.Tick()
			tree.QueryAction(qa.KeyValuesToExactAssociatedActionQuery(sets[ks]), func(it btreeassociated.AssociatedKeyValues) bool {
				seen = append(seen, it.Value().(int))
				return true
			})
			hist[ks] = append(hist[ks], vh.LOp{Call: s, Ret: vh.Tick(), In: cIn{Op: "find", Set: ks}, Out: bOut{Seen: seen}})
			// and a creation must succeed exactly when there is nothing
			made := false
			s = vh.Tick()
			_, err := tree.Create(vh.Clone(sets[ks]), func() any { made = true; return 1 << 40 })
			hist[ks] = append(hist[ks], vh.LOp{Call: s, Ret: vh.Tick(), In: cIn{Op: "create", Set: ks, Val: 1 << 40}, Out: bOut{Err: assocErr(err), Created: made}})
		}
		destroyIn := func(ops []vh.LOp, call, ret int64) bool {
			for j := range ops {
				op := ops[j].In.(cIn).Op
				if (op == "destroyID" || op == "all") && ops[j].Call < ret && call < ops[j].Ret {
					return true
				}
			}
			return false
		}
		overlap := 0
		for _, ks := range keys {
			ops := hist[ks]
			sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
			for i := range ops {
				for j := i + 1; j < len(ops) && ops[j].Call < ops[i].Ret; j++ {
					overlap++
				}
				in, out := ops[i].In.(cIn), ops[i].Out.(bOut)
				others := append(append([]vh.LOp(nil), ops[:i]...), ops[i+1:]...)
				during := destroyIn(others, ops[i].Call, ops[i].Ret)
				if out.Err == "destroying" && !during {
					r.Violation("destroying-unjustified", cdump(ops), "an operation on %s was refused as being destroyed, with no destroy in progress", ks)
				}
				if (in.Op == "find" || in.Op == "deleteID" || in.Op == "destroyID") && out.Err == "" && len(out.Seen) == 0 && during {
					out.Err = "skipped"
					ops[i].Out = out
				}
			}
			if ok, dec := vh.Linearizable(0, ops, cStep); !ok {
				r.Violation("linear", cdump(ops), "the operations on %s have no sequential order a map would accept", ks)
			} else if !dec {
				r.Stat("undecided", 1)
			}
		}
		for _, sc := range scans {
			for _, ks := range keys {
				got := sc.got[ks]
				if len(got) > 1 {
					r.Violation("scan-twice", cdump(hist[ks]), "%s visited %s %d times", sc.name, ks, len(got))
				}
				if !sc.in(sets[ks]) {
					if len(got) > 0 {
						r.Violation("scan-range", ks, "%s visited %s, which it does not select", sc.name, ks)
					}
					continue
				}
				o := bOut{Seen: got}
				if len(got) == 0 && destroyIn(hist[ks], sc.call, sc.ret) {
					continue
				}
				ops := append(append([]vh.LOp(nil), hist[ks]...), vh.LOp{Call: sc.call, Ret: sc.ret, In: cIn{Op: "find", Set: ks}, Out: o})
				if ok, _ := vh.Linearizable(0, ops, cStep); !ok {
					r.Violation("scan", cdump(ops), "%s saw %v for %s, which it held at no moment of the search", sc.name, got, ks)
				}
			}
		}
		r.Eval(1)
		r.Stat("overlapping_pairs", overlap)
		r.Stat("searches_judged", len(scans))
		if overlap > 0 {
			r.Distinct(crel(hist, keys))
		}
		if c == 1 {
			r.Sample(cdump(hist[keys[0]]))
		}
	}
	r.Stat("instrumented_statements_run", int(vsched.Calls()))
}

func crel(hist map[string][]vh.LOp, keys []string) string {
	type e struct {
		t int64
		s string
	}
	var es []e
	for _, k := range keys {
		for _, o := range hist[k] {
			es = append(es, e{o.Call, fmt.Sprintf("c%d%s%s", o.Proc, o.In.(cIn).Op, k)}, e{o.Ret, fmt.Sprintf("r%d", o.Proc)})
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].t < es[j].t })
	s := ""
	for _, x := range es {
		s += x.s
	}
	return s
}

func cdump(ops []vh.LOp) []string {
	var out []string
	for _, o := range ops {
		out = append(out, fmt.Sprintf("[%d,%d] g%d %s -> %s", o.Call, o.Ret, o.Proc, vh.JSON(o.In), vh.JSON(o.Out)))
	}
	return out
}
