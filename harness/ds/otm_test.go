package ds

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	otm "github.com/DanLavine/willow/internal/datastructures/btree_one_to_many"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	qm "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

func oItem(it otm.OneToManyItem) string {
	return it.OneID() + "/" + aEntry{it.ManyID(), it.ManyKeyValues(), fmt.Sprint(it.Value())}.String()
}

// TestD05_Model drives random sequences over several groups.
func TestD05_Model(t *testing.T) {
	r := vh.Start(t, "a random sequence of up to 140 operations on a one-to-many collection of 3 groups that hold the same key-value sets (declined creations, vetoed deletions, destroyed groups, perhaps stopped, groups rebuilt), every group compared after each change; non-trivial when at least two groups held the same set at once and a group was destroyed; distinct by the operations' text")
	defer r.Finish()
	for c := 0; c < vh.N(170, 4000) && !r.Bad(); c++ {
		g := vh.Rand(t.Name(), c)
		tree := otm.NewThreadSafe()
		groups := []string{"g1", "g2", "g"}
		model := map[string]aModel{}
		for _, one := range groups {
			model[one] = aModel{}
		}
		seenIDs := map[string]bool{}
		var log []string
		shared, destroyed := 0, 0
		fail := func(what, f string, a ...any) {
			r.Violation(what, map[string]any{"case": c, "ops": log}, "one-to-many collection: "+f, a...)
		}
		str := func(one string, e aEntry) string { return one + "/" + e.String() }
		r.Guard("D05 case", map[string]any{"case": c, "ops": &log}, func() {
			for i, n := 0, 40+g.IntN(100); i < n && !r.Bad(); i++ {
				r.Step()
				one := groups[g.IntN(3)]
				kv := genKV(g, 3, true)
				if from := model[groups[g.IntN(3)]]; len(from) > 0 && g.IntN(3) > 0 {
					ids := from.ids()
					e, _ := from.byID(ids[g.IntN(len(ids))])
					kv = vh.Clone(e.kv)
				}
				ks := vh.KVS(kv)
				old, exists := model[one][ks]
				switch op := g.IntN(24); {
				case op < 12:
					val := fmt.Sprintf("v%03d", i)
					decline := g.IntN(6) == 0
					created := 0
					var found []string
					log = append(log, fmt.Sprintf("CreateOrFind(%s,%s,decline=%v)", one, ks, decline))
					id, err := tree.CreateOrFind(one, vh.Clone(kv), func() any {
						created++
						if decline {
							return nil
						}
						return val
					}, func(it otm.OneToManyItem) { found = append(found, oItem(it)) })
					switch {
					case exists:
						if err != nil || created != 0 || id != old.id || len(found) != 1 || found[0] != str(one, old) {
							fail("cof-existing", "CreateOrFind of the existing %s: id %q, error %v, created %d, found %v", str(one, old), id, err, created, found)
						}
					case decline:
						if err != nil || created != 1 || len(found) != 0 {
							fail("declined", "declined CreateOrFind of %s in %s: error %v, created %d, found %v", ks, one, err, created, found)
						}
					default:
						if err != nil || created != 1 || id == "" || len(found) != 0 || seenIDs[id] {
							fail("create", "CreateOrFind of %s in %s: id %q (seen before: %v), error %v, created %d, found %v", ks, one, id, seenIDs[id], err, created, found)
						}
						seenIDs[id] = true
						model[one][ks] = aEntry{id, kv, val}
						for _, o := range groups {
							if _, ok := model[o][ks]; ok && o != one {
								shared++
							}
						}
					}
				case op < 20:
					veto := g.IntN(5) == 0
					var offered []string
					var cb otm.OneToManyTreeRemove
					withCB := veto || g.IntN(3) > 0
					if withCB {
						cb = func(it otm.OneToManyItem) bool { offered = append(offered, oItem(it)); return !veto }
					}
					var err error
					if op < 16 {
						log = append(log, fmt.Sprintf("DeleteOneOfManyByKeyValues(%s,%s,veto=%v)", one, ks, veto))
						err = tree.DeleteOneOfManyByKeyValues(one, kv, cb)
					} else {
						id := "none"
						if exists {
							id = old.id
						} else {
							for _, o := range groups { // the id of another group's entry means nothing here
								if e, ok := model[o][ks]; ok {
									id = e.id
								}
							}
						}
						log = append(log, fmt.Sprintf("DestroyOneOfManyByID(%s,%s,veto=%v)", one, ks, veto))
						err = tree.DestroyOneOfManyByID(one, id, cb)
					}
					want := []string{}
					if exists && withCB {
						want = append(want, str(one, old))
					}
					if d := diff(want, offered); err != nil || d != "" {
						fail("delete", "%s: error %v, callback: %s", log[len(log)-1], err, d)
					}
					if exists && !veto {
						delete(model[one], ks)
					}
				case op < 21:
					stop := -1
					if g.IntN(3) == 0 {
						stop = g.IntN(3)
					}
					log = append(log, fmt.Sprintf("DestroyOne(%s,stop=%d)", one, stop))
					calls := 0
					gone := map[string]bool{}
					var cb otm.OneToManyTreeRemove
					if stop >= 0 || g.IntN(3) > 0 {
						cb = func(it otm.OneToManyItem) bool {
							e, ok := model[one].byID(it.ManyID())
							if !ok || str(one, e) != oItem(it) || gone[e.id] {
								fail("destroy-item", "DestroyOne(%s) offered %s", one, oItem(it))
							}
							calls++
							if stop >= 0 && calls > stop {
								return false
							}
							gone[it.ManyID()] = true
							return true
						}
					}
					err := tree.DestroyOne(one, cb)
					want := len(model[one])
					if stop >= 0 {
						want = min(want, stop)
					}
					if err != nil || cb != nil && len(gone) != want {
						fail("destroy-one", "DestroyOne(%s) removed %d of %d entries, wanted %d (error %v)", one, len(gone), len(model[one]), want, err)
					}
					for k, e := range model[one] {
						if gone[e.id] || cb == nil {
							delete(model[one], k)
						}
					}
					destroyed++
				default:
					log = append(log, "search")
				}
				for _, o := range groups {
					var want, got []string
					for _, e := range model[o] {
						want = append(want, str(o, e))
					}
					err := tree.QueryAction(o, &qa.AssociatedActionQuery{}, func(it otm.OneToManyItem) bool { got = append(got, oItem(it)); return true })
					if d := diff(want, got); err != nil || d != "" {
						fail("contents", "after %s, group %s: error %v, %s", log[len(log)-1], o, err, d)
					}
				}
				var ids []string
				for _, o := range groups {
					ids = append(ids, model[o].ids()...)
				}
				q, m := genQuery(g, 1, ids), genMatch(g)
				var wq, gq, wm, gm []string
				for _, e := range model[one] {
					if queryHolds(q, e.id, e.kv) {
						wq = append(wq, str(one, e))
					}
					if matchHolds(m, e.kv) {
						wm = append(wm, str(one, e))
					}
				}
				err := tree.QueryAction(one, q, func(it otm.OneToManyItem) bool { gq = append(gq, oItem(it)); return true })
				if d := diff(wq, gq); err != nil || d != "" {
					fail("query", "query of group %s %s: error %v, %s", one, vh.JSON(q), err, d)
				}
				err = tree.MatchAction(one, m, func(it otm.OneToManyItem) bool { gm = append(gm, oItem(it)); return true })
				if d := diff(wm, gm); err != nil || d != "" {
					fail("match", "match in group %s %s: error %v, %s", one, vh.JSON(m), err, d)
				}
			}
		})
		r.Eval(1)
		if shared > 0 && destroyed > 0 {
			r.Distinct(strings.Join(log, ";"))
		}
		r.Stat("sets held by several groups at once", shared)
		r.Stat("groups destroyed", destroyed)
		if c < 1 {
			r.Sample(map[string]any{"case": c, "ops": log})
		}
	}
}

func otmErr(err error) string {
	switch err {
	case nil:
		return ""
	case otm.ErrorOneIDDestroying, otm.ErrorManyIDDestroying, otm.ErrorManyKeyValuesDestroying:
		return "destroying"
	}
	return err.Error()
}

// TestD05_Linear records concurrent histories over several groups.
func TestD05_Linear(t *testing.T) {
	r := vh.Start(t, "concurrent histories: 3-6 goroutines each doing 6-14 operations (find-or-create, deletes by set and id, searches, destroyed groups) on 2-3 groups holding the same 2-4 overlapping key-value sets, with random yields between the collection's statements; non-trivial when operations of different goroutines on the same group and set overlapped; distinct by the order of calls and returns")
	defer r.Finish()
	vsched.Set(2, 14, 900)
	defer vsched.Pick(0)
	for c := 0; c < vh.N(1000, 30000) && !r.Bad(); c++ {
		g := vh.Rand(t.Name(), c)
		if vsched.Pick(0); c%2 == 1 {
			vsched.Pick(uint32(8 + g.IntN(60))) // these statements are slow in this history
			vsched.Slow(true)
		}
		tree := otm.NewThreadSafe()
		sets := map[string]vh.KV{}
		var kss []string
		for n := 2 + g.IntN(3); len(sets) < n; {
			kv := vh.KV{}
			for m := 1 + g.IntN(2); len(kv) < m; {
				kv[string(rune('a'+g.IntN(3)))] = datatypes.Int(g.IntN(2))
			}
			if _, ok := sets[vh.KVS(kv)]; !ok {
				sets[vh.KVS(kv)] = kv
				kss = append(kss, vh.KVS(kv))
			}
		}
		groups := []string{"x", "y", "z"}[:2+g.IntN(2)]
		var keys []string
		for _, o := range groups {
			for _, ks := range kss {
				keys = append(keys, o+"/"+ks)
			}
		}
		hist := map[string][]vh.LOp{}
		var mu sync.Mutex
		val := atomic.Int64{}
		ids := map[string][]string{}
		valOf := map[string]int{}
		idOf := map[int]string{}
		type sighting struct {
			val int
			id  string
		}
		var sightings []sighting
		type scan struct {
			call, ret int64
			one       string
			got       map[string][]int
			name      string
			in        func(kv vh.KV) bool
		}
		var scans []scan
		excl := map[string]*exclusion{}
		for _, one := range groups {
			excl[one] = &exclusion{}
		}
		n := 3 + g.IntN(4)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for p := 0; p < n; p++ {
			wg.Add(1)
			pg := rand.New(rand.NewPCG(g.Uint64(), uint64(p)))
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						r.Panic("concurrent operations on a one-to-many collection", map[string]any{"case": c}, x, stack())
					}
				}()
				<-start
				for i, ops := 0, 6+pg.IntN(9); i < ops; i++ {
					one, ks := groups[pg.IntN(len(groups))], kss[pg.IntN(len(kss))]
					key := one + "/" + ks
					kv := vh.Clone(sets[ks])
					in := cIn{Set: key, Val: int(val.Add(1)), No: pg.IntN(5) == 0}
					var out bOut
					id := ""
					see := func(it otm.OneToManyItem) {
						defer excl[one].enter()()
						if got := it.OneID() + "/" + vh.KVS(it.ManyKeyValues()); got != key {
							r.Violation("wrong-group", map[string]any{"case": c}, "an operation on %s was shown an entry of %s", key, got)
						}
						v := it.Value().(int)
						out.Seen = append(out.Seen, v)
						mu.Lock()
						sightings = append(sightings, sighting{v, it.ManyID()})
						mu.Unlock()
						pause(pg)
					}
					can := func(it otm.OneToManyItem) bool { see(it); return !in.No }
					op := pg.IntN(22)
					s := vh.Tick()
					switch {
					case op < 9:
						in.Op = "cof"
						var err error
						id, err = tree.CreateOrFind(one, kv, func() any {
							defer excl[one].enter()()
							out.Created = true
							pause(pg)
							if in.No {
								return nil
							}
							return in.Val
						}, see)
						out.Err = otmErr(err)
					case op < 11:
						in.Op = "find"
						if pg.IntN(2) == 0 {
							out.Err = otmErr(tree.QueryAction(one, qa.KeyValuesToExactAssociatedActionQuery(kv), func(it otm.OneToManyItem) bool { see(it); return true }))
						} else {
							out.Err = otmErr(tree.MatchAction(one, exactMatch(kv), func(it otm.OneToManyItem) bool { see(it); return true }))
						}
					case op < 14:
						in.Op = "delete"
						out.Err = otmErr(tree.DeleteOneOfManyByKeyValues(one, kv, can))
					case op < 17:
						in.Op = "destroyID"
						mu.Lock()
						l := ids[key]
						if len(l) == 0 {
							mu.Unlock()
							continue
						}
						id = l[len(l)-1-pg.IntN(min(2, len(l)))]
						in.Val = valOf[id]
						mu.Unlock()
						out.Err = otmErr(tree.DestroyOneOfManyByID(one, id, can))
					case op < 18:
						seen := map[string]int{}
						alone := excl[one].bulk()
						err := tree.DestroyOne(one, func(it otm.OneToManyItem) bool {
							alone()
							if it.OneID() != one {
								r.Violation("wrong-group", map[string]any{"case": c}, "DestroyOne(%s) was shown an entry of %s", one, it.OneID())
							}
							seen[vh.KVS(it.ManyKeyValues())] = it.Value().(int)
							pause(pg)
							return true
						})
						e := vh.Tick()
						mu.Lock()
						for _, kk := range kss {
							o := bOut{Err: otmErr(err)}
							if v := seen[kk]; v != 0 {
								o.Seen = []int{v}
							}
							hist[one+"/"+kk] = append(hist[one+"/"+kk], vh.LOp{Call: s, Ret: e, Proc: p, In: cIn{Op: "all", Set: one + "/" + kk}, Out: o})
						}
						mu.Unlock()
						continue
					default:
						sc := scan{call: s, one: one, got: map[string][]int{}}
						cb := func(it otm.OneToManyItem) bool {
							defer excl[one].enter()()
							kk := vh.KVS(it.ManyKeyValues())
							if it.OneID() != one {
								kk = it.OneID() + "?" + kk
							}
							sc.got[kk] = append(sc.got[kk], it.Value().(int))
							mu.Lock()
							sightings = append(sightings, sighting{it.Value().(int), it.ManyID()})
							mu.Unlock()
							return true
						}
						var err error
						if pg.IntN(2) == 0 {
							sc.name, sc.in = "query of everything", func(vh.KV) bool { return true }
							err = tree.QueryAction(one, &qa.AssociatedActionQuery{}, cb)
						} else {
							m := &qm.MatchActionQuery{KeyValues: qm.MatchKeyValues{}}
							for _, k := range []string{"a", "b", "c"} {
								m.KeyValues[k] = qm.MatchValue{Value: datatypes.Int(pg.IntN(2)), TypeRestrictions: all}
							}
							sc.name, sc.in = "match", func(kv vh.KV) bool { return matchHolds(m, kv) }
							err = tree.MatchAction(one, m, cb)
						}
						sc.ret = vh.Tick()
						if otmErr(err) == "" {
							mu.Lock()
							scans = append(scans, sc)
							mu.Unlock()
						}
						continue
					}
					e := vh.Tick()
					mu.Lock()
					hist[key] = append(hist[key], vh.LOp{Call: s, Ret: e, Proc: p, In: in, Out: out})
					if out.Created && !in.No && out.Err == "" {
						ids[key] = append(ids[key], id)
						valOf[id] = in.Val
						idOf[in.Val] = id
					}
					mu.Unlock()
					r.Step()
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, one := range groups {
			if excl[one].broken.Load() > 0 {
				r.Violation("one-exclusive", map[string]any{"case": c}, "a callback of another operation on group %s ran in the middle of its DestroyOne", one)
			}
		}
		for _, s := range sightings {
			if id := idOf[s.val]; id != s.id {
				r.Violation("wrong-id", map[string]any{"case": c}, "the entry created as %q was shown with the id %q", id, s.id)
			}
		}
		r.Stat("entries_shown", len(sightings))
		for _, key := range keys {
			one, ks, _ := strings.Cut(key, "/")
			var seen []int
			s := vh.Tick()
			tree.QueryAction(one, qa.KeyValuesToExactAssociatedActionQuery(sets[ks]), func(it otm.OneToManyItem) bool {
				seen = append(seen, it.Value().(int))
				return true
			})
			hist[key] = append(hist[key], vh.LOp{Call: s, Ret: vh.Tick(), In: cIn{Op: "find", Set: key}, Out: bOut{Seen: seen}})
		}
		destroyIn := func(ops []vh.LOp, call, ret int64) bool {
			for j := range ops {
				op := ops[j].In.(cIn).Op
				if (op == "destroyID" || op == "all") && ops[j].Call < ret && call < ops[j].Ret {
					return true
				}
			}
			return false
		}
		overlap := 0
		for _, key := range keys {
			ops := hist[key]
			sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
			for i := range ops {
				for j := i + 1; j < len(ops) && ops[j].Call < ops[i].Ret; j++ {
					overlap++
				}
				in, out := ops[i].In.(cIn), ops[i].Out.(bOut)
				others := append(append([]vh.LOp(nil), ops[:i]...), ops[i+1:]...)
				during := destroyIn(others, ops[i].Call, ops[i].Ret)
				if out.Err == "destroying" && !during {
					r.Violation("destroying-unjustified", cdump(ops), "an operation on %s was refused as being destroyed, with no destroy in progress", key)
				}
				if in.Op == "find" && out.Err == "" && len(out.Seen) == 0 && during {
					out.Err = "skipped"
					ops[i].Out = out
				}
			}
			if ok, dec := vh.Linearizable(0, ops, cStep); !ok {
				r.Violation("linear", cdump(ops), "the operations on %s have no sequential order a map would accept", key)
			} else if !dec {
				r.Stat("undecided", 1)
			}
		}
		for _, sc := range scans {
			for kk := range sc.got {
				if strings.Contains(kk, "?") {
					r.Violation("wrong-group", map[string]any{"case": c}, "%s of group %s visited %s", sc.name, sc.one, kk)
				}
			}
			for _, ks := range kss {
				key := sc.one + "/" + ks
				got := sc.got[ks]
				if len(got) > 1 {
					r.Violation("scan-twice", cdump(hist[key]), "%s visited %s %d times", sc.name, key, len(got))
				}
				if !sc.in(sets[ks]) {
					if len(got) > 0 {
						r.Violation("scan-range", key, "%s visited %s, which it does not select", sc.name, key)
					}
					continue
				}
				if len(got) == 0 && destroyIn(hist[key], sc.call, sc.ret) {
					continue
				}
				ops := append(append([]vh.LOp(nil), hist[key]...), vh.LOp{Call: sc.call, Ret: sc.ret, In: cIn{Op: "find", Set: key}, Out: bOut{Seen: got}})
				if ok, _ := vh.Linearizable(0, ops, cStep); !ok {
					r.Violation("scan", cdump(ops), "%s saw %v for %s, which it held at no moment of the search", sc.name, got, key)
				}
			}
		}
		r.Eval(1)
		r.Stat("overlapping_pairs", overlap)
		r.Stat("searches_judged", len(scans))
		if overlap > 0 {
			r.Distinct(crel(hist, keys))
		}
		if c == 1 {
			r.Sample(cdump(hist[keys[0]]))
		}
	}
	r.Stat("instrumented_statements_run", int(vsched.Calls()))
}
