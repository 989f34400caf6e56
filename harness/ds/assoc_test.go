package ds

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"testing"

	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	"github.com/DanLavine/willow/internal/verif/vh"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	qm "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

type aEntry struct {
	id  string
	kv  vh.KV
	val string
}

func (e aEntry) String() string { return e.id + "|" + vh.KVS(e.kv) + "|" + e.val }

func aItem(it btreeassociated.AssociatedKeyValues) aEntry {
	v, _ := it.Value().(string)
	return aEntry{it.AssociatedID(), it.KeyValues(), v}
}

type aModel map[string]aEntry // by exact set

func (m aModel) byID(id string) (aEntry, bool) {
	for _, e := range m {
		if e.id == id {
			return e, true
		}
	}
	return aEntry{}, false
}

func (m aModel) ids() (ids []string) {
	for _, e := range m {
		ids = append(ids, e.id)
	}
	sort.Slice(ids, func(i, j int) bool { // by value: ids themselves are random
		a, _ := m.byID(ids[i])
		b, _ := m.byID(ids[j])
		return a.val < b.val
	})
	return
}

func diff(want, got []string) string {
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, "\n") == strings.Join(got, "\n") {
		return ""
	}
	n := map[string]int{}
	for _, x := range want {
		n[x]--
	}
	for _, x := range got {
		n[x]++
	}
	var s []string
	for x, d := range n {
		if d < 0 {
			s = append(s, "missing "+x)
		} else if d > 0 {
			s = append(s, fmt.Sprintf("unexpected (%d too often) %s", d, x))
		}
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}

// aCollect runs a search and returns what it visited.
func aCollect(search func(cb btreeassociated.BTreeAssociatedIterate) error, stopAfter int) (got []string, err error) {
	err = search(func(it btreeassociated.AssociatedKeyValues) bool {
		got = append(got, aItem(it).String())
		return stopAfter == 0 || len(got) < stopAfter
	})
	return
}

func aQuery(t btreeassociated.BTreeAssociated, q *qa.AssociatedActionQuery) func(btreeassociated.BTreeAssociatedIterate) error {
	return func(cb btreeassociated.BTreeAssociatedIterate) error { return t.QueryAction(q, cb) }
}

func aMatch(t btreeassociated.BTreeAssociated, m *qm.MatchActionQuery) func(btreeassociated.BTreeAssociatedIterate) error {
	return func(cb btreeassociated.BTreeAssociatedIterate) error { return t.MatchAction(m, cb) }
}

func exactMatch(kv vh.KV) *qm.MatchActionQuery {
	m := &qm.MatchActionQuery{KeyValues: qm.MatchKeyValues{}, MinNumberOfPermutationKeyValues: ptr(len(kv))}
	for k, v := range kv {
		m.KeyValues[k] = qm.MatchValue{Value: v, TypeRestrictions: v1common.TypeRestrictions{MinDataType: v.Type, MaxDataType: v.Type}}
	}
	return m
}

// TestD03_Model drives random sequences of operations against the collection
// and a map, comparing every answer, and after every change all the lookups.
func TestD03_Model(t *testing.T) {
	r := vh.Start(t, "a random sequence of up to 120 operations on one key-value collection (1-5 keys per set from a pool that makes sets overlap, any values, declined creations, vetoed deletions, deletions by set and id, bulk destroys), all four kinds of lookup compared after each change; non-trivial when at least 6 entries existed and 3 were removed; distinct by the operations' text")
	defer r.Finish()
	for c := 0; c < vh.N(260, 5000) && !r.Bad(); c++ {
		g := vh.Rand(t.Name(), c)
		tree := btreeassociated.NewThreadSafe()
		model := aModel{}
		seenIDs := map[string]bool{}
		var log []string
		peak, removed := 0, 0
		fail := func(what, f string, a ...any) {
			r.Violation(what, map[string]any{"case": c, "ops": log}, "key-value collection: "+f, a...)
		}
		pick := func() vh.KV {
			if len(model) > 0 && g.IntN(2) == 0 {
				ids := model.ids()
				e, _ := model.byID(ids[g.IntN(len(ids))])
				return vh.Clone(e.kv)
			}
			return genKV(g, 4, true)
		}
		grow := 3 + g.IntN(6)
		n := 30 + g.IntN(90)
		r.Guard("D03 case", map[string]any{"case": c, "ops": &log}, func() {
			for i := 0; i < n && !r.Bad(); i++ {
				r.Step()
				kv := pick()
				ks := vh.KVS(kv)
				old, exists := model[ks]
				if g.IntN(25) == 0 {
					grow = 1 + g.IntN(9)
				}
				if g.IntN(10) < grow {
					val := fmt.Sprintf("v%03d", i)
					decline := g.IntN(6) == 0
					created := 0
					var found []string
					onCreate := func() any {
						created++
						if decline {
							return nil
						}
						return val
					}
					arg := vh.Clone(kv)
					var id string
					var err error
					op := "Create"
					if g.IntN(2) == 0 {
						log = append(log, fmt.Sprintf("Create(%s,decline=%v)", ks, decline))
						id, err = tree.Create(arg, onCreate)
					} else {
						op = "CreateOrFind"
						log = append(log, fmt.Sprintf("CreateOrFind(%s,decline=%v)", ks, decline))
						id, err = tree.CreateOrFind(arg, onCreate, func(it btreeassociated.AssociatedKeyValues) {
							found = append(found, aItem(it).String())
						})
					}
					for k := range arg { // the caller's map is the caller's
						arg[k] = datatypes.String("changed later")
					}
					switch {
					case op == "Create" && exists:
						if err == nil || created != 0 || id != "" {
							fail("create-existing", "Create of the existing %s: id %q, error %v, onCreate called %d times", ks, id, err, created)
						}
					case exists:
						if err != nil || created != 0 || id != old.id || len(found) != 1 || found[0] != old.String() {
							fail("cof-existing", "CreateOrFind of the existing %s: id %q, error %v, created %d, found %v", old, id, err, created, found)
						}
					case decline:
						if err != nil || created != 1 || len(found) != 0 {
							fail("declined", "%s of %s with a declining callback: error %v, created %d, found %v", op, ks, err, created, found)
						}
						if id != "" && op == "Create" {
							fail("declined-id", "%s of %s declined, yet it returned the id %q of no entry", op, ks, id)
						}
					default:
						if err != nil || created != 1 || id == "" || len(found) != 0 {
							fail("create", "%s of %s: id %q, error %v, created %d, found %v", op, ks, id, err, created, found)
							break
						}
						if seenIDs[id] {
							fail("id-reused", "id %q was given out twice", id)
						}
						seenIDs[id] = true
						model[ks] = aEntry{id, vh.Clone(kv), val}
						peak = max(peak, len(model))
					}
				} else if g.IntN(30) == 0 { // destroy all, perhaps stopped
					stop := -1
					if g.IntN(2) == 0 {
						stop = g.IntN(4)
					}
					log = append(log, fmt.Sprintf("DestroyTree(stop=%d)", stop))
					calls := 0
					gone := map[string]bool{}
					err := tree.DestroyTree(func(it btreeassociated.AssociatedKeyValues) bool {
						e := aItem(it)
						if m, ok := model[vh.KVS(e.kv)]; !ok || m.String() != e.String() || gone[e.id] {
							fail("destroy-item", "DestroyTree offered %s", e)
						}
						calls++
						if stop >= 0 && calls > stop {
							return false
						}
						gone[e.id] = true
						return true
					})
					want := len(model)
					if stop >= 0 && stop < want {
						want = stop
					}
					if err != nil || len(gone) != want {
						fail("destroy-tree", "DestroyTree removed %d of %d entries, wanted %d (error %v)", len(gone), len(model), want, err)
					}
					for k, e := range model {
						if gone[e.id] {
							delete(model, k)
							removed++
						}
					}
				} else {
					veto := g.IntN(5) == 0
					withCB := veto || g.IntN(3) > 0
					var offered []string
					var cb btreeassociated.BTreeAssociatedRemove
					if withCB {
						cb = func(it btreeassociated.AssociatedKeyValues) bool {
							offered = append(offered, aItem(it).String())
							return !veto
						}
					}
					var err error
					op := g.IntN(3)
					id := "no-such-id"
					if exists {
						id = old.id
					}
					log = append(log, fmt.Sprintf("%s(%s,veto=%v)", []string{"Delete", "DeleteByAssociatedID", "DestroyByAssociatedID"}[op], ks, veto))
					switch op {
					case 0:
						err = tree.Delete(kv, cb)
					case 1:
						err = tree.DeleteByAssociatedID(id, cb)
					default:
						err = tree.DestroyByAssociatedID(id, cb)
					}
					want := []string{}
					if exists && withCB {
						want = append(want, old.String())
					}
					if d := diff(want, offered); err != nil || d != "" {
						fail("delete", "%s: error %v, callback: %s", log[len(log)-1], err, d)
					}
					if exists && !veto {
						delete(model, ks)
						removed++
					}
				}
				if r.Bad() {
					return
				}
				// all the ways of looking must agree
				check := func(what string, want []string, search func(btreeassociated.BTreeAssociatedIterate) error) {
					got, err := aCollect(search, 0)
					if d := diff(want, got); err != nil || d != "" {
						fail("lookup-"+what, "after %s, lookup by %s: error %v, %s", log[len(log)-1], what, err, d)
					}
				}
				var everything []string
				for _, e := range model {
					everything = append(everything, e.String())
				}
				now, has := model[ks]
				one := []string{}
				if has {
					one = append(one, now.String())
				}
				check("exact set", one, aQuery(tree, qa.KeyValuesToExactAssociatedActionQuery(kv)))
				check("exact match", one, aMatch(tree, exactMatch(kv)))
				if old.id != "" {
					w := []string{}
					if e, ok := model.byID(old.id); ok {
						w = append(w, e.String())
					}
					check("id", w, aQuery(tree, qa.StringToAssociatedActionQuery(old.id)))
				}
				if has {
					check("id", one, aQuery(tree, qa.StringToAssociatedActionQuery(now.id)))
				}
				if g.IntN(3) == 0 {
					check("everything", everything, aQuery(tree, &qa.AssociatedActionQuery{}))
					m := &qm.MatchActionQuery{KeyValues: qm.MatchKeyValues{}}
					for _, k := range qKeys {
						m.KeyValues[k] = qm.MatchValue{Value: datatypes.Any(), TypeRestrictions: all}
					}
					check("match of everything", everything, aMatch(tree, m))
					check("key count", everything, aQuery(tree, &qa.AssociatedActionQuery{Selection: &qa.Selection{MinNumberOfKeyValues: ptr(0)}}))
				}
				r.Stat("lookups", 4)
			}
		})
		r.Eval(1)
		if peak >= 6 && removed >= 3 {
			r.Distinct(strings.Join(log, ";"))
		}
		r.Max("most entries at once", peak)
		if c < 2 {
			r.Sample(map[string]any{"case": c, "ops": log})
		}
	}
}

// aFill creates a collection with random contents.
func aFill(g *rand.Rand, n int) (btreeassociated.BTreeAssociated, aModel, error) {
	tree := btreeassociated.NewThreadSafe()
	model := aModel{}
	for i := 0; i < n; i++ {
		kv := genKV(g, 4, true)
		val := fmt.Sprintf("v%03d", i)
		if _, ok := model[vh.KVS(kv)]; ok {
			continue
		}
		id, err := tree.Create(kv, func() any { return val })
		if err != nil {
			return nil, nil, err
		}
		model[vh.KVS(kv)] = aEntry{id, kv, val}
	}
	// some removals, so that what is left has a history
	for i := 0; i < n/5; i++ {
		ids := model.ids()
		e, _ := model.byID(ids[g.IntN(len(ids))])
		if err := tree.Delete(e.kv, nil); err != nil {
			return nil, nil, err
		}
		delete(model, vh.KVS(e.kv))
	}
	return tree, model, nil
}

// TestQ01_Query compares searches with the documented meaning of the query.
func TestQ01_Query(t *testing.T) {
	r := vh.Start(t, "one random query (ids, up to 3 key conditions with all six comparisons over colliding values of all types and any, type restrictions, key-count bounds, nested conjunctions and disjunctions, empty queries) on a collection of 4-40 entries, searched and also decided entry by entry; non-trivial when it selects some but not all entries; distinct by query text and result")
	defer r.Finish()
	for c := 0; c < vh.N(500, 9000) && !r.Bad(); c++ {
		g := vh.Rand(t.Name(), c)
		tree, model, err := aFill(g, 5+g.IntN(40))
		if err != nil {
			r.Violation("fill", c, "cannot fill a collection: %v", err)
			return
		}
		ids := model.ids()
		for i := 0; i < 25 && !r.Bad(); i++ {
			q := genQuery(g, g.IntN(3), ids)
			if err := q.Validate(); err != nil {
				r.Violation("valid-rejected", q, "a valid query is rejected: %v: %s", err, vh.JSON(q))
				return
			}
			det := map[string]any{"case": c, "query": q, "shape": qShape(q)}
			r.Guard("query", det, func() {
				var want []string
				for _, e := range model {
					if queryHolds(q, e.id, e.kv) {
						want = append(want, e.String())
					}
				}
				got, err := aCollect(aQuery(tree, q), 0)
				if d := diff(want, got); err != nil || d != "" {
					r.Violation("query", det, "query %s: error %v, %s", vh.JSON(q), err, d)
					return
				}
				if !hasIDs(q) {
					for _, e := range model {
						if w, m := queryHolds(q, e.id, e.kv), q.MatchTags(vh.Clone(e.kv)); m != w {
							r.Violation("match-tags", det, "query %s: searching selects %s: %v, but deciding that one key-value set says %v", vh.JSON(q), e, w, m)
							return
						}
					}
				}
				if len(want) > 1 { // a search that is stopped shows a part of the same
					k := 1 + g.IntN(len(want)-1)
					part, err := aCollect(aQuery(tree, q), k)
					in := map[string]bool{}
					for _, x := range want {
						in[x] = true
					}
					ok := err == nil && len(part) == k
					for _, x := range part {
						ok = ok && in[x]
						delete(in, x)
					}
					if !ok {
						r.Violation("query-stop", det, "query %s stopped after %d: error %v, visited %v", vh.JSON(q), k, err, part)
					}
				}
				r.Eval(1)
				if len(want) > 0 && len(want) < len(model) {
					r.Distinct(fmt.Sprint(c, vh.JSON(q), len(want)))
				}
				r.Max("largest result", len(want))
				if c == 0 && i < 2 {
					r.Sample(map[string]any{"query": q, "selected": len(want), "of": len(model)})
				}
			})
		}
	}
}

// TestQ02_Match compares matches with their documented meaning.
func TestQ02_Match(t *testing.T) {
	r := vh.Start(t, "one random match request (1-5 keys, any values on either side, type restrictions, bounds) on a collection of 4-40 entries; non-trivial when it selects some but not all entries; distinct by request text and result")
	defer r.Finish()
	for c := 0; c < vh.N(500, 9000) && !r.Bad(); c++ {
		g := vh.Rand(t.Name(), c)
		tree, model, err := aFill(g, 5+g.IntN(40))
		if err != nil {
			r.Violation("fill", c, "cannot fill a collection: %v", err)
			return
		}
		for i := 0; i < 30 && !r.Bad(); i++ {
			m := genMatch(g)
			if g.IntN(4) == 0 {
				m = qm.KeyValuesToAnyMatchActionQuery(genKV(g, 5, true))
			}
			if err := m.Validate(); err != nil {
				r.Violation("valid-rejected", m, "a valid match request is rejected: %v: %s", err, vh.JSON(m))
				return
			}
			det := map[string]any{"case": c, "match": m}
			r.Guard("match", det, func() {
				var want []string
				for _, e := range model {
					if matchHolds(m, e.kv) {
						want = append(want, e.String())
					}
				}
				got, err := aCollect(aMatch(tree, m), 0)
				if d := diff(want, got); err != nil || d != "" {
					r.Violation("match", det, "match %s: error %v, %s", vh.JSON(m), err, d)
					return
				}
				if len(want) > 1 {
					k := 1 + g.IntN(len(want)-1)
					part, err := aCollect(aMatch(tree, m), k)
					in := map[string]bool{}
					for _, x := range want {
						in[x] = true
					}
					ok := err == nil && len(part) == k
					for _, x := range part {
						ok = ok && in[x]
						delete(in, x)
					}
					if !ok {
						r.Violation("match-stop", det, "match %s stopped after %d: error %v, visited %v", vh.JSON(m), k, err, part)
					}
				}
				r.Eval(1)
				if len(want) > 0 && len(want) < len(model) {
					r.Distinct(fmt.Sprint(c, vh.JSON(m), len(want)))
				}
				r.Max("largest result", len(want))
				if c == 0 && i < 2 {
					r.Sample(map[string]any{"match": m, "selected": len(want), "of": len(model)})
				}
			})
		}
	}
}
