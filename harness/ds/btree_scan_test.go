package ds

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/DanLavine/willow/internal/datastructures/btree"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// TestD02_Scan runs every kind of search while other goroutines grow and
// shrink the store by runs of neighbouring keys, so that nodes split and merge
// all the time at both ends and in the middle. A key that was there all the
// time is visited exactly once, with its value; one that was not there is not.
func TestD02_Scan(t *testing.T) {
	r := vh.Start(t, "every kind of search (all six, with and without type restrictions, over keys of several types) in 3 goroutines while 3 others create and delete runs of up to 12 neighbouring keys; a case counts when a search overlapped changes; distinct by case, node size and number of keys")
	defer r.Finish()
	vsched.Set(2, 3, 1200)
	defer vsched.Pick(0)
	for c := 0; c < vh.N(200, 12000) && !r.Bad(); c++ {
		g := vh.Rand(t.Name(), c)
		vsched.Pick(uint32(8 + g.IntN(60)))
		size := 2 + g.IntN(3)
		tree, _ := btree.NewThreadSafe(size)
		// the keys, in their order
		var keys []ev
		nInts := 6 + g.IntN(30)
		for i := 0; i < nInts; i++ {
			keys = append(keys, datatypes.Int(i))
		}
		for i := 0; i < g.IntN(8); i++ {
			keys = append(keys, datatypes.Int8(int8(i)))
		}
		for i := 0; i < g.IntN(12); i++ {
			keys = append(keys, datatypes.String(fmt.Sprintf("%02d", i)))
		}
		if g.IntN(2) == 0 {
			keys = append(keys, datatypes.Any())
		}
		sort.Slice(keys, func(i, j int) bool { return vh.Compare(keys[i], keys[j]) < 0 })
		index := map[string]int{}
		for i, k := range keys {
			index[vh.VS(k)] = i
		}
		// state of every key: (changes so far)*4 + 1 if being changed + 2 if there
		state := make([]atomic.Int64, len(keys))
		const churners = 3
		create := func(i int) error { return tree.Create(keys[i], func() any { return i }) }
		for i := range keys {
			if g.IntN(3) == 0 {
				create(i)
				state[i].Store(2)
			}
		}
		var wg, churn sync.WaitGroup
		var changes, overlaps atomic.Int64
		var over atomic.Bool
		guard := func(what string) {
			if x := recover(); x != nil {
				r.Panic(what, map[string]any{"case": c}, x, stack())
			}
		}
		start := make(chan struct{})
		for p := 0; p < churners; p++ {
			churn.Add(1)
			pg := rand.New(rand.NewPCG(g.Uint64(), uint64(p)))
			go func() {
				defer churn.Done()
				defer guard("changes of an ordered store")
				<-start
				for n := 0; n < 14; n++ {
					if p == 0 {
						vsched.Slow(true)
					}
					first, length := pg.IntN(len(keys)), 1+pg.IntN(12)
					switch pg.IntN(4) {
					case 0:
						first = 0
					case 1:
						first = len(keys) - length
					}
					remove := pg.IntN(2) == 0
					for j := 0; j < length; j++ {
						// every goroutine changes only keys of its own
						i := first + j
						if i < 0 || i >= len(keys) || i%churners != p {
							continue
						}
						s := state[i].Load()
						if remove != (s&2 != 0) {
							continue
						}
						state[i].Store(s | 1)
						if remove {
							saw := -1
							how := tree.Delete
							if pg.IntN(4) == 0 {
								how = tree.Destroy
							}
							if err := how(keys[i], func(_ ev, item any) bool { saw = item.(int); return true }); err != nil || saw != i {
								r.Violation("scan-delete", map[string]any{"case": c}, "deleting %s, which only this goroutine changes and which is there: saw %d, want %d (%v)", vh.VS(keys[i]), saw, i, err)
							}
						} else if err := create(i); err != nil {
							r.Violation("scan-create", map[string]any{"case": c}, "creating %s, which only this goroutine changes and which is not there: %v", vh.VS(keys[i]), err)
						}
						state[i].Store((s>>2+1)<<2 | (s&2 ^ 2))
						changes.Add(1)
						r.Step()
					}
				}
			}()
		}
		for p := 0; p < 3; p++ {
			wg.Add(1)
			pg := rand.New(rand.NewPCG(g.Uint64(), uint64(100+p)))
			go func() {
				defer wg.Done()
				defer guard("searches of an ordered store")
				<-start
				before := make([]int64, len(keys))
				for n := 0; (n < 3 || !over.Load()) && !r.Bad(); n++ {
					what := searches[pg.IntN(len(searches))]
					tr := all
					if pg.IntN(3) == 0 {
						tr = v1common.TypeRestrictions{MinDataType: keys[pg.IntN(len(keys))].Type, MaxDataType: keys[pg.IntN(len(keys))].Type}
						if tr.MinDataType > tr.MaxDataType {
							tr.MinDataType, tr.MaxDataType = tr.MaxDataType, tr.MinDataType
						}
						if tr.Validate() != nil {
							tr = all
						}
					}
					key := keys[pg.IntN(len(keys))]
					if what.any && pg.IntN(2) == 0 {
						key = datatypes.Any()
					}
					if !what.any && key.Type == datatypes.T_any {
						key = datatypes.Int(nInts / 2)
					}
					stop := -1
					if pg.IntN(4) == 0 {
						stop = 1 + pg.IntN(6)
					}
					detail := map[string]any{"case": c, "nodeSize": size, "keys": len(keys)}
					name := fmt.Sprintf("%s(%s,[%d,%d],stop=%d)", what.name, vh.VS(key), tr.MinDataType, tr.MaxDataType, stop)
					for i := range state {
						before[i] = state[i].Load()
					}
					was := changes.Load()
					seen := map[int]int{}
					total := 0
					err := what.call(tree, key, tr, func(k ev, item any) bool {
						i, known := index[vh.VS(k)]
						if !known || item.(int) != i {
							r.Violation("scan-value", detail, "%s visited %s with the value of %v", name, vh.VS(k), item)
							return true
						}
						if stop > 0 && total >= stop {
							r.Violation("scan-stop", detail, "%s went on to %s after it was told to stop", name, vh.VS(k))
						}
						seen[i]++
						total++
						return total != stop
					})
					if btreeErr(err) == "destroying" && what.any && total == 0 {
						continue // a key that is being destroyed cannot be searched for
					}
					if err != nil {
						r.Violation("scan-error", detail, "%s: %v", name, err)
					}
					if changes.Load() != was {
						overlaps.Add(1)
					}
					for i := range state {
						s := state[i].Load()
						in := what.want(key, tr, keys[i])
						switch {
						case seen[i] > 1:
							if s == before[i] {
								r.Violation("scan-twice", detail, "%s visited %s %d times, though it did not change meanwhile", name, vh.VS(keys[i]), seen[i])
							}
						case seen[i] == 1 && !in:
							r.Violation("scan-range", detail, "%s visited %s", name, vh.VS(keys[i]))
						case seen[i] == 1 && s == before[i] && s&3 == 0:
							r.Violation("scan-ghost", detail, "%s visited %s, which was not there", name, vh.VS(keys[i]))
						case seen[i] == 0 && in && s == before[i] && s&3 == 2 && total != stop:
							r.Violation("scan-missed", detail, "%s missed %s, which was there all the time (it visited %d keys)", name, vh.VS(keys[i]), total)
						}
					}
					r.Step()
				}
			}()
		}
		close(start)
		churn.Wait()
		over.Store(true)
		wg.Wait()
		r.Eval(1)
		r.Stat("changes", int(changes.Load()))
		r.Stat("searches_overlapping_changes", int(overlaps.Load()))
		if overlaps.Load() > 0 {
			r.Distinct(fmt.Sprint(c, size, len(keys)))
		}
	}
	r.Sample(map[string]any{"changes": r.GetStat("changes"), "searches_overlapping_changes": r.GetStat("searches_overlapping_changes")})
}
