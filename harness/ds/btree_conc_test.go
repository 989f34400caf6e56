package ds

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/datastructures/btree"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

type bIn struct {
	Op  string // create cof find delete destroy all
	Key string
	Val int
	// decline a creation, veto a deletion
	No bool
}

type bOut struct {
	Err     string
	Created bool
	Seen    []int // values shown to onFind / onIterate / canDelete
}

// bStep is the sequential meaning of one operation on one key; the state is
// the value stored (0: none).
func bStep(s int, o *vh.LOp) []int {
	in := o.In.(bIn)
	out := o.Out.(bOut)
	seen := 0
	if len(out.Seen) > 1 {
		return nil
	}
	if len(out.Seen) == 1 {
		seen = out.Seen[0]
	}
	if out.Err == "destroying" { // judged separately; no effect
		if out.Created || seen != 0 {
			return nil
		}
		return []int{s}
	}
	switch in.Op {
	case "create":
		if out.Err == "exists" {
			if s == 0 || out.Created {
				return nil
			}
			return []int{s}
		}
		if s != 0 || !out.Created || out.Err != "" {
			return nil
		}
		if in.No {
			return []int{0}
		}
		return []int{in.Val}
	case "cof":
		if out.Err != "" {
			return nil
		}
		if s != 0 {
			if out.Created || seen != s {
				return nil
			}
			return []int{s}
		}
		if !out.Created || seen != 0 {
			return nil
		}
		if in.No {
			return []int{0}
		}
		return []int{in.Val}
	case "find":
		if out.Err != "" || seen != s {
			return nil
		}
		return []int{s}
	case "delete", "destroy", "all":
		if out.Err != "" || seen != s {
			return nil
		}
		if in.No {
			return []int{s}
		}
		return []int{0}
	}
	return nil
}

func btreeErr(err error) string {
	switch err {
	case nil:
		return ""
	case btree.ErrorKeyAlreadyExists:
		return "exists"
	case btree.ErrorKeyDestroying, btree.ErrorTreeDestroying:
		return "destroying"
	}
	return err.Error()
}

// exclusion notices callbacks of other operations that run while a bulk
// destroy, which is to exclude all others, is between its first callback and
// its last.
type exclusion struct{ entered, active, broken atomic.Int64 }

// enter is called at the start of a callback of another operation, and its
// result at the end.
func (e *exclusion) enter() func() {
	e.entered.Add(1)
	e.active.Add(1)
	return func() { e.active.Add(-1) }
}

// bulk returns what is to be called in the callbacks of one bulk destroy.
func (e *exclusion) bulk() func() {
	first := int64(-1)
	return func() {
		n := e.entered.Load()
		if e.active.Load() > 0 || first >= 0 && n != first {
			e.broken.Add(1)
		}
		first = n
	}
}

func pause(g *rand.Rand) {
	switch g.IntN(4) {
	case 0:
		runtime.Gosched()
	case 1:
		for i := 0; i < g.IntN(200); i++ {
			_ = i
		}
	}
}

// TestD02_Linear records short concurrent histories and searches, per key,
// for an order of the operations that a map would accept.
func TestD02_Linear(t *testing.T) {
	r := vh.Start(t, "concurrent histories: 3-6 goroutines each doing 6-14 operations (create, find-or-create, find, delete, destroy, whole searches, now and then a bulk destroy) on 4-16 keys of one store, with random yields between statements of the store; non-trivial when operations of different goroutines on the same key overlapped; distinct by the history's order of calls and returns")
	defer r.Finish()
	vsched.Set(2, 6, 900)
	defer vsched.Pick(0)
	for c := 0; c < vh.N(2500, 60000) && !r.Bad(); c++ {
		g := vh.Rand(t.Name(), c)
		if vsched.Pick(0); c%2 == 1 {
			vsched.Pick(uint32(8 + g.IntN(60))) // these statements are slow in this history
			vsched.Slow(true)
		}
		tree, _ := btree.NewThreadSafe(2 + g.IntN(3))
		nKeys := 4 + g.IntN(13)
		withAll := g.IntN(3) == 0
		if withAll && g.IntN(2) == 0 {
			nKeys += g.IntN(24) // deep enough for operations below the root
		}
		hist := map[string][]vh.LOp{}
		var mu sync.Mutex
		val := atomic.Int64{}
		keyOf := map[string]ev{}
		var keys []string
		for i := 0; i < nKeys; i++ {
			k := datatypes.Int(i)
			keyOf[vh.VS(k)] = k
			keys = append(keys, vh.VS(k))
		}
		prefill := g.IntN(nKeys + 1)
		for i := 0; i < prefill; i++ {
			v := int(val.Add(1))
			s := vh.Tick()
			tree.Create(keyOf[keys[i]], func() any { return v })
			hist[keys[i]] = append(hist[keys[i]], vh.LOp{Call: s, Ret: vh.Tick(), In: bIn{Op: "create", Key: keys[i], Val: v}, Out: bOut{Created: true}})
		}
		type scan struct {
			call, ret int64
			got       map[string][]int
			name      string
			bound     int
		}
		var scans []scan
		var excl exclusion
		type holder struct{ n atomic.Int64 }
		hold := map[string]*holder{}
		for _, k := range keys {
			hold[k] = &holder{}
		}
		n := 3 + g.IntN(4)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for p := 0; p < n; p++ {
			wg.Add(1)
			pg := rand.New(rand.NewPCG(g.Uint64(), uint64(p)))
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						r.Panic("concurrent operations on an ordered store", map[string]any{"case": c}, x, stack())
					}
				}()
				<-start
				for i, ops := 0, 6+pg.IntN(9); i < ops; i++ {
					ks := keys[pg.IntN(len(keys))]
					k := keyOf[ks]
					in := bIn{Key: ks, Val: int(val.Add(1)), No: pg.IntN(5) == 0}
					var out bOut
					// callbacks of one key never overlap when one of them may change it
					enter := func(write bool) func() {
						over := excl.enter()
						if withAll && pg.IntN(2) == 0 {
							time.Sleep(time.Duration(pg.IntN(30)) * time.Microsecond)
						}
						h := hold[ks]
						if write {
							if !h.n.CompareAndSwap(0, -1) {
								r.Violation("exclusive", in, "a create or delete callback ran while another callback for key %s was running", ks)
								return func() {}
							}
							return func() { h.n.Store(0); over() }
						}
						if h.n.Add(1) <= 0 {
							r.Violation("exclusive", in, "a find callback ran while a create or delete callback for key %s was running", ks)
							return func() {}
						}
						return func() { h.n.Add(-1); over() }
					}
					onCreate := func() any {
						leave := enter(true)
						out.Created = true
						pause(pg)
						leave()
						if in.No {
							return nil
						}
						return in.Val
					}
					onFind := func(item any) {
						leave := enter(false)
						out.Seen = append(out.Seen, item.(int))
						pause(pg)
						leave()
					}
					can := func(_ ev, item any) bool {
						leave := enter(true)
						out.Seen = append(out.Seen, item.(int))
						pause(pg)
						leave()
						return !in.No
					}
					op := pg.IntN(20)
					s := vh.Tick()
					switch {
					case op < 5:
						in.Op = "create"
						out.Err = btreeErr(tree.Create(k, onCreate))
					case op < 9:
						in.Op = "cof"
						out.Err = btreeErr(tree.CreateOrFind(k, onCreate, onFind))
					case op < 12:
						in.Op = "find"
						out.Err = btreeErr(tree.Find(k, v1common.TypeRestrictions{MinDataType: k.Type, MaxDataType: k.Type}, func(_ ev, item any) bool { onFind(item); return true }))
					case op < 16:
						in.Op = "delete"
						out.Err = btreeErr(tree.Delete(k, can))
					case op < 18:
						in.Op = "destroy"
						out.Err = btreeErr(tree.Destroy(k, can))
					case op >= 18 && withAll && pg.IntN(4) > 0:
						// bulk destroy: one deletion for every key
						seen := map[string]int{}
						alone := excl.bulk()
						err := tree.DestroyAll(func(kk ev, item any) bool {
							alone()
							seen[vh.VS(kk)] = item.(int)
							pause(pg)
							alone()
							return true
						})
						e := vh.Tick()
						mu.Lock()
						for _, kk := range keys {
							o := bOut{Err: btreeErr(err)}
							if v := seen[kk]; v != 0 {
								o.Seen = []int{v}
							}
							hist[kk] = append(hist[kk], vh.LOp{Call: s, Ret: e, Proc: p, In: bIn{Op: "all", Key: kk}, Out: o})
						}
						mu.Unlock()
						continue
					default:
						// a search over many keys
						sc := scan{call: s, got: map[string][]int{}, bound: -1}
						cb := func(kk ev, item any) bool {
							defer excl.enter()()
							sc.got[vh.VS(kk)] = append(sc.got[vh.VS(kk)], item.(int))
							return true
						}
						var err error
						switch pg.IntN(3) {
						case 0:
							sc.name = "Find(any)"
							err = tree.Find(datatypes.Any(), all, cb)
						case 1:
							sc.name, sc.bound = "FindLessThanOrEqual", pg.IntN(nKeys)
							err = tree.FindLessThanOrEqual(datatypes.Int(sc.bound), all, cb)
						case 2:
							sc.name, sc.bound = "FindGreaterThanOrEqual", pg.IntN(nKeys)
							err = tree.FindGreaterThanOrEqual(datatypes.Int(sc.bound), all, cb)
						}
						sc.ret = vh.Tick()
						if btreeErr(err) == "" {
							mu.Lock()
							scans = append(scans, sc)
							mu.Unlock()
						}
						continue
					}
					e := vh.Tick()
					mu.Lock()
					hist[ks] = append(hist[ks], vh.LOp{Call: s, Ret: e, Proc: p, In: in, Out: out})
					mu.Unlock()
					r.Step()
				}
			}()
		}
		close(start)
		wg.Wait()
		if excl.broken.Load() > 0 {
			r.Violation("all-exclusive", map[string]any{"case": c}, "a callback of another operation ran in the middle of DestroyAll")
		}
		// the final contents, as a last find of every key
		for _, ks := range keys {
			var seen []int
			s := vh.Tick()
			tree.Find(keyOf[ks], v1common.TypeRestrictions{MinDataType: datatypes.T_int, MaxDataType: datatypes.T_int}, func(_ ev, item any) bool { seen = append(seen, item.(int)); return true })
			hist[ks] = append(hist[ks], vh.LOp{Call: s, Ret: vh.Tick(), In: bIn{Op: "find", Key: ks}, Out: bOut{Seen: seen}})
		}
		overlap := 0
		for _, ks := range keys {
			ops := hist[ks]
			sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
			for i := range ops {
				for j := i + 1; j < len(ops) && ops[j].Call < ops[i].Ret; j++ {
					overlap++
				}
				// refused because of a destroy only while there is one
				if out := ops[i].Out.(bOut); out.Err == "destroying" {
					justified := false
					for j := range ops {
						op := ops[j].In.(bIn).Op
						if j != i && (op == "destroy" || op == "all") && ops[j].Call < ops[i].Ret && ops[i].Call < ops[j].Ret {
							justified = true
						}
					}
					if !justified {
						r.Violation("destroying-unjustified", hdump(ops), "an operation on key %s was refused as being destroyed, with no destroy in progress", ks)
					}
				}
			}
			if ok, dec := vh.Linearizable(0, ops, bStep); !ok {
				r.Violation("linear", hdump(ops), "the operations on key %s have no sequential order a map would accept", ks)
			} else if !dec {
				r.Stat("undecided", 1)
			}
		}
		// searches: what was there throughout must be seen, what was never
		// there must not, nothing twice
		for _, sc := range scans {
			for _, ks := range keys {
				i := int(keyOf[ks].Data.(int))
				got := sc.got[ks]
				if len(got) > 1 {
					r.Violation("scan-twice", hdump(hist[ks]), "%s visited key %s %d times", sc.name, ks, len(got))
				}
				inside := sc.bound < 0 || sc.name == "FindLessThanOrEqual" && i <= sc.bound || sc.name == "FindGreaterThanOrEqual" && i >= sc.bound
				if !inside {
					if len(got) > 0 {
						r.Violation("scan-range", sc.bound, "%s(%d) visited %s", sc.name, sc.bound, ks)
					}
					continue
				}
				o := bOut{}
				if len(got) == 1 {
					o.Seen = got
				}
				ops := append(append([]vh.LOp(nil), hist[ks]...), vh.LOp{Call: sc.call, Ret: sc.ret, In: bIn{Op: "find", Key: ks}, Out: o})
				if ok, _ := vh.Linearizable(0, ops, bStep); !ok {
					r.Violation("scan", hdump(ops), "%s saw %v for key %s, which it held at no moment of the search", sc.name, got, ks)
				}
			}
		}
		r.Eval(1)
		r.Stat("overlapping_pairs", overlap)
		if overlap > 0 {
			var sig []string
			for _, ks := range keys {
				for _, o := range hist[ks] {
					sig = append(sig, fmt.Sprint(o.Call, o.Ret, o.In, o.Out))
				}
			}
			// relative order only
			r.Distinct(rel(sig, hist, keys))
		}
		if c == 1 {
			r.Sample(hdump(hist[keys[0]]))
		}
	}
	r.Stat("instrumented_statements_run", int(vsched.Calls()))
}

func rel(_ []string, hist map[string][]vh.LOp, keys []string) string {
	type e struct {
		t int64
		s string
	}
	var es []e
	for _, k := range keys {
		for _, o := range hist[k] {
			in := o.In.(bIn)
			es = append(es, e{o.Call, fmt.Sprintf("c%d%s%s", o.Proc, in.Op, k)}, e{o.Ret, fmt.Sprintf("r%d", o.Proc)})
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].t < es[j].t })
	var sb strings.Builder
	for _, x := range es {
		sb.WriteString(x.s)
	}
	return sb.String()
}

func stack() []byte {
	buf := make([]byte, 64<<10)
	return buf[:runtime.Stack(buf, false)]
}

func hdump(ops []vh.LOp) []string {
	var out []string
	for _, o := range ops {
		out = append(out, fmt.Sprintf("[%d,%d] g%d %s -> %s", o.Call, o.Ret, o.Proc, vh.JSON(o.In), vh.JSON(o.Out)))
	}
	return out
}

// TestD02_Owned runs long concurrent histories in which every goroutine has
// keys of its own, so that each answer about them is known exactly whatever
// the others' rebalancing does meanwhile.
func TestD02_Owned(t *testing.T) {
	r := vh.Start(t, "8 goroutines, each creating, finding and deleting keys of its own (interleaved over the whole key range) in one shared store while others rebalance it; every answer checked exactly; non-trivial when the store held more than 20 keys; distinct by case, node size, largest and final number of keys")
	defer r.Finish()
	vsched.Set(2, 10, 2500)
	for c := 0; c < vh.N(120, 3000) && !r.Bad(); c++ {
		g := vh.Rand(t.Name(), c)
		size := 2 + g.IntN(4)
		tree, _ := btree.NewThreadSafe(size)
		const procs = 8
		per := 4 + g.IntN(16)
		var wg sync.WaitGroup
		var live, peak atomic.Int64
		finals := make([]map[int]int, procs)
		for p := 0; p < procs; p++ {
			wg.Add(1)
			pg := rand.New(rand.NewPCG(g.Uint64(), uint64(p)))
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						r.Panic("concurrent operations on an ordered store", map[string]any{"case": c}, x, stack())
					}
				}()
				mine := map[int]int{}
				finals[p] = mine
				bad := func(k int, format string, a ...any) {
					r.Violation("owned:"+format, map[string]any{"case": c, "nodeSize": size, "key": k, "proc": p}, "key %d, touched by one goroutine only: "+format, append([]any{k}, a...)...)
				}
				for i := 0; i < 150 && !r.Bad(); i++ {
					k := pg.IntN(per)*procs + p
					key := datatypes.Int(k)
					cur := mine[k]
					switch op := pg.IntN(10); {
					case op < 4:
						v := i + 1
						err := tree.Create(key, func() any { return v })
						if cur == 0 && err != nil {
							bad(k, "Create failed: %v", err)
						}
						if cur != 0 && err != btree.ErrorKeyAlreadyExists {
							bad(k, "Create of an existing key: %v", err)
						}
						if cur == 0 {
							mine[k] = v
							if n := live.Add(1); n > peak.Load() {
								peak.Store(n)
							}
						}
					case op < 7:
						seen := 0
						no := pg.IntN(4) == 0
						err := tree.Delete(key, func(_ ev, item any) bool { seen = item.(int); return !no })
						if err != nil || seen != cur {
							bad(k, "Delete saw %d, want %d (%v)", seen, cur, err)
						}
						if cur != 0 && !no {
							delete(mine, k)
							live.Add(-1)
						}
					case op < 8:
						v, seen, made := i+1, 0, false
						no := pg.IntN(4) == 0
						err := tree.CreateOrFind(key, func() any {
							made = true
							if no {
								return nil
							}
							return v
						}, func(item any) { seen = item.(int) })
						if err != nil || seen != cur || made != (cur == 0) {
							bad(k, "CreateOrFind saw %d created %v, want %d (%v)", seen, made, cur, err)
						}
						if cur == 0 && !no {
							mine[k] = v
							live.Add(1)
						}
					case op < 9:
						seen := 0
						tree.Find(key, v1common.TypeRestrictions{MinDataType: datatypes.T_int, MaxDataType: datatypes.T_int}, func(_ ev, item any) bool { seen = item.(int); return true })
						if seen != cur {
							bad(k, "Find saw %d, want %d", seen, cur)
						}
					default:
						got := map[int]int{}
						tree.Find(datatypes.Any(), all, func(kk ev, item any) bool {
							n := kk.Data.(int)
							if n%procs == p {
								if _, again := got[n]; again {
									bad(n, "a search visited it twice")
								}
								got[n] = item.(int)
							}
							return true
						})
						if len(got) != len(mine) {
							bad(k, "a search saw %d of the %d keys of this goroutine", len(got), len(mine))
						}
						for n, v := range mine {
							if got[n] != v {
								bad(n, "a search saw %d, want %d", got[n], v)
							}
						}
					}
					r.Step()
				}
			}()
		}
		wg.Wait()
		want := 0
		for _, m := range finals {
			want += len(m)
		}
		got := 0
		tree.Find(datatypes.Any(), all, func(kk ev, item any) bool {
			got++
			n := kk.Data.(int)
			if finals[n%procs][n] != item.(int) {
				r.Violation("final", map[string]any{"case": c}, "at the end key %d holds %v, want %d", n, item, finals[n%procs][n])
			}
			return true
		})
		if got != want {
			r.Violation("final", map[string]any{"case": c}, "at the end the store shows %d keys, want %d", got, want)
		}
		r.Eval(1)
		r.Max("largest_store", int(peak.Load()))
		if peak.Load() > 20 {
			r.Distinct(fmt.Sprint(c, size, peak.Load(), want))
		}
	}
	r.Sample(map[string]any{"largest_store": r.GetStat("largest_store"), "goroutines": 8})
}
