package vh

import (
	"math"
	"sync/atomic"
)

// LOp is one operation of a concurrent history. Ret is math.MaxInt64 when the
// operation never returned (it may or may not have taken effect).
type LOp struct {
	Call, Ret int64
	Proc      int
	In        any
	Out       any
}

var clock atomic.Int64

// Tick is a logical timestamp, ordered like real time.
func Tick() int64 { return clock.Add(1) }

const Pending = math.MaxInt64

// Linearizable searches for an order of ops, consistent with real time, that
// the sequential specification accepts. step returns the possible next states
// (none: not possible). At most 64 operations. It reports (ok, decided);
// decided is false when the search budget ran out.
func Linearizable[S comparable](init S, ops []LOp, step func(S, *LOp) []S) (ok, decided bool) {
	if len(ops) > 64 {
		return true, false
	}
	type node struct {
		done uint64
		s    S
	}
	seen := map[node]struct{}{}
	budget := 2_000_000
	var must uint64
	for i := range ops {
		if ops[i].Ret != Pending {
			must |= 1 << i
		}
	}
	var rec func(done uint64, s S) bool
	exhausted := false
	rec = func(done uint64, s S) bool {
		if done&must == must {
			return true
		}
		n := node{done, s}
		if _, dup := seen[n]; dup {
			return false
		}
		seen[n] = struct{}{}
		budget--
		if budget < 0 {
			exhausted = true
			return false
		}
		// the earliest return among the operations not yet placed
		min := int64(math.MaxInt64)
		for i := range ops {
			if done&(1<<i) == 0 && ops[i].Ret < min {
				min = ops[i].Ret
			}
		}
		for i := range ops {
			if done&(1<<i) != 0 || ops[i].Call > min {
				continue
			}
			for _, ns := range step(s, &ops[i]) {
				if rec(done|1<<i, ns) {
					return true
				}
			}
		}
		return false
	}
	if rec(0, init) {
		return true, true
	}
	return exhausted, !exhausted
}
