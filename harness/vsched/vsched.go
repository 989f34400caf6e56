// Package vsched is compiled into instrumented copies of the repository's
// sources: P is called before every statement and perturbs the schedule.
package vsched

import (
	"os"
	"runtime"
	"strconv"
	"time"
)

// Mode 0: off, 1: yield only, 2: yield and sleep for some microseconds.
var (
	mode  int
	yield uint64 = 8   // one in yield statements gives up the processor
	nap   uint64 = 700 // one in nap statements sleeps
	state uint64
	calls uint64

	// At any time one in rare statements of the sources is slow: a goroutine
	// that comes by is held back for a long while, so that others complete
	// whole operations between two statements of it. Which ones changes.
	rare  uint32 = 120
	salt  uint32
	next  uint64
	slows [256]uint8 // how often each one has been
	most  uint8      = 5
)

func init() {
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	shard, _ := strconv.ParseUint(os.Getenv("VH_SHARD"), 10, 64)
	state = (seed + 1) * 0x9E3779B97F4A7C15 * (2*shard + 3)
}

// Set selects the mode; called by a scenario before it starts goroutines.
func Set(m int, y, n uint64) { mode, yield, nap = m, y, n }

// Pick chooses the slow statements anew, one in r, and keeps the choice until
// it is called again (or, with 0, leaves it to chance again). They are slow
// only while Slow is on.
func Pick(r uint32) {
	rare, salt, next, slows, most = 120, uint32(state>>16), 0, [256]uint8{}, 5
	if r > 0 {
		rare, next, most = r, 1<<63, 0
	}
}

// Slow says whether the statements picked are slow now.
func Slow(on bool) {
	slows, most = [256]uint8{}, 0
	if on {
		most = 3
	}
}

// Calls says how many instrumented statements ran (approximate).
//
//go:norace
func Calls() uint64 { return calls }

// P deliberately uses plain, unsynchronised state: an atomic would order the
// goroutines and hide races from the detector.
//
//go:norace
func P(site uint32) {
	if mode == 0 {
		return
	}
	calls++
	x := state + 0x9E3779B97F4A7C15
	state = x
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	x ^= x >> 31
	if x%yield == 0 {
		runtime.Gosched()
	}
	if calls > next {
		next = calls + 2000 + (x>>30)%60000
		salt = uint32(x >> 24)
		slows = [256]uint8{}
	}
	if h := (site ^ salt) * 0x9E3779B1; h>>8%rare == 0 && x>>12&1 == 0 && slows[site%256] < most {
		slows[site%256]++
		// until the others ran that many statements, or none does any more
		until := calls + 64<<((x>>52)%8)
		for last, idle := calls, 0; int64(until-calls) > 0 && idle < 1000; idle++ {
			runtime.Gosched()
			if calls != last {
				last, idle = calls, 0
			}
		}
	}
	if mode == 2 && (x>>20)%nap == 0 {
		time.Sleep(time.Duration(1+(x>>40)%60) * time.Microsecond)
	}
}
