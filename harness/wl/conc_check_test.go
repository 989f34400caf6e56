package wl

import (
	"fmt"
	"sort"
	"time"

	"github.com/DanLavine/willow/internal/verif/vh"
)

const never = time.Duration(1) << 60

// citem is what the history says about one accepted item.
type citem struct {
	enq   *ev
	id    string
	dels  []*ev // deliveries, in order, with those whose answer was lost
	first *ev
	// it was surely held until lowTick; it was surely gone at highTick and highTime
	lowTick, highTick int64
	highTime          time.Duration
	ended             string
}

func where(e *ev) string { return e.queue + " " + vh.KVS(e.kv) }

func (w *cworld) check(queues []string, stuck bool) {
	r := w.r
	r.Eval(1)
	m := w.mode
	var deliveries, dels []*ev
	items := map[string]*citem{} // by data
	acks := map[string][]*ev{}   // by id
	var order []*citem
	for _, e := range w.evs {
		if !e.done {
			w.bad("W07", "unanswered", "a request was never answered: %s", e)
			return
		}
		r.Stat(e.kind+fmt.Sprintf(" -> %d", e.status), 1)
		switch e.kind {
		case "enqueue":
			items[e.p.data] = &citem{enq: e}
			order = append(order, items[e.p.data])
			w.want(e, 201, 409)
		case "dequeue":
			if e.got != nil {
				deliveries = append(deliveries, e)
			} else if e.status == 200 && !e.gone {
				w.bad("W01", "empty", "a dequeue succeeded without an item: %s", e)
			} else if !e.gone && !stuck {
				if m.deletes {
					w.want(e, 404, 409)
				} else {
					w.bad("W05", "refused-dequeue", "a dequeue ended without an item: %s", e)
				}
			}
		case "pass", "fail", "beat":
			acks[e.id] = append(acks[e.id], e)
			w.want(e, 200, 404)
		case "delchan", "delqueue":
			dels = append(dels, e)
			if !m.faults {
				w.want(e, 204)
			}
		}
	}
	sort.SliceStable(deliveries, func(i, j int) bool { return deliveries[i].wseq < deliveries[j].wseq })
	for _, as := range acks {
		sort.SliceStable(as, func(i, j int) bool { return as[i].call < as[j].call })
	}
	removed := func(e *ev, from, to int64) bool { // a deletion of the channel of e may act in between
		for _, d := range dels {
			if d.queue == e.queue && d.ret > from && d.call < to && (d.kind == "delqueue" || vh.KVS(d.kv) == vh.KVS(e.kv)) {
				return true
			}
		}
		return false
	}

	// A consumer that leaves at the very moment an item comes to it holds the
	// item for no time, but a request of a former holder at that moment may act
	// on it, for the ids of items stay the same.
	left := func(a *ev) (n int) {
		for _, e := range w.evs {
			if e.kind == "dequeue" && e.queue == a.queue && e.got == nil && e.gone && e.end == a.end {
				n++
			}
		}
		return
	}

	// what was delivered
	byID := map[string][]*ev{}
	lastIn := map[string]int64{} // last sign of life of a channel
	for _, d := range deliveries {
		d.kv = d.got.kv
		it := items[d.got.p.data]
		if it == nil {
			w.bad("W01", "unknown-item", "delivered an item that nobody enqueued: %s", d)
			continue
		}
		e := it.enq
		if e.status != 201 && !e.gone {
			w.bad("W01,W04", "refused-item", "delivered an item that was refused: %s\n%s", e, d)
		}
		if e.call > d.wseq {
			w.bad("W01", "early-item", "delivered before it was enqueued: %s\n%s", e, d)
		}
		if where(e) != d.queue+" "+vh.KVS(d.kv) {
			w.bad("W01,W05", "wrong-channel", "delivered from another channel: %s\n%s", e, d)
		}
		if e.p != d.got.p {
			w.bad("W01,W03", "wrong-item", "delivered with other properties: %s\n%s", e, d)
		}
		if !vh.QueryHolds(d.q, "", vh.KV(d.kv)) {
			w.bad("W05", "unselected", "delivered an item the query does not select: %s", d)
		}
		if it.id != "" && it.id != d.got.id {
			w.bad("W01", "two-ids", "one item is delivered under two ids: %s\n%s", it.first, d)
		}
		it.id = d.got.id
		if it.first == nil {
			it.first = d
		}
		it.dels = append(it.dels, d)
		byID[d.got.id] = append(byID[d.got.id], d)
		lastIn[where(d)] = max(lastIn[where(d)], d.wseq)
	}

	// every delivery of an item starts a tenure that ends at most once
	var tenures []tenure
	for id, ds := range byID {
		as := acks[id]
		oks := 0
		for _, a := range as {
			if a.kind != "beat" && a.status == 200 {
				oks++
				if left(a) > 0 {
					oks--
					r.Stat("acks at the moment a consumer left", 1)
				}
			}
		}
		if oks > len(ds) {
			w.bad("W06", "acked-twice", "%d acks of an item that was delivered %d times succeeded: %v", oks, len(ds), as)
		}
		if len(ds) > 1 {
			r.Stat("redelivered items", 1)
		}
		for i, d := range ds {
			next := int64(vh.Pending)
			nextAt := never
			if i+1 < len(ds) {
				next, nextAt = ds[i+1].wseq, ds[i+1].wat
			}
			low, high := d.wat, d.wat // bounds of the last sign of life
			end := d.wat + d.got.p.timeout
			acked, failed := false, false
			for _, a := range as {
				// Between taking the item and answering no virtual time passes, but
				// requests at that instant may act on it already.
				if a.end < d.wat || a.call > next {
					continue
				}
				// was this the only one asking?
				alone := true
				for _, b := range as {
					if b != a && b.kind != "beat" && b.call < a.ret && b.end >= d.wat {
						alone = false
					}
				}
				inTime := a.end < low+d.got.p.timeout
				gone := false
				for _, x := range dels {
					if x.end >= d.wat && removed(d, x.call, x.call+1) && x.call < a.ret {
						gone = true
					}
				}
				if a.status != 200 && alone && inTime && !d.lost && !gone && a.call > d.wseq && a.ret < next {
					w.bad("W06", "refused-holder", "the holder of an item is refused in time: %s\n%s", d, a)
				}
				if a.status == 200 && !acked && a.ret < next && a.at > high+d.got.p.timeout+3*time.Second {
					w.bad("W06", "late-accepted", "accepted although it expired: %s\n%s", d, a)
				}
				if a.kind != "beat" && !acked {
					acked = true
					end = min(end, a.at)
				}
				if a.kind == "beat" && a.status == 200 && !acked {
					high = a.end
					if a.end < nextAt && inTime { // else it may have been for the next consumer
						low = max(low, a.at)
					}
					end = a.at + d.got.p.timeout
				}
				if a.kind != "beat" && a.status == 200 {
					failed = failed || a.kind == "fail"
				}
			}
			if i+1 < len(ds) && !d.lost {
				if !failed && nextAt < low+d.got.p.timeout {
					w.bad("W01,W06", "two-holders", "an item was delivered again while its consumer held it (until at least %v): %s\n%s", low+d.got.p.timeout, d, ds[i+1])
				}
			}
			for _, x := range dels {
				if x.queue == d.queue && x.end >= d.wat && (x.kind == "delqueue" || vh.KVS(x.kv) == vh.KVS(d.kv)) {
					end = min(end, max(x.at, d.wat))
				}
			}
			if !d.lost {
				tenures = append(tenures, tenure{d.wat, max(d.wat, min(end, nextAt)), d})
			}
		}
		for _, a := range as {
			if a.kind != "pass" || a.status != 200 {
				continue
			}
			for _, d := range ds {
				if d.wat > a.end {
					w.bad("W01", "after-ack", "delivered after it was acknowledged: %s\n%s", a, d)
				}
			}
			for _, b := range as {
				if b != a && b.at > a.end && b.status == 200 {
					w.bad("W06", "ended-accepted", "accepted after the item was acknowledged: %s\n%s", a, b)
				}
			}
		}
	}

	// how items ended
	for _, it := range order {
		e := it.enq
		if e.status != 201 {
			continue
		}
		r.Stat("items", 1)
		n := 0
		for _, d := range it.dels {
			if !d.lost {
				n++
			}
		}
		if uint64(n) > 1+e.p.retries {
			if !e.p.upd {
				w.bad("W02", "too-often", "delivered %d times with %d retries: %s", n, e.p.retries, e)
			}
		}
		it.highTick, it.highTime, it.lowTick = vh.Pending, never, e.ret
		var last *ev
		if n := len(it.dels); n > 0 {
			last = it.dels[n-1]
			it.lowTick = max(e.ret, last.wseq)
		}
		if last != nil {
			for _, a := range acks[it.id] {
				if a.status == 200 && a.kind == "pass" && a.end >= last.wat {
					it.ended = "passed"
					it.lowTick, it.highTick = max(e.ret, a.call), a.ret
				}
			}
			if it.ended == "" && uint64(len(it.dels)) > e.p.retries {
				it.ended = "exhausted"
				beat := last.wat
				it.highTime = 0
				for _, a := range acks[it.id] {
					if a.status == 200 && a.end >= last.wat {
						if a.kind == "beat" {
							beat = a.end
						} else if a.call > last.wseq {
							it.highTick = a.ret
						}
					}
				}
				it.highTime = beat + e.p.timeout + 5*time.Second
			}
			for _, a := range acks[it.id] {
				if it.ended == "" && a.status == 200 && a.kind == "fail" && a.end >= last.wat+e.p.timeout && left(a) > 0 {
					it.ended = "exhausted with a consumer that left"
				}
			}
		}
		if it.ended == "" && removed(e, e.call, vh.Pending) {
			it.ended = "deleted"
			it.lowTick = e.ret
		}
		if it.ended == "" && e.p.upd {
			for _, o := range order {
				if o != it && where(o.enq) == where(e) && (o.enq.ret > e.call || len(o.dels) > 0 && o.dels[len(o.dels)-1].wseq > e.call) {
					it.ended = "replaced"
				}
			}
			it.lowTick = e.ret
		}
		if it.ended != "" {
			r.Stat("items "+it.ended, 1)
		} else if !stuck {
			w.bad("W01", "lost", "an accepted item was never acknowledged, exhausted, replaced or deleted, but it is gone: %s (deliveries %v)", e, it.dels)
		}
	}

	w.checkOrder(order, acks, removed)
	w.checkSizes(queues, order)
	w.checkLimits(tenures)
	w.checkDeletes(dels, deliveries, items, acks)
	if !m.faults && !m.limits {
		w.checkServed(order, removed)
	}
	if !stuck && !m.faults {
		got, err := w.c.counters()
		if err != nil {
			w.bad("W04", "counters", "%v", err)
		} else if t := counterText(got); t != "" {
			w.bad("W04,W07", "leftover-counters", "every queue is empty, but the Limiter still counts %s", t)
		}
	}
	r.Distinct(fmt.Sprint(w.n))
	r.Sample(w.history())
}

func (w *cworld) want(e *ev, oks ...int) {
	if e.gone && e.status == 0 {
		return
	}
	for _, s := range oks {
		if e.status == s {
			return
		}
	}
	if w.mode.deletes && (e.status == 404 || e.status == 409) {
		return
	}
	w.bad("W07", fmt.Sprint("status-", e.kind), "unexpected answer: %s", e)
}

// checkOrder looks at items that are not updateable; first deliveries follow
// the order of the enqueues, and failed items come back where they should.
func (w *cworld) checkOrder(order []*citem, acks map[string][]*ev, removed func(*ev, int64, int64) bool) {
	chans := map[string][]*citem{}
	for _, it := range order {
		if it.enq.status == 201 && !it.enq.p.upd && it.first != nil {
			chans[where(it.enq)] = append(chans[where(it.enq)], it)
		}
	}
	for _, its := range chans {
		for _, x := range its {
			for _, y := range its {
				if x.enq.ret < y.enq.call && x.first.wseq > y.first.wseq {
					w.bad("W02", "order", "delivered before an item that was enqueued earlier: %s\n%s\nearlier item %s\n%s", y.enq, y.first, x.enq, x.first)
				}
			}
			w.r.Stat("ordered items", 1)
			for i := 0; i+1 < len(x.dels); i++ {
				d, next := x.dels[i], x.dels[i+1]
				var a *ev
				for _, b := range acks[x.id] {
					if b.kind == "fail" && b.status == 200 && b.call > d.wseq && b.ret < next.wseq {
						a = b
					}
				}
				if a == nil || d.lost {
					continue
				}
				for _, y := range its {
					if y == x {
						continue
					}
					switch x.enq.p.pos {
					case "front":
						w.r.Stat("failed to the front", 1)
						if y.first.wat > a.end && y.first.wseq < next.wseq {
							w.bad("W02", "retry-front", "an item that failed to the front is overtaken by a new one: %s\n%s\n%s", a, y.first, next)
						}
					case "back":
						w.r.Stat("failed to the back", 1)
						if y.enq.ret < a.call && y.first.wseq > next.wseq {
							w.bad("W02", "retry-back", "an item that failed to the back overtakes one that was waiting: %s\n%s\n%s", a, next, y.first)
						}
					}
				}
			}
		}
	}
}

// checkSizes compares what was surely held with the maximum, and refusals with
// what may have been held.
func (w *cworld) checkSizes(queues []string, order []*citem) {
	if w.mode.deletes {
		return
	}
	for _, q := range queues {
		limit := w.max[q]
		var held []*citem
		for _, it := range order {
			if it.enq.queue == q && it.enq.status == 201 {
				held = append(held, it)
			}
		}
		if limit >= 0 {
			for _, it := range held {
				if it.enq.p.upd || it.lowTick <= it.enq.ret {
					continue
				}
				n := int64(0)
				var of []*ev
				for _, o := range held {
					if !o.enq.p.upd && o.enq.ret <= it.enq.ret && o.lowTick > it.enq.ret {
						n++
						of = append(of, o.enq)
					}
				}
				w.r.Max("items held", int(n))
				if n > limit {
					w.bad("W04", "too-many", "queue %s holds %d items, its maximum is %d: %v", q, n, limit, of)
				}
			}
		}
		if w.mode.faults {
			continue
		}
		for _, it := range order {
			e := it.enq
			if e.queue != q || e.status != 409 {
				continue
			}
			n := int64(0)
			for _, o := range held {
				if o.enq.call < e.ret && o.highTick > e.call && o.highTime > e.at {
					n++
				}
			}
			w.r.Stat("refused enqueues", 1)
			if limit < 0 || n < limit {
				w.bad("W04", "refused-with-room", "an enqueue is refused although queue %s (maximum %d) can hold at most %d items at that time: %s", q, limit, n, e)
			}
		}
	}
}

type tenure struct {
	from, to time.Duration
	d        *ev
}

// checkLimits counts what surely ran at the same time.
func (w *cworld) checkLimits(ts []tenure) {
	for _, l := range w.rules {
		for _, t := range ts {
			kv := runningKV(t.d.queue, t.d.kv)
			if !covers(l.kv, kv) || t.to <= t.from {
				continue
			}
			n := int64(0)
			var of []*ev
			for _, o := range ts {
				okv := runningKV(o.d.queue, o.d.kv)
				same := covers(l.kv, okv)
				for k := range l.kv {
					same = same && vh.Compare(kv[k], okv[k]) == 0
				}
				if same && o.from <= t.from && o.to > t.from {
					n++
					of = append(of, o.d)
				}
			}
			w.r.Max("items running under a limit", int(n))
			w.r.Stat("deliveries under a limit", 1)
			if n > l.limit {
				w.bad("W08", "over-limit", "%d items run at the same time at %v with a limit of %d on %s: %v", n, t.from, l.limit, vh.KVS(l.kv), of)
			}
		}
	}
}

func (w *cworld) checkDeletes(dels, deliveries []*ev, items map[string]*citem, acks map[string][]*ev) {
	for _, x := range dels {
		if x.status != 204 {
			continue
		}
		in := func(e *ev) bool {
			return e.queue == x.queue && (x.kind == "delqueue" || vh.KVS(e.kv) == vh.KVS(x.kv))
		}
		old := map[string]bool{}
		for _, d := range deliveries {
			if !in(d) {
				continue
			}
			if d.wseq < x.call {
				old[d.got.id] = true
			}
			it := items[d.got.p.data]
			if it != nil && it.enq.ret < x.call && d.wat > x.end {
				w.bad("W07", "deleted-delivered", "an item is delivered after it was deleted: %s\n%s\n%s", it.enq, x, d)
			}
		}
		for id := range old {
			for _, a := range acks[id] {
				if a.at > x.end && a.status == 200 {
					w.bad("W06,W07", "deleted-accepted", "accepted after the item was deleted: %s\n%s", x, a)
				}
			}
		}
		if x.kind != "delqueue" {
			continue
		}
		for _, e := range w.evs {
			if e.kind == "dequeue" && e.queue == x.queue && e.at < x.at && e.ret > x.call {
				w.r.Stat("consumers waiting for a deleted queue", 1)
				if e.wat > x.end+2*time.Second {
					w.bad("W07", "deleted-waiting", "a consumer still waits after its queue was deleted: %s\n%s", x, e)
				}
			}
		}
	}
}

// checkServed: no consumer waits next to an item it could have. Nothing here
// takes time but the re-poll of a limited channel.
func (w *cworld) checkServed(order []*citem, removed func(*ev, int64, int64) bool) {
	for _, e := range w.evs {
		if e.kind != "dequeue" {
			continue
		}
		for _, it := range order {
			if it.enq.queue != e.queue || it.enq.status != 201 || it.enq.p.upd || it.first == nil || !vh.QueryHolds(e.q, "", it.enq.kv) {
				continue
			}
			if removed(it.enq, min(e.call, it.enq.call), it.first.wseq) {
				continue
			}
			from, to := max(e.at, it.enq.end), min(e.wat, it.first.wat)
			w.r.Stat("items next to a consumer that may have them", 1)
			w.r.Max("longest wait of an item next to its consumer, ms", int(max(0, to-from)/time.Millisecond))
			if to-from > 50*time.Millisecond {
				w.bad("W05", "unserved", "a consumer waits for %v next to a waiting item: %s\n%s", to-from, e, it.enq)
			}
		}
	}
}
