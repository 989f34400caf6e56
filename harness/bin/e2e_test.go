package bin

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	willowclient "github.com/DanLavine/willow/pkg/clients/willow_client"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// TestEndToEnd distributes work through the real services and clients.
func TestEndToEnd(t *testing.T) {
	r := vh.Start(t, "items, critical sections and counted units that went through the real services")
	defer r.Finish()
	ch, err := StartChain(r)
	if err != nil {
		r.Violation("start", nil, "the services do not start: %v", err)
		return
	}
	defer ch.Stop()
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(2, 300) && !r.Bad(); n++ {
		g := vh.Rand("e2e", n)
		r.Context("case %d", n)
		e2eCase(r, g, n, ch)
		r.Eval(1)
	}
	for _, p := range []*Proc{ch.Locker, ch.Limiter, ch.Willow} {
		if ok, code := p.Exited(); ok {
			r.PV("E01,S01", "died:"+p.Name, p.Tail(), "%s ended with code %d", p.Name, code)
		}
		if i := strings.Index(p.Output(), "panic"); i >= 0 {
			o := p.Output()[i:]
			r.PV("E01,S01", "panic:"+vh.PanicSite(o), p.Tail(), "%s panicked: %.1500s", p.Name, o)
		}
	}
	// stop them: race detectors report at the end
	for _, p := range []*Proc{ch.Willow, ch.Limiter, ch.Locker} {
		p.Signal(2)
		if ok, code := p.Wait(60 * time.Second); !ok || code != 0 {
			r.PV("E01", "exit:"+p.Name, p.Tail(), "%s interrupted while idle: exited %v with code %d", p.Name, ok, code)
		}
	}
}

type e2eItem struct {
	mu        sync.Mutex
	data      string
	group     string
	retries   int
	seen      int // deliveries
	passed    int // ACKs of success that were accepted
	uncertain int // outcomes that are not known
	enqueued  bool
}

func e2eCase(r *vh.R, g *rand.Rand, n int, ch *Chain) {
	bg := context.Background()
	name := fmt.Sprintf("queue-%d", n)
	must := func(err error, what string) bool {
		if err != nil {
			r.PV("E01", "setup:"+what, nil, "case %d: %s: %v", n, what, err)
			return false
		}
		return true
	}
	wc, err := willowclient.NewWillowClient(&clients.Config{URL: ch.URL(ch.Willow)})
	if !must(err, "willow client") {
		return
	}
	lc, err := limiterclient.NewLimiterClient(&clients.Config{URL: ch.URL(ch.Limiter)})
	if !must(err, "limiter client") {
		return
	}
	max := int64(-1)
	if g.IntN(2) == 0 {
		max = 5 + g.Int64N(20)
	}
	if !must(wc.CreateQueue(bg, &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: &name}, Properties: &v1willow.QueueProperties{MaxItems: &max}}}), "create queue") {
		return
	}
	// at most limit items with the same group are processed at once
	key, limit := fmt.Sprintf("grp%d", n), int64(1+g.IntN(4))
	rule, err := lc.CreateRule(bg, &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues{key: datatypes.Any()}}, Properties: &v1limiter.RuleProperties{Limit: &limit}}})
	if !must(err, "create rule") {
		return
	}
	groups := 1 + g.IntN(3)
	running := make([]atomic.Int64, groups)
	spread := g.IntN(2) == 0 // several channels share a limit: those that are refused are tried again every 5s
	items := map[string]*e2eItem{}
	var order []*e2eItem
	for i := 0; i < 40+g.IntN(40); i++ {
		it := &e2eItem{data: fmt.Sprintf("%d/%d", n, i), group: fmt.Sprint(g.IntN(groups)), retries: g.IntN(3)}
		items[it.data] = it
		order = append(order, it)
	}
	all := v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}
	queries := []*qa.AssociatedActionQuery{
		{},
		{Selection: &qa.Selection{KeyValues: qa.SelectionKeyValues{key: {Value: datatypes.Any(), Comparison: v1common.Equals, TypeRestrictions: all}}}},
		{Selection: &qa.Selection{KeyValues: qa.SelectionKeyValues{key: {Value: datatypes.String("0"), Comparison: v1common.GreaterThanOrEqual, TypeRestrictions: all}}}},
	}
	var wg, consumers sync.WaitGroup
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	var moved atomic.Int64 // progress
	enq := func(wc *willowclient.WillowClient, g *rand.Rand, it *e2eItem) bool {
		to := 30 * time.Second
		if it.retries == 2 {
			to = time.Second // of items whose consumers may vanish
		}
		kv := datatypes.TypedKeyValues{key: datatypes.String(it.group)}
		if spread && g.IntN(4) == 0 {
			kv["more"] = datatypes.Int(g.IntN(3))
		}
		for try := 0; ; try++ {
			err := wc.EnqueueQueueItem(bg, name, &v1willow.Item{Spec: &v1willow.ItemSpec{DBDefinition: &v1willow.ItemDBDefinition{KeyValues: kv},
				Properties: &v1willow.ItemProperties{Data: []byte(it.data), Updateable: vh.Ptr(false), RetryAttempts: vh.Ptr(uint64(it.retries)), RetryPosition: vh.Ptr([]string{"front", "back"}[g.IntN(2)]), TimeoutDuration: &to}}})
			if err == nil {
				it.mu.Lock()
				it.enqueued = true
				it.mu.Unlock()
				moved.Add(1)
				return true
			}
			if max == -1 || !(strings.Contains(err.Error(), "imit") || strings.Contains(err.Error(), "max") || strings.Contains(err.Error(), "reached") || strings.Contains(err.Error(), "409")) {
				r.PV("E01", "enqueue", nil, "case %d: enqueue on a queue with maximum %d: %v", n, max, err)
				return false
			}
			r.Stat("times the queue was full", 1)
			time.Sleep(5 * time.Millisecond)
			if r.Bad() || ctx.Err() != nil {
				return false
			}
		}
	}
	for p := 0; p < 3; p++ {
		pg := vh.Rand("e2eproducer", n*16+p)
		wg.Add(1)
		go func() {
			defer wg.Done()
			wc, err := willowclient.NewWillowClient(&clients.Config{URL: ch.URL(ch.Willow)})
			if !must(err, "willow client") {
				return
			}
			for i := p; i < len(order); i += 3 {
				if !enq(wc, pg, order[i]) {
					return
				}
				if pg.IntN(3) == 0 {
					time.Sleep(time.Duration(pg.IntN(3000)) * time.Microsecond)
				}
			}
		}()
	}
	begin := func(data string) (*e2eItem, int) {
		it := items[data]
		if it == nil {
			r.PV("E01", "unknown-item", nil, "case %d: dequeued an item that was never enqueued: %q", n, data)
			return nil, 0
		}
		moved.Add(1)
		it.mu.Lock()
		defer it.mu.Unlock()
		it.seen++
		if it.seen > it.retries+1 {
			r.PV("E01", "delivered-too-often", nil, "case %d: item %q with %d retries is delivered %d times", n, data, it.retries, it.seen)
		}
		if it.passed > 0 {
			r.PV("E01", "delivered-again", nil, "case %d: item %q is delivered after it was acknowledged", n, data)
		}
		return it, int(it.group[0] - '0')
	}
	for c := 0; c < 4+g.IntN(4); c++ {
		cg := vh.Rand("e2econsumer", n*16+c)
		consumers.Add(1)
		go func() {
			defer consumers.Done()
			wc, err := willowclient.NewWillowClient(&clients.Config{URL: ch.URL(ch.Willow)})
			if !must(err, "willow client") {
				return
			}
			for ctx.Err() == nil && !r.Bad() {
				q := queries[cg.IntN(len(queries))]
				item, err := wc.DequeueQueueItem(ctx, name, q)
				if err != nil || item == nil {
					if ctx.Err() == nil {
						r.PV("E01", "dequeue", nil, "case %d: dequeue: %v", n, err)
					}
					return
				}
				it, grp := begin(string(item.Data()))
				if it == nil {
					return
				}
				// what the consumers hold is never more than what is being processed
				if now := running[grp].Add(1); now > limit && it.retries < 2 {
					r.PV("E01", "over-limit", nil, "case %d: %d items of group %d are processed at once, the rule allows %d", n, now, grp, limit)
				}
				if cg.IntN(3) == 0 {
					time.Sleep(time.Duration(cg.IntN(8000)) * time.Microsecond)
				}
				lost := false
				select {
				case <-item.Done():
					lost = true
				default:
				}
				running[grp].Add(-1)
				pass := cg.IntN(5) > 0
				err = item.ACK(bg, pass)
				it.mu.Lock()
				switch {
				case lost || err != nil && it.retries == 2:
					it.uncertain++
					r.Stat("items lost to a stall", 1)
				case err != nil:
					r.PV("E01", "ack", nil, "case %d: ack of item %q: %v", n, it.data, err)
				case pass:
					it.passed++
					if it.passed > 1 {
						r.PV("E01", "passed-twice", nil, "case %d: item %q was acknowledged twice", n, it.data)
					}
					r.Stat("items acknowledged", 1)
				default:
					r.Stat("items failed", 1)
				}
				it.mu.Unlock()
				moved.Add(1)
			}
		}()
	}
	// critical sections under locks
	locks := make([]atomic.Int64, 2)
	for w := 0; w < 4; w++ {
		lg := vh.Rand("e2elocks", n*16+w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := lockerclient.NewLockClient(&clients.Config{URL: ch.URL(ch.Locker)})
			if !must(err, "locker client") {
				return
			}
			for i := 0; i < 15 && !r.Bad(); i++ {
				k := lg.IntN(2)
				to := 30 * time.Second
				l, err := c.ObtainLock(bg, &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: datatypes.TypedKeyValues{"section": datatypes.String(fmt.Sprint(n, "/", k))}}, Properties: &v1locker.LockProperties{Timeout: &to}}}, nil)
				if err != nil || l == nil {
					r.PV("E01", "obtain", nil, "case %d: obtaining a lock: %v", n, err)
					return
				}
				in := locks[k].Add(1)
				select {
				case <-l.Done():
				default:
					if in != 1 {
						r.PV("E01", "two-holders", nil, "case %d: %d clients are in the critical section", n, in)
					}
				}
				time.Sleep(time.Duration(lg.IntN(2000)) * time.Microsecond)
				locks[k].Add(-1)
				if err := l.Release(bg); err != nil {
					r.PV("E01", "release", nil, "case %d: releasing a lock: %v", n, err)
				}
				moved.Add(1)
				r.Stat("critical sections", 1)
			}
		}()
	}
	// units under a rule
	ckey, climit := fmt.Sprintf("cnt%d", n), int64(2+g.IntN(3))
	if _, err := lc.CreateRule(bg, &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues{ckey: datatypes.Any()}}, Properties: &v1limiter.RuleProperties{Limit: &climit}}}); !must(err, "create rule") {
		return
	}
	var held atomic.Int64
	for w := 0; w < 4; w++ {
		lg := vh.Rand("e2eunits", n*16+w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := limiterclient.NewLimiterClient(&clients.Config{URL: ch.URL(ch.Limiter)})
			if !must(err, "limiter client") {
				return
			}
			upd := func(d int64) error {
				return c.UpdateCounter(bg, &v1limiter.Counter{Spec: &v1limiter.CounterSpec{DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: datatypes.TypedKeyValues{ckey: datatypes.Int(1), "w": datatypes.Int(lg.IntN(1) + w)}}, Properties: &v1limiter.CounteProperties{Counters: &d}}})
			}
			for i := 0; i < 25 && !r.Bad(); i++ {
				if err := upd(1); err != nil {
					if !strings.Contains(err.Error(), "imit") && !strings.Contains(err.Error(), "409") {
						r.PV("E01", "increment", nil, "case %d: increment: %v", n, err)
					}
					r.Stat("increments refused", 1)
					continue
				}
				if now := held.Add(1); now > climit {
					r.PV("E01", "units-over-limit", nil, "case %d: %d units are counted, the rule allows %d", n, now, climit)
				}
				time.Sleep(time.Duration(lg.IntN(1500)) * time.Microsecond)
				held.Add(-1)
				if err := upd(-1); err != nil {
					r.PV("E01", "decrement", nil, "case %d: decrement: %v", n, err)
				}
				moved.Add(1)
				r.Stat("units counted", 1)
			}
		}()
	}
	// consumers that vanish with what they got: only of items with short timeouts
	wg.Add(1)
	go func() {
		defer wg.Done()
		vg := vh.Rand("e2evanish", n)
		for i := 0; i < 3+vg.IntN(4); i++ {
			vctx, stop := context.WithTimeout(ctx, 3*time.Second)
			st, b, err := ch.Do(vctx, "GET", ch.URL(ch.Willow)+"/v1/queues/"+name+"/channels/items", "{}")
			stop()
			if err != nil {
				// an item may be on its way to nobody
				for _, it := range order {
					it.mu.Lock()
					it.uncertain++
					it.mu.Unlock()
				}
				continue
			}
			if st != 200 {
				r.PV("E01", "dequeue", nil, "case %d: dequeue: %d %s", n, st, b)
				return
			}
			var got v1willow.Item
			if err := json.Unmarshal(b, &got); err != nil || got.State == nil || got.Spec == nil {
				r.PV("E01", "dequeue", nil, "case %d: dequeued %s (%v)", n, b, err)
				return
			}
			it, _ := begin(string(got.Spec.Properties.Data))
			if it == nil {
				return
			}
			if it.retries < 2 { // these are given back
				st, b, err := ch.Do(bg, "POST", ch.URL(ch.Willow)+"/v1/queues/"+name+"/channels/items/ack", &v1willow.ACK{ItemID: got.State.ID, KeyValues: got.Spec.DBDefinition.KeyValues, Passed: false})
				if err != nil || st != 200 {
					r.PV("E01", "ack", nil, "case %d: ack: %d %s %v", n, st, b, err)
				}
			} else {
				r.Stat("items whose consumer vanished", 1)
			}
			moved.Add(1)
			time.Sleep(time.Duration(vg.IntN(20)) * time.Millisecond)
		}
	}()
	over := func() (left []string) {
		for _, it := range order {
			it.mu.Lock()
			if it.passed == 0 && it.seen+it.uncertain < it.retries+1 {
				left = append(left, fmt.Sprintf("%s: enqueued %v, retries %d, seen %d", it.data, it.enqueued, it.retries, it.seen))
			}
			it.mu.Unlock()
		}
		return
	}
	last, at := int64(-1), time.Now()
	for !r.Bad() {
		left := over()
		if len(left) == 0 {
			break
		}
		if m := moved.Load(); m != last {
			last, at = m, time.Now()
		}
		if time.Since(at) > 90*time.Second {
			r.PV("E01", "stuck", left, "case %d: nothing happened for 90s, and %d items are left: %v", n, len(left), left[0])
			break
		}
		r.Step()
		time.Sleep(2 * time.Millisecond)
	}
	wg.Wait()
	if r.Bad() {
		cancel()
		consumers.Wait()
		return
	}
	// what is left: nothing is waiting or processing, and nothing is counted
	end := time.Now().Add(60 * time.Second)
	for {
		st, b, err := ch.Do(bg, "GET", ch.URL(ch.Willow)+"/v1/queues/"+name+"/channels", "{}")
		cs, cerr := lc.QueryCounters(bg, &qa.AssociatedActionQuery{Selection: &qa.Selection{KeyValues: qa.SelectionKeyValues{"_willow_queue_name": {Value: datatypes.String(name), Comparison: v1common.Equals, TypeRestrictions: all}}}})
		us, uerr := lc.QueryCounters(bg, &qa.AssociatedActionQuery{Selection: &qa.Selection{KeyValues: qa.SelectionKeyValues{ckey: {Value: datatypes.Any(), Comparison: v1common.Equals, TypeRestrictions: all}}}})
		if err == nil && cerr == nil && uerr == nil && st == 200 && strings.TrimSpace(string(b)) == "[]" && len(cs) == 0 && len(us) == 0 {
			break
		}
		if time.Now().After(end) {
			r.PV("E01", "left-over", []any{string(b), cs, us}, "case %d: all items are done, but channels %d %s (%v), counters %s (%v), units %s (%v) remain", n, st, b, err, vh.JSON(cs), cerr, vh.JSON(us), uerr)
			break
		}
		r.Step()
		time.Sleep(10 * time.Millisecond)
	}
	cancel()
	consumers.Wait()
	seen := 0
	for _, it := range order {
		seen += it.seen
	}
	r.Eval(len(order))
	r.Distinct(fmt.Sprint(n, len(order), seen, max, limit))
	r.Stat("items", len(order))
	r.Stat("deliveries", seen)
	must(wc.DeleteQueue(bg, name), "delete queue")
	must(lc.DeleteRule(bg, rule.State.ID), "delete rule")
}
