package bin

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/verif/vh"
)

// TestTraceLogs looks for the identifiers of the clients' requests in what the
// real programs log.
func TestTraceLogs(t *testing.T) {
	r := vh.Start(t, "requests with their own identifiers, looked up in the logs of every service that takes part; distinct by case")
	defer r.Finish()
	ch, err := StartChain(r, "-log-level", "debug")
	if err != nil {
		r.Violation("start", err.Error(), "the services do not start: %v", err)
		return
	}
	defer ch.Stop()
	type call struct {
		id, what string
		at       []*Proc
	}
	var mu sync.Mutex
	var calls []call
	do := func(c, k int, method, url, body string, at ...*Proc) (int, []byte) {
		id := fmt.Sprintf("trace/%d %d-é%d", vh.Shard(), c, k)
		if k%3 > 0 {
			id = fmt.Sprintf("%d-%d-%d", vh.Shard(), c, k)
		}
		ctx, cancel := context.WithTimeout(context.Background(), hang)
		defer cancel()
		req, err := http.NewRequestWithContext(ctx, method, url, bytes.NewReader([]byte(body)))
		if err != nil {
			panic(err)
		}
		req.Header.Set("Content-Type", "application/json")
		req.Header.Set("X-Request-ID", id)
		resp, err := ch.Client.Do(req)
		if err != nil {
			r.Inconclusive("%s %s: %v", method, url, err)
			return 0, nil
		}
		defer resp.Body.Close()
		b, _ := io.ReadAll(resp.Body)
		mu.Lock()
		calls = append(calls, call{id, fmt.Sprintf("%s %s -> %d", method, url, resp.StatusCode), at})
		mu.Unlock()
		return resp.StatusCode, b
	}
	lock, limit, willow := ch.URL(ch.Locker), ch.URL(ch.Limiter), ch.URL(ch.Willow)
	var wg sync.WaitGroup
	do(99, 1, "POST", limit+"/v1/limiter/rules", `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"a":{"Type":1024}}},"Properties":{"Limit":50}}}`, ch.Limiter)
	for c := 0; c < 6; c++ {
		g := vh.Rand("tracelogs", vh.Shard()*64+c)
		wg.Go(func() {
			k := 0
			n := func() int { k++; return k }
			q := fmt.Sprintf("q%d", c)
			do(c, n(), "POST", willow+"/v1/queues", fmt.Sprintf(`{"Spec":{"DBDefinition":{"Name":%q},"Properties":{"MaxItems":20}}}`, q), ch.Willow, ch.Limiter)
			for i := 0; i < vh.N(4, 25) && !r.Bad(); i++ {
				switch g.IntN(3) {
				case 0:
					// alone with its keys: the lock is taken for this request
					do(c, n(), "PUT", limit+"/v1/limiter/counters", counter(100*c+i, 1, 1), ch.Limiter, ch.Locker)
				case 1:
					st, b := do(c, n(), "POST", lock+"/v1/locks", fmt.Sprintf(`{"Spec":{"DBDefinition":{"KeyValues":%s},"Properties":{"Timeout":5000000000}}}`, kvs("own", c)), ch.Locker)
					var a struct {
						State struct{ LockID, SessionID string }
					}
					json.Unmarshal(b, &a)
					if st == 200 {
						do(c, n(), "DELETE", lock+"/v1/locks/"+a.State.LockID, fmt.Sprintf(`{"SessionID":%q}`, a.State.SessionID), ch.Locker)
					}
				case 2:
					do(c, n(), "POST", willow+"/v1/queues/"+q+"/channels/items", enqueueBody(kvs("c", c), "x", 0, 20*time.Second), ch.Willow, ch.Limiter)
					st, b := do(c, n(), "GET", willow+"/v1/queues/"+q+"/channels/items", `{}`, ch.Willow)
					var it got
					json.Unmarshal(b, &it)
					if st == 200 {
						do(c, n(), "POST", willow+"/v1/queues/"+q+"/channels/items/ack", fmt.Sprintf(`{"ItemID":%q,"KeyValues":%s,"Passed":true}`, it.State.ID, it.Spec.DBDefinition.KeyValues), ch.Willow, ch.Limiter)
					}
				}
			}
			do(c, n(), "DELETE", willow+"/v1/queues/"+q, "", ch.Willow, ch.Limiter)
		})
	}
	wg.Wait()
	time.Sleep(100 * time.Millisecond)
	for _, p := range []*Proc{ch.Willow, ch.Limiter, ch.Locker} {
		p.Signal(2)
		p.Wait(hang)
	}
	for _, p := range []*Proc{ch.Willow, ch.Limiter, ch.Locker} {
		seen := map[string]bool{}
		if len(p.Output()) >= 1<<20 {
			r.Inconclusive("the log of the %s is cut", p.Name)
			return
		}
		for _, l := range strings.Split(p.Output(), "\n") {
			var e map[string]any
			if json.Unmarshal([]byte(l), &e) == nil {
				if id, ok := e["X-Request-ID"].(string); ok {
					seen[id] = true
				}
			}
		}
		for _, c := range calls {
			for _, at := range c.at {
				if at == p && !seen[c.id] {
					r.Violation("not-logged:"+p.Name, p.Tail(), "%s with the identifier %q: nothing of it is in the log of the %s", c.what, c.id, p.Name)
				}
			}
		}
	}
	r.Eval(len(calls))
	for _, c := range calls {
		r.Distinct(c.id)
	}
}
