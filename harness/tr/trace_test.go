// Package tr watches which request identifier the services pass on.
package tr

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"regexp"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/internal/verif/vsched"
)

const header = "X-Request-ID"

// TestTrace sends concurrent requests with their own identifiers, each about
// keys of its own, and ties every request between the services to the one it
// is made for by those keys.
func TestTrace(t *testing.T) {
	r := vh.Start(t, "requests between the services, tied to the client's request they are made for by the keys in them; non-trivial when several clients were active; distinct by case")
	defer r.Finish()
	vsched.Set(1, 8, 0)
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(60, 8000) && !r.Bad(); n++ {
		r.Context("case %d", n)
		g := vh.Rand("trace", n)
		vsched.Pick(g.Uint32() | 1)
		synctest.Test(t, func(t *testing.T) { traceCase(r, g, n) })
		r.Eval(1)
		r.Distinct(fmt.Sprint(n))
	}
}

type flight struct {
	host, id string
	made     string // identifier the service made up, if the request had none
	tags     map[string]bool
	what     string
}

type watch struct {
	r     *vh.R
	n     int
	net   *svc.Net
	mu    sync.Mutex
	in    map[*flight]bool
	locks map[string]map[string]bool // lock id -> tags
	over  map[string]map[string]bool // override id -> tags
	log   []string
}

var tagRE = regexp.MustCompile(`tag-\d+-`)
var lockRE = regexp.MustCompile(`^/v1/locks/([^/]+)$`)
var overRE = regexp.MustCompile(`/overrides/([^/]+)$`)
var upstream = map[string]string{"locker": "limiter", "limiter": "willow"}

func tags(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		for _, t := range tagRE.FindAllString(x, -1) {
			m[t] = true
		}
	}
	return m
}

type own struct{} // marks the requests of the clients

func (w *watch) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
		req.Body = io.NopCloser(bytes.NewReader(body))
	}
	f := &flight{host: req.URL.Host, id: req.Header.Get(header), tags: tags(string(body), req.URL.Path), what: req.Method + " " + req.URL.Path}
	isOwn := req.Context().Value(own{}) != nil
	w.mu.Lock()
	if m := lockRE.FindStringSubmatch(req.URL.Path); m != nil && f.host == "locker" {
		for t := range w.locks[m[1]] {
			f.tags[t] = true
		}
	}
	if m := overRE.FindStringSubmatch(req.URL.Path); m != nil {
		for t := range w.over[m[1]] {
			f.tags[t] = true
		}
	}
	line := fmt.Sprintf("%v %s %s id=%q own=%v tags=%d %.160s", time.Now().Format("05.000"), f.host, f.what, f.id, isOwn, len(f.tags), body)
	if len(w.log) < 400 {
		w.log = append(w.log, line)
	}
	if !isOwn && (len(f.tags) == 1 || f.host == "locker" && len(f.tags) == 0) {
		// who could have sent it: what its service works on for the same keys
		var candidates []string
		ok := false
		for o := range w.in {
			if o.host != upstream[f.host] {
				continue
			}
			same := len(f.tags) == 0 // locks for keys that all share
			for t := range f.tags {
				same = same || o.tags[t]
			}
			if same {
				candidates = append(candidates, o.id+" "+o.what)
				if o.id == "" && f.id != "" && (o.made == f.id || o.made == "" || len(f.tags) == 0) {
					if len(f.tags) > 0 {
						o.made = f.id
					}
					ok = true
				}
				ok = ok || o.id == f.id && f.id != ""
			}
		}
		switch {
		case len(candidates) == 0:
			w.r.Stat("requests in the background", 1)
		case !ok:
			w.r.Violation("other-id:"+f.host+" "+req.Method, append([]string(nil), w.log...), "case %d: %s %s is sent with the identifier %q, the requests it can be made for are %q", w.n, f.host, f.what, f.id, candidates)
		default:
			w.r.Stat("requests tied to their origin", 1)
		}
	} else if !isOwn {
		w.r.Stat("requests without a single origin", 1)
	}
	w.in[f] = true
	w.mu.Unlock()
	resp, err := w.net.RoundTrip(req)
	w.mu.Lock()
	delete(w.in, f)
	w.mu.Unlock()
	if err != nil {
		return resp, err
	}
	b, _ := io.ReadAll(resp.Body)
	resp.Body = io.NopCloser(bytes.NewReader(b))
	var a struct{ State struct{ LockID, ID string } }
	if json.Unmarshal(b, &a) == nil {
		w.mu.Lock()
		if a.State.LockID != "" {
			w.locks[a.State.LockID] = f.tags
		}
		if a.State.ID != "" && req.Method == "POST" && f.host == "limiter" {
			w.over[a.State.ID] = f.tags
		}
		w.mu.Unlock()
	}
	return resp, nil
}

// do is one request of a client.
func (w *watch) do(id, method, url, body string) (int, []byte) {
	ctx, cancel := context.WithTimeout(context.WithValue(context.Background(), own{}, true), time.Minute)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, method, url, bytes.NewReader([]byte(body)))
	if err != nil {
		panic(err)
	}
	req.Header.Set("Content-Type", "application/json")
	if id != "" {
		req.Header.Set(header, id)
	}
	resp, err := w.RoundTrip(req)
	if err != nil {
		return 0, []byte(err.Error())
	}
	b, _ := io.ReadAll(resp.Body)
	return resp.StatusCode, b
}

func traceCase(r *vh.R, g *rand.Rand, n int) {
	net := svc.NewNet(r)
	w := &watch{r: r, n: n, net: net, in: map[*flight]bool{}, locks: map[string]map[string]bool{}, over: map[string]map[string]bool{}}
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	http.DefaultTransport = w
	stopLocker := net.Locker("locker", 5*time.Second)
	stopLimiter := net.Limiter("limiter", "http://locker")
	stopWillow, _ := net.Willow("willow", "http://limiter")
	w.do("setup", "POST", "http://limiter/v1/limiter/rules", `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"g":{"Type":1024}}},"Properties":{"Limit":5}}}`)
	var wg sync.WaitGroup
	for c := 0; c < 2+g.IntN(5); c++ {
		cg := vh.Rand("traceclient", n*16+c)
		tag := fmt.Sprintf("tag-%d-", c)
		wg.Go(func() {
			k := 0
			id := func() string { k++; return fmt.Sprintf("id-%d-%d", c, k) }
			if cg.IntN(6) == 0 {
				id = func() string { return "" } // the services make one up
			}
			str := func(s string) string { return fmt.Sprintf(`{"Type":13,"Data":%q}`, s) }
			expect := func(what string, st int, b []byte, want int) {
				if st != want {
					r.Inconclusive("case %d: %s is answered %d %s", n, what, st, b)
				}
			}
			for round := 0; round < 1+cg.IntN(3); round++ {
				if cg.IntN(2) == 0 {
					for i := 0; i < 1+cg.IntN(4); i++ {
						st, b := w.do(id(), "PUT", "http://limiter/v1/limiter/counters", fmt.Sprintf(`{"Spec":{"DBDefinition":{"KeyValues":{"g":%s}},"Properties":{"Counters":1}}}`, str(tag)))
						expect("increment", st, b, 200)
						st, b = w.do(id(), "PUT", "http://limiter/v1/limiter/counters", fmt.Sprintf(`{"Spec":{"DBDefinition":{"KeyValues":{"g":%s}},"Properties":{"Counters":-1}}}`, str(tag)))
						expect("decrement", st, b, 200)
					}
					continue
				}
				q := "http://willow/v1/queues/" + tag
				st, b := w.do(id(), "POST", "http://willow/v1/queues", fmt.Sprintf(`{"Spec":{"DBDefinition":{"Name":%q},"Properties":{"MaxItems":%d}}}`, tag, 5+cg.IntN(5)))
				expect("create", st, b, 201)
				if cg.IntN(2) == 0 {
					st, b = w.do(id(), "PUT", q, fmt.Sprintf(`{"MaxItems":%d}`, 5+cg.IntN(5)))
					expect("update", st, b, 200)
				}
				for i := 0; i < 1+cg.IntN(3); i++ {
					st, b = w.do(id(), "POST", q+"/channels/items", fmt.Sprintf(`{"Spec":{"DBDefinition":{"KeyValues":{"u":%s}},"Properties":{"Data":"eA==","Updateable":false,"RetryAttempts":0,"RetryPosition":"back","TimeoutDuration":%d}}}`, str(tag), 2*time.Second))
					expect("enqueue", st, b, 201)
					st, b = w.do(id(), "GET", q+"/channels/items", `{}`)
					expect("dequeue", st, b, 200)
					var it struct {
						Spec struct {
							DBDefinition struct{ KeyValues json.RawMessage }
						}
						State struct{ ID string }
					}
					json.Unmarshal(b, &it)
					if cg.IntN(4) > 0 {
						st, b = w.do(id(), "POST", q+"/channels/items/ack", fmt.Sprintf(`{"ItemID":%q,"KeyValues":%s,"Passed":%v}`, it.State.ID, it.Spec.DBDefinition.KeyValues, cg.IntN(2) == 0))
						expect("ack", st, b, 200)
					} else {
						time.Sleep(3 * time.Second) // times out
					}
				}
				st, b = w.do(id(), "DELETE", q, "")
				expect("delete", st, b, 204)
			}
		})
	}
	wg.Wait()
	stopWillow()
	stopLimiter()
	stopLocker()
}
