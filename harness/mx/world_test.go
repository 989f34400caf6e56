// Package mx sends hostile requests to the three services.
package mx

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"regexp"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
)

// class says what a request is known to be.
type class int

const (
	valid   class = iota
	unknown       // may be refused or accepted
	invalid       // must be refused
)

// call is one request; @{name} stands for an id of the world it is sent to.
type call struct {
	kind                           string
	svc, method, path, body, ctype string
	class                          class
	label                          string
	kv                             vh.KV // of locks and items
	queue                          string
	handle                         string // what a success is called
	wait                           time.Duration
	waitKey                        string
	noBody                         bool
	headers                        map[string]string
}

func (q call) String() string {
	b := q.body
	if len(b) > 600 {
		b = b[:600] + "..."
	}
	s := fmt.Sprintf("%s %s%s %s", q.method, q.svc, q.path, b)
	if q.ctype != "application/json" {
		s += fmt.Sprintf(" content type %q", q.ctype)
	}
	if q.label != "" {
		s = q.label + ": " + s
	}
	return s
}

// world is one set of services.
type world struct {
	name string
	net  *svc.Net
	ids  map[string]string
	stop []func()
}

func newWorld(name string, n *svc.Net) *world {
	w := &world{name: name, net: n, ids: map[string]string{}}
	w.stop = append(w.stop, n.Locker("locker-"+name, 5*time.Second))
	w.stop = append(w.stop, n.Locker("locks-"+name, 5*time.Second))
	w.stop = append(w.stop, n.Limiter("limiter-"+name, "http://locks-"+name))
	stop, _ := n.Willow("willow-"+name, "http://limiter-"+name)
	w.stop = append(w.stop, stop)
	return w
}

func (w *world) close() {
	for i := len(w.stop) - 1; i >= 0; i-- {
		w.stop[i]()
	}
}

var holes = regexp.MustCompile(`@\{[a-z0-9.]+\}`)

func (w *world) fill(s string) string {
	return holes.ReplaceAllStringFunc(s, func(h string) string {
		if v, ok := w.ids[h[2:len(h)-1]]; ok {
			return v
		}
		return h
	})
}

// flight is a request on its way.
type flight struct {
	res    svc.Resp
	done   chan struct{}
	cancel func()
}

func (f *flight) finished() bool {
	select {
	case <-f.done:
		return true
	default:
		return false
	}
}

func (f *flight) text() string {
	if !f.finished() {
		return "no answer yet"
	}
	return f.res.Text()
}

func (w *world) send(q call) *flight {
	ctx, cancel := context.WithCancel(context.Background())
	f := &flight{done: make(chan struct{}), cancel: cancel}
	go func() {
		defer close(f.done)
		defer cancel()
		ctx, tr := svc.WithTrace(ctx)
		var rd io.Reader
		if !q.noBody {
			rd = bytes.NewReader([]byte(w.fill(q.body)))
		}
		req, err := http.NewRequestWithContext(ctx, q.method, "http://"+q.svc+"-"+w.name+w.fill(q.path), rd)
		if err != nil {
			panic(err)
		}
		if q.ctype != "" {
			req.Header.Set("Content-Type", q.ctype)
		}
		for k, v := range q.headers {
			req.Header.Set(k, v)
		}
		resp, err := w.net.RoundTrip(req)
		if err != nil {
			f.res = svc.Resp{Err: err, Trace: tr}
			return
		}
		b, _ := io.ReadAll(resp.Body)
		f.res = svc.Resp{Status: resp.StatusCode, Body: b, Trace: tr}
	}()
	return f
}

var uuids = regexp.MustCompile(`[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}|\b[0-9A-Za-z]{27}\b`)

// plain is the content of an answer without generated ids and order.
func plain(b []byte) string {
	b = uuids.ReplaceAll(b, []byte("*"))
	var v any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return string(b)
	}
	return canon(v)
}

func canon(v any) string {
	switch x := v.(type) {
	case []any:
		out := make([]string, len(x))
		for i := range x {
			out[i] = canon(x[i])
		}
		sort.Strings(out)
		return "[" + strings.Join(out, ",") + "]"
	case map[string]any:
		var out []string
		for k := range x {
			out = append(out, fmt.Sprintf("%q:%s", k, canon(x[k])))
		}
		sort.Strings(out)
		return "{" + strings.Join(out, ",") + "}"
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// field reads a string field.
func field(b []byte, path ...string) string {
	var v any
	if json.Unmarshal(b, &v) != nil {
		return ""
	}
	for _, p := range path {
		m, ok := v.(map[string]any)
		if !ok {
			return ""
		}
		v = m[p]
	}
	s, _ := v.(string)
	return s
}

// states are the requests that show everything the services hold.
func states(queues []string, rules []string) []call {
	get := func(s, p, b string) call {
		return call{kind: "state", svc: s, method: "GET", path: p, body: b, ctype: "application/json"}
	}
	out := []call{
		get("locker", "/v1/locks", "{}"), get("locks", "/v1/locks", "{}"), get("limiter", "/v1/limiter/rules/query", "{}"),
		get("limiter", "/v1/limiter/counters/query", "{}"), get("willow", "/v1/queues", ""),
	}
	for _, q := range queues {
		out = append(out, get("willow", "/v1/queues/"+q+"/channels", "{}"), get("willow", "/v1/queues/"+q, ""))
	}
	for _, h := range rules {
		out = append(out, get("limiter", "/v1/limiter/rules/@{"+h+"}/overrides/query", "{}"), get("limiter", "/v1/limiter/rules/@{"+h+"}", ""))
	}
	return out
}

// both sends a request to both worlds at the same instant.
func both(a, b *world, q call) (fa, fb *flight) {
	fa = a.send(q)
	synctest.Wait()
	fb = b.send(q)
	synctest.Wait()
	return
}
