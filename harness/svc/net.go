// Package svc runs the real services in this process, behind an in-memory
// network: each request is served by the real routes and handlers in its own
// goroutine, with the cancellation rules of net/http.
package svc

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/DanLavine/willow/internal/verif/vh"
)

// Trace is what really happened to a request on the server.
type Trace struct {
	Method, Path string
	Status       int
	Body         []byte
	Gone         bool   // the caller had left before the handler answered
	WriteErr     bool   // the answer could not be written
	Attempt      []byte // what could not be written
	Panic        string
	WriteAt      time.Time // when the handler began its answer
	WriteSeq     int64
	OnGone       func()        // called once the server can see that the caller left
	Done         chan struct{} // closed when the handler has returned
}

type traceKey struct{}

// WithTrace asks the network to record the request made with this context.
func WithTrace(ctx context.Context) (context.Context, *Trace) {
	t := &Trace{Done: make(chan struct{})}
	return context.WithValue(ctx, traceKey{}, t), t
}

// Fault is what the network does to one request.
type Fault struct {
	Refuse   bool           // never reaches the server
	Lose     bool           // served, but the answer is lost
	WriteErr bool           // the handler's writes fail
	Answer   *http.Response // answer this instead of asking the server
	Before   func()         // called before the request is delivered
	After    func()         // called before the answer is delivered
}

// Net delivers requests by host name.
type Net struct {
	R        *vh.R
	mu       sync.Mutex
	hosts    map[string]http.Handler
	Fault    func(req *http.Request, body []byte) *Fault // may be nil
	Panics   func(path string, p any, stack []byte)      // called when a handler panics; default: violation
	Requests atomic.Int64
	InFlight atomic.Int64
}

func NewNet(r *vh.R) *Net { return &Net{R: r, hosts: map[string]http.Handler{}} }

func (n *Net) Handle(host string, h http.Handler) {
	n.mu.Lock()
	n.hosts[host] = h
	n.mu.Unlock()
}

// Handler is what is served under the host name.
func (n *Net) Handler(host string) http.Handler {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.hosts[host]
}

type recorder struct {
	mu     sync.Mutex
	hdr    http.Header
	status int
	body   bytes.Buffer
	fail   bool
	gone   func() bool
	lost   bool
	failed []byte
	at     time.Time
	seq    int64
}

func (w *recorder) Header() http.Header { return w.hdr }
func (w *recorder) WriteHeader(c int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.status == 0 {
		if c < 100 || c > 999 {
			panic(fmt.Sprintf("invalid WriteHeader code %v", c)) // as net/http does
		}
		w.status = c
		w.at, w.seq = time.Now(), vh.Tick()
	}
}
func (w *recorder) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.gone() {
		w.lost = true
	}
	if w.fail {
		w.failed = append(w.failed, b...)
		n := 0
		if len(b)%3 != 0 { // a part got out
			n = len(b) / 2
		}
		return n, errors.New("write: broken pipe")
	}
	if w.status == 204 || w.status == 304 {
		return 0, http.ErrBodyNotAllowed
	}
	return w.body.Write(b)
}

var errReset = errors.New("connection reset by peer")

// RoundTrip implements http.RoundTripper.
func (n *Net) RoundTrip(req *http.Request) (*http.Response, error) {
	n.Requests.Add(1)
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	n.mu.Lock()
	h := n.hosts[req.URL.Host]
	n.mu.Unlock()
	tr, _ := req.Context().Value(traceKey{}).(*Trace)
	if tr == nil {
		tr = &Trace{Done: make(chan struct{})}
	}
	tr.Method, tr.Path = req.Method, req.URL.Path
	if err := req.Context().Err(); err != nil {
		close(tr.Done)
		return nil, err
	}
	var f *Fault
	if n.Fault != nil {
		f = n.Fault(req, body)
	}
	if f == nil {
		f = &Fault{}
	}
	if f.Before != nil {
		f.Before()
	}
	if h == nil || f.Refuse {
		close(tr.Done)
		return nil, errors.New("dial: connection refused")
	}
	if f.Answer != nil {
		close(tr.Done)
		f.Answer.Request = req
		return f.Answer, nil
	}

	sctx, cancel := context.WithCancel(context.Background())
	sreq := httptest.NewRequest(req.Method, req.URL.RequestURI(), bytes.NewReader(body)).WithContext(sctx)
	for k, v := range req.Header {
		sreq.Header[k] = append([]string(nil), v...)
	}
	rec := &recorder{hdr: http.Header{}, fail: f.WriteErr, gone: func() bool { return sctx.Err() != nil }}
	n.InFlight.Add(1)
	go func() {
		defer cancel()
		defer n.InFlight.Add(-1)
		defer close(tr.Done)
		defer func() {
			if p := recover(); p != nil {
				st := debug.Stack()
				tr.Panic = fmt.Sprint(p)
				if n.Panics != nil {
					n.Panics(req.Method+" "+req.URL.Path, p, st)
				} else {
					n.R.Panic("request "+req.Method+" "+req.URL.Path, string(body), p, st)
				}
			}
		}()
		h.ServeHTTP(rec, sreq)
		rec.WriteHeader(200)
		rec.mu.Lock()
		tr.Status, tr.Body, tr.Gone, tr.WriteErr = rec.status, append([]byte(nil), rec.body.Bytes()...), rec.lost || sctx.Err() != nil, rec.failed != nil
		tr.Attempt = rec.failed
		tr.WriteAt, tr.WriteSeq = rec.at, rec.seq
		rec.mu.Unlock()
	}()
	select {
	case <-tr.Done:
	case <-req.Context().Done():
		cancel()
		if tr.OnGone != nil {
			tr.OnGone()
		}
		return nil, req.Context().Err()
	}
	if f.After != nil {
		f.After()
	}
	if tr.Panic != "" || f.Lose || tr.WriteErr {
		return nil, errReset
	}
	resp := &http.Response{
		StatusCode: tr.Status, Status: fmt.Sprintf("%d %s", tr.Status, http.StatusText(tr.Status)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: rec.hdr.Clone(),
		Body: io.NopCloser(bytes.NewReader(tr.Body)), ContentLength: int64(len(tr.Body)), Request: req,
	}
	return resp, nil
}

// Resp is the answer to Do.
type Resp struct {
	Status int
	Body   []byte
	Err    error
	Trace  *Trace
}

func (r Resp) OK() bool { return r.Err == nil && r.Status >= 200 && r.Status < 300 }

// Do sends one request and reads the answer.
func (n *Net) Do(ctx context.Context, method, url string, body []byte) Resp {
	tr, _ := ctx.Value(traceKey{}).(*Trace)
	if tr == nil {
		ctx, tr = WithTrace(ctx)
	}
	req, err := http.NewRequestWithContext(ctx, method, url, bytes.NewReader(body))
	if err != nil {
		panic(err)
	}
	req.Header.Set("Content-Type", "application/json")
	resp, err := n.RoundTrip(req)
	if err != nil {
		return Resp{Err: err, Trace: tr}
	}
	b, _ := io.ReadAll(resp.Body)
	return Resp{Status: resp.StatusCode, Body: b, Trace: tr}
}

// Text shortens a body for messages.
func (r Resp) Text() string {
	if r.Err != nil {
		return r.Err.Error()
	}
	return fmt.Sprintf("%d %s", r.Status, strings.TrimSpace(string(r.Body)))
}

// WriteFaults makes the answers of requests whose context carries the key
// impossible to write.
func WriteFaults(key any) func(*http.Request, []byte) *Fault {
	return func(req *http.Request, _ []byte) *Fault {
		if req.Context().Value(key) != nil {
			return &Fault{WriteErr: true}
		}
		return nil
	}
}
