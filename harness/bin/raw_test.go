package bin

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/verif/vh"
)

// rawPlan is a valid request with a mark that shows whether it was executed.
type rawPlan struct {
	svc, method, path, body string
	show                    string // where the mark shows up
	mark                    string
}

func rawPlans(g *rand.Rand, n int) rawPlan {
	mark := fmt.Sprintf("mark%dx%d", n, g.IntN(1<<30))
	kv := fmt.Sprintf(`{"%s":{"Type":13,"Data":"v"}}`, mark)
	switch g.IntN(6) {
	case 0:
		return rawPlan{"locker", "POST", "/v1/locks", `{"Spec":{"DBDefinition":{"KeyValues":` + kv + `},"Properties":{"Timeout":3600000000000}}}`, "/v1/locks", mark}
	case 1:
		return rawPlan{"limiter", "POST", "/v1/limiter/rules", `{"Spec":{"DBDefinition":{"GroupByKeyValues":` + kv + `},"Properties":{"Limit":5}}}`, "/v1/limiter/rules/query", mark}
	case 2:
		return rawPlan{"limiter", "PUT", "/v1/limiter/counters", `{"Spec":{"DBDefinition":{"KeyValues":` + kv + `},"Properties":{"Counters":1}}}`, "/v1/limiter/counters/query", mark}
	case 3:
		return rawPlan{"limiter", "PUT", "/v1/limiter/counters/set", `{"Spec":{"DBDefinition":{"KeyValues":` + kv + `},"Properties":{"Counters":2}}}`, "/v1/limiter/counters/query", mark}
	case 4:
		return rawPlan{"willow", "POST", "/v1/queues", `{"Spec":{"DBDefinition":{"Name":"` + mark + `"},"Properties":{"MaxItems":5}}}`, "/v1/queues", mark}
	}
	return rawPlan{"willow", "POST", "/v1/queues/base/channels/items", `{"Spec":{"DBDefinition":{"KeyValues":` + kv +
		`},"Properties":{"Data":"aGVsbG8=","Updateable":false,"RetryAttempts":1,"RetryPosition":"front","TimeoutDuration":1000000000}}}`, "/v1/queues/base/channels", mark}
}

// TestRawHTTP talks to the real services below HTTP: cut off, garbled and
// pipelined requests.
func TestRawHTTP(t *testing.T) {
	r := vh.Start(t, "(endpoint, what was done to the bytes, executed or not, answer) of requests sent as raw bytes to the real services")
	defer r.Finish()
	total := vh.N(2000, 60000)
	for from := 0; from < total && !r.Bad(); from += 1000 {
		rawRun(r, from, min(from+1000, total))
	}
}

// rawRun starts the services for some cases.
func rawRun(r *vh.R, from, to int) {
	ch, err := StartChain(r)
	if err != nil {
		r.Violation("start", nil, "the services do not start: %v", err)
		return
	}
	defer ch.Stop()
	if st, b, err := ch.Do(context.Background(), "POST", ch.URL(ch.Willow)+"/v1/queues", `{"Spec":{"DBDefinition":{"Name":"base"},"Properties":{"MaxItems":-1}}}`); err != nil || st != 201 {
		r.Violation("start", nil, "cannot create a queue: %d %s %v", st, b, err)
		return
	}
	for n := vh.Shard()<<20 + from; n < vh.Shard()<<20+to && !r.Bad(); n++ {
		g := vh.Rand("raw", n)
		r.Context("case %d", n)
		rawCase(r, g, n, ch)
	}
	for _, p := range []*Proc{ch.Locker, ch.Limiter, ch.Willow} {
		if ok, code := p.Exited(); ok {
			r.PV("V02", "died:"+p.Name, p.Tail(), "%s ended with code %d", p.Name, code)
		}
		if i := strings.Index(p.Output(), "panic"); i >= 0 {
			o := p.Output()[i:]
			r.PV("V02", "panic:"+vh.PanicSite(o), p.Tail(), "%s panicked: %.1500s", p.Name, o)
		}
	}
}

func rawCase(r *vh.R, g *rand.Rand, n int, ch *Chain) {
	p := rawPlans(g, n)
	proc := map[string]*Proc{"locker": ch.Locker, "limiter": ch.Limiter, "willow": ch.Willow}[p.svc]
	head := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\n", p.method, p.path)
	whole := head + fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(p.body), p.body)
	const (
		no = iota
		yes
		maybe
	)
	done, what := maybe, ""
	half := false // close only our direction of the connection
	var msg []byte
	chunked := func(b string) string {
		var s strings.Builder
		for len(b) > 0 {
			k := 1 + g.IntN(min(len(b), 40))
			fmt.Fprintf(&s, "%x\r\n%s\r\n", k, b[:k])
			b = b[k:]
		}
		return s.String()
	}
	switch g.IntN(12) {
	case 0, 1:
		what, done = "whole", yes
		msg = []byte(whole)
	case 2:
		what, done = "cut in the head", no
		msg = []byte(whole[:g.IntN(len(whole)-len(p.body))])
	case 3, 4:
		what, done = "cut in the body", no
		msg = []byte(whole[:len(whole)-1-g.IntN(len(p.body))])
		half = g.IntN(2) == 0
	case 5:
		what, done = "chunked", yes
		msg = []byte(head + "Transfer-Encoding: chunked\r\n\r\n" + chunked(p.body) + "0\r\n\r\n")
	case 6:
		what, done = "chunked and cut", no
		msg = []byte(head + "Transfer-Encoding: chunked\r\n\r\n" + chunked(p.body[:g.IntN(len(p.body))]))
		if g.IntN(2) == 0 {
			msg = append(msg, []string{"zz\r\n", "-1\r\n", "ffffffffffffffffff\r\n", "0\r\n\r\n", "\r\n"}[g.IntN(5)]...)
			what = "chunked and broken"
		}
	case 7:
		what = "garbled"
		msg = []byte(whole)
		for i := 0; i < 1+g.IntN(4); i++ {
			msg[g.IntN(len(msg))] = byte(g.IntN(256))
		}
	case 8:
		what, done = "bytes", no
		msg = make([]byte, 1+g.IntN(400))
		for i := range msg {
			msg[i] = byte(g.IntN(256))
		}
	case 9:
		what, done = "odd head", no
		b := fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(p.body), p.body)
		ct := "Content-Type: application/json\r\n"
		msg = []byte([]string{
			p.method + " " + p.path + " HTTP/1.1\r\n" + ct + b,                                             // no host
			p.method + " " + p.path + " HTTP/9.1\r\nHost: x\r\n" + ct + b,                                  //
			p.method + " " + p.path + "%zz HTTP/1.1\r\nHost: x\r\n" + ct + b,                               //
			p.method + " " + p.path + " HTTP/1.1\r\nHost: x\r\nContent-Length: 1\r\n" + ct + b,             // two lengths
			p.method + " " + p.path + " HTTP/1.1\r\nHost: x\r\n" + ct + "Content-Length: -5\r\n\r\n",       //
			p.method + " " + p.path + " HTTP/1.1\r\nHost: x\r\n" + ct + "Transfer-Encoding: rot13\r\n" + b, //
			p.method + " " + p.path + " HTTP/1.1\r\nHost: x\r\nBad Header: 1\r\n" + ct + b,                 //
			p.method + " " + p.path + " HTTP/1.1\r\nHost: x\r\nX: " + strings.Repeat("h", 1<<21) + "\r\n" + ct + b,
			p.method + " " + p.path + "\r\n\r\n",                                              // HTTP/0.9
			"OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n",                                           //
			"CONNECT x:1 HTTP/1.1\r\nHost: x\r\n\r\n",                                         //
			"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n",                                                //
			p.method + " " + p.path + " HTTP/1.1\r\nHost: x\r\n" + b,                          // no content type
			p.method + " " + strings.Repeat("/a", 3000) + " HTTP/1.1\r\nHost: x\r\n" + ct + b, //
			"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03",                                    // TLS
		}[g.IntN(15)])
	case 10:
		what, done = "after a refused one", yes
		bad := fmt.Sprintf("%sContent-Length: %d\r\n\r\n%s", head, 7, `{"a":1}`)
		msg = []byte(bad + whole)
	case 11:
		what, done = "gone at once", maybe
		msg = []byte(whole)
	}
	c, err := net.DialTimeout("tcp", "127.0.0.1:"+proc.Port, 20*time.Second)
	if err != nil {
		r.PV("V02", "refused:"+p.svc, proc.Tail(), "case %d: %s accepts no connection: %v", n, p.svc, err)
		return
	}
	c.SetDeadline(time.Now().Add(20 * time.Second))
	for rest := msg; len(rest) > 0; {
		k := len(rest)
		if g.IntN(3) == 0 {
			k = 1 + g.IntN(len(rest))
		}
		if _, err := c.Write(rest[:k]); err != nil {
			break
		}
		rest = rest[k:]
	}
	var statuses []int
	waitFor := 0
	switch {
	case what == "gone at once":
	case what == "after a refused one":
		waitFor = 2
	case done == yes:
		waitFor = 1
	case half:
		c.(*net.TCPConn).CloseWrite()
		waitFor = 1
	}
	br := bufio.NewReader(c)
	for i := 0; i < waitFor; i++ {
		resp, err := http.ReadResponse(br, &http.Request{Method: p.method})
		if err != nil {
			if done == yes {
				r.PV("V02", "aborted:"+p.svc, string(msg), "case %d (%s): no answer to %s %s: %v", n, what, p.method, p.path, err)
			}
			break
		}
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		statuses = append(statuses, resp.StatusCode)
		last := i == waitFor-1
		switch {
		case resp.StatusCode >= 500:
			r.PV("V02", fmt.Sprintf("status-%d:%s", resp.StatusCode, p.svc), string(msg), "case %d (%s): %d %s to %s %s", n, what, resp.StatusCode, b, p.method, p.path)
		case done == yes && last && resp.StatusCode/100 != 2:
			r.PV("V02", "refused:"+p.path, string(msg), "case %d (%s): %d %s to the valid %s %s", n, what, resp.StatusCode, b, p.method, p.path)
		case done == yes && !last && resp.StatusCode/100 != 4, done == no && resp.StatusCode/100 == 2:
			r.PV("V02", "accepted:"+p.path, string(msg), "case %d (%s): %d %s to an incomplete or invalid %s %s", n, what, resp.StatusCode, b, p.method, p.path)
		}
	}
	c.Close()
	// what was sent is there, or it is not
	st, b, err := ch.Do(context.Background(), "GET", ch.URL(proc)+p.show, "{}")
	if err != nil || st != 200 {
		r.PV("V02", "afterwards:"+p.svc, []any{string(msg), proc.Tail()}, "case %d (%s): afterwards GET %s is answered %d %s %v", n, what, p.show, st, b, err)
		return
	}
	there := bytes.Contains(b, []byte(`"`+p.mark+`"`))
	if done == yes && !there || done == no && there {
		r.PV("V02", "effect:"+p.path, string(msg), "case %d (%s): %s %s executed: %v; GET %s", n, what, p.method, p.path, there, p.show)
	}
	r.Eval(1)
	r.Distinct(fmt.Sprint(p.path, what, there, statuses, len(msg)))
	r.Stat(what, 1)
}
