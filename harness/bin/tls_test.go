package bin

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/verif/vh"
	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	willowclient "github.com/DanLavine/willow/pkg/clients/willow_client"
)

var kit *Kit

func TestMain(m *testing.M) {
	kit = NewKit()
	// what this process and its children trust as a system
	os.Setenv("SSL_CERT_FILE", kit.System.File)
	os.Setenv("SSL_CERT_DIR", kit.Missing)
	code := m.Run()
	kit.Close()
	os.Exit(code)
}

// fake is a server that only records who talks to it.
type fake struct {
	srv  *http.Server
	URL  string
	mu   sync.Mutex
	reqs []string
	peer [][]byte // the client certificate of each request
	ends chan struct{}
}

func (f *fake) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	var der []byte
	if r.TLS != nil && len(r.TLS.PeerCertificates) > 0 {
		der = r.TLS.PeerCertificates[0].Raw
	}
	f.mu.Lock()
	f.reqs = append(f.reqs, r.Method+" "+r.URL.Path)
	f.peer = append(f.peer, der)
	f.mu.Unlock()
	switch {
	case r.URL.Path == "/health":
	case r.Method == "POST" && strings.HasSuffix(r.URL.Path, "/rules"):
		w.WriteHeader(201)
		fmt.Fprint(w, `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"_willow_queue_name":{"Type":1024},"_willow_enqueued":{"Type":1024}}},"Properties":{"Limit":0}},"State":{"ID":"x","Overrides":[]}}`)
	default:
		w.WriteHeader(500)
		fmt.Fprint(w, `{"Message":"no"}`)
	}
}

func (f *fake) seen() ([]string, [][]byte) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]string(nil), f.reqs...), append([][]byte(nil), f.peer...)
}

// newFake serves with the certificate, or plain HTTP without one.
func newFake(p *Pair) *fake {
	f := &fake{ends: make(chan struct{})}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	f.srv = &http.Server{Handler: f, ErrorLog: nil}
	_, port, _ := net.SplitHostPort(l.Addr().String())
	f.srv.ErrorLog = quietLog
	if p == nil {
		f.URL = "http://127.0.0.1:" + port
		go func() { f.srv.Serve(l); close(f.ends) }()
	} else {
		f.URL = "https://127.0.0.1:" + port
		f.srv.TLSConfig = &tls.Config{Certificates: []tls.Certificate{p.TLS()}, ClientAuth: tls.RequestClientCert, NextProtos: []string{"h2", "http/1.1"}}
		go func() { f.srv.ServeTLS(l, "", ""); close(f.ends) }()
	}
	return f
}

func (f *fake) Close() { f.srv.Close(); <-f.ends }

type serverKind struct {
	name  string
	pair  *Pair // nil: plain
	valid string
}

// clientCfg is what a client can be configured with.
type clientCfg struct{ ca, crt, key string }

func (k *Kit) pick(g *rand.Rand) (c clientCfg) {
	pairs := []Pair{k.Client, k.Client, k.Multi, k.Good, k.ClientCA2, k.ClientOld}
	p := pairs[g.IntN(len(pairs))]
	c.crt, c.key = p.CRT, p.Key
	c.ca = []string{"", "", k.CA1.File, k.CA1.File, k.CA1.File, k.CA2.File, k.Garbage, k.Missing}[g.IntN(8)]
	switch g.IntN(12) {
	case 0:
		c.crt = ""
	case 1:
		c.key = ""
	case 2:
		c.crt, c.key = "", ""
	case 3:
		c.crt = k.Garbage
	case 4:
		c.key = k.Missing
	case 5:
		c.key = k.ByCA2.Key
	case 6:
		c = clientCfg{}
	}
	return
}

// accepted says whether the configuration can be honoured.
func (k *Kit) accepted(c clientCfg) bool {
	if c == (clientCfg{}) {
		return true
	}
	if _, err := tls.LoadX509KeyPair(c.crt, c.key); err != nil {
		return false
	}
	switch c.ca {
	case "":
		return true
	case k.CA1.File:
		return c.crt == k.Client.CRT || c.crt == k.Multi.CRT || c.crt == k.Good.CRT
	case k.CA2.File:
		return c.crt == k.ClientCA2.CRT
	}
	return false
}

// trusts says whether the client may talk to a server with the certificate.
func (k *Kit) trusts(c clientCfg, p *Pair) bool {
	if p == nil { // plain: only when nothing asks for more
		return c == clientCfg{}
	}
	switch c.ca {
	case "":
		return p.CRT == k.BySystem.CRT
	case k.CA1.File:
		return p.CRT == k.Good.CRT
	case k.CA2.File:
		return p.CRT == k.ByCA2.CRT
	}
	return false
}

func (k *Kit) name(f string) string {
	if f == "" {
		return "-"
	}
	return strings.TrimSuffix(f[strings.LastIndex(f, "/")+1:], ".crt")
}

func (k *Kit) cfgName(c clientCfg) string {
	return "ca=" + k.name(c.ca) + " crt=" + k.name(c.crt) + " key=" + k.name(c.key)
}

func health(cfg *clients.Config, which int) (err error, made bool) {
	var h interface{ Healthy() error }
	switch which {
	case 0:
		h, err = lockerclient.NewLockClient(cfg)
	case 1:
		h, err = limiterclient.NewLimiterClient(cfg)
	default:
		h, err = willowclient.NewWillowClient(cfg)
	}
	if err != nil {
		return err, false
	}
	return h.Healthy(), true
}

// TestClientTLS tries client configurations against servers.
func TestClientTLS(t *testing.T) {
	r := vh.Start(t, "client configurations against servers, distinct by configuration, server and client")
	defer r.Finish()
	kinds := []serverKind{{"good", &kit.Good, ""}, {"expired", &kit.Expired, ""}, {"not yet valid", &kit.NotYet, ""}, {"for another host", &kit.OtherHost, ""}, {"of another authority", &kit.ByCA2, ""},
		{"of the system's authority", &kit.BySystem, ""}, {"a client's", &kit.Client, ""}, {"plain", nil, ""}}
	g := vh.Rand("clienttls", vh.Shard())
	for i := 0; i < vh.N(600, 20000) && !r.Bad(); i++ {
		k := kinds[g.IntN(len(kinds))]
		c := kit.pick(g)
		if g.IntN(3) == 0 { // make it match
			c = clientCfg{kit.CA1.File, kit.Client.CRT, kit.Client.Key}
		}
		which := g.IntN(3)
		r.Context("%s against a server %s", kit.cfgName(c), k.name)
		f := newFake(k.pair)
		url := f.URL
		wrongScheme := g.IntN(10) == 0
		if wrongScheme {
			if k.pair == nil {
				url = "https" + strings.TrimPrefix(url, "http")
			} else {
				url = "http" + strings.TrimPrefix(url, "https")
			}
		}
		err, made := health(&clients.Config{URL: url, CAFile: c.ca, ClientCRTFile: c.crt, ClientKeyFile: c.key}, which)
		f.Close()
		reqs, peers := f.seen()
		what := fmt.Sprintf("client %d with %s against a server %s at %s", which, kit.cfgName(c), k.name, strings.SplitN(url, ":", 2)[0])
		r.Distinct(what)
		r.Eval(1)
		if made != kit.accepted(c) {
			r.PV("S03", fmt.Sprintf("client-config:%v", made), what, "%s: accepted=%v error=%v", what, made, err)
			continue
		}
		if !made {
			r.Stat("configurations rejected", 1)
			continue
		}
		want := kit.trusts(c, k.pair) && !wrongScheme
		if (err == nil) != want {
			r.PV("S03", fmt.Sprintf("client-trust:%v", want), what, "%s: error=%v, should work: %v", what, err, want)
		}
		if !want && len(reqs) > 0 {
			r.PV("S03", "client-request", what, "%s: the server got %v", what, reqs)
		}
		if want && len(reqs) != 1 {
			r.PV("S03", "client-requests", what, "%s: the server got %v", what, reqs)
		}
		if want {
			r.Stat("connections that work", 1)
			if c.crt != "" && len(peers) > 0 {
				der, _ := os.ReadFile(c.crt)
				if len(peers[0]) == 0 || !bytes.Contains(der, pemOf(peers[0])) {
					r.PV("S03", "client-certificate", what, "%s: the configured client certificate is not presented", what)
				}
			}
		} else {
			r.Stat("connections refused", 1)
		}
	}
}

// setting is a configuration value given as a flag, in the environment, or both.
func setting(g *rand.Rand, args, env *[]string, flag, envName, val string) string {
	if val == "" {
		return ""
	}
	switch g.IntN(5) {
	case 0, 1:
		*env = append(*env, envName+"="+val)
		return "env"
	case 2:
		// the environment wins
		*args = append(*args, "-"+flag, kit.Garbage)
		*env = append(*env, envName+"="+val)
		return "both"
	default:
		*args = append(*args, "-"+flag, val)
		return "flag"
	}
}

var documented = map[string]map[string]string{
	"locker":  {"server-ca": "LOCKER_SERVER_CA", "server-key": "LOCKER_SERVER_KEY", "server-crt": "LOCKER_SERVER_CRT", "port": "LOCKER_PORT", "insecure-http": "LOCKER_INSECURE_HTTP", "log-level": "LOCKER_LOG_LEVEL"},
	"limiter": {"server-ca": "LIMITER_CA", "server-key": "LIMITER_SERVER_KEY", "server-crt": "LIMITER_SERVER_CRT", "port": "LIMITER_PORT", "insecure-http": "LIMITER_INSECURE_HTTP", "log-level": "LIMITER_LOG_LEVEL", "dep-url": "LIMITER_LOCKER_URL", "dep-ca": "LIMITER_LOCKER_CLIENT_CA", "dep-key": "LIMITER_LOCKER_CLIENT_KEY", "dep-crt": "LIMITER_LOCKER_CLIENT_CRT"},
	"willow":  {"server-ca": "WILLOW_CA", "server-key": "WILLOW_SERVER_KEY", "server-crt": "WILLOW_SERVER_CRT", "port": "WILLOW_PORT", "insecure-http": "WILLOW_INSECURE_HTTP", "log-level": "LOG_LEVEL", "dep-url": "WILLOW_LIMITER_URL", "dep-ca": "WILLOW_LIMITER_CLIENT_CA", "dep-key": "WILLOW_LIMITER_CLIENT_KEY", "dep-crt": "WILLOW_LIMITER_CLIENT_CRT"},
}

func depFlag(name, s string) string {
	return map[string]string{"limiter": "locker-", "willow": "limiter-"}[name] + map[string]string{"dep-url": "url", "dep-ca": "client-ca", "dep-key": "client-key", "dep-crt": "client-crt"}[s]
}

func sysEnv() []string {
	return []string{"SSL_CERT_FILE=" + kit.System.File, "SSL_CERT_DIR=" + kit.Missing}
}

// plain sends a request without TLS and returns the status.
func plain(port, path string) int {
	c, err := net.DialTimeout("tcp", "127.0.0.1:"+port, 5*time.Second)
	if err != nil {
		return -1
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", path)
	resp, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return 0
	}
	resp.Body.Close()
	return resp.StatusCode
}

// h2c asks for HTTP/2 without TLS.
func h2c(port string) bool {
	c, err := net.DialTimeout("tcp", "127.0.0.1:"+port, 5*time.Second)
	if err != nil {
		return false
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	c.Write([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00"))
	b := make([]byte, 9)
	n, _ := c.Read(b)
	return n == 9 && b[3] == 4 // a SETTINGS frame
}

// TestServerTLS starts the programs with server configurations of all kinds.
func TestServerTLS(t *testing.T) {
	r := vh.Start(t, "server configurations of the three programs, distinct by program and configuration")
	defer r.Finish()
	dep := newFake(nil)
	defer dep.Close()
	g := vh.Rand("servertls", vh.Shard())
	for i := 0; i < vh.N(45, 1500) && !r.Bad(); i++ {
		serverCase(r, g, dep)
	}
}

func serverCase(r *vh.R, g *rand.Rand, dep *fake) {
	name := []string{"locker", "limiter", "willow"}[g.IntN(3)]
	var args []string
	env := sysEnv()
	doc := documented[name]
	pairs := []Pair{kit.Good, kit.Good, kit.Good, kit.Expired, kit.OtherHost, kit.ByCA2}
	pair := pairs[g.IntN(len(pairs))]
	crt, key, ca := pair.CRT, pair.Key, []string{"", "", kit.CA1.File, kit.Garbage, kit.Missing}[g.IntN(5)]
	insecure := false
	switch g.IntN(10) {
	case 0:
		crt = ""
	case 1:
		key = ""
	case 2:
		crt = kit.Garbage
	case 3:
		key = kit.Missing
	case 4:
		key = kit.Client.Key
	case 5:
		insecure = true
	case 6, 7:
		insecure, crt, key = true, "", ""
		if g.IntN(2) == 0 {
			ca = ""
		}
	}
	level := []string{"", "", "info", "debug", "loud"}[g.IntN(5)]
	how := []string{"server-key by " + setting(g, &args, &env, "server-key", doc["server-key"], key), "server-crt by " + setting(g, &args, &env, "server-crt", doc["server-crt"], crt), "server-ca by " + setting(g, &args, &env, "server-ca", doc["server-ca"], ca)}
	if insecure {
		if g.IntN(2) == 0 {
			args = append(args, "-insecure-http")
			how = append(how, "insecure by flag")
		} else {
			env = append(env, doc["insecure-http"]+"=true")
			how = append(how, "insecure by env")
		}
	}
	if level != "" {
		if g.IntN(2) == 0 {
			args = append(args, "-log-level", level)
		} else {
			env = append(env, doc["log-level"]+"="+level)
		}
	}
	port := FreePort()
	if g.IntN(2) == 0 {
		args = append(args, "-port", port)
	} else {
		env = append(env, doc["port"]+"="+port)
	}
	if name != "locker" {
		if g.IntN(2) == 0 {
			args = append(args, "-"+depFlag(name, "dep-url"), dep.URL)
		} else {
			env = append(env, doc["dep-url"]+"="+dep.URL)
		}
	}
	want := "tls"
	if insecure {
		want = "plain"
		if crt != "" || key != "" || ca != "" {
			want = "reject"
		}
	} else if _, err := tls.LoadX509KeyPair(crt, key); err != nil || ca == kit.Garbage || ca == kit.Missing {
		want = "reject"
	}
	if level == "loud" {
		want = "reject"
	}
	what := fmt.Sprintf("%s crt=%s key=%s ca=%s insecure=%v log-level=%s (%s)", name, kit.name(crt), kit.name(key), kit.name(ca), insecure, level, strings.Join(how, ", "))
	r.Context("%s", what)
	r.Distinct(what)
	r.Eval(1)
	p := Start(name, env, args...)
	defer p.Kill()
	bad := func(key, f string, a ...any) {
		r.PV("S03", key+":"+name, map[string]any{"configuration": what, "output": p.Tail(), "args": args, "env": env}, what+": "+f, a...)
	}
	if want == "reject" {
		end := time.Now().Add(60 * time.Second)
		for {
			if ok, code := p.Exited(); ok {
				if code == 0 {
					bad("reject-code", "exits with 0 although the configuration cannot be honoured")
				}
				r.Stat("configurations rejected at start", 1)
				return
			}
			if c, err := net.DialTimeout("tcp", "127.0.0.1:"+port, time.Second); err == nil {
				c.Close()
				bad("not-rejected", "serves although the configuration cannot be honoured")
				return
			}
			if time.Now().After(end) {
				bad("not-rejected", "is still running although the configuration cannot be honoured")
				return
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	if want == "plain" {
		if err := p.Ready(&http.Client{}, "http://127.0.0.1:"+port, 60*time.Second); err != nil {
			bad("not-serving", "%v", err)
		}
		r.Stat("plain services", 1)
		return
	}
	tr := &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}
	defer tr.CloseIdleConnections()
	if err := p.Ready(&http.Client{Transport: tr}, "https://127.0.0.1:"+port, 60*time.Second); err != nil {
		bad("not-serving", "%v", err)
		return
	}
	r.Stat("TLS services", 1)
	c, err := tls.Dial("tcp", "127.0.0.1:"+port, &tls.Config{InsecureSkipVerify: true})
	if err != nil {
		bad("tls", "no TLS connection: %v", err)
		return
	}
	peer := c.ConnectionState().PeerCertificates[0].Raw
	c.Close()
	if !bytes.Equal(peer, pair.DER) {
		bad("certificate", "serves another certificate than the configured one")
	}
	for _, path := range []string{"/health", map[string]string{"locker": "/v1/locks", "limiter": "/v1/limiter/rules/query", "willow": "/v1/queues"}[name]} {
		if st := plain(port, path); st > 0 && st != 400 || st == -1 {
			bad("plain-text", "a request without TLS to %s is answered %d", path, st)
		}
	}
	if h2c(port) {
		bad("plain-text", "HTTP/2 without TLS is served")
	}
	which := map[string]int{"locker": 0, "limiter": 1, "willow": 2}[name]
	err, _ = health(&clients.Config{URL: "https://127.0.0.1:" + port, CAFile: kit.CA1.File, ClientCRTFile: kit.Client.CRT, ClientKeyFile: kit.Client.Key}, which)
	if (err == nil) != (pair.CRT == kit.Good.CRT) {
		bad("client", "a client that trusts ca1 gets: %v", err)
	}
}

// TestLinkTLS starts a limiter or willow with client settings of all kinds
// against a recorder.
func TestLinkTLS(t *testing.T) {
	r := vh.Start(t, "client configurations of limiter and willow against servers, distinct by program, configuration and server")
	defer r.Finish()
	g := vh.Rand("linktls", vh.Shard())
	kinds := []serverKind{{"good", &kit.Good, ""}, {"good", &kit.Good, ""}, {"expired", &kit.Expired, ""}, {"for another host", &kit.OtherHost, ""}, {"of another authority", &kit.ByCA2, ""}, {"of the system's authority", &kit.BySystem, ""}, {"plain", nil, ""}}
	for i := 0; i < vh.N(14, 500) && !r.Bad(); i++ {
		name := []string{"limiter", "willow"}[g.IntN(2)]
		k := kinds[g.IntN(len(kinds))]
		c := kit.pick(g)
		if g.IntN(2) == 0 {
			c = clientCfg{kit.CA1.File, kit.Client.CRT, kit.Client.Key}
		}
		f := newFake(k.pair)
		var args []string
		env := sysEnv()
		doc := documented[name]
		how := []string{}
		for _, s := range [][2]string{{"dep-ca", c.ca}, {"dep-crt", c.crt}, {"dep-key", c.key}} {
			how = append(how, s[0]+" by "+setting(g, &args, &env, depFlag(name, s[0]), doc[s[0]], s[1]))
		}
		port := FreePort()
		args = append(args, "-insecure-http", "-port", port, "-"+depFlag(name, "dep-url"), f.URL)
		what := fmt.Sprintf("%s with %s (%s) against a server %s", name, kit.cfgName(c), strings.Join(how, ", "), k.name)
		r.Context("%s", what)
		r.Distinct(what)
		r.Eval(1)
		p := Start(name, env, args...)
		bad := func(key, fm string, a ...any) {
			reqs, _ := f.seen()
			r.PV("S03", key+":"+name, map[string]any{"configuration": what, "output": p.Tail(), "args": args, "env": env, "requests": reqs}, what+": "+fm, a...)
		}
		switch {
		case !kit.accepted(c):
			if ok, code := p.Wait(60 * time.Second); !ok || code == 0 {
				bad("link-not-rejected", "the client configuration is not rejected at start (ended=%v code=%d)", ok, code)
			}
			r.Stat("configurations rejected at start", 1)
		case kit.trusts(c, k.pair):
			if err := p.Ready(&http.Client{}, "http://127.0.0.1:"+port, 60*time.Second); err != nil {
				bad("link-fails", "%v", err)
				break
			}
			if name == "limiter" { // the lock client of each request
				ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
				ch := &Chain{Client: http.DefaultClient}
				ch.Do(ctx, "POST", "http://127.0.0.1:"+port+"/v1/limiter/rules", `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"a":{"Type":1024}}},"Properties":{"Limit":3}}}`)
				ch.Do(ctx, "PUT", "http://127.0.0.1:"+port+"/v1/limiter/counters", `{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":10,"Data":"1"}}},"Properties":{"Counters":1}}}`)
				cancel()
			}
			reqs, peers := f.seen()
			if len(reqs) < 2 {
				bad("link-requests", "only %v reached the server", reqs)
			}
			if c.crt != "" {
				der, _ := os.ReadFile(c.crt)
				for j := range peers {
					if len(peers[j]) == 0 || !bytes.Contains(der, pemOf(peers[j])) {
						bad("link-certificate", "%s is made without the configured client certificate", reqs[j])
					}
				}
			}
			r.Stat("links that work", 1)
		default:
			time.Sleep(700 * time.Millisecond)
			if ok, code := p.Exited(); !ok {
				if c, err := net.DialTimeout("tcp", "127.0.0.1:"+port, time.Second); err == nil {
					c.Close()
					bad("link-serves", "serves without a trusted server behind it")
				}
			} else if code == 0 {
				bad("link-ends", "ends with code 0")
			}
			if reqs, _ := f.seen(); len(reqs) > 0 {
				bad("link-untrusted", "talks to a server it must not trust: %v", reqs)
			}
			r.Stat("links refused", 1)
		}
		p.Kill()
		f.Close()
	}
}

// TestChainTLS runs the three services over TLS.
func TestChainTLS(t *testing.T) {
	r := vh.Start(t, "requests through three services connected by TLS, distinct by request")
	defer r.Finish()
	serve := []string{"-server-key", kit.Good.Key, "-server-crt", kit.Good.CRT, "-server-ca", kit.CA1.File}
	tr := &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, ForceAttemptHTTP2: true}
	ch := &Chain{Client: &http.Client{Transport: tr}, tr: tr}
	url := func(p *Proc) string { return "https://127.0.0.1:" + p.Port }
	start := func(name, dep string, on *Proc) *Proc {
		port := FreePort()
		args := append([]string{"-port", port}, serve...)
		if on != nil {
			args = append(args, "-"+dep+"-url", url(on), "-"+dep+"-client-ca", kit.CA1.File, "-"+dep+"-client-key", kit.Client.Key, "-"+dep+"-client-crt", kit.Client.CRT)
		}
		p := Start(name, nil, args...)
		p.Port = port
		if err := p.Ready(ch.Client, url(p), 60*time.Second); err != nil {
			r.PV("S03", "chain-start:"+name, p.Tail(), "%s does not start with TLS: %v", name, err)
			return nil
		}
		return p
	}
	if ch.Locker = start("locker", "", nil); ch.Locker == nil {
		return
	}
	defer ch.Stop()
	if ch.Limiter = start("limiter", "locker", ch.Locker); ch.Limiter == nil {
		return
	}
	if ch.Willow = start("willow", "limiter", ch.Limiter); ch.Willow == nil {
		return
	}
	ctx := context.Background()
	do := func(p *Proc, method, path string, body any, want int) {
		st, b, err := ch.Do(ctx, method, url(p)+path, body)
		r.Eval(1)
		r.Distinct(fmt.Sprint(p.Name, method, path, body))
		if err != nil || st != want {
			r.PV("S03", "chain:"+p.Name+method+path, map[string]any{"willow": ch.Willow.Tail(), "limiter": ch.Limiter.Tail(), "locker": ch.Locker.Tail()}, "%s %s %s over TLS is answered %d %s %v, not %d", p.Name, method, path, st, b, err, want)
		}
	}
	do(ch.Willow, "POST", "/v1/queues", `{"Spec":{"DBDefinition":{"Name":"q"},"Properties":{"MaxItems":-1}}}`, 201)
	do(ch.Limiter, "POST", "/v1/limiter/rules", `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"c":{"Type":1024}}},"Properties":{"Limit":1000}}}`, 201)
	base, used := sockets(ch.Limiter.Pid()), 0
	var wg sync.WaitGroup
	var mu sync.Mutex
	N := vh.N(60, 600)
	for w := 0; w < 4; w++ {
		wg.Go(func() {
			for i := 0; i < N; i++ {
				mu.Lock()
				used++
				k := used
				mu.Unlock()
				do(ch.Willow, "POST", "/v1/queues/q/channels/items", fmt.Sprintf(`{"Spec":{"DBDefinition":{"KeyValues":%s},"Properties":{"Data":"eA==","Updateable":false,"RetryAttempts":2,"RetryPosition":"back","TimeoutDuration":2000000000}}}`, kvs("c", k%7)), 201)
			}
		})
	}
	wg.Wait()
	time.Sleep(200 * time.Millisecond)
	after := sockets(ch.Limiter.Pid())
	r.Max("sockets of the limiter afterwards", after)
	if after-base > used/2 {
		r.PV("S03,V02", "sockets-kept", nil, "the limiter keeps %d connections after %d requests (%d before)", after, used, base)
	}
	for _, p := range []*Proc{ch.Willow, ch.Limiter, ch.Locker} {
		p.Signal(syscall.SIGINT)
		if ok, code := p.Wait(hang); !ok || code != 0 {
			r.PV("S02,S03", "chain-exit:"+p.Name, p.Tail(), "%s over TLS does not end after an interrupt (ended=%v code=%d)", p.Name, ok, code)
		}
	}
}

// sockets counts the open sockets of a program.
func sockets(pid int) (n int) {
	d := fmt.Sprintf("/proc/%d/fd", pid)
	es, _ := os.ReadDir(d)
	for _, e := range es {
		if l, err := os.Readlink(d + "/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return
}
