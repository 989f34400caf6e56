package bin

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/verif/vh"
)

// TestSettingsProcess starts the real programs with settings from flags and
// the environment and looks at what they do with them.
func TestSettingsProcess(t *testing.T) {
	r := vh.Start(t, "programs started with a mixture of flags and environment variables; distinct by the mixture")
	defer r.Finish()
	for n := vh.Shard() << 20; n < vh.Shard()<<20+vh.N(6, 400) && !r.Bad(); n++ {
		r.Context("case %d", n)
		settings(r, vh.Rand("settingsprocess", n), n)
		r.Eval(1)
	}
}

type mixture struct {
	g     *rand.Rand
	args  []string
	env   []string
	shape string
}

// set gives one setting by flag, variable, or both; a variable wins.
func (m *mixture) set(flag, env, value string, decoy func() string) {
	dashes := []string{"-", "--"}[m.g.IntN(2)]
	how := 1 + m.g.IntN(3)
	onFlag := value
	if how == 3 {
		onFlag = decoy()
	}
	if how&1 != 0 {
		m.args = append(m.args, dashes+flag+"="+onFlag)
	}
	if how&2 != 0 {
		m.env = append(m.env, env+"="+value)
	}
	m.shape += fmt.Sprint(flag, how)
}

func settings(r *vh.R, g *rand.Rand, n int) {
	ch := &Chain{tr: &http.Transport{MaxIdleConnsPerHost: 8}}
	ch.Client = &http.Client{Transport: ch.tr}
	defer ch.Stop()
	var decoys []string
	shape := ""
	start := func(name, prefix, logEnv string, more func(m *mixture)) (*Proc, bool, bool) {
		m := &mixture{g: g}
		port := FreePort()
		decoys = nil
		m.set("port", prefix+"_PORT", port, func() string { d := FreePort(); decoys = append(decoys, d); return d })
		m.set("insecure-http", prefix+"_INSECURE_HTTP", "true", func() string { return "false" })
		debug := g.IntN(2) == 0
		m.set("log-level", logEnv, map[bool]string{true: "debug", false: "info"}[debug], func() string { return []string{"debug", "info"}[g.IntN(2)] })
		more(m)
		g.Shuffle(len(m.args), func(i, j int) { m.args[i], m.args[j] = m.args[j], m.args[i] })
		p := Start(name, m.env, m.args...)
		p.Port = port
		shape += name + m.shape
		if err := p.Ready(ch.Client, ch.URL(p), hang); err != nil {
			r.PV("C01", "start:"+name, map[string]any{"args": m.args, "env": m.env, "output": p.Tail()}, "case %d: %s does not serve on its port: %v", n, name, err)
			return p, debug, false
		}
		for _, d := range decoys {
			if c, err := net.DialTimeout("tcp", "127.0.0.1:"+d, time.Second); err == nil {
				c.Close()
				r.PV("C01", "port:"+name, map[string]any{"args": m.args, "env": m.env, "output": p.Tail()}, "case %d: %s listens on the flag's port %s, the variable says %s", n, name, d, port)
				return p, debug, false
			}
		}
		return p, debug, true
	}
	check := func(p *Proc, debug bool) {
		time.Sleep(20 * time.Millisecond)
		if has := strings.Contains(p.Output(), `"level":"debug"`); has != debug {
			// what was logged may still be on its way
			time.Sleep(2 * time.Second)
			if has = strings.Contains(p.Output(), `"level":"debug"`); has != debug {
				r.PV("C01", "log-level:"+p.Name, p.Tail(), "case %d: %s has debug logging: %v, set to %v", n, p.Name, has, debug)
			}
		}
	}
	timeout := time.Duration(150+g.IntN(600)) * time.Millisecond
	var ok, lockDebug, limitDebug, willowDebug bool
	if ch.Locker, lockDebug, ok = start("locker", "LOCKER", "LOCKER_LOG_LEVEL", func(m *mixture) {
		m.set("lock-default-timeout", "LOCKER_LOCK_DEFAULT_TIMEOUT", timeout.String(), func() string { return "77s" })
	}); !ok {
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), hang)
	defer cancel()
	body := `{"Spec":{"DBDefinition":{"KeyValues":{"k":{"Type":13,"Data":"x"}}},"Properties":{}}}`
	var a struct {
		Spec struct {
			Properties struct{ Timeout time.Duration }
		}
	}
	from := time.Now()
	st, b, err := ch.Do(ctx, "POST", ch.URL(ch.Locker)+"/v1/locks", body)
	json.Unmarshal(b, &a)
	if err != nil || st != 200 || a.Spec.Properties.Timeout != timeout {
		r.PV("C01", "lock-timeout", string(b), "case %d: a lock without a timeout is answered %d %s %v, the default is %v", n, st, b, err, timeout)
		return
	}
	st, b, err = ch.Do(ctx, "POST", ch.URL(ch.Locker)+"/v1/locks", body)
	if took := time.Since(from); err != nil || st != 200 || took < timeout || took > timeout+20*time.Second {
		r.PV("C01", "lock-expiry", string(b), "case %d: a lock with the default timeout %v is free after %v: %d %s %v", n, timeout, took, st, b, err)
		return
	}
	if ch.Limiter, limitDebug, ok = start("limiter", "LIMITER", "LIMITER_LOG_LEVEL", func(m *mixture) {
		m.set("locker-url", "LIMITER_LOCKER_URL", ch.URL(ch.Locker), func() string { return "http://127.0.0.1:" + FreePort() })
	}); !ok {
		return
	}
	for _, rq := range []struct {
		method, path, body string
		want               int
	}{
		{"POST", "/v1/limiter/rules", `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"a":{"Type":1024}}},"Properties":{"Limit":1}}}`, 201},
		{"PUT", "/v1/limiter/counters", counter(1, 1, 1), 200},
		{"PUT", "/v1/limiter/counters", counter(1, 2, 1), 409},
	} {
		if st, b, err := ch.Do(ctx, rq.method, ch.URL(ch.Limiter)+rq.path, rq.body); err != nil || st != rq.want {
			r.PV("C01", "limiter", string(b), "case %d: %s %s is answered %d %s %v", n, rq.method, rq.path, st, b, err)
			return
		}
	}
	if ch.Willow, willowDebug, ok = start("willow", "WILLOW", "LOG_LEVEL", func(m *mixture) {
		m.set("limiter-url", "WILLOW_LIMITER_URL", ch.URL(ch.Limiter), func() string { return "http://127.0.0.1:" + FreePort() })
		if g.IntN(2) == 0 {
			m.set("storage-type", "STORAGE_TYPE", "memory", func() string { return "nowhere" })
		}
	}); !ok {
		return
	}
	w := &restart{r: r, g: g, n: n, base: from, ch: ch}
	if st, b, err := ch.Do(ctx, "POST", ch.URL(ch.Willow)+"/v1/queues", `{"Spec":{"DBDefinition":{"Name":"q"},"Properties":{"MaxItems":2}}}`); err != nil || st != 201 {
		r.PV("C01", "willow", string(b), "case %d: creating a queue is answered %d %s %v", n, st, b, err)
		return
	}
	w.roundTrip("q", "x")
	check(ch.Locker, lockDebug)
	check(ch.Limiter, limitDebug)
	check(ch.Willow, willowDebug)
	r.Distinct(shape)
	r.Stat("programs started", 3)

	// settings that cannot be used end the program at once
	dir, err := os.MkdirTemp("", "verif-settings")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	name := []string{"locker", "limiter", "willow"}[g.IntN(3)]
	args := []string{"-port", FreePort(), "-locker-url", ch.URL(ch.Locker), "-limiter-url", ch.URL(ch.Limiter)}
	switch name {
	case "locker":
		args = args[:2]
	case "limiter":
		args = args[:4]
	case "willow":
		args = append(args[:2:2], args[4:]...)
	}
	wrong := [][]string{
		{},
		{"-insecure-http", "-server-key", filepath.Join(dir, "key")},
		{"-insecure-http", "-log-level", "loud"},
		{"-server-key", filepath.Join(dir, "key"), "-server-crt", filepath.Join(dir, "crt")},
		{"-insecure-http", "-no-such-flag"},
	}
	k := g.IntN(len(wrong))
	args = append(args, wrong[k]...)
	p := Start(name, nil, args...)
	defer p.Kill()
	if ended, code := p.Wait(hang); !ended || code == 0 {
		r.PV("C01", "wrong-settings:"+name, p.Tail(), "case %d: %s started with %q: ended %v with code %d", n, name, args, ended, code)
	}
	r.Distinct(fmt.Sprint(name, k))
	r.Stat("programs that refused to start", 1)
}
