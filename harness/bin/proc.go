// Package bin runs the real programs as processes on the loopback network.
package bin

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/DanLavine/willow/internal/verif/vh"
)

// Proc is one running program.
type Proc struct {
	Name string
	Port string
	cmd  *exec.Cmd
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
	code int
}

func (p *Proc) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.out.Len() < 1<<20 {
		p.out.Write(b)
	}
	return len(b), nil
}

// Output is what the program printed.
func (p *Proc) Output() string { p.mu.Lock(); defer p.mu.Unlock(); return p.out.String() }

// Tail is the end of what it printed.
func (p *Proc) Tail() []string {
	l := strings.Split(strings.TrimSpace(p.Output()), "\n")
	if len(l) > 30 {
		l = l[len(l)-30:]
	}
	return l
}

// Exited says whether it ended, and how.
func (p *Proc) Exited() (bool, int) {
	select {
	case <-p.done:
		return true, p.code
	default:
		return false, 0
	}
}

// Wait waits for its end.
func (p *Proc) Wait(d time.Duration) (bool, int) {
	select {
	case <-p.done:
		return true, p.code
	case <-time.After(d):
		return false, 0
	}
}

func (p *Proc) Signal(s syscall.Signal) { p.cmd.Process.Signal(s) }

// Kill ends it for good.
func (p *Proc) Kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// Pid of the process.
func (p *Proc) Pid() int { return p.cmd.Process.Pid }

var portMu sync.Mutex
var nextPort = os.Getpid() * 37
var reserved []net.Listener

// FreePort reserves a loopback port nobody listens on: below the ports the
// system gives to outgoing connections, and claimed by no other shard (an
// abstract unix socket of that name is kept until this process ends).
func FreePort() string {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		nextPort++
		p := fmt.Sprint(10000 + nextPort%22000)
		u, err := net.Listen("unix", "@verif-port-"+p)
		if err != nil {
			continue
		}
		l, err := net.Listen("tcp", ":"+p)
		if err != nil {
			u.Close()
			continue
		}
		l.Close()
		reserved = append(reserved, u)
		return p
	}
}

// Start runs a program: VERIF_BIN_<NAME> is its executable.
func Start(name string, env []string, args ...string) *Proc {
	exe := os.Getenv("VERIF_BIN_" + strings.ToUpper(name))
	p := &Proc{Name: name, done: make(chan struct{})}
	p.cmd = exec.Command(exe, args...)
	p.cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/nonexistent"}, env...)
	if v := os.Getenv("GORACE"); v != "" {
		p.cmd.Env = append(p.cmd.Env, "GORACE="+v)
	}
	p.cmd.Dir = os.TempDir()
	p.cmd.Stdout, p.cmd.Stderr = p, p
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot run %s: %v", exe, err))
	}
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p
}

// Ready waits until the program answers its health check.
func (p *Proc) Ready(c *http.Client, url string, d time.Duration) error {
	end := time.Now().Add(d)
	for {
		if ok, code := p.Exited(); ok {
			return fmt.Errorf("%s ended with %d: %s", p.Name, code, strings.Join(p.Tail(), "\n"))
		}
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		req, _ := http.NewRequestWithContext(ctx, "GET", url+"/health", nil)
		resp, err := c.Do(req)
		cancel()
		if err == nil {
			resp.Body.Close()
			if resp.StatusCode == 200 {
				return nil
			}
			err = fmt.Errorf("health is %d", resp.StatusCode)
		}
		if time.Now().After(end) {
			return fmt.Errorf("%s is not healthy: %v", p.Name, err)
		}
		time.Sleep(15 * time.Millisecond)
	}
}

// Chain is a locker, a limiter and a willow over plain HTTP.
type Chain struct {
	Locker, Limiter, Willow *Proc
	Client                  *http.Client
	tr                      *http.Transport
}

// StartChain starts the three services.
func StartChain(r *vh.R, extra ...string) (*Chain, error) {
	c := &Chain{tr: &http.Transport{MaxIdleConnsPerHost: 64}}
	c.Client = &http.Client{Transport: c.tr}
	lp, mp, wp := FreePort(), FreePort(), FreePort()
	c.Locker = Start("locker", nil, append([]string{"-insecure-http", "-port", lp}, extra...)...)
	c.Locker.Port = lp
	if err := c.Locker.Ready(c.Client, c.URL(c.Locker), 60*time.Second); err != nil {
		c.Stop()
		return nil, err
	}
	c.Limiter = Start("limiter", nil, append([]string{"-insecure-http", "-port", mp, "-locker-url", c.URL(c.Locker)}, extra...)...)
	c.Limiter.Port = mp
	if err := c.Limiter.Ready(c.Client, c.URL(c.Limiter), 60*time.Second); err != nil {
		c.Stop()
		return nil, err
	}
	c.Willow = Start("willow", nil, append([]string{"-insecure-http", "-port", wp, "-limiter-url", c.URL(c.Limiter)}, extra...)...)
	c.Willow.Port = wp
	if err := c.Willow.Ready(c.Client, c.URL(c.Willow), 60*time.Second); err != nil {
		c.Stop()
		return nil, err
	}
	return c, nil
}

func (c *Chain) URL(p *Proc) string { return "http://127.0.0.1:" + p.Port }

// Stop kills what still runs.
func (c *Chain) Stop() {
	for _, p := range []*Proc{c.Willow, c.Limiter, c.Locker} {
		if p != nil {
			p.Kill()
		}
	}
	c.tr.CloseIdleConnections()
}

// Do sends one JSON request.
func (c *Chain) Do(ctx context.Context, method, url string, body any) (int, []byte, error) {
	var rd io.Reader
	switch b := body.(type) {
	case nil:
	case []byte:
		rd = bytes.NewReader(b)
	case string:
		rd = strings.NewReader(b)
	default:
		j, err := json.Marshal(b)
		if err != nil {
			panic(err)
		}
		rd = bytes.NewReader(j)
	}
	req, err := http.NewRequestWithContext(ctx, method, url, rd)
	if err != nil {
		return 0, nil, err
	}
	req.Header.Set("Content-Type", "application/json")
	resp, err := c.Client.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, nil, err
	}
	return resp.StatusCode, b, nil
}
