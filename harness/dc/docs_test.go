package dc

import (
	"bufio"
	"bytes"

	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	lockerrouter "github.com/DanLavine/willow/internal/locker/api/v1/router"
	"github.com/DanLavine/willow/internal/verif/svc"
	"github.com/DanLavine/willow/internal/verif/vh"
)

// ---- the documentation, as it lies in the repository

type docs struct {
	root  string
	files map[string][]byte // by path below root
	dirs  map[string]map[string]bool
}

func readDocs() (*docs, error) {
	// beside the code that serves it
	file, _ := runtime.FuncForPC(funcPC(lockerrouter.AddV1LockerRoutes)).FileLine(funcPC(lockerrouter.AddV1LockerRoutes))
	root := filepath.Join(filepath.Dir(file), "..", "..", "..", "..", "..", "docs", "openapi")
	d := &docs{root: root, files: map[string][]byte{}, dirs: map[string]map[string]bool{}}
	err := filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel := filepath.ToSlash(strings.TrimPrefix(strings.TrimPrefix(p, root), "/"))
		if rel != "" {
			parent := path.Dir("/" + rel)[1:]
			name := path.Base(rel)
			if i.IsDir() {
				name += "/"
			}
			d.dirs[parent][name] = true
		}
		if i.IsDir() {
			d.dirs[rel] = map[string]bool{}
			return nil
		}
		d.files[rel], err = os.ReadFile(p)
		return err
	})
	return d, err
}

var (
	pathLine   = regexp.MustCompile(`^  (/[^\s:]*(?::[^\s:/]+[^\s:]*)*):\s*$`)
	methodLine = regexp.MustCompile(`^    (get|put|post|delete|patch|head|options):\s*$`)
	refText    = regexp.MustCompile(`\$ref:\s*["']?([^"'\s]+)["']?`)
	specText   = regexp.MustCompile(`spec-url='([^']+)'|spec-url="([^"]+)"`)
)

type operation struct{ method, path string }

// operations lists what a description documents.
func operations(spec []byte) (out []operation) {
	in, p := false, ""
	for _, l := range strings.Split(string(spec), "\n") {
		if l != "" && l[0] != ' ' && l[0] != '#' {
			in, p = strings.HasPrefix(l, "paths:"), ""
		}
		if !in {
			continue
		}
		if m := pathLine.FindStringSubmatch(l); m != nil {
			p = m[1]
		} else if m := methodLine.FindStringSubmatch(l); m != nil && p != "" {
			out = append(out, operation{strings.ToUpper(m[1]), p})
		}
	}
	return
}

// has tells if the description has the component, by its indentation.
func has(spec []byte, pointer string) bool {
	depth, parts := 0, strings.Split(strings.Trim(pointer, "/"), "/")
	for _, l := range strings.Split(string(spec), "\n") {
		t := strings.TrimLeft(l, " ")
		if t == "" || t[0] == '#' {
			continue
		}
		in := len(l) - len(t)
		if in < 2*depth {
			if depth = in / 2; in%2 != 0 {
				return false
			}
		}
		key, _, ok := strings.Cut(t, ":")
		if ok && in == 2*depth && strings.Trim(key, `"'`) == parts[depth] {
			if depth++; depth == len(parts) {
				return true
			}
		}
	}
	return false
}

// ---- raw requests

type answer struct {
	status int
	head   http.Header
	body   []byte
	err    error
}

func (a answer) String() string {
	if a.err != nil {
		return "error: " + a.err.Error()
	}
	return fmt.Sprintf("%d %.300q", a.status, a.body)
}

func raw(addr, method, target, more string) (a answer) {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return answer{err: err}
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: docs\r\nConnection: close\r\n%s\r\n", method, target, more)
	resp, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: method})
	if err != nil {
		return answer{err: err}
	}
	defer resp.Body.Close()
	a.status, a.head = resp.StatusCode, resp.Header
	a.body, a.err = io.ReadAll(resp.Body)
	return
}

// ---- the services, served over loopback

type service struct{ name, addr string }

func start(r *vh.R) (out []service, stop func()) {
	n := svc.NewNet(r)
	restore := n.Dial
	restore()
	s1 := n.Locker("locker", time.Second)
	s2 := n.Limiter("limiter", "http://locker")
	s3, _ := n.Willow("willow", "http://limiter")
	var servers []*http.Server
	for _, name := range []string{"locker", "limiter", "willow"} {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			r.Inconclusive("cannot listen: %v", err)
			continue
		}
		h := n.Handler(name)
		s := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			defer func() {
				if p := recover(); p != nil && p != http.ErrAbortHandler {
					b := make([]byte, 1<<14)
					b = b[:runtime.Stack(b, false)]
					r.PV("A01", "panic:"+vh.PanicSite(string(b)), req.RequestURI, "%s panicked at %s %q: %v", name, req.Method, req.RequestURI, p)
				}
			}()
			h.ServeHTTP(w, req)
		})}
		go s.Serve(l)
		servers = append(servers, s)
		out = append(out, service{name, l.Addr().String()})
	}
	return out, func() {
		for _, s := range servers {
			s.Close()
		}
		s3()
		s2()
		s1()
	}
}

// ---- the targets

const base = "/v1/docs/openapi/"

func clean(d *docs, g *rand.Rand) string {
	var all []string
	for f := range d.files {
		all = append(all, f)
	}
	for f := range d.dirs {
		all = append(all, f+"/")
	}
	sort.Strings(all)
	return all[g.IntN(len(all))]
}

var segments = []string{"..", "..", "..", "%2e%2e", "%2E.", ".%2e", ".", "%2e", "", "common", "locker", "willow", "limiter", "openapi", "docs", "openapi.yaml", "index.html",
	"components.yaml", "go.mod", "README.md", "internal", "cmd", "..%2f..", "..%2f..%2fgo.mod", "..%5c..", "%5c..%5cgo.mod", "%00", "a%00b", "etc", "etc%2fpasswd", "proc", "self", "environ",
	"repo", ".git", "HEAD", "%25%32%65%25%32%65", "%252e%252e", "%c0%ae%c0%ae", "%ef%bc%8e%ef%bc%8e", "~", "main.go", "Makefile", "v1", ";", "%3f", "%23"}

func target(d *docs, g *rand.Rand) string {
	var s string
	switch g.IntN(5) {
	case 0: // as it is
		s = clean(d, g)
	case 1: // out and in
		c := clean(d, g)
		parts := strings.Split(c, "/")
		i := g.IntN(len(parts))
		parts = append(parts[:i:i], append([]string{segments[g.IntN(len(segments))], segments[g.IntN(len(segments))]}, parts[i:]...)...)
		s = strings.Join(parts, "/")
	case 2: // out to a file that is there
		s = strings.Repeat([]string{"../", "%2e%2e/", "..%2f", "%2e%2e%2f", "..%5c", "common/../../"}[g.IntN(6)], 1+g.IntN(12)) +
			[]string{"go.mod", "etc/passwd", "etc/hostname", "README.md", "repo/go.mod", "docs/apis/APIs.md", "cmd/locker/main.go", "apis/APIs.md", "internal/", "", "openapi-other", "openapi/locker/openapi.yaml"}[g.IntN(12)]
	case 3: // absolute
		s = []string{"/etc/passwd", "//etc/passwd", "%2fetc%2fpasswd", "/repo/go.mod", "file:///etc/passwd", "/proc/self/environ"}[g.IntN(6)]
	default:
		var parts []string
		for n := 1 + g.IntN(7); len(parts) < n; {
			parts = append(parts, segments[g.IntN(len(segments))])
		}
		s = strings.Join(parts, "/")
	}
	if g.IntN(6) == 0 {
		b := []byte(s)
		if len(b) > 0 {
			i := g.IntN(len(b))
			if b[i] != '%' && (i < 1 || b[i-1] != '%') && (i < 2 || b[i-2] != '%') {
				s = s[:i] + fmt.Sprintf("%%%02x", b[i]) + s[i+1:]
			}
		}
	}
	switch g.IntN(10) {
	case 0:
		s += "?file=../../go.mod"
	case 1:
		s += "/"
	}
	if strings.ContainsAny(s, " \x00\r\n") {
		s = url.PathEscape(s)
	}
	return base + s
}

var links = regexp.MustCompile(`<a href="([^"]*)">`)

// listing tells if the page lists only what is in the folder.
func (d *docs) listing(dir string, page []byte) bool {
	in, ok := d.dirs[strings.Trim(dir, "/")]
	if !ok {
		return false
	}
	rest := links.ReplaceAllStringFunc(string(page), func(l string) string {
		name, err := url.PathUnescape(links.FindStringSubmatch(l)[1])
		if err != nil || !in[strings.TrimPrefix(name, "./")] {
			ok = false
		}
		return ""
	})
	// nothing of size but the links
	return ok && len(rest) < 400+80*len(in)
}

// allowed tells if the body is something of the documentation for the target.
func (d *docs) allowed(tgt string, a answer) (what string, ok bool) {
	if len(a.body) == 0 {
		return "nothing", true
	}
	p, _, _ := strings.Cut(tgt, "?")
	p, err := url.PathUnescape(p)
	if err != nil {
		return "", false
	}
	rel := strings.TrimPrefix(path.Clean("/"+strings.TrimPrefix(p, base)), "/")
	if f, is := d.files[rel]; is && bytes.Equal(f, a.body) {
		return "file " + rel, true
	}
	if _, is := d.dirs[rel]; is {
		if f, is := d.files[path.Join(rel, "index.html")]; is {
			return "index " + rel, bytes.Equal(f, a.body)
		}
		return "folder " + rel, d.listing(rel, a.body)
	}
	return "", false
}

// TestDocs asks the services for their documentation in every way.
func TestDocs(t *testing.T) {
	r := vh.Start(t, "(service, target, answer) of requests for the documentation")
	defer r.Finish()
	d, err := readDocs()
	if err != nil || len(d.files) == 0 {
		r.Inconclusive("no documentation is found: %v", err)
		return
	}
	services, stop := start(r)
	defer stop()
	if vh.Shard() == 0 {
		described(r, d, services)
	}
	var wg sync.WaitGroup
	const workers = 6
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := vh.Shard()<<20 + k; n < vh.Shard()<<20+vh.N(3000, 200000) && !r.Bad(); n += workers {
				docsCase(r, d, services, n)
			}
		}()
	}
	wg.Wait()
}

func docsCase(r *vh.R, d *docs, services []service, n int) {
	g := vh.Rand("docs", n)
	s := services[g.IntN(len(services))]
	tgt, method, more := target(d, g), "GET", ""
	switch g.IntN(12) {
	case 0:
		method = []string{"POST", "PUT", "DELETE", "HEAD", "PATCH", "TRACE"}[g.IntN(6)]
	case 1:
		more = fmt.Sprintf("Range: bytes=%d-%d\r\n", g.IntN(50), 50+g.IntN(200))
	case 2:
		more = []string{"If-Modified-Since: Mon, 02 Jan 2034 15:04:05 GMT\r\n", "Accept-Encoding: gzip\r\n", "X-Original-URL: /../../go.mod\r\n", "X-Forwarded-Prefix: /..\r\n"}[g.IntN(4)]
	}
	a := raw(s.addr, method, tgt, more)
	what := fmt.Sprintf("case %d: %s: %s %q %q -> %v", n, s.name, method, tgt, more, a)
	r.Eval(1)
	r.Step()
	if a.err != nil {
		r.PV("A01", "no-answer", what, "no answer: %s", what)
		return
	}
	r.Distinct(fmt.Sprintf("%s/%s/%s/%d", s.name, method, tgt, a.status))
	switch {
	case a.status >= 500:
		r.PV("A01", "failure", what, "the service fails: %s", what)
	case a.status == 206:
		p, _, _ := strings.Cut(tgt, "?")
		p, _ = url.PathUnescape(p)
		f := d.files[strings.TrimPrefix(path.Clean("/"+strings.TrimPrefix(p, base)), "/")]
		if f == nil {
			f = d.files[path.Join(strings.TrimPrefix(path.Clean("/"+strings.TrimPrefix(p, base)), "/"), "index.html")]
		}
		if f == nil || !bytes.Contains(f, a.body) {
			r.PV("A01", "foreign", what, "a part of something else than the documentation: %s", what)
		}
		r.Stat("parts served", 1)
	case a.status/100 == 2:
		if method != "GET" && method != "HEAD" {
			r.PV("A01", "method", what, "an answer of %d to a change of the documentation: %s", a.status, what)
		}
		kind, ok := d.allowed(tgt, a)
		if !ok && bytes.Contains(a.body, []byte("<redoc")) && len(a.body) < 4000 {
			kind, ok = "viewer", true
		}
		if !ok {
			r.PV("A01", "foreign", what, "something else than the documentation is served: %s", what)
		}
		kind, _, _ = strings.Cut(kind, " ")
		r.Stat("served: "+kind, 1)
	case a.status/100 == 3:
		loc := a.head.Get("Location")
		if u, err := url.Parse(loc); a.status != 304 && (err != nil || u.Host != "" && u.Host != "docs") {
			r.PV("A01", "redirect", what, "sent elsewhere (%q): %s", loc, what)
		}
		r.Stat("redirected", 1)
	default:
		r.Stat("refused", 1)
		if len(a.body) > 600 {
			r.PV("A01", "refusal", what, "a refusal with much in it: %s", what)
		}
	}
}

// described checks that everything is served, linked and true.
func described(r *vh.R, d *docs, services []service) {
	for _, s := range services {
		for f, b := range d.files {
			tgt := base + f
			if path.Base(f) == "index.html" { // served as the folder
				tgt = base + path.Dir(f) + "/"
			}
			a := raw(s.addr, "GET", tgt, "")
			r.Eval(1)
			r.Distinct(s.name + " file " + f)
			if a.err != nil || a.status != 200 || !bytes.Equal(a.body, b) {
				r.PV("A01", "not-served", tgt, "%s does not serve its documentation %s: %v", s.name, tgt, a)
			}
		}
		// the viewer leads to the service's own description
		a := raw(s.addr, "GET", "/v1/docs", "")
		own := strings.ToUpper(s.name[:1]) + s.name[1:]
		if a.err != nil || a.status != 200 {
			r.PV("A01", "viewer", a, "%s does not serve a viewer: %v", s.name, a)
			continue
		}
		if m := regexp.MustCompile(`<title>([^<]*)</title>`).FindSubmatch(a.body); m != nil && !strings.Contains(string(m[1]), own) {
			r.PV("A01", "viewer-title", a, "the viewer of %s is titled %q", s.name, m[1])
		}
		m := specText.FindSubmatch(a.body)
		if m == nil {
			r.PV("A01", "viewer", a, "the viewer of %s names no description: %v", s.name, a)
			continue
		}
		spec := raw(s.addr, "GET", string(m[1])+string(m[2]), "")
		if spec.err != nil || spec.status != 200 || !regexp.MustCompile(`(?m)^  title: `+own+`\s*$`).Match(spec.body) {
			r.PV("A01", "viewer", spec, "the viewer of %s leads to %s%s, which is not its description: %v", s.name, m[1], m[2], spec)
			continue
		}
		follow(r, s, string(m[1])+string(m[2]), spec.body, map[string]bool{})
		ops := operations(spec.body)
		if len(ops) < 4 {
			r.Inconclusive("only %d operations of %s are understood", len(ops), s.name)
		}
		for _, op := range ops {
			if op.path == "/health" { // added as the server starts
				continue
			}
			tgt := regexp.MustCompile(`:[^/]+|\{[^}]+\}`).ReplaceAllString(op.path, "no-such-thing")
			a := raw(s.addr, op.method, tgt, "Content-Type: application/json\r\n")
			r.Eval(1)
			r.Distinct(s.name + " " + op.method + " " + op.path)
			r.Stat("documented operations asked for", 1)
			// whatever it answers, these are an operation's words and not the router's
			if a.err != nil || a.status >= 500 || a.status >= 300 && !bytes.Contains(a.body, []byte(`"Message"`)) {
				r.PV("A01", "not-routed:"+op.method+" "+op.path, a, "%s documents %s %s, but it answers %v", s.name, op.method, op.path, a)
			}
		}
	}
}

// follow resolves every reference of the description, over HTTP.
func follow(r *vh.R, s service, at string, spec []byte, seen map[string]bool) {
	if seen[at] {
		return
	}
	seen[at] = true
	for _, m := range refText.FindAllSubmatch(spec, -1) {
		file, pointer, _ := strings.Cut(string(m[1]), "#")
		in, where := spec, at
		if file != "" {
			where = path.Join(path.Dir(at), file)
			a := raw(s.addr, "GET", where, "")
			if a.err != nil || a.status != 200 {
				r.PV("A01", "reference:"+string(m[1]), string(m[1]), "%s refers to %s, which is not served: %v", at, m[1], a)
				continue
			}
			in = a.body
			follow(r, s, where, in, seen)
		}
		r.Stat("references followed", 1)
		r.Distinct(s.name + " ref " + at + " " + string(m[1]))
		if !has(in, pointer) {
			r.PV("A01", "reference:"+string(m[1]), string(m[1]), "%s refers to %s, which is not in %s", at, m[1], where)
		}
	}
}

func funcPC(f any) uintptr { return reflect.ValueOf(f).Pointer() }
