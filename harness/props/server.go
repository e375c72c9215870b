package props

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	pathpkg "path"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"aqlverif/fw"
	"aqlverif/gen"
)

func init() {
	fw.Register(&fw.Prop{
		ID:          "C30",
		Rule:        "the built server, with the race detector, run over scratch directories with secrets around its files; sequences of plain, odd, broken and parallel requests with files changing in between; every answer is compared with the current contents; non-trivial: a distinct request line answered",
		Run:         runServer,
		Assumptions: []string{"the fixed port is free on loopback; an answer that takes more than two minutes counts as none"},
	})
}

const serverAddr = "127.0.0.1:8080"

var served = map[string]string{"/": "index.html", "/wasm_exec.js": "wasm_exec.js", "/hwt.css": "hwt.css", "/style.css": "style.css", "/aqlparse.wasm": "aqlparse.wasm"}

type site struct {
	c       *fw.Ctx
	base    string
	dir     string
	tokens  []string
	content map[string]string // by file name, "" if it was removed
	cmd     *exec.Cmd
	log     *lockedBuf
	exited  chan struct{}
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 4<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

const tokenLen = len("TOKEN") + 16

func (s *site) put(t *fw.T, path string, size int) string {
	token := fmt.Sprintf("TOKEN%016x", t.Uint64())
	s.tokens = append(s.tokens, token)
	b := make([]byte, size)
	t.Read(b)
	text := token + string(b)
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		s.c.Fatalf("%v", err)
	}
	fw.Write(s.c, path, text)
	return text
}

// renew gives a served file other contents, or removes it.
func (s *site) renew(t *fw.T, name string) {
	path := filepath.Join(s.dir, name)
	if chance(t, 15) {
		os.Remove(path)
		s.content[name] = ""
		return
	}
	if info, err := os.Stat(path); err == nil && chance(t, 40) {
		// one that looks the same from the outside
		s.content[name] = s.put(t, path, int(info.Size())-tokenLen)
		if chance(t, 50) {
			os.Chtimes(path, info.ModTime(), info.ModTime())
		}
		t.Count("files_alike")
		return
	}
	s.content[name] = s.put(t, path, gen.Pick(t.Rand, 0, 1, 100, 5000, 200000, 3000000))
}

// request sends raw bytes and reads one answer.
func request(raw, method string) (*http.Response, []byte, error) {
	conn, err := net.DialTimeout("tcp", serverAddr, time.Minute)
	if err != nil {
		return nil, nil, err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(2 * time.Minute))
	if _, err := io.WriteString(conn, raw); err != nil {
		return nil, nil, err
	}
	resp, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: method})
	if err != nil {
		return nil, nil, err
	}
	defer resp.Body.Close()
	body, err := io.ReadAll(resp.Body)
	if err == nil {
		io.Copy(io.Discard, conn) // until the server closes it
	}
	if err == nil && len(body) > 0 && resp.Header.Get("Content-Encoding") == "gzip" {
		z, zerr := gzip.NewReader(bytes.NewReader(body))
		if zerr != nil {
			return resp, body, zerr
		}
		body, err = io.ReadAll(z)
	}
	return resp, body, err
}

// headers are such that make no difference to what is asked for.
func headers(t *fw.T) string {
	var b strings.Builder
	for _, h := range []string{
		"Accept-Encoding: " + oneOf(t, "gzip", "gzip, deflate", "identity", "*;q=0"),
		"Accept: " + oneOf(t, "*/*", "text/html,application/xhtml+xml;q=0.9", "application/json", "image/avif"),
		"Accept-Language: " + oneOf(t, "de", "tr-TR,tr;q=0.5", "x"),
		"User-Agent: " + oneOf(t, "curl/8.0", "Mozilla/5.0 (X11; Linux x86_64)", "", "Googlebot/2.1"),
		"Referer: " + oneOf(t, "http://x/", "http://x/../secret.txt", "http://evil.example/"),
		"Origin: http://evil.example", "Cookie: a=b; path=../secret.txt", "X-Forwarded-For: 1.2.3.4",
		"X-Original-URL: /secret.txt", "X-Rewrite-URL: /secret.txt", "X-HTTP-Method-Override: " + oneOf(t, "DELETE", "PUT"),
		"Cache-Control: " + oneOf(t, "no-cache", "max-age=0", "only-if-cached"), "Upgrade: websocket", "Sec-Fetch-Mode: navigate", "DNT: 1",
		"Authorization: Basic YTpi", "Content-Type: application/json", "X-Long: " + strings.Repeat("y", t.Intn(3000)),
	} {
		if chance(t, 15) {
			b.WriteString(h + "\r\n")
		}
	}
	return b.String()
}

func (s *site) start(t *fw.T, prog, arg, cwd string, files int) {
	for try := 0; ; try++ {
		s.log = &lockedBuf{}
		s.cmd = exec.Command("/bin/sh", "-c", fmt.Sprintf(`ulimit -n %d && exec "$0" "$1"`, files), prog, arg)
		s.cmd.Dir = cwd
		s.cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "GORACE=halt_on_error=1 exitcode=66"}
		s.cmd.Stderr = s.log
		if err := s.cmd.Start(); err != nil {
			s.c.Fatalf("%v", err)
		}
		s.exited = make(chan struct{})
		go func(cmd *exec.Cmd, done chan struct{}) { cmd.Wait(); close(done) }(s.cmd, s.exited)
		for i := 0; i < 600; i++ {
			select {
			case <-s.exited:
				i = 600
				continue
			default:
			}
			if strings.Contains(s.log.String(), "8080") { // it has announced itself
				if conn, err := net.Dial("tcp", serverAddr); err == nil {
					conn.Close()
					select {
					case <-s.exited: // another one is answering
					case <-time.After(300 * time.Millisecond):
						return
					}
				}
			}
			time.Sleep(50 * time.Millisecond)
		}
		s.stop()
		if out := s.log.String(); strings.Contains(out, "panic:") || strings.Contains(out, "DATA RACE") {
			t.Failf("the server did not start: %s", out)
		}
		if try == 5 {
			s.c.Fatalf("the server does not come up: %s", s.log.String())
		}
		time.Sleep(5 * time.Second)
	}
}

func (s *site) stop() {
	s.cmd.Process.Kill()
	<-s.exited
}

// revalidate asks whether files changed with what the server said about them
// before. That has seconds, so changes are made in another one.
func (s *site) revalidate(t *fw.T, plain []string) {
	cond := map[string][]string{}
	for _, p := range plain {
		resp, body, err := request("GET "+p+" HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", "GET")
		s.check(t, "GET "+p, p, "GET", "", resp, body, err)
		since := resp.Header.Get("Last-Modified")
		if since == "" {
			since = resp.Header.Get("Date")
		}
		hs := []string{"If-Modified-Since: " + since + "\r\n"}
		if tag := resp.Header.Get("ETag"); tag != "" {
			hs = append(hs, "If-None-Match: "+tag+"\r\n", hs[0]+"If-None-Match: "+tag+"\r\n")
		}
		cond[p] = hs
	}
	time.Sleep(2100 * time.Millisecond)
	changed := map[string]bool{}
	for _, p := range plain {
		if chance(t, 60) {
			changed[p] = true
			s.content[served[p]] = s.put(t, filepath.Join(s.dir, served[p]), gen.Pick(t.Rand, 500, 500, 30))
		}
	}
	for _, p := range plain {
		for _, h := range cond[p] {
			method := oneOf(t, "GET", "GET", "HEAD")
			what := fmt.Sprintf("%s %s with %s", method, p, strings.TrimSpace(h))
			resp, body, err := request(method+" "+p+" HTTP/1.1\r\nHost: x\r\nConnection: close\r\n"+h+"\r\n", method)
			if err == nil && resp.StatusCode == http.StatusNotModified {
				t.Eval()
				if changed[p] {
					t.Failf("%s was answered with status 304 although the file has changed", what)
				}
				t.Count("not_modified")
				continue
			}
			s.check(t, what, p, method, "", resp, body, err)
			if changed[p] {
				t.Count("revalidated")
			}
		}
	}
}

// check judges an answer to a request for a path as decoded.
func (s *site) check(t *fw.T, what, path, method, rng string, resp *http.Response, body []byte, err error) {
	t.Eval()
	select {
	case <-s.exited:
		if strings.Contains(s.log.String(), "address already in use") {
			s.c.Fatalf("the port is in use")
		}
		t.Failf("after %s the server ended: %s", what, tailOf(s.log.String()))
	default:
	}
	name, ok := served[path]
	if !ok && err == nil && resp.StatusCode < 300 {
		// another way of writing the path of a file may be understood
		name, ok = served[pathpkg.Clean("/"+path)]
	}
	want := s.content[name]
	if err != nil {
		if name == "index.html" && want == "" {
			t.Count("missing_page") // the connection is closed without an answer
			return
		}
		t.Failf("%s was not answered: %v; %s", what, err, tailOf(s.log.String()))
	}
	t.Count(fmt.Sprintf("status %d", resp.StatusCode))
	good := resp.StatusCode == 200 || resp.StatusCode == 206
	if !ok || want == "" {
		// OPTIONS * is about the server and has an empty answer
		if resp.StatusCode < 300 && (method == "GET" || method == "HEAD" || len(body) > 0) {
			t.Failf("%s was answered with status %d and %s", what, resp.StatusCode, clip(fmt.Sprintf("%.200q", body)))
		}
		for _, tok := range s.tokens {
			if bytes.Contains(body, []byte(tok)) {
				t.Failf("%s was answered with the contents of a file: %s", what, clip(fmt.Sprintf("%.200q", body)))
			}
		}
		t.Count("refused")
		return
	}
	if !good {
		if method == "GET" || method == "HEAD" {
			t.Failf("%s was answered with status %d, expected the contents of %s", what, resp.StatusCode, name)
		}
		return
	}
	if rng != "" && resp.StatusCode == 206 {
		lo, hi := rangeOf(rng, len(want))
		if got, exp := resp.Header.Get("Content-Range"), fmt.Sprintf("bytes %d-%d/%d", lo, hi, len(want)); got != exp {
			t.Failf("%s was answered with the range %q, expected %q", what, got, exp)
		}
		want = want[lo : hi+1]
		t.Count("ranges")
	}
	if method == "HEAD" {
		if len(body) != 0 || resp.Header.Get("Content-Encoding") == "" && resp.ContentLength != int64(len(want)) {
			t.Failf("%s was answered with a length of %d, expected %d", what, resp.ContentLength, len(want))
		}
	} else if string(body) != want {
		t.Failf("%s was answered with %d bytes %s, expected the %d bytes of %s %s", what, len(body), clip(fmt.Sprintf("%.200q", body)), len(want), name, clip(fmt.Sprintf("%.200q", want)))
	}
	t.Count("served " + name)
}

// rangeOf gives the first and the last byte asked for.
func rangeOf(rng string, size int) (lo, hi int) {
	a, b, _ := strings.Cut(strings.TrimPrefix(rng, "bytes="), "-")
	lo, _ = strconv.Atoi(a)
	hi = size - 1
	if n, err := strconv.Atoi(b); err == nil {
		if a == "" {
			return max(size-n, 0), hi
		}
		hi = min(n, hi)
	}
	return lo, hi
}

func tailOf(s string) string {
	if len(s) > 3000 {
		return "... " + s[len(s)-3000:]
	}
	return s
}

// oddPath makes a request target and the path it stands for.
func oddPath(t *fw.T) string {
	names := []string{"secret.txt", "sub/secret.txt", "main.go", "index.html", "style.css", "hwt.css", "wasm_exec.js", "aqlparse.wasm", "server/main.go", ".hidden", "etc/passwd"}
	n := gen.Pick(t.Rand, names...)
	switch t.Intn(16) {
	case 14: // a served name below a directory
		return "/" + gen.Pick(t.Rand, "no/such/", "sub/", "a/b/c/", "index.html/", "style.css/", "wasm/", "static/", "~/", "%20/", "x//") + gen.Pick(t.Rand, "index.html", "style.css", "hwt.css", "wasm_exec.js", "aqlparse.wasm")
	case 15: // nearly a served name
		n = gen.Pick(t.Rand, "index.html", "style.css", "hwt.css", "wasm_exec.js", "aqlparse.wasm")
		return "/" + gen.Pick(t.Rand, n[1:], n[:len(n)-1], "x"+n, n+"x", strings.TrimSuffix(n, filepath.Ext(n)), n+".gz", n+".bak", "."+n, strings.ToUpper(n[:1])+n[1:], filepath.Ext(n), n+n, strings.ReplaceAll(n, ".", "_"))
	case 0:
		return "/" + n
	case 1:
		return "/" + strings.Repeat("../", 1+t.Intn(6)) + n
	case 2:
		return "/" + strings.Repeat("%2e%2e/", 1+t.Intn(6)) + n
	case 3:
		return "/" + strings.Repeat("..%2f", 1+t.Intn(6)) + strings.ReplaceAll(n, "/", "%2F")
	case 4:
		return "//" + n
	case 5:
		return "/./" + n
	case 6:
		return "/sub/../" + n
	case 7:
		return "/" + n + gen.Pick(t.Rand, "/", "/.", "/..", "%00", "%20", ".", "/index.html", "%2f", "~", "\\", "::$DATA")
	case 8:
		return "/" + strings.ToUpper(n)
	case 9:
		return "/" + strings.ReplaceAll(n, "s", "%73")
	case 10:
		return "/..\\" + n
	case 11:
		return "/%2e" + gen.Pick(t.Rand, "", "%2e", "/", "%2f") + n
	case 12:
		return gen.Pick(t.Rand, "/.", "/..", "/sub", "/sub/", "/%2f", "/%00", "/%", "/%zz", "*", "/index", "/favicon.ico", "/"+strings.Repeat("a/", 300), "/"+strings.Repeat("x", 3000), "/;style.css", "/style.css;x", "/style.css%3f", "/%2e", "/style.css%23")
	}
	return "/style.css%2f..%2f" + n
}

func runServer(c *fw.Ctx) {
	prog := fw.Built(c, "server")
	c.RunSeq("session", c.N(20, 120), func(t *fw.T) {
		base, done := fw.CaseDir(t)
		defer done()
		s := &site{c: c, base: base, dir: filepath.Join(base, oneOf(t, "site", "my site", "sité")), content: map[string]string{}}
		for _, n := range served {
			s.content[n] = s.put(t, filepath.Join(s.dir, n), gen.Pick(t.Rand, 10, 1000, 100000))
		}
		for _, p := range []string{"secret.txt", "sub/secret.txt", "main.go", "server/main.go", ".hidden", "etc/passwd", "sub/style.css", "index.htm"} {
			s.put(t, filepath.Join(s.dir, p), 20)
		}
		cwd := filepath.Join(base, "cwd")
		for _, p := range []string{"secret.txt", "style.css", "index.html", "sub/secret.txt", "aqlparse.wasm", "main.go"} {
			s.put(t, filepath.Join(base, p), 20)
			s.put(t, filepath.Join(cwd, p), 20)
		}
		arg := s.dir
		switch t.Intn(4) {
		case 0:
			arg += "/"
		case 1:
			cwd, arg = s.dir, "."
		case 2:
			arg = "../" + filepath.Base(s.dir)
		}
		files := gen.Pick(t.Rand, 64, 1024)
		t.Note("server with argument %q, at most %d open files", arg, files)
		s.start(t, prog, arg, cwd, files)
		defer s.stop()
		ask := func(method, target, rng, ver string) {
			path := target
			u, err := url.ParseRequestURI(target)
			if err == nil {
				path = u.Path
			}
			what := fmt.Sprintf("%s %s", method, clip(target))
			raw := method + " " + target + " " + ver + "\r\nHost: x\r\nConnection: close\r\n"
			if rng != "" {
				raw += "Range: " + rng + "\r\n"
				what += " " + rng
			}
			if chance(t, 50) {
				more := headers(t)
				if more != "" {
					t.Count("with_headers")
				}
				raw += more
				what += " " + clip(strings.ReplaceAll(more, "\r\n", "; "))
			}
			resp, body, err := request(raw+"\r\n", method)
			s.check(t, what, path, method, rng, resp, body, err)
			t.Distinct(what)
		}
		plain := []string{"/", "/wasm_exec.js", "/hwt.css", "/style.css", "/aqlparse.wasm"}
		var trace []string
		for i, steps := 0, c.N(250, 600); i < steps; i++ {
			kind := t.Intn(20)
			trace = append(trace, itoa(kind))
			switch {
			case kind < 6:
				ask(oneOf(t, "GET", "GET", "HEAD"), oneOf(t, plain...)+oneOf(t, "", "", "?q=1", "?../secret.txt"), "", "HTTP/1.1")
			case kind < 13:
				ask(oneOf(t, "GET", "GET", "GET", "HEAD", "POST", "CONNECT", "OPTIONS", "PUT", "DELETE"), oddPath(t), "", oneOf(t, "HTTP/1.1", "HTTP/1.0"))
			case kind == 13:
				p := oneOf(t, plain...)
				if n := len(s.content[served[p]]); n > 0 {
					lo := t.Intn(n)
					ask("GET", p, oneOf(t, fmt.Sprintf("bytes=%d-%d", lo, lo+t.Intn(2*n)), fmt.Sprintf("bytes=%d-", lo), fmt.Sprintf("bytes=-%d", 1+t.Intn(2*n))), "HTTP/1.1")
				}
			case kind == 14:
				ask("GET", "http://x"+oneOf(t, plain...), "", "HTTP/1.1")
			case kind < 17:
				var names []string
				for _, p := range plain {
					names = append(names, served[p])
				}
				s.renew(t, oneOf(t, names...))
				t.Count("files_changed")
			case kind == 17: // broken clients
				conn, err := net.DialTimeout("tcp", serverAddr, time.Minute)
				if err != nil {
					t.Failf("the server takes no connections: %v", err)
				}
				io.WriteString(conn, oneOf(t, "", "GET", "GET /style.css HTTP/1.1\r\n", "\x16\x03\x01\x02\x00", "GET  / HTTP/9.9\r\n\r\n", "GET /aqlparse.wasm HTTP/1.1\r\nHost: x\r\n\r\n", "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\nab", "GET / HTTP/1.1\r\nHost: x\r\nA: "+strings.Repeat("x", 2000)+"\r\n\r\n", "\x00\x00\x00"))
				conn.Close()
				t.Count("broken_clients")
			case kind == 18: // one connection, several requests
				conn, err := net.DialTimeout("tcp", serverAddr, time.Minute)
				if err != nil {
					t.Failf("the server takes no connections: %v", err)
				}
				conn.SetDeadline(time.Now().Add(2 * time.Minute))
				r := bufio.NewReader(conn)
				for k := 1 + t.Intn(5); k > 0; k-- {
					p := oneOf(t, append([]string{"/secret.txt", "/nothing"}, plain...)...)
					if s.content["index.html"] == "" && p == "/" {
						continue
					}
					_, err := io.WriteString(conn, "GET "+p+" HTTP/1.1\r\nHost: x\r\n\r\n")
					var resp *http.Response
					var body []byte
					if err == nil {
						resp, err = http.ReadResponse(r, &http.Request{Method: "GET"})
					}
					if err == nil {
						body, err = io.ReadAll(resp.Body)
					}
					s.check(t, "GET "+p+" on a kept connection", p, "GET", "", resp, body, err)
					t.Count("kept_connection")
				}
				conn.Close()
			case kind == 19: // at the same time
				var wg sync.WaitGroup
				type answer struct {
					path string
					resp *http.Response
					body []byte
					err  error
				}
				ch := make([]answer, 8)
				for k := range ch {
					ch[k].path = oneOf(t, append([]string{"/secret.txt", "/nothing", "/sub/secret.txt"}, plain...)...)
					wg.Add(1)
					go func(a *answer) {
						defer wg.Done()
						a.resp, a.body, a.err = request("GET "+a.path+" HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", "GET")
					}(&ch[k])
				}
				wg.Wait()
				for _, a := range ch {
					s.check(t, "GET "+a.path+" among others", a.path, "GET", "", a.resp, a.body, a.err)
					t.Count("parallel")
				}
			}
		}
		// everything is still there
		for n := range s.content {
			s.content[n] = s.put(t, filepath.Join(s.dir, n), 500)
		}
		for _, p := range plain {
			ask("GET", p, "", "HTTP/1.1")
		}
		if mustIndex(t.Key)%2 == 0 {
			s.revalidate(t, plain)
		}
		if strings.Contains(s.log.String(), "DATA RACE") {
			t.Failf("data race in the server: %s", tailOf(s.log.String()))
		}
		t.Count("sessions")
		t.Sample(map[string]any{"argument": arg, "open_files": files, "steps": strings.Join(trace[:min(len(trace), 60)], " ")})
	})
	// the same request many times with few files to spare
	c.RunSeq("patience", c.N(2, 8), func(t *fw.T) {
		base, done := fw.CaseDir(t)
		defer done()
		s := &site{c: c, base: base, dir: filepath.Join(base, "site"), content: map[string]string{}}
		for _, n := range served {
			s.content[n] = s.put(t, filepath.Join(s.dir, n), 3000)
		}
		s.start(t, prog, s.dir, base, 40)
		defer s.stop()
		for _, p := range []string{"/", "/wasm_exec.js", "/hwt.css", "/style.css", "/aqlparse.wasm", "/nothing", "/index.html", "/../secret.txt"} {
			for i := 0; i < 120; i++ {
				m := oneOf(t, "GET", "HEAD")
				resp, body, err := request(m+" "+p+" HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", m)
				s.check(t, fmt.Sprintf("%s %s, time %d,", m, p, i), p, m, "", resp, body, err)
				t.Count("repeated")
			}
		}
	})
	// without usable arguments it fails
	c.RunSeq("arguments", 2, func(t *fw.T) {
		dir, done := fw.CaseDir(t)
		defer done()
		args := []string{}
		if t.Key == "arguments/1" {
			args = []string{dir, dir}
		}
		o := fw.Process(c, dir, prog, args...)
		t.Eval()
		if o.Code == 0 || strings.TrimSpace(o.Stderr) == "" {
			t.Failf("with %d arguments: status %d, %q", len(args), o.Code, o.Stderr)
		}
	})
	c.Require("revalidated", 5)
	c.Require("with_headers", 500)
	c.Require("refused", 500)
	c.Require("files_changed", 100)
	c.Require("files_alike", 50)
	c.Require("parallel", 200)
	c.Require("ranges", 20)
	c.Require("repeated", 1000)
	for _, n := range served {
		c.Require("served "+n, 100)
	}
}
