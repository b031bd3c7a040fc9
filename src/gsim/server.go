package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"crypto/sha1"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vsim/rt"
	"vsim/shim/vos"
)

// hosted are the templates of the repository at its first revision.
var hosted = map[string]string{}

// hostedNames are offered to generated commands.
var hostedNames = []string{"log", "retry", "timeout", "ratelimit", "circuitbreaker", "fallback", "validate", "full", "vars", "v2/tiny", "big", "old/templates/tiny"}

func loadHosted(dir string) {
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		if b, err := os.ReadFile(filepath.Join(dir, e.Name())); err == nil {
			hosted[e.Name()] = string(b)
		}
	}
	for _, n := range []string{"full", "vars", "big"} {
		hosted[n] = kit["tpl/"+n+".tpl"]
	}
	hosted["v2/tiny"] = kit["tpl/tiny.tpl"]
	hosted["v2/log"] = kit["tpl/tiny.tpl"] + "// the second log\n"
	// in a folder called like the one of all templates
	hosted["old/templates/tiny"] = kit["tpl/tiny.tpl"] + "// an old one\n"
	hosted["huge"] = kit["tpl/tiny.tpl"] + strings.Repeat("// one of very many lines of a huge template\n", 7000)
	// the templates of the repository under test need not be there
	for _, n := range []string{"log", "retry", "timeout", "ratelimit", "circuitbreaker", "fallback", "validate"} {
		if hosted[n] == "" {
			hosted[n] = kit["tpl/full.tpl"]
		}
	}
}

type commit struct {
	sha   string
	files map[string]string
}

// Server plays GitHub and other hosts.
type Server struct {
	w       *World
	commits []commit // oldest first
	urls    map[string]string
}

func shaOf(n int) string { return fmt.Sprintf("%x", sha1.Sum([]byte(fmt.Sprint("commit ", n)))) }

func newServer(w *World) *Server {
	s := &Server{w: w, urls: map[string]string{}}
	s.add(hosted)
	for _, n := range []string{"full", "vars", "tiny", "imports", "import", "failmid", "parse"} {
		s.urls["https://tpl.example/t/"+n+".tpl"] = kit["tpl/"+n+".tpl"]
	}
	s.urls["http://plain.example:8080/full?rev=3&x=y"] = kit["tpl/full.tpl"] + "// over plain HTTP\n"
	s.urls["https://raw.githubusercontent.com/someone/else/main/full"] = kit["tpl/full.tpl"] + "// by someone else\n"
	s.urls["https://user@tpl.example/a%20b/full.tpl#frag"] = kit["tpl/full.tpl"] + "// odd URL\n"
	return s
}

func (s *Server) head() map[string]string { return s.commits[len(s.commits)-1].files }

func (s *Server) add(files map[string]string) {
	c := make(map[string]string, len(files))
	for k, v := range files {
		c[k] = v
	}
	s.commits = append(s.commits, commit{shaOf(len(s.commits)), c})
}

// change makes a new revision: "edit:NAME", "remove:NAME", "add:NAME" or "other".
func (s *Server) change(ev string) {
	if ev == "" {
		return
	}
	for _, e := range strings.Split(ev, ",") {
		s.add(s.head())
		h := s.head()
		op, name, _ := strings.Cut(e, ":")
		switch op {
		case "edit":
			if h[name] != "" {
				h[name] += fmt.Sprintf("// edited in revision %d\n", len(s.commits))
			}
		case "remove":
			delete(h, name)
		case "add":
			h[name] = kit["tpl/tiny.tpl"]
		case "other":
			h["zz_other"] = fmt.Sprint(len(s.commits))
		}
		rt.Note("server: %s -> %s", e, s.commits[len(s.commits)-1].sha[:7])
	}
}

// changed lists the revisions that changed a file, newest first.
func (s *Server) changed(name string) []string {
	var r []string
	for i := len(s.commits) - 1; i >= 0; i-- {
		now, in := s.commits[i].files[name]
		var before string
		var was bool
		if i > 0 {
			before, was = s.commits[i-1].files[name]
		}
		if in != was || now != before {
			r = append(r, s.commits[i].sha)
		}
	}
	return r
}

func names(files map[string]string) []string {
	var r []string
	for n := range files {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func dirsOf(name string) []string {
	var r []string
	for i := range name {
		if name[i] == '/' {
			r = append(r, name[:i])
		}
	}
	return r
}

// tree entries below templates/, directories included, as GitHub lists them
func (s *Server) tree() []string {
	set := map[string]bool{}
	for n := range s.head() {
		set[n] = true
		for _, d := range dirsOf(n) {
			set[d] = true
		}
	}
	var r []string
	for n := range set {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func obj(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// answer is the response the server would give without faults.
func (s *Server) answer(req *http.Request) (status int, body string, isJSON bool) {
	u := *req.URL
	u.Host = strings.TrimPrefix(u.Host, "mirror.")
	if req.Method != "GET" && req.Method != "HEAD" {
		return 405, "method not allowed", false
	}
	const repo = "hexdigest/gowrap"
	switch {
	case u.Host == "api.github.com" && u.Path == "/repos/"+repo+"/commits":
		q := u.Query()
		n := 30
		if k, err := strconv.Atoi(q.Get("per_page")); err == nil && k > 0 {
			n = k
		}
		p := q.Get("path")
		l := []any{}
		name := strings.TrimPrefix(p, "templates/")
		var shas []string
		if name != p && name != "" {
			shas = s.changed(name)
		} else {
			for i := len(s.commits) - 1; i >= 0; i-- {
				shas = append(shas, s.commits[i].sha)
			}
		}
		if rt.Choose(4) == 1 {
			n = 30 // some servers ignore what they do not know
		}
		for i, sha := range shas {
			if i == n {
				break
			}
			l = append(l, map[string]any{"sha": sha, "node_id": "C_" + sha[:6], "commit": map[string]any{"message": "change templates", "tree": map[string]any{"sha": shaOf(1000 + i)}}, "parents": []any{map[string]any{"sha": shaOf(2000 + i)}}})
		}
		return 200, obj(l), true
	case u.Host == "api.github.com" && strings.HasPrefix(u.Path, "/repos/"+repo+"/git/trees/"):
		t := []any{map[string]any{"path": "README.md", "type": "blob", "sha": shaOf(3)}, map[string]any{"path": "generator/templates/x.go", "type": "blob"}, map[string]any{"path": "templates", "type": "tree", "sha": shaOf(4)}}
		for _, n := range s.tree() {
			t = append(t, map[string]any{"path": "templates/" + n, "mode": "100644", "type": "blob", "sha": shaOf(5), "size": 1})
		}
		if k := []int{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 40, 600, 5000}[rt.Choose(13)]; k > 0 {
			// a large repository; the rest of the templates' directory comes last
			for i := 0; i < k; i++ {
				t = append(t, map[string]any{"path": fmt.Sprintf("templates_tests/generated/%05d.go", i), "type": "blob", "sha": shaOf(5)})
			}
			t[3], t[len(t)-1] = t[len(t)-1], t[3]
		}
		t = append(t, map[string]any{"path": "templates_tests", "type": "tree"}, map[string]any{"path": "templates_tests/fallback.go", "type": "blob"}, map[string]any{"path": "tools/templates/y", "type": "blob"})
		return 200, obj(map[string]any{"sha": s.commits[len(s.commits)-1].sha, "url": u.String(), "tree": t, "truncated": false}), true
	case u.Host == "raw.githubusercontent.com" && strings.HasPrefix(u.Path, "/"+repo+"/"):
		rest := strings.TrimPrefix(u.Path, "/"+repo+"/")
		sha, file, _ := strings.Cut(rest, "/")
		name := strings.TrimPrefix(file, "templates/")
		for i := len(s.commits) - 1; i >= 0 && name != file; i-- {
			c := s.commits[i]
			if c.sha != sha && !(i == len(s.commits)-1 && (sha == "master" || sha == "HEAD" || sha == "main")) {
				continue
			}
			if b, ok := c.files[name]; ok {
				return 200, b, false
			}
		}
		return 404, "404: Not Found", false
	}
	for url, b := range s.urls {
		r, err := http.NewRequest("GET", url, nil)
		if err == nil && r.URL.Scheme == u.Scheme && r.URL.Host == u.Host && r.URL.EscapedPath() == u.EscapedPath() && r.URL.RawQuery == u.RawQuery {
			return 200, b, false
		}
	}
	return 404, "<html>no such page</html>", false
}

// Served is a response as the client got to see it.
type Served struct {
	task   any
	at     int64
	url    string
	status int
	body   string // complete content
	whole  bool   // 200, and complete without errors
	isJSON bool
	opened bool
	closed bool
	eof    bool
	fail   bool // reading fails
}

type netFault struct {
	mode string
}

func (n netFault) Error() string { return n.mode }

var netModes = []string{"refused", "500", "truncated", "404", "reset", "403", "half", "429", "206", "502", "close-error", "noloc", "redirect", "garbage", "cutjson", "eof", "emptyjson", "204", "slow", "202", "500-same", "timeout", "nullsha", "hollow", "reset-before", "cancelled", "deadline"}

// RoundTrip implements http.RoundTripper.
func (s *Server) RoundTrip(req *http.Request) (*http.Response, error) {
	if rt.S == nil {
		return nil, errors.New("no network")
	}
	w := s.w
	var resp *http.Response
	mode := ""
	e := vos.Do("net", "GET "+req.URL.String(), func() error { return nil })
	if e != nil {
		var nf netFault
		if !errors.As(e, &nf) {
			return nil, e
		}
		mode = nf.mode
	}
	d := int64(5e6) + int64(rt.Choose(20))*int64(10e6)
	if mode == "slow" {
		d += int64(45 * time.Second)
	}
	for i := int64(0); i < 8; i++ {
		rt.Sleep(d/8 + 1)
		if err := req.Context().Err(); err != nil {
			return nil, err
		}
	}
	switch mode {
	case "refused":
		return nil, &netError{"dial tcp", syscall.ECONNREFUSED}
	case "timeout":
		return nil, &netError{"read tcp", errors.New("i/o timeout")}
	case "deadline":
		return nil, &netError{"read tcp", os.ErrDeadlineExceeded}
	case "cancelled":
		return nil, &netError{"dial tcp", context.DeadlineExceeded}
	case "eof":
		return nil, io.EOF // the server closes the connection without a response
	case "reset-before":
		return nil, pick[error](int(rt.Choose(4)), error(syscall.ECONNRESET), net.ErrClosed, io.ErrUnexpectedEOF, syscall.EPIPE)
	}
	status, text, isJSON := s.answer(req)
	sv := &Served{task: rt.Tag(), at: rt.Seq(), url: req.URL.String(), isJSON: isJSON, opened: true}
	hdr := http.Header{}
	var cut = -1
	var cutErr error
	closeErr := false
	switch mode {
	case "500", "404", "403", "429", "502", "202":
		status, _ = strconv.Atoi(mode)
		text = map[string]string{"403": `{"message":"API rate limit exceeded"}`, "429": "slow down", "500": "internal error", "404": "404: Not Found", "502": "<html>bad gateway</html>"}[mode]
	case "500-same":
		status = 500
	case "204":
		status, text = 204, ""
	case "206":
		status, text = 206, text[:len(text)/2]
	case "truncated":
		cut, cutErr = len(text)*2/3, io.ErrUnexpectedEOF
	case "half":
		cut, cutErr = len(text)/2, io.ErrUnexpectedEOF
	case "hollow":
		cut, cutErr = 0, io.ErrUnexpectedEOF
	case "reset":
		cut, cutErr = len(text)/3, &netError{"read tcp", syscall.ECONNRESET}
	case "close-error":
		closeErr = true
	case "noloc":
		status, text = 301, "moved"
	case "redirect":
		if !strings.HasPrefix(req.URL.Host, "mirror.") {
			status, text = 302, "found"
			u := *req.URL
			u.Host = "mirror." + u.Host
			u.User = nil
			hdr.Set("Location", u.String())
		}
	case "garbage":
		if isJSON {
			text = "<html>unicorn</html>"
		} else {
			cut, cutErr = len(text)/2, io.ErrUnexpectedEOF
		}
	case "cutjson":
		if isJSON {
			text = text[:len(text)*3/4]
		} else {
			status, text = 503, ""
		}
	case "emptyjson":
		if isJSON {
			text = "[]"
		} else {
			status, text = 404, ""
		}
	case "nullsha":
		if isJSON {
			text = `[{"sha":""}]`
		} else {
			status, text = 410, "gone"
		}
	}
	sent := text
	if status == 200 && cut < 0 {
		// what servers do when they are asked to
		tag := fmt.Sprintf(`"%x"`, sha1.Sum([]byte(text)))
		hdr.Set("ETag", tag)
		hdr.Set("Last-Modified", "Mon, 02 Jan 2006 15:04:05 GMT")
		switch {
		case req.Header.Get("If-None-Match") == tag || req.Header.Get("If-None-Match") == "" && req.Header.Get("If-Modified-Since") != "":
			status, text, sent = 304, "", ""
		case strings.HasPrefix(req.Header.Get("Range"), "bytes="):
			var from, to int
			if n, _ := fmt.Sscanf(req.Header.Get("Range"), "bytes=%d-%d", &from, &to); n > 0 && from < len(text) {
				if n == 1 || to >= len(text) {
					to = len(text) - 1
				}
				hdr.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", from, to, len(text)))
				status = 206
				text = text[from : to+1]
				sent = text
			}
		case strings.Contains(req.Header.Get("Accept-Encoding"), "gzip"):
			hdr.Set("Content-Encoding", "gzip")
			var z bytes.Buffer
			gz := gzip.NewWriter(&z)
			gz.Write([]byte(text))
			gz.Close()
			sent = z.String()
		}
		if req.Method == "HEAD" {
			sent = ""
		}
	}
	sv.status, sv.body = status, text
	sv.whole = status == 200 && cut < 0 && !closeErr && req.Method == "GET"
	sv.fail = cut >= 0
	w.served = append(w.served, sv)
	hdr.Set("Content-Type", "text/plain; charset=utf-8")
	resp = &http.Response{Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: hdr, Request: req, ContentLength: int64(len(sent))}
	if rt.Choose(3) == 1 {
		resp.ContentLength = -1
	}
	resp.Body = &body{s: s, sv: sv, r: bytes.NewReader([]byte(sent)), cut: cut, cutErr: cutErr, closeErr: closeErr, chunk: []int{max(4096, len(text)/20), max(1000, len(text)/50), len(text)/4 + 1, len(text)/9 + 1}[rt.Choose(4)]}
	rt.Note("server: %s -> %d %s %d bytes", req.URL, status, mode, len(text))
	return resp, nil
}

type netError struct {
	op  string
	err error
}

func (e *netError) Error() string   { return e.op + ": " + e.err.Error() }
func (e *netError) Unwrap() error   { return e.err }
func (e *netError) Timeout() bool   { return strings.Contains(e.err.Error(), "timeout") }
func (e *netError) Temporary() bool { return true }

type body struct {
	s        *Server
	sv       *Served
	r        *bytes.Reader
	n        int
	cut      int
	cutErr   error
	closeErr bool
	chunk    int
}

func (b *body) Read(p []byte) (n int, err error) {
	if rt.S == nil {
		return 0, errors.New("no network")
	}
	if b.sv.closed {
		return 0, errors.New("http: read on closed response body")
	}
	e := vos.Do("body", b.sv.url, func() error {
		if len(p) > b.chunk {
			p = p[:b.chunk]
		}
		if b.cut >= 0 && b.n+len(p) > b.cut {
			p = p[:max(0, b.cut-b.n)]
			if len(p) == 0 {
				err = b.cutErr
				return nil
			}
		}
		n, err = b.r.Read(p)
		b.n += n
		return nil
	})
	if e != nil {
		b.sv.fail, b.sv.whole = true, false
		return 0, e
	}
	if err == io.EOF {
		b.sv.eof = true
	}
	if b.n > 0 && rt.Choose(8) == 1 {
		rt.Sleep(int64(20e6))
	}
	return n, err
}

func (b *body) Close() error {
	if rt.S == nil {
		return nil
	}
	b.sv.closed = true
	e := vos.Do("bodyclose", b.sv.url, func() error { return nil })
	if e != nil || b.closeErr {
		b.sv.whole = false
		return errors.New("http: connection broken while closing")
	}
	return nil
}
