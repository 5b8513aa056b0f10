package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/256dpi/oauth2/v2"
)

// netCall is one call of a client with the fault that hits it and everything
// that was observed about it on both sides.
type netCall struct {
	n     int
	kind  string
	fault string
	at    int // byte at which a connection breaks
	reset bool
	desc  string

	trips  atomic.Int64 // requests handed to the transport
	execs  atomic.Int64 // executions by the server
	began  atomic.Bool  // reached the server
	mu     sync.Mutex
	recv   []byte // what the client received
	status int    // what the server answered
	body   []byte
	over   chan struct{} // the client is done
	done   chan struct{} // the server is done
}

// netWorker is a client with credentials of its own.
type netWorker struct {
	id, secret string
	site       *netSite
	r          *rand.Rand
	transport  *http.Transport
	cur        atomic.Pointer[netCall]
	client     *oauth2.Client
	log        []string

	access, refresh, spent, dead []string
}

type netSite struct {
	c       *Case
	srv     *oauth2.Server
	http    *httptest.Server
	life    time.Duration
	rlife   time.Duration
	workers map[string]*netWorker
	calls   sync.Map
	n       atomic.Int64
	failed  atomic.Bool
}

// netConn is the client's end of a connection.
type netConn struct {
	net.Conn
	w       *netWorker
	mu      sync.Mutex
	call    *netCall // the call written last
	written int
	read    int
	broken  bool
}

func (c *netConn) hangup(reset bool) {
	if t, ok := c.Conn.(*net.TCPConn); ok && reset {
		_ = t.SetLinger(0)
	}
	_ = c.Conn.Close()
}

func (c *netConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if cur := c.w.cur.Load(); cur != nil && cur != c.call {
		c.call, c.written, c.read = cur, 0, 0
	}
	cur := c.call
	if cur == nil {
		return c.Conn.Write(p)
	}
	switch cur.fault {
	case "request breaks":
		if c.written+len(p) > cur.at {
			n, _ := c.Conn.Write(p[:max(0, cur.at-c.written)])
			c.written += n
			c.hangup(cur.reset)
			return n, syscall.EPIPE
		}
	case "fragments":
		for i := 0; i < len(p); {
			n, err := c.Conn.Write(p[i:min(len(p), i+1+cur.at%97)])
			i += n
			c.written += n
			if err != nil {
				return i, err
			}
		}
		return len(p), nil
	}
	n, err := c.Conn.Write(p)
	c.written += n
	return n, err
}

func (c *netConn) Read(p []byte) (int, error) {
	if cur := c.w.cur.Load(); cur != nil && cur.fault == "fragments" {
		p = p[:min(len(p), 1+cur.at%13)]
	}
	n, err := c.Conn.Read(p)
	c.mu.Lock()
	defer c.mu.Unlock()
	cur := c.call
	if cur == nil {
		return n, err
	}
	if cur.fault == "answer breaks" && (c.broken || c.read+n > cur.at) {
		if !c.broken {
			c.broken = true
			c.hangup(cur.reset)
			n = max(0, cur.at-c.read)
			c.read += n
			cur.keep(p[:n])
			if n > 0 {
				return n, nil
			}
		}
		if cur.reset {
			return 0, syscall.ECONNRESET
		}
		return 0, io.EOF
	}
	c.read += n
	cur.keep(p[:n])
	return n, err
}

func (c *netCall) keep(p []byte) {
	c.mu.Lock()
	c.recv = append(c.recv, p...)
	c.mu.Unlock()
}

// netRouter hands every request to the transport of the worker that sent it.
type netRouter struct{ s *netSite }

func (t netRouter) RoundTrip(req *http.Request) (*http.Response, error) {
	id, _, _ := req.BasicAuth()
	w := t.s.workers[strings.TrimSuffix(id, "?")]
	if w == nil {
		return nil, errors.New("unknown worker")
	}
	cur := w.cur.Load()
	cur.trips.Add(1)
	out := req.Clone(req.Context())
	out.Header.Set("X-Call", strconv.Itoa(cur.n))
	if strings.HasPrefix(cur.fault, "stall") {
		ctx, cancel := context.WithTimeout(req.Context(), time.Duration(5+cur.at%20)*time.Millisecond)
		time.AfterFunc(5*time.Second, cancel)
		out = out.WithContext(ctx)
	}
	return w.transport.RoundTrip(out)
}

func (s *netSite) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	n, _ := strconv.Atoi(r.Header.Get("X-Call"))
	v, ok := s.calls.Load(n)
	if !ok {
		s.srv.ServeHTTP(w, r)
		return
	}
	call := v.(*netCall)
	if !call.began.Swap(true) {
		defer close(call.done)
	}
	hijack := func(data []byte) {
		conn, rw, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		if len(data) > 0 {
			_, _ = rw.Write(data)
			_ = rw.Flush()
		}
		if t, ok := conn.(*net.TCPConn); ok && call.reset {
			_ = t.SetLinger(0)
		}
		_ = conn.Close()
	}
	switch call.fault {
	case "dropped before":
		hijack(nil)
		return
	case "stall before":
		select {
		case <-call.over:
		case <-time.After(5 * time.Second):
		}
		return
	case "gateway":
		code := []int{502, 503, 504, 500, 404, 200, 200, 200}[call.at%8]
		typ := []string{"text/html", "application/json", "text/plain"}[call.at/8%3]
		w.Header().Set("Content-Type", typ)
		w.WriteHeader(code)
		_, _ = w.Write([]byte([]string{"<html>Bad Gateway</html>", "", "{\"access_token\":", "upstream timed out", "[]"}[call.at/24%5]))
		return
	}
	rec := NewRecorder()
	call.execs.Add(1)
	s.srv.ServeHTTP(rec, r)
	rec.Finish()
	call.mu.Lock()
	call.status, call.body = rec.Status, rec.Body.Bytes()
	call.mu.Unlock()
	switch call.fault {
	case "cut", "cut chunked", "cut unsized":
		var b bytes.Buffer
		fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", rec.Status, http.StatusText(rec.Status))
		_ = rec.Sent.Write(&b)
		b.WriteString("Connection: close\r\n")
		body := rec.Body.Bytes()
		switch call.fault {
		case "cut":
			fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body))
			b.Write(body)
		case "cut chunked":
			b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
			for len(body) > 0 {
				k := min(len(body), 1+call.at%29)
				fmt.Fprintf(&b, "%x\r\n%s\r\n", k, body[:k])
				body = body[k:]
			}
			b.WriteString("0\r\n\r\n")
		default:
			b.WriteString("\r\n")
			b.Write(body)
		}
		all := b.Bytes()
		hijack(all[:call.at%(len(all)+1)])
		return
	case "dropped after":
		hijack(nil)
		return
	case "stall after":
		select {
		case <-call.over:
		case <-time.After(5 * time.Second):
		}
		return
	case "abort":
		for k, v := range rec.Sent {
			w.Header()[k] = v
		}
		body := rec.Body.Bytes()
		w.Header().Set("Content-Length", strconv.Itoa(len(body)+1+call.at%7))
		w.WriteHeader(rec.Status)
		_, _ = w.Write(body[:call.at%(len(body)+1)])
		if f, ok := w.(http.Flusher); ok && call.at%2 == 0 {
			f.Flush()
		}
		panic(http.ErrAbortHandler)
	}
	for k, v := range rec.Sent {
		w.Header()[k] = v
	}
	w.WriteHeader(rec.Status)
	_, _ = w.Write(rec.Body.Bytes())
}

// received takes apart what arrived at the client.
func received(data []byte) (header bool, status int, body []byte, complete bool) {
	i := bytes.Index(data, []byte("\r\n\r\n"))
	if i < 0 {
		return false, 0, nil, false
	}
	head := string(data[:i])
	body = data[i+4:]
	f := strings.Fields(head)
	if len(f) > 1 {
		status, _ = strconv.Atoi(f[1])
	}
	low := strings.ToLower(head)
	if strings.Contains(low, "transfer-encoding: chunked") {
		var out []byte
		for {
			line, rest, ok := bytes.Cut(body, []byte("\r\n"))
			if !ok {
				return true, status, append(out, nil...), false
			}
			n, err := strconv.ParseInt(string(line), 16, 32)
			if err != nil {
				return true, status, out, false
			}
			if n == 0 {
				return true, status, out, bytes.HasPrefix(rest, []byte("\r\n"))
			}
			if int64(len(rest)) < n+2 {
				return true, status, append(out, rest[:min(int64(len(rest)), n)]...), false
			}
			out = append(out, rest[:n]...)
			body = rest[n+2:]
		}
	}
	if j := strings.Index(low, "content-length:"); j >= 0 {
		line, _, _ := strings.Cut(low[j+len("content-length:"):], "\r\n")
		n, _ := strconv.Atoi(strings.TrimSpace(line))
		return true, status, body[:min(n, len(body))], len(body) >= n
	}
	// the end of the connection is the end of the answer
	return true, status, body, true
}

func (s *netSite) fail(w *netWorker, call *netCall, sig, format string, args ...any) {
	if s.failed.Swap(true) {
		return
	}
	d := map[string]any{"what": fmt.Sprintf(format, args...), "client": w.id, "calls": w.log}
	if call != nil {
		call.mu.Lock()
		d["call"] = fmt.Sprintf("%s, fault %q at %d (reset %v)", call.desc, call.fault, call.at, call.reset)
		d["received"] = fmt.Sprintf("%.2000q", call.recv)
		d["answered"] = fmt.Sprintf("%d %.2000q", call.status, call.body)
		call.mu.Unlock()
		d["executions"] = call.execs.Load()
	}
	s.c.Violate(sig, d)
}

func (w *netWorker) inspect(tok, hint string) *Outcome {
	f := url.Values{"token": {tok}}
	if hint != "" {
		f.Set("token_type_hint", hint)
	}
	q := &Wire{Method: "POST", Path: "/oauth2/introspect", Form: f, HasAuth: true, Auth: basic(w.id, w.secret)}
	return exchange(w.site.srv, q.Request(), NewRecorder())
}

func (w *netWorker) opens(tok string, scope oauth2.Scope) bool {
	q := &Wire{Method: "GET", Path: "/api", NoForm: true, HasAuth: true, Auth: "Bearer " + tok}
	rec := NewRecorder()
	return w.site.srv.Authorize(rec, q.Request(), scope)
}

var netFaults = []string{"none", "none", "none", "fragments", "refused", "request breaks", "request breaks", "answer breaks", "answer breaks", "answer breaks",
	"dropped before", "dropped after", "cut", "cut", "cut", "cut chunked", "cut unsized", "abort", "gateway", "stall before", "stall after"}

// call makes one call and judges it.
func (w *netWorker) call(fault string) {
	s, r := w.site, w.r
	call := &netCall{n: int(s.n.Add(1)), fault: fault, at: r.IntN(700), reset: r.IntN(2) == 0, done: make(chan struct{}), over: make(chan struct{})}
	if fault == "answer breaks" && r.IntN(4) == 0 {
		call.at = 0
	}
	if fault == "request breaks" && r.IntN(6) == 0 {
		call.at = 0
	}
	s.calls.Store(call.n, call)
	defer s.calls.Delete(call.n)
	id, secret := w.id, w.secret
	if chance(r, 0.08) {
		secret = near(r, secret)
	}
	some := func(lists ...[]string) string {
		for range 4 {
			if l := pick(r, lists); len(l) > 0 {
				return pick(r, l)
			}
		}
		return ""
	}
	w.cur.Store(call)
	before := time.Now()
	var err error
	var tr *oauth2.TokenResponse
	var ir *oauth2.IntrospectionResponse
	tok, hint := "", ""
	switch k := r.IntN(10); {
	case k < 3:
		call.kind = "token"
		rq := oauth2.TokenRequest{GrantType: "password", ClientID: id, ClientSecret: secret, Username: "user " + w.id, Password: "p&=" + w.id, Scope: pick(r, []oauth2.Scope{nil, {"foo"}, {"bar", "foo"}, {"a/b:c", "foo"}})}
		if chance(r, 0.12) {
			rq.Password = near(r, rq.Password)
		}
		if chance(r, 0.12) {
			rq.Scope = oauth2.Scope{"foo", "none"}
		}
		if chance(r, 0.3) {
			rq.GrantType, rq.Username, rq.Password = "client_credentials", "", ""
		}
		if chance(r, 0.04) {
			rq.GrantType = "unknown"
		}
		call.desc = fmt.Sprintf("%s grant", rq.GrantType)
		tr, err = w.client.Authenticate(rq)
	case k < 6 && len(w.refresh)+len(w.spent) > 0:
		call.kind = "token"
		tok = some(w.refresh, w.refresh, w.spent)
		if tok == "" {
			tok = "malformed"
		}
		call.desc = "refresh of " + tok
		tr, err = w.client.Authenticate(oauth2.TokenRequest{GrantType: "refresh_token", ClientID: id, ClientSecret: secret, RefreshToken: tok})
	case k < 8:
		call.kind = "introspect"
		tok = some(w.access, w.refresh, w.spent, w.dead)
		if tok == "" || chance(r, 0.05) {
			tok = pick(r, []string{"malformed", s.srv.Config.MustGenerate().String()})
		}
		if chance(r, 0.1) {
			hint = "unknown"
		}
		call.desc = "introspection of " + tok
		ir, err = w.client.Introspect(oauth2.IntrospectionRequest{ClientID: id, ClientSecret: secret, Token: tok, TokenTypeHint: hint})
	default:
		call.kind = "revoke"
		tok = some(w.access, w.refresh, w.dead)
		if tok == "" || chance(r, 0.05) {
			tok = pick(r, []string{"malformed", s.srv.Config.MustGenerate().String()})
		}
		if chance(r, 0.1) {
			hint = "unknown"
		}
		call.desc = "revocation of " + tok
		err = w.client.Revoke(oauth2.RevocationRequest{ClientID: id, ClientSecret: secret, Token: tok, TokenTypeHint: hint})
	}
	c, after := s.c, time.Now()
	w.cur.Store(nil)
	close(call.over)
	if call.fault != "none" {
		w.transport.CloseIdleConnections()
	}
	// a request that arrived is executed before its outcome is looked at
	if call.fault != "refused" {
		wait := 2 * time.Second
		if call.fault == "request breaks" || strings.HasPrefix(call.fault, "stall") {
			wait = 3 * time.Millisecond
		}
		select {
		case <-call.done:
		case <-time.After(wait):
			if call.began.Load() {
				<-call.done
			} else {
				if wait > time.Second {
					c.Count("calls that never arrived", 1)
				}
				// it may still be executed later, so nothing is known about its token
				w.access, w.refresh = without(w.access, tok), without(w.refresh, tok)
				c.Count("calls whose execution remained unknown", 1)
			}
		}
	}
	call.mu.Lock()
	recv, status, body := append([]byte(nil), call.recv...), call.status, append([]byte(nil), call.body...)
	call.mu.Unlock()
	w.log = append(w.log, fmt.Sprintf("%s [%s at %d] -> error %v, answered %d", call.desc, call.fault, call.at, err, status))
	c.Count("calls", 1)
	c.Count("fault "+call.fault, 1)
	fail := func(sig, format string, args ...any) { s.fail(w, call, sig, format, args...) }
	if n := call.trips.Load(); n != 1 {
		fail("sent again", "the call was handed to the transport %d times", n)
		return
	}
	if n := call.execs.Load(); n > 1 {
		fail("executed again", "the call was executed %d times", n)
		return
	}
	var doc map[string]any
	_ = json.Unmarshal(body, &doc)
	// learn what became of the credentials
	if status == 200 && call.kind == "token" {
		if strings.HasPrefix(call.desc, "refresh of") {
			w.refresh = without(w.refresh, tok)
			w.spent = append(w.spent, tok)
		}
		if v, _ := doc["access_token"].(string); v != "" {
			w.access = append(w.access, v)
		}
		if v, _ := doc["refresh_token"].(string); v != "" {
			w.refresh = append(w.refresh, v)
		}
	}
	if status == 200 && call.kind == "revoke" {
		for _, l := range []*[]string{&w.access, &w.refresh} {
			if n := without(*l, tok); len(n) < len(*l) {
				*l = n
				w.dead = append(w.dead, tok)
			}
		}
	}
	if err != nil {
		var to net.Error
		if errors.As(err, &to) && to.Timeout() && !strings.HasPrefix(call.fault, "stall") {
			c.Count("unexpected timeouts", 1)
			return
		}
	}
	head, rstatus, rbody, complete := received(recv)
	c.Eval(fmt.Sprint(call.kind, call.fault, status, len(recv), err == nil))
	if err == nil {
		c.Count("successful calls", 1)
		// a success needs the whole answer
		switch {
		case call.kind == "revoke" && call.fault == "gateway" && rstatus == 200:
			// any answer of this status confirms a revocation
			return
		case status != 200 || call.execs.Load() != 1:
			fail("success without answer", "the call succeeded although the server did not execute it successfully")
			return
		case !head || rstatus != 200 || call.kind != "revoke" && (!complete || !json.Valid(rbody)):
			fail("partial success", "the call succeeded although the answer did not arrive completely (%d bytes)", len(recv))
			return
		}
	} else {
		c.Count("failed calls", 1)
		if tr != nil || ir != nil {
			fail("result with error", "the call returned a result together with an error")
			return
		}
		transparent := call.fault == "none" || call.fault == "fragments" || !call.reset && head && complete && len(rbody) == len(body) && strings.HasPrefix(call.fault, "cut")
		if transparent && status == 200 {
			fail("healthy call failed", "the call failed although the server executed it and its whole answer arrived: %v", err)
			return
		}
		if transparent && status != 200 {
			e, ok := err.(*oauth2.Error)
			name, _ := doc["error"].(string)
			desc, _ := doc["error_description"].(string)
			if !ok || e.Name != name || e.Description != desc || e.Status != status {
				fail("refusal changed", "the refusal was returned as %#v", err)
				return
			}
			c.Count("refusals compared", 1)
		}
		if status == 200 {
			c.Count("executed calls whose answer was lost", 1)
		}
		return
	}
	// what was returned is what the server holds
	switch call.kind {
	case "token":
		o := w.inspect(tr.AccessToken, "access_token")
		exp, _ := o.JSON["exp"].(float64)
		user := ""
		if strings.HasPrefix(call.desc, "password") {
			user = "user " + w.id
		}
		lo, hi := before.Add(s.life).Unix(), after.Add(s.life).Unix()
		switch {
		case tr.AccessToken == "" || o.Status != 200 || o.JSON["active"] != true:
			fail("access token not live", "the returned access token is reported as %s", o)
		case o.Str("client_id") != w.id || user != "" && o.Str("username") != user:
			fail("attributes", "the returned access token belongs to %s", o)
		case !sameSet(names(o.Str("scope")), tr.Scope) || !reflect.DeepEqual(oauth2.ParseScope(o.Str("scope")).String(), tr.Scope.String()):
			fail("scope", "the returned scope is %q, the server holds %q", tr.Scope, o.Str("scope"))
		case int64(exp) < lo || int64(exp) > hi+1 || tr.ExpiresIn != int(s.life/time.Second):
			fail("expiry", "the returned lifetime is %d, the server holds the expiry %v, expected %d-%d", tr.ExpiresIn, exp, lo, hi)
		case !w.opens(tr.AccessToken, tr.Scope):
			fail("access token refused", "the returned access token does not open a resource")
		case tr.RefreshToken != "" && w.inspect(tr.RefreshToken, "refresh_token").JSON["active"] != true:
			fail("refresh token not live", "the returned refresh token is reported as %s", w.inspect(tr.RefreshToken, ""))
		case doc["access_token"] != tr.AccessToken || tr.RefreshToken != fmt.Sprint(or(doc["refresh_token"], "")) || doc["token_type"] != tr.TokenType:
			fail("values", "the answer was returned as %+v", tr)
		}
		c.Count("returned tokens found live", 1)
	case "introspect":
		o := w.inspect(tok, "")
		exp, _ := o.JSON["exp"].(float64)
		if o.Status != 200 || o.JSON["active"] != ir.Active || o.Str("client_id") != ir.ClientID || o.Str("username") != ir.Username || int64(exp) != ir.ExpiresAt || o.Str("token_type") != ir.TokenType || o.Str("scope") != ir.Scope.String() {
			fail("introspection", "returned %+v, the server holds %s", ir, o)
		}
		if live := within(w.access, tok) || within(w.refresh, tok); live != ir.Active {
			fail("introspection", "the token was reported as active=%v", ir.Active)
		}
		c.Count("introspections compared", 1)
	case "revoke":
		if o := w.inspect(tok, ""); o.Status == 200 && o.JSON["active"] == true || w.opens(tok, nil) {
			fail("revocation", "the token is live after its revocation")
		}
		c.Count("revocations compared", 1)
	}
}

func or(v, d any) any {
	if v == nil {
		return d
	}
	return v
}

func within(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func without(l []string, s string) []string {
	var out []string
	for _, x := range l {
		if x != s {
			out = append(out, x)
		}
	}
	return out
}

func network(c *Case) {
	r := c.R
	s := &netSite{c: c, workers: map[string]*netWorker{}, life: time.Duration(1000+r.IntN(100000)) * time.Second, rlife: time.Duration(1000+r.IntN(100000)) * time.Second}
	cfg := oauth2.DefaultServerConfig(rbytes(r, 16), oauth2.Scope{"foo", "bar", "a/b:c"})
	cfg.AccessTokenLifespan, cfg.RefreshTokenLifespan = s.life, s.rlife
	s.srv = oauth2.NewServer(cfg)
	s.http = httptest.NewUnstartedServer(s)
	s.http.Config.ErrorLog = quiet
	s.http.Start()
	defer s.http.Close()
	base := s.http.URL
	shared := oauth2.NewClientWithClient(oauth2.Default(base), &http.Client{Transport: netRouter{s}, Timeout: 20 * time.Second})
	n := 1 + r.IntN(6)
	var list []*netWorker
	for i := 0; i < n; i++ {
		w := &netWorker{id: fmt.Sprintf("client%d", i), secret: "s:" + text(r) + wordn(r, 4), site: s, r: rand.New(rand.NewPCG(r.Uint64(), 2)), client: shared}
		s.srv.Clients[w.id] = &oauth2.ServerEntity{Secret: w.secret, Confidential: true, RedirectURI: "https://app.example/cb"}
		s.srv.Users["user "+w.id] = &oauth2.ServerEntity{Secret: "p&=" + w.id}
		if r.IntN(2) == 0 {
			w.client = oauth2.NewClientWithClient(oauth2.Default(base), &http.Client{Transport: netRouter{s}, Timeout: 20 * time.Second})
		}
		w.transport = &http.Transport{DisableKeepAlives: r.IntN(2) == 0, DisableCompression: r.IntN(2) == 0, DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
			if cur := w.cur.Load(); cur != nil && cur.fault == "refused" {
				return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ECONNREFUSED}
			}
			conn, err := (&net.Dialer{}).DialContext(ctx, network, addr)
			if err != nil {
				return nil, err
			}
			return &netConn{Conn: conn, w: w}, nil
		}}
		s.workers[w.id] = w
		list = append(list, w)
	}
	calls := 4 + r.IntN(12)
	var wg sync.WaitGroup
	for _, w := range list {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < calls && !s.failed.Load(); i++ {
				f := pick(w.r, netFaults)
				if f != "none" {
					w.transport.CloseIdleConnections()
				}
				w.call(f)
				c.progress.Add(1)
			}
			// the server still serves
			for i := 0; i < 2 && !s.failed.Load(); i++ {
				w.call("none")
			}
			w.transport.CloseIdleConnections()
		}()
	}
	wg.Wait()
	s.http.Close()
	if !s.srv.Mutex.TryLock() {
		c.Failf("mutex", "the mutex of the server is locked after all requests ended")
		return
	}
	s.srv.Mutex.Unlock()
}

func init() {
	checks["C24"] = func(t *testing.T, r *Run) {
		r.Rule("1-6 concurrent clients, some sharing one Client, that call one server over loopback connections on which both ends inject faults: refusals, breaks at any byte of the request or the answer, drops before and after processing, cut answers of all framings, aborts, foreign gateway answers, stalls and fragmentation; the bytes that arrived, the executions and the server's answers are recorded and every result is compared with what the server holds, under the race detector; distinct by call, fault, answer and bytes received")
		r.cases("network", r.N(1500, 40000), 6, network)
		r.Floor("successful calls", 5000)
		r.Floor("refusals compared", 500)
		r.Floor("returned tokens found live", 1500)
		r.Floor("executed calls whose answer was lost", 2000)
		for _, f := range netFaults {
			r.Floor("fault "+f, 300)
		}
		if r.counters["unexpected timeouts"] > r.counters["calls"]/100 {
			r.Floor("calls in time", 1)
		}
	}
}
