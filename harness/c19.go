package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/256dpi/oauth2/v2"
)

// tracked is a response body that counts what is read and closed.
type tracked struct {
	data   []byte
	pos    int
	read   atomic.Int64
	closed atomic.Int64
	late   atomic.Int64 // reads after the close
	err    error        // instead of the end
	chunk  int
	zeros  bool
	closes bool // without failing
	n      int
	r      *rand.Rand
}

func (b *tracked) Read(p []byte) (int, error) {
	if b.closed.Load() > 0 {
		b.late.Add(1)
		return 0, errors.New("read on closed body")
	}
	b.n++
	if b.zeros && b.n%3 == 1 {
		return 0, nil
	}
	if b.pos >= len(b.data) {
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if b.chunk > 0 {
		n = min(n, b.chunk)
	}
	n = copy(p[:n], b.data[b.pos:])
	b.pos += n
	b.read.Add(int64(n))
	if b.pos >= len(b.data) && b.err == nil && b.r.IntN(3) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func (b *tracked) Close() error {
	b.closed.Add(1)
	if !b.closes && b.r.IntN(4) == 0 {
		return errClose
	}
	return nil
}

type netError struct{ timeout, temporary bool }

func (e netError) Error() string   { return "network error" }
func (e netError) Timeout() bool   { return e.timeout }
func (e netError) Temporary() bool { return e.temporary }

var netErrors = []error{errBroken, io.EOF, io.ErrUnexpectedEOF, context.DeadlineExceeded, context.Canceled, netError{true, false}, netError{false, true}, netError{true, true}, syscall.ECONNRESET, syscall.ECONNREFUSED, syscall.EPIPE,
	&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, &net.OpError{Op: "dial", Net: "tcp", Err: netError{true, true}}, &net.DNSError{Err: "no such host", Name: "host", IsNotFound: true}, &net.DNSError{Err: "try again", Name: "host", IsTemporary: true},
	errors.New("http: server closed idle connection"), errors.New("http2: server sent GOAWAY and closed the connection"), net.ErrClosed, os.ErrDeadlineExceeded, http.ErrHandlerTimeout, http.ErrServerClosed,
	&oauth2.Error{Name: "temporarily_unavailable", Status: 503}}

var errClose = errors.New("close failed")

// scripted is a transport that gives one prepared answer.
type scripted struct {
	mu       sync.Mutex
	requests []*http.Request
	bodies   []string
	answer   func(n int, req *http.Request) (*http.Response, error)
}

func (s *scripted) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		_ = req.Body.Close()
	}
	s.mu.Lock()
	s.requests = append(s.requests, req)
	s.bodies = append(s.bodies, string(body))
	n := len(s.requests)
	s.mu.Unlock()
	return s.answer(n, req)
}

func object(f fields) []byte {
	b, err := json.Marshal(f)
	if err != nil {
		panic(err)
	}
	return b
}

func clientCase(c *Case) {
	r := c.R
	limit := pick(r, []int64{0, 0, 2048, 1, 10, 64, 100, 300, 1000, 4096, 1 << 20})
	eff := limit
	if eff == 0 {
		eff = 2048
	}
	cfg := oauth2.ClientConfig{BaseURI: pick(r, []string{"http://auth.example", "https://auth.example:8443", "http://auth.example/base"}), ResponseLimit: limit,
		TokenEndpoint: pick(r, []string{"/oauth2/token", "/t", "/token?v=1"}), IntrospectionEndpoint: pick(r, []string{"/oauth2/introspect", "/i"}), RevocationEndpoint: pick(r, []string{"/oauth2/revoke", "/r", ""})}
	if chance(r, 0.2) {
		base := cfg.BaseURI
		cfg = oauth2.Default(base)
		cfg.ResponseLimit = limit
		if cfg.BaseURI != base || cfg.TokenEndpoint != "/oauth2/token" || cfg.IntrospectionEndpoint != "/oauth2/introspect" || cfg.RevocationEndpoint != "/oauth2/revoke" {
			c.Failf("default", "the default configuration is %+v", cfg)
		}
	}
	kind := pick(r, []string{"token", "token", "introspect", "introspect", "revoke"})
	id, secret := "id-"+wordn(r, 6), "secret-"+wordn(r, 12)
	if chance(r, 0.1) {
		secret = text(r) + wordn(r, 8)
	}
	tok := "tok-" + wordn(r, 10)

	// the answer
	status := 200
	if chance(r, 0.4) {
		status = pick(r, []int{400, 400, 401, 401, 403, 404, 429, 500, 502, 503, 201, 202, 203, 204, 206, 299, 300, 304, 302, 307, 199, 599, 226, 418})
	}
	ctype := "application/json"
	ctOK, ctEither := true, false
	if chance(r, 0.3) {
		switch r.IntN(3) {
		case 0:
			ctype = pick(r, []string{"application/json;charset=UTF-8", "application/json; charset=utf-8", "Application/JSON", "application/json;", "application/json ; a=b"})
		case 1:
			ctype, ctOK = pick(r, []string{"", "text/html", "text/plain; charset=utf-8", "application/jsonp", "application/json-seq", "text/json", "application/jwt", "application/problem+json", "application", "json", "xapplication/json", "application/x-www-form-urlencoded", ";", "text/html; a=application/json", "application/xml,application/json"}), false
		case 2:
			ctype, ctEither = pick(r, []string{"application/json; charset", "application/json; =", "application/json, text/html", "application/json;a=b;a=b"}), true
		}
	}
	// the document
	sc := properScope(c, 3)
	doc := fields{}
	var wantT *oauth2.TokenResponse
	var wantI *oauth2.IntrospectionResponse
	var wantE *oauth2.Error
	isErr := status != 200 && chance(r, 0.7)
	switch {
	case isErr:
		wantE = &oauth2.Error{Name: pick(r, []string{"invalid_grant", "invalid_client", "server_error", word(r)}), Description: utext0(c), URI: utext0(c), State: utext0(c), Realm: utext0(c), Scope: scopeOf(sc), Status: status}
		doc["error"] = wantE.Name
		doc.str("error_description", wantE.Description).str("error_uri", wantE.URI).str("state", wantE.State).str("realm", wantE.Realm).scope(sc)
	case kind == "token":
		wantT = &oauth2.TokenResponse{TokenType: pick(r, []string{"bearer", "Bearer", "mac"}), AccessToken: "at" + utext(r), ExpiresIn: r.IntN(100000), RefreshToken: utext0(c), Scope: scopeOf(sc), State: utext0(c)}
		doc["token_type"], doc["access_token"], doc["expires_in"] = wantT.TokenType, wantT.AccessToken, wantT.ExpiresIn
		doc.str("refresh_token", wantT.RefreshToken).scope(sc).str("state", wantT.State)
	default:
		wantI = &oauth2.IntrospectionResponse{Active: r.IntN(2) == 0, Scope: scopeOf(sc), ClientID: utext0(c), Username: utext0(c), TokenType: pick(r, []string{"access_token", "refresh_token", "bearer", ""}), ExpiresAt: num(c), Subject: utext0(c)}
		doc["active"] = wantI.Active
		doc.scope(sc).str("client_id", wantI.ClientID).str("username", wantI.Username).str("token_type", wantI.TokenType).num("exp", wantI.ExpiresAt).str("sub", wantI.Subject)
	}
	if chance(r, 0.2) {
		doc["x_unknown"] = jsonValue(c, 2)
	}
	body := object(doc)
	good := true    // a complete document of the expected kind
	either := false // not specified
	shape := "document"
	// bring the size close to the limit
	if chance(r, 0.5) && eff < 5000 {
		want := int(eff) + r.IntN(5) - 2
		if want > len(body)+12 {
			doc["x_pad"] = strings.Repeat("p", want-len(body)-len(`,"x_pad":""`))
			if len(body) == 2 {
				doc["x_pad"] = strings.Repeat("p", want)
			}
			body = object(doc)
			shape = "document around the limit"
		}
	}
	if chance(r, 0.25) {
		switch r.IntN(8) {
		case 0:
			body, good, shape = body[:r.IntN(len(body))], false, "truncated document"
		case 1:
			body, good, shape = []byte(pick(r, []string{"", "<html>Bad Gateway</html>", "[]", `"text"`, "123", "true", `{"access_token":5,"active":"x","error":{}}`, `{"access_token":[],"active":1,"error":7}`, "{", "}", `{'a':1}`, `access_token=x&token_type=bearer`, `{"scope":5}`, `{"scope":["a"]}`})), false, "no document"
		case 2:
			body, either, shape = []byte(pick(r, []string{"null", "{}", `{"unrelated":1}`})), true, "empty document"
		case 3:
			body, good, shape = append(body, pick(r, []string{"{}", "x", "]", "null", `,"a":1`})...), false, "document followed by text"
		case 4:
			ws := pick(r, []string{" ", "\n", "\r\n\t "})
			body, shape = append([]byte(ws), append(body, ws...)...), "document in white space"
		case 5:
			body, good, shape = append([]byte(pick(r, []string{")]}'\n", "x", "\ufeff", "[", "\x00"})), body...), false, "document after text"
		case 6:
			body, either, shape = append(body, []byte(strings.Repeat(" ", int(eff)))...), true, "document followed by much white space"
		case 7:
			body, either, shape = append(body, []byte(strings.Repeat("x", int(min(eff, 1<<16))))...), true, "document followed by much text"
			if len(body) <= int(eff) {
				either, good = false, false
			}
		}
	}
	tb := &tracked{data: body, r: rand.New(rand.NewPCG(r.Uint64(), 1)), chunk: pick(r, []int{0, 0, 1, 3, 17, 512}), zeros: chance(r, 0.2)}
	fits := int64(len(body)) <= eff
	if chance(r, 0.12) {
		tb.err = pick(r, []error{io.ErrUnexpectedEOF, errBroken, io.ErrClosedPipe})
		cut := r.IntN(len(body) + 1)
		if cut < len(body) {
			good, either, shape = false, false, "broken transfer"
		} else {
			either, shape = true, "broken transfer after the document"
		}
		tb.data = body[:cut]
	}
	// whatever follows the limit cannot be seen
	if int64(len(tb.data)) >= eff && (int64(len(body)) > eff || tb.err != nil) && json.Valid(tb.data[:eff]) {
		either = true
		shape += " with a complete document before the limit"
	}
	netErr := chance(r, 0.06)
	more := map[string]string{}
	if chance(r, 0.3) {
		for i := 1 + r.IntN(3); i > 0; i-- {
			f := pick(r, [][2]string{{"Retry-After", "0"}, {"Retry-After", "1"}, {"Www-Authenticate", `Basic realm="OAuth2"`}, {"Www-Authenticate", `Bearer error="invalid_token"`}, {"Set-Cookie", "a=b"}, {"Connection", "close"},
				{"Cache-Control", "no-store"}, {"Cache-Control", "max-age=3600"}, {"Content-Location", "/elsewhere"}, {"Link", `<https://other.example/>; rel="canonical"`}, {"X-Error", "invalid_grant"}, {"Etag", `"x"`}, {"Warning", "199 - x"}, {"Refresh", "0"},
				{"X-Content-Type-Options", "nosniff"}, {"Content-Disposition", "attachment"}, {"Age", "100"}, {"Date", "Mon, 02 Jan 2006 15:04:05 GMT"}})
			more[f[0]] = f[1]
		}
	}
	if status == 204 || status == 304 || status == 199 {
		// such answers have no body on the wire, the transport is scripted anyway
		shape += " with odd status"
	}
	tr := &scripted{answer: func(n int, req *http.Request) (*http.Response, error) {
		if netErr {
			return nil, pick(r, netErrors)
		}
		h := http.Header{}
		for k, v := range more {
			h.Set(k, v)
		}
		if ctype != "" {
			h.Set("Content-Type", ctype)
		}
		cl := int64(len(body))
		if r.IntN(3) == 0 {
			cl = -1
		}
		return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: tb, ContentLength: cl, Request: req}, nil
	}}
	cl := oauth2.NewClientWithClient(cfg, &http.Client{Transport: tr})

	var gotT *oauth2.TokenResponse
	var gotI *oauth2.IntrospectionResponse
	var err error
	var wantForm url.Values
	endpoint := cfg.BaseURI
	switch kind {
	case "token":
		rq := oauth2.TokenRequest{GrantType: "refresh_token", ClientID: id, ClientSecret: secret, RefreshToken: tok, Scope: scopeOf(sc)}
		if r.IntN(2) == 0 {
			rq = oauth2.TokenRequest{GrantType: "password", ClientID: id, ClientSecret: secret, Username: "user", Password: tok}
		}
		endpoint += cfg.TokenEndpoint
		gotT, err = cl.Authenticate(rq)
		wantForm = oauth2.TokenRequestValues(rq)
	case "introspect":
		rq := oauth2.IntrospectionRequest{Token: tok, TokenTypeHint: pick(r, []string{"", "access_token"}), ClientID: id, ClientSecret: secret}
		endpoint += cfg.IntrospectionEndpoint
		gotI, err = cl.Introspect(rq)
		wantForm = oauth2.IntrospectionRequestValues(rq)
	case "revoke":
		rq := oauth2.RevocationRequest{Token: tok, ClientID: id, ClientSecret: secret}
		endpoint += cfg.RevocationEndpoint
		err = cl.Revoke(rq)
		wantForm = oauth2.RevocationRequestValues(rq)
	}
	desc := fmt.Sprintf("%s: status %d, type %q, %s of %d bytes (limit %d), body %.200q, network error %v", kind, status, ctype, shape, len(body), limit, body, netErr)
	fail := func(sig, format string, args ...any) {
		c.Violate(sig, map[string]any{"what": fmt.Sprintf(format, args...), "scenario": desc, "result": fmt.Sprintf("%+v %+v error=%v", gotT, gotI, err)})
	}

	// what was sent
	if len(tr.requests) != 1 {
		fail("requests", "the call was sent %d times", len(tr.requests))
		return
	}
	req := tr.requests[0]
	if req.Method != "POST" || req.URL.String() != endpoint {
		fail("endpoint", "%s %s instead of POST %s", req.Method, req.URL, endpoint)
	}
	if form, ferr := url.ParseQuery(tr.bodies[0]); ferr != nil || !reflect.DeepEqual(map[string][]string(form), map[string][]string(wantForm)) {
		fail("form", "sent the form %q instead of %q", tr.bodies[0], wantForm)
	}
	if a, b, ok := basicOf(req.Header.Get("Authorization")); !ok || a != id || b != secret {
		fail("credentials", "sent the authorization %q for %q and %q", req.Header.Get("Authorization"), id, secret)
	}
	for k, l := range req.Header {
		if k != "Authorization" && (strings.Contains(strings.Join(l, " "), secret) || strings.Contains(strings.Join(l, " "), tok)) {
			fail("leak", "the header %s carries credentials: %q", k, l)
		}
	}
	if netErr {
		c.Count("transport failures", 1)
		if err == nil || gotT != nil || gotI != nil {
			fail("transport failure", "a transport failure was reported as success")
		}
		c.Eval("n" + kind)
		return
	}
	// what was read
	if n := tb.read.Load(); n > eff {
		fail("limit", "%d bytes of the answer were read, the limit is %d", n, eff)
	}
	if tb.closed.Load() == 0 {
		fail("not closed", "the body was not closed")
	}
	if tb.late.Load() > 0 {
		fail("late read", "the body was read after it was closed")
	}
	// what was made of it
	if err != nil && (gotT != nil || gotI != nil) {
		fail("both", "both a result and an error were returned")
	}
	if err != nil && strings.Contains(err.Error(), errClose.Error()) {
		// an exchange whose end failed may well count as failed
		c.Count("failures to close that were reported", 1)
		return
	}
	succeeded := err == nil
	if succeeded && (kind == "token" && gotT == nil || kind == "introspect" && gotI == nil) {
		fail("neither", "neither a result nor an error was returned")
		return
	}
	c.Eval(fmt.Sprint(kind, status, ctype, shape, len(body), limit))
	if c.wantSample() {
		c.Sample(desc)
	}
	if status != 200 {
		if succeeded {
			fail("success despite status", "status %d was reported as success", status)
			return
		}
		if isErr && good && !either && fits {
			e, ok := err.(*oauth2.Error)
			if !ok || e.Name != wantE.Name || e.Description != wantE.Description || e.URI != wantE.URI || e.State != wantE.State || e.Realm != wantE.Realm || !sameList(e.Scope, sc) || e.Status != status {
				fail("error values", "the error document %+v was returned as %#v", wantE, err)
				return
			}
			c.Count("error documents returned", 1)
		}
		c.Count("answers with other statuses", 1)
		return
	}
	if kind == "revoke" {
		if !succeeded {
			fail("revocation refused", "an answer with status 200 was reported as %v", err)
		}
		c.Count("revocations", 1)
		return
	}
	switch {
	case !ctOK:
		c.Count("answers of other content types", 1)
		if succeeded {
			fail("success despite content type", "an answer of type %q was reported as success", ctype)
		}
	case !good && !either || !fits && !either:
		c.Count("answers that are no complete document: "+shape, 1)
		if succeeded {
			fail("success despite "+shape, "an answer that is no complete document within the limit was reported as success")
		}
	case either || ctEither:
		c.Count("answers that are not specified", 1)
	default:
		c.Count("proper answers", 1)
		if int64(len(body)) == eff {
			c.Count("proper answers of exactly the limit", 1)
		}
		if !succeeded {
			fail("proper answer refused", "a proper answer was reported as %v", err)
			return
		}
		ok := true
		if kind == "token" {
			g, w := *gotT, *wantT
			ok = sameList(g.Scope, w.Scope)
			g.Scope, w.Scope = nil, nil
			ok = ok && reflect.DeepEqual(g, w)
		} else {
			g, w := *gotI, *wantI
			ok = sameList(g.Scope, w.Scope)
			g.Scope, w.Scope = nil, nil
			ok = ok && reflect.DeepEqual(g, w)
		}
		if !ok {
			fail("values", "the answer %s was returned as %+v %+v", body, gotT, gotI)
		}
	}
}

func clientConcurrency(c *Case) {
	r := c.R
	tr := &scripted{}
	seeds := make(chan uint64, 4096)
	for i := 0; i < 400; i++ {
		seeds <- r.Uint64()
	}
	tr.answer = func(n int, req *http.Request) (*http.Response, error) {
		tr.mu.Lock()
		var form url.Values
		for i, q := range tr.requests {
			if q == req {
				form, _ = url.ParseQuery(tr.bodies[i])
			}
		}
		tr.mu.Unlock()
		id, _, _ := basicOf(req.Header.Get("Authorization"))
		sr := rand.New(rand.NewPCG(<-seeds, 3))
		if sr.IntN(2) == 0 {
			time.Sleep(time.Duration(sr.IntN(100)) * time.Microsecond)
		} else {
			runtime.Gosched()
		}
		var doc fields
		status := 200
		switch {
		case form.Get("token") == "" && form.Get("grant_type") != "":
			doc = fields{"token_type": "bearer", "access_token": "for-" + id + form.Get("password"), "expires_in": 1, "pad": strings.Repeat("x", sr.IntN(1000))}
		case strings.HasSuffix(req.URL.Path, "introspect"):
			doc = fields{"active": true, "username": "for-" + id + form.Get("token"), "token_type": "access_token"}
		default:
			doc = fields{}
		}
		if strings.HasPrefix(id, "bad") {
			status, doc = 400, fields{"error": "invalid_request", "error_description": "for-" + id}
		}
		return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Header: http.Header{"Content-Type": {"application/json"}}, Request: req, ContentLength: -1,
			Body: &tracked{data: object(doc), r: sr, chunk: sr.IntN(20), closes: true}}, nil
	}
	cl := oauth2.NewClientWithClient(oauth2.Default("http://auth.example"), &http.Client{Transport: tr})
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		wr := rand.New(rand.NewPCG(r.Uint64(), 7))
		go func() {
			defer wg.Done()
			for i := 0; i < 12; i++ {
				id := fmt.Sprintf("%s%d-%d-", pick(wr, []string{"ok", "ok", "bad"}), w, i)
				tag := wordn(wr, 8)
				bad := strings.HasPrefix(id, "bad")
				var err error
				got := ""
				switch wr.IntN(3) {
				case 0:
					res, e := cl.Authenticate(oauth2.TokenRequest{GrantType: "password", ClientID: id, ClientSecret: "s", Username: "u", Password: tag})
					if err = e; e == nil {
						got = res.AccessToken
					}
				case 1:
					res, e := cl.Introspect(oauth2.IntrospectionRequest{Token: tag, ClientID: id, ClientSecret: "s"})
					if err = e; e == nil {
						got = res.Username
					}
				case 2:
					err = cl.Revoke(oauth2.RevocationRequest{Token: tag, ClientID: id, ClientSecret: "s"})
					got = "for-" + id + tag
				}
				c.Count("concurrent calls", 1)
				if bad {
					e, ok := err.(*oauth2.Error)
					if !ok || e.Description != "for-"+id || e.Status != 400 {
						c.Failf("concurrent: error", "the call of %s returned %#v", id, err)
						return
					}
				} else if err != nil || got != "for-"+id+tag {
					c.Failf("concurrent: mixed", "the call of %s with %s returned %q and %v", id, tag, got, err)
					return
				}
			}
		}()
	}
	wg.Wait()
	c.Eval("")
}

// clientEndpoint calls a client whose endpoints are no valid URIs. Nothing can
// be sent then.
func clientEndpoint(c *Case) {
	r := c.R
	tr := &scripted{answer: func(int, *http.Request) (*http.Response, error) { return nil, netError{} }}
	bad := pick(r, []string{"http://auth.example\x00", "http://[::1", ":", "://", "http://auth.example:port", "%zz://x", "http://a b", "http://x/%", "http://x/%2", "http://\x7f", "http://[fe80::1%en0]", "\n", "http://x:-1", "1http://x"})
	cfg := oauth2.Default(bad)
	if r.IntN(3) == 0 {
		part := pick(r, []string{"/\x00", "/%zz", "/\n", "/a\x7fb", "/%"})
		cfg = oauth2.ClientConfig{BaseURI: "http://auth.example", TokenEndpoint: part, IntrospectionEndpoint: part, RevocationEndpoint: part}
		bad = part
	}
	cl := oauth2.NewClientWithClient(cfg, &http.Client{Transport: tr})
	t, err1 := cl.Authenticate(oauth2.TokenRequest{GrantType: "password", ClientID: "id", Username: word(r)})
	i, err2 := cl.Introspect(oauth2.IntrospectionRequest{ClientID: "id", Token: word(r)})
	err3 := cl.Revoke(oauth2.RevocationRequest{ClientID: "id", Token: word(r)})
	if err1 == nil || err2 == nil || err3 == nil || t != nil || i != nil || len(tr.requests) != 0 {
		c.Failf("invalid endpoint", "calls to the endpoint %q: %v %v, %v %v, %v, %d requests", bad, t, err1, i, err2, err3, len(tr.requests))
	}
	c.Count("calls to invalid endpoints", 3)
	c.Eval("e" + bad)
}

func init() {
	checks["C19"] = func(t *testing.T, r *Run) {
		r.Rule("calls of all kinds against a scripted transport that varies status, content type, document, size around the limit, fragmentation, broken transfers and network errors, and counts requests, bytes read and closes; concurrent calls of one client whose answers are tagged with the request, under the race detector; distinct by scenario")
		r.Cases("answers", r.N(300000, 1500000), clientCase)
		r.Cases("endpoints", r.N(500, 5000), clientEndpoint)
		r.Cases("concurrent", r.N(150, 1500), clientConcurrency)
		r.Floor("proper answers", 5000)
		r.Floor("proper answers of exactly the limit", 200)
		r.Floor("error documents returned", 2000)
		r.Floor("answers of other content types", 1000)
		r.Floor("transport failures", 1000)
		r.Floor("concurrent calls", 4000)
	}
}
