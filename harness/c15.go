package harness

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/256dpi/oauth2/v2"
)

// site is a server with known clients, owners and credentials.
type site struct {
	srv     *oauth2.Server
	secret  []byte
	access  []string
	refresh []string
	codes   []string
	undo    func()
}

const siteURI = "https://app.example/cb?x=1"

func newSite(c *Case) *site {
	s := &site{secret: rbytes(c.R, 24)}
	s.srv = oauth2.NewServer(oauth2.DefaultServerConfig(s.secret, oauth2.Scope{"foo", "bar"}))
	s.srv.Clients["c1"] = &oauth2.ServerEntity{Secret: "s1", RedirectURI: siteURI, Confidential: true}
	s.srv.Clients["c2"] = &oauth2.ServerEntity{RedirectURI: "http://localhost/"}
	s.srv.Clients["c3"] = &oauth2.ServerEntity{Secret: "s3", Confidential: true}
	s.srv.Users["u1"] = &oauth2.ServerEntity{Secret: "p1"}
	s.srv.Users[""] = &oauth2.ServerEntity{Secret: "anonymous"}
	return s
}

// do sends a proper request.
func (s *site) do(path, auth string, form url.Values) *Outcome {
	q := &Wire{Method: "POST", Path: path, Form: form}
	if auth != "" {
		q.HasAuth, q.Auth = true, auth
	}
	return exchange(s.srv, q.Request(), NewRecorder())
}

// collect keeps the credentials of an answer.
func (s *site) collect(o *Outcome) {
	if v := o.Access(); v != "" {
		s.access = append(s.access, v)
	}
	if v := o.Refresh(); v != "" {
		s.refresh = append(s.refresh, v)
	}
	if o.Location != "" {
		if v := o.LQuery["code"]; len(v) > 0 {
			s.codes = append(s.codes, v[len(v)-1])
		}
	}
}

// alive tells why the server does not serve proper requests any longer.
func (s *site) alive() string {
	if !s.srv.Mutex.TryLock() {
		return "the mutex is still locked after the request"
	}
	s.srv.Mutex.Unlock()
	o := s.do("/oauth2/token", basic("c1", "s1"), url.Values{"grant_type": {"password"}, "username": {"u1"}, "password": {"p1"}, "scope": {"foo"}})
	if o.Status != 200 || o.Str("access_token") == "" {
		return "a proper password grant was answered with " + o.String()
	}
	s.collect(o)
	tk := o.Str("access_token")
	o = s.do("/oauth2/introspect", basic("c1", "s1"), url.Values{"token": {tk}})
	if o.Status != 200 || o.JSON["active"] != true {
		return "a proper introspection was answered with " + o.String()
	}
	return ""
}

// admin removes or changes a client or an owner and returns how to undo that.
func (s *site) admin(c *Case) (string, func()) {
	r := c.R
	s.srv.Mutex.Lock()
	defer s.srv.Mutex.Unlock()
	m, k := s.srv.Clients, pick(r, []string{"c1", "c1", "c2", "c3"})
	if chance(r, 0.25) {
		m, k = s.srv.Users, "u1"
	}
	old := m[k]
	what := "removed " + k
	if chance(r, 0.6) {
		delete(m, k)
	} else {
		m[k] = &oauth2.ServerEntity{Secret: pick(r, []string{"", "other", old.Secret}), RedirectURI: pick(r, []string{"", old.RedirectURI, "https://new.example/"}), Confidential: !old.Confidential}
		what = fmt.Sprintf("changed %s to %+v", k, *m[k])
	}
	return what, func() {
		s.srv.Mutex.Lock()
		defer s.srv.Mutex.Unlock()
		m[k] = old
	}
}

// cred picks a credential, of any state and kind.
func (s *site) cred(c *Case) string {
	l := append(append(append([]string{}, s.access...), s.refresh...), s.codes...)
	if len(l) == 0 {
		return "x.y"
	}
	v := pick(c.R, l)
	switch c.R.IntN(6) {
	case 0:
		return tamper(c.R, v)
	case 1:
		return pick(c.R, []string{sign(s.secret, nil), sign(s.secret, rbytes(c.R, 16)), sign(s.secret, rbytes(c.R, 3000)), "", ".", strings.Repeat(".", 50), text(c.R), strings.Repeat("A", 100000) + "." + "A"})
	}
	return v
}

// mangled is a request with everything that can be wrong about it.
type mangled struct {
	method, path, query string
	header              http.Header
	body                []byte
	bodyErr             error
	nilBody             bool
	length              int64
	trickle             bool
	around              func(*http.Request)
	beside              string
}

func (m *mangled) String() string {
	b := m.body
	if len(b) > 300 {
		b = b[:300]
	}
	return fmt.Sprintf("%s %s?%s %q body=%q(%d bytes) error=%v nil=%v length=%d (%s)", m.method, m.path, m.query, m.header, b, len(m.body), m.bodyErr, m.nilBody, m.length, m.beside)
}

// trickle returns nothing now and then.
type trickle struct {
	r io.Reader
	n int
}

func (t *trickle) Read(p []byte) (int, error) {
	t.n++
	if t.n%2 == 0 || len(p) == 0 {
		return 0, nil
	}
	return t.r.Read(p[:min(len(p), 7)])
}

func (m *mangled) request() *http.Request {
	r := m.plain()
	if m.around != nil {
		m.around(r)
	}
	return r
}

func (m *mangled) plain() *http.Request {
	r := &http.Request{Method: m.method, URL: &url.URL{Path: m.path, RawQuery: m.query}, Header: m.header.Clone(), Host: "auth.example", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RemoteAddr: "192.0.2.1:1", ContentLength: m.length}
	r.RequestURI = m.path
	if m.nilBody {
		return r
	}
	var b io.Reader = bytes.NewReader(m.body)
	if m.bodyErr != nil {
		b = &breakingReader{string(m.body), m.bodyErr}
	}
	if m.trickle {
		b = &trickle{r: b}
	}
	r.Body = io.NopCloser(b)
	return r
}

var segments = []string{"authorize", "token", "introspect", "revoke"}

// mangle makes a request: a proper one with up to a few defects.
func mangle(c *Case, s *site, wire bool) *mangled {
	r := c.R
	m := &mangled{method: "POST", header: http.Header{}}
	form := url.Values{}
	seg := pick(r, append(segments, "token", "token"))
	client := pick(r, []string{"c1", "c2", "c3"})
	secret := map[string]string{"c1": "s1", "c2": "", "c3": "s3"}[client]
	uri := map[string]string{"c1": siteURI, "c2": "http://localhost/", "c3": "http://none/"}[client]
	auth := true
	switch seg {
	case "authorize":
		auth = false
		form = url.Values{"client_id": {client}, "redirect_uri": {uri}, "response_type": {pick(r, []string{"token", "code"})}, "username": {"u1"}, "password": {"p1"}, "state": {text(r)}, "scope": {"foo"}}
	case "token":
		g := pick(r, []string{"password", "client_credentials", "authorization_code", "refresh_token"})
		form = url.Values{"grant_type": {g}, "scope": {pick(r, []string{"foo", "foo bar", "", "baz"})}}
		switch g {
		case "password":
			form.Set("username", "u1")
			form.Set("password", "p1")
		case "authorization_code":
			form.Set("redirect_uri", uri)
			form.Set("code", s.cred(c))
			if len(s.codes) > 0 && chance(r, 0.6) {
				form.Set("code", pick(r, s.codes))
			}
		case "refresh_token":
			form.Set("refresh_token", s.cred(c))
			if len(s.refresh) > 0 && chance(r, 0.6) {
				form.Set("refresh_token", pick(r, s.refresh))
			}
		}
	default:
		form = url.Values{"token": {s.cred(c)}}
		if chance(r, 0.4) {
			form.Set("token_type_hint", pick(r, []string{"access_token", "refresh_token", "", "code", text(r)}))
		}
	}
	m.path = pick(r, []string{"/oauth2/", "/", "/a/b/c/", "//", "/./"}) + seg
	m.header.Set("Content-Type", "application/x-www-form-urlencoded")
	if auth {
		m.header.Set("Authorization", basic(client, secret))
	}
	query := url.Values{}
	for n := pick(r, []int{0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 5}); n > 0; n-- {
		k := r.IntN(18)
		if seg == "authorize" && r.IntN(8) == 0 {
			k = 0
		}
		switch k {
		case 0:
			m.method = pick(r, []string{"GET", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "PROPFIND", "post", "GET", "GET"})
			if !wire && chance(r, 0.2) {
				m.method = pick(r, []string{"", "G E T", "\x00", "PÖST", text(r)})
			}
			if m.method == "GET" && chance(r, 0.7) {
				for k, v := range form {
					query[k] = v
				}
			}
		case 1:
			m.path = "/oauth2/" + pick(r, []string{"", "tokens", "Token", "TOKEN", "token/", "token ", "token.json", "introspection", "auth", "toke", "favicon.ico", "..", "token/x", "authorize/", "revoke\x00", "tökén", "*"})
			if !wire && chance(r, 0.3) {
				m.path = pick(r, []string{"", "token", "*", "authorize", "?", "revoke", "a", "//", "\\token", text(r)})
			}
		case 2:
			m.header.Set("Content-Type", pick(r, []string{"application/json", "text/plain", "multipart/form-data", "multipart/form-data; boundary=xx", "application/x-www-form-urlencoded;charset=", "", "a/b; c", "x", ";", strings.Repeat("a", 3000), "application/octet-stream"}))
		case 3:
			m.header.Del("Content-Type")
		case 4:
			v := []string{"Basic", "Basic ", "Basic !!!", "Basic " + base64.StdEncoding.EncodeToString([]byte("nocolon")), "Bearer x", "Digest a=b", basic("", ""), basic("", "x"), basic("c1", "wrong"), basic("\x00", "\xff"), basic(strings.Repeat("x", 5000), "y"), basic("c1", "s1") + "=", ","}
			m.header.Set("Authorization", pick(r, v))
			if chance(r, 0.2) {
				m.header.Add("Authorization", pick(r, v))
			}
		case 5:
			m.header.Del("Authorization")
			if chance(r, 0.5) {
				form.Set("client_id", client)
				form.Set("client_secret", secret)
			}
		case 6: // repeated and conflicting parameters
			if keys := sortedKeys(form); len(keys) > 0 {
				k := pick(r, keys)
				form.Add(k, pick(r, []string{"", text(r), form.Get(k), s.cred(c)}))
				if chance(r, 0.5) {
					query.Add(k, text(r))
				}
			}
		case 7:
			if keys := sortedKeys(form); len(keys) > 0 {
				form.Del(pick(r, keys))
			}
		case 17: // a value that is almost right
			if keys := sortedKeys(form); len(keys) > 0 {
				k := pick(r, keys)
				form.Set(k, near(r, form.Get(k)))
				if chance(r, 0.3) {
					form.Set(k, strings.Title(form.Get(k)))
				}
			}
		case 8:
			if keys := sortedKeys(form); len(keys) > 0 {
				form[pick(r, keys)] = []string{pick(r, []string{"", text(r), longtext(r), strings.Repeat("%", 100), "\x00", "null", "[]", s.cred(c)})}
			}
		case 9:
			m.bodyErr = pick(r, []error{io.ErrUnexpectedEOF, errBroken, io.ErrClosedPipe, &net.OpError{Op: "read", Err: errBroken}})
		case 10:
			if !wire {
				m.nilBody = chance(r, 0.5)
				m.trickle = true
			}
		case 11:
			form.Set(text(r), text(r))
		case 16:
			m.header.Set("Content-Type", pick(r, []string{"multipart/form-data; boundary=xx", "multipart/form-data; boundary=xx", "multipart/mixed; boundary=xx", "multipart/form-data"}))
			m.body = []byte(multipartBody(form, "xx", chance(r, 0.8)))
		case 12:
			m.query = pick(r, []string{"%zz", "a;b=c", "&&&=", "%", "x=%f", strings.Repeat("a=b&", 500)})
		case 13:
			m.header.Set(pick(r, []string{"Accept", "Cookie", "X-Http-Method-Override", "Origin", "Content-Encoding", "If-None-Match", "Range", "Forwarded"}), pick(r, []string{"*", "GET", "gzip", "identity", "", "bytes=0-"}))
		case 14:
			query.Set(text(r), text(r))
		case 15:
			m.body = []byte(pick(r, []string{"", "{", `{"grant_type":"password"}`, "\x00\x01\x02", "%", "%zz=1", "=&=&", "a;b", "grant_type", "&", strings.Repeat("&", 2000), "<xml/>", "--xx\r\nContent-Disposition: form-data; name=\"token\"\r\n\r\nx\r\n--xx--\r\n", string(rbytes(r, 200))}))
			if m.body == nil {
				m.body = []byte{}
			}
		}
	}
	if m.body == nil {
		m.body = []byte(form.Encode())
		if chance(r, 0.05) && len(m.body) > 0 {
			b := append([]byte{}, m.body...)
			b[r.IntN(len(b))] = byte(r.Uint32())
			m.body = b
		}
		if chance(r, 0.0004) { // beyond what the standard library reads
			m.body = append(m.body, ("&x=" + strings.Repeat("y", 11<<20))...)
		}
	}
	if m.query == "" {
		m.query = query.Encode()
	}
	if m.bodyErr != nil && len(m.body) > 0 {
		m.length = int64(len(m.body)) + 10
		m.body = m.body[:r.IntN(len(m.body))]
	} else {
		m.length = int64(len(m.body))
		if !wire && chance(r, 0.1) {
			m.length = -1
		}
	}
	return m
}

var errorKeys = map[string]bool{"error": true, "error_description": true, "error_uri": true, "state": true, "scope": true, "realm": true}

// judgeAnswer says what is wrong about an answer, "" if nothing.
func judgeAnswer(m *mangled, o *Outcome) (kind, sig, what string) {
	if o.Panic != "" {
		return "", "panic", "the server panicked: " + o.Panic + "\n" + o.Stack
	}
	if o.Rec != nil && o.Rec.Headers > 1 {
		return "", "several answers", fmt.Sprintf("the header was written %d times", o.Rec.Headers)
	}
	if o.Rec != nil && o.Rec.Headers == 0 {
		return "", "no answer", "nothing was written"
	}
	seg := m.path[strings.LastIndexByte(m.path, '/')+1:]
	known := false
	for _, s := range segments {
		known = known || s == seg
	}
	head := m.method == "HEAD" && o.Rec == nil // the body was dropped on the way
	if !known {
		if o.Status != 404 || o.Location != "" {
			return "", "not found", fmt.Sprintf("an unknown path was answered with %s", o)
		}
		return "not found", "", ""
	}
	if o.Status == 401 {
		if _, ok := parseChallenge(o.Header.Get("Www-Authenticate")); !ok {
			return "", "challenge", fmt.Sprintf("a 401 answer has the challenge %q", o.Header.Values("Www-Authenticate"))
		}
	}
	if o.Location != "" {
		if seg != "authorize" || o.Status != 303 || m.method != "POST" {
			return "", "redirection", fmt.Sprintf("%s %s was answered with %s", m.method, seg, o)
		}
		if o.LBad != "" {
			return "", "location", fmt.Sprintf("the location %q is broken: %s", o.Location, o.LBad)
		}
		if !noStore(o.Header) {
			return "", "cacheable redirection", fmt.Sprintf("headers %v", o.Header)
		}
		e := o.ErrName()
		if e == "" && !o.Issues() {
			return "", "empty redirection", o.String()
		}
		if e != "" && statusOf[e] == 0 {
			return "", "unregistered error", o.String()
		}
		return "redirection", "", ""
	}
	if seg == "revoke" && o.Status == 200 {
		if o.Body != "" {
			return "", "revocation body", fmt.Sprintf("a revocation was answered with %q", o.Body)
		}
		return "revocation", "", ""
	}
	if seg == "authorize" && m.method == "GET" && o.Status == 200 {
		if o.Body == "" || o.Issues() {
			return "", "notice", o.String()
		}
		return "notice", "", ""
	}
	if head && o.Status >= 400 {
		return "head", "", ""
	}
	if !jsonType(o.Header) {
		return "", "content type", fmt.Sprintf("%s has content type %q", o, o.Header.Values("Content-Type"))
	}
	if !noStore(o.Header) || !strings.Contains(o.Header.Get("Pragma"), "no-cache") {
		return "", "cacheable", fmt.Sprintf("%s can be cached: %v", o, o.Header)
	}
	doc, err := document([]byte(o.Body))
	if err != nil {
		return "", "document", fmt.Sprintf("%s: %v", o, err)
	}
	str := func(k string) string { s, _ := doc[k].(string); return s }
	if o.Status != 200 {
		e := str("error")
		if e == "" || statusOf[e] == 0 {
			return "", "unregistered error", o.String()
		}
		if statusOf[e] != o.Status {
			return "", "status", fmt.Sprintf("error %s has status %d", e, o.Status)
		}
		for k, v := range doc {
			if _, ok := v.(string); !ok || !errorKeys[k] {
				return "", "error document", o.String()
			}
		}
		return "error " + e, "", ""
	}
	if _, ok := doc["error"]; ok {
		return "", "error with status 200", o.String()
	}
	switch seg {
	case "token":
		if str("access_token") != "" && strings.EqualFold(str("token_type"), "bearer") && doc["expires_in"] != nil {
			return "token", "", ""
		}
	case "introspect":
		if _, ok := doc["active"].(bool); ok {
			return "introspection", "", ""
		}
	}
	return "", "unexpected document", o.String()
}

func init() {
	checks["C15"] = func(t *testing.T, r *Run) {
		r.Rule("proper requests with up to five defects in method, path, headers, parameters, encoding and body, including bodies that break off and responses that cannot be written, against one server per case, each answer judged by a strict writer and followed by proper requests; the same over real connections with raw bytes; distinct by request and kind of answer")
		r.Cases("fuzz", r.N(12000, 300000), func(c *Case) {
			s := newSite(c)
			var log []string
			for i := 0; i < 25; i++ {
				m := mangle(c, s, false)
				w := NewRecorder()
				w.Fail = chance(c.R, 0.08)
				w.Panics = chance(c.R, 0.03)
				if chance(c.R, 0.1) {
					what, undo := s.admin(c)
					log = append(log, what)
					s.undo = undo
					c.Count("changes of clients and owners", 1)
				}
				if chance(c.R, 0.12) {
					m.beside, m.around = surroundings(c.R, basic("c1", "s1"), "u1", "c1")
					c.Count("requests with odd surroundings", 1)
				}
				o := exchange(s.srv, m.request(), w)
				if s.undo != nil {
					s.undo()
					s.undo = nil
				}
				if w.Panics && o.Panic == http.ErrAbortHandler.Error() {
					log = append(log, m.String()+" => the response writer panicked")
					c.Count("response writers that panicked", 1)
					if why := s.alive(); why != "" {
						c.Violate("fuzz: not alive after a panic", map[string]any{"what": why, "request": m.String(), "history": log})
						return
					}
					continue
				}
				if !w.Fail {
					s.collect(o)
				} else {
					c.Count("responses that could not be written", 1)
				}
				log = append(log, m.String()+" => "+o.String())
				kind, sig, what := judgeAnswer(m, o)
				if sig != "" {
					c.Violate("fuzz: "+sig, map[string]any{"what": what, "request": m.String(), "history": log})
					return
				}
				c.Count("answers: "+kind, 1)
				if m.bodyErr != nil && !m.nilBody && m.method == "POST" && kind != "not found" && m.header.Get("Content-Type") == "application/x-www-form-urlencoded" && kind != "error invalid_request" {
					c.Violate("fuzz: incomplete body", map[string]any{"what": "a request whose body broke off was answered with " + o.String(), "request": m.String(), "history": log})
					return
				}
				if m.bodyErr != nil {
					c.Count("bodies that broke off", 1)
				}
				if why := s.alive(); why != "" {
					c.Violate("fuzz: not alive", map[string]any{"what": why, "request": m.String(), "history": log})
					return
				}
				c.Eval(kind + m.String())
				if c.wantSample() {
					c.Sample(log[len(log)-1])
				}
			}
		})
		// histories that the model follows
		r.Virtual(t, "histories", r.N(3000, 60000), func(c *Case) {
			w := newWorld(c, &profile{ops: ops(map[string]int{"revoke": 8, "introspect": 8, "admin": 2}), perturb: 0.7, probe: 0.1})
			w.run(12 + c.R.IntN(25))
		})
		r.Cases("resource", r.N(40000, 800000), func(c *Case) {
			s := newSite(c)
			if why := s.alive(); why != "" {
				c.Failf("resource: not alive", "%s", why)
				return
			}
			h, _, _ := bearerHeader(c)
			good := false
			if chance(c.R, 0.6) {
				tk := s.cred(c)
				h, good = "Bearer "+tk, tk == s.access[0]
			}
			req := (&mangled{method: pick(c.R, []string{"GET", "POST", "PUT"}), path: "/x", header: http.Header{}, body: []byte("access_token=" + s.access[0])}).request()
			if chance(c.R, 0.12) {
				_, around := surroundings(c.R, "Bearer "+s.access[0], basic("c1", "s1"))
				around(req)
			}
			if h != "" {
				req.Header["Authorization"] = []string{h}
			}
			required := pick(c.R, []oauth2.Scope{nil, {"foo"}, {"bar"}, {"foo", "bar"}, {text(c.R)}})
			w := NewRecorder()
			w.Fail = chance(c.R, 0.1)
			granted := false
			o := exchange(http.HandlerFunc(func(rw http.ResponseWriter, rq *http.Request) { granted = s.srv.Authorize(rw, rq, required) }), req, w)
			d := fmt.Sprintf("Authorization %q, required %q: granted=%v, %s", h, required, granted, o)
			switch {
			case o.Panic != "":
				c.Failf("resource: panic", "%s\n%s", d, o.Stack)
			case granted && (w.Headers > 0 || w.Body.Len() > 0 || len(w.header) > 0):
				c.Failf("resource: both", "%s", d)
			case !granted && (w.Headers != 1 || o.Body != ""):
				c.Failf("resource: answer", "%s: the header was written %d times", d, w.Headers)
			case !granted:
				ch, ok := parseChallenge(o.Header.Get("Www-Authenticate"))
				if hasCTL(fmt.Sprint(required)) || strings.Contains(fmt.Sprint(required), "\x00") {
					ch, ok = parseChallenge(blank(o.Header.Get("Www-Authenticate")))
				}
				e := ch.params["error"]
				if !ok || !strings.EqualFold(ch.scheme, "bearer") || e == "" && o.Status != 401 || e != "" && statusOf[e] != o.Status {
					c.Failf("resource: challenge", "%s", d)
				}
				c.Count("resource refusals", 1)
			case granted:
				if !good {
					c.Failf("resource: granted", "%s", d)
				}
				c.Count("resource grants", 1)
			}
			if !s.srv.Mutex.TryLock() {
				c.Failf("resource: locked", "%s: the mutex is still locked", d)
				return
			}
			s.srv.Mutex.Unlock()
			c.Eval("r" + h + fmt.Sprint(required))
		})
		r.Floor("resource grants", 500)
		r.Floor("resource refusals", 5000)

		// raw bytes over real connections
		r.Cases("wire", r.N(60, 1500), func(c *Case) {
			s := newSite(c)
			var mu sync.Mutex
			panics := ""
			reached := 0
			h := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, rq *http.Request) {
				defer func() {
					p := recover()
					mu.Lock()
					reached++
					if p != nil {
						panics = fmt.Sprint(p)
					}
					mu.Unlock()
				}()
				s.srv.ServeHTTP(w, rq)
			}))
			h.Config.ErrorLog = quiet
			h.Start()
			defer h.Close()
			for i := 0; i < 40; i++ {
				m := mangle(c, s, true)
				if len(m.body) > 1<<20 {
					continue
				}
				raw := m.raw()
				mu.Lock()
				before := reached
				mu.Unlock()
				res, body, err := rawExchange(h.Listener.Addr().String(), raw, m.method)
				mu.Lock()
				got, pan := reached > before, panics
				mu.Unlock()
				if pan != "" {
					c.Failf("wire: panic", "%q: %s", raw, pan)
					return
				}
				if !got {
					c.Count("requests the HTTP server refused by itself", 1)
					continue
				}
				if err != nil {
					c.Failf("wire: answer", "%q was answered by something unreadable: %v", raw, err)
					return
				}
				rec := &Recorder{header: res.Header, Sent: res.Header, Status: res.StatusCode, Headers: 1}
				rec.Body.Write(body)
				o := decode(rec)
				o.Rec = nil
				kind, sig, what := judgeAnswer(m, o)
				if sig != "" {
					c.Violate("wire: "+sig, map[string]any{"what": what, "request": fmt.Sprintf("%q", raw)})
					return
				}
				c.Count("answers over connections: "+kind, 1)
				c.Eval("w" + string(raw))
			}
			if why := s.alive(); why != "" {
				c.Failf("wire: not alive", "%s", why)
			}
		})
		for _, k := range []string{"not found", "redirection", "revocation", "notice", "token", "introspection", "error invalid_request", "error invalid_client", "error invalid_grant", "error access_denied", "error invalid_scope", "error unsupported_token_type"} {
			r.Floor("answers: "+k, 100)
		}
		r.Floor("bodies that broke off", 1000)
		r.Floor("response writers that panicked", 500)
		r.Floor("changes of clients and owners", 1000)
		r.Floor("responses that could not be written", 1000)
		r.Floor("answers over connections: error invalid_request", 100)
	}
}

// multipartBody spells parameters as multipart form data.
func multipartBody(form url.Values, boundary string, whole bool) string {
	var b strings.Builder
	for _, k := range sortedKeys(form) {
		for _, v := range form[k] {
			fmt.Fprintf(&b, "--%s\r\nContent-Disposition: form-data; name=%q\r\n\r\n%s\r\n", boundary, k, v)
		}
	}
	if whole {
		b.WriteString("--" + boundary + "--\r\n")
	}
	return b.String()
}

// raw spells the request as bytes.
func (m *mangled) raw() []byte {
	var b bytes.Buffer
	target := (&url.URL{Path: m.path}).EscapedPath()
	if m.query != "" {
		target += "?" + m.query
	}
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: auth.example\r\nConnection: close\r\n", m.method, target)
	for k, l := range m.header {
		for _, v := range l {
			fmt.Fprintf(&b, "%s: %s\r\n", k, v)
		}
	}
	fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", m.length)
	b.Write(m.body)
	return b.Bytes()
}

// rawExchange sends bytes, ends the request stream and reads the answer.
func rawExchange(addr string, raw []byte, method string) (*http.Response, []byte, error) {
	conn, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err != nil {
		return nil, nil, err
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(20 * time.Second))
	if _, err = conn.Write(raw); err != nil {
		return nil, nil, err
	}
	_ = conn.(*net.TCPConn).CloseWrite()
	res, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: method})
	if err != nil {
		return nil, nil, err
	}
	defer res.Body.Close()
	body, err := io.ReadAll(res.Body)
	return res, body, err
}
