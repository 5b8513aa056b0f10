package harness

import (
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"testing"

	"github.com/256dpi/oauth2/v2"
)

// redirectFuzz sends an authorization request with arbitrary, repeated and
// conflicting parameters in URL and body to a fresh server and checks where the
// answer leads.
func redirectFuzz(c *Case) {
	r := c.R
	srv := oauth2.NewServer(oauth2.DefaultServerConfig(rbytes(r, 20), oauth2.Scope{"foo", "bar"}))
	type cl struct{ id, uri string }
	var clients []cl
	base := validURI(r)
	for i, n := 0, 1+r.IntN(4); i < n; i++ {
		x := cl{fmt.Sprintf("c%d%s", i, word(r)), validURI(r)}
		switch r.IntN(8) {
		case 0:
			x.uri = base
		case 1:
			x.uri = nearURI(r, base)
			for !isURI(x.uri) { // registered URIs are proper ones
				x.uri = nearURI(r, base)
			}
		case 2:
			x.uri = ""
		}
		if chance(r, 0.05) {
			x.id = strings.ReplaceAll(text(r), ":", "") + fmt.Sprint(i)
		}
		clients = append(clients, x)
		srv.Clients[x.id] = &oauth2.ServerEntity{Secret: "s", RedirectURI: x.uri, Confidential: r.IntN(2) == 0}
	}
	srv.Users["u"] = &oauth2.ServerEntity{Secret: "p"}
	target := pick(r, clients)

	noise := pick(r, []float64{0.2, 1})
	someURI := func() string {
		if !chance(r, noise) {
			return target.uri
		}
		switch r.IntN(7) {
		case 0:
			return "https://evil.example/cb"
		case 1:
			return pick(r, clients).uri
		case 2:
			if target.uri != "" {
				return nearURI(r, target.uri)
			}
		case 3:
			return target.uri + pick(r, []string{"#", "#x", "%23", "?", "&", " ", "\n", "/..", "\\@evil.example", "@evil.example", ".evil.example", "%00"})
		case 4:
			return pick(r, []string{"", "//evil.example/", "javascript:alert(1)", "data:text/html,x", "/", "\\\\evil.example", "https:evil.example", "http://", "*", "https://evil.example/?u=" + url.QueryEscape(target.uri)})
		case 5:
			return url.QueryEscape(url.QueryEscape(target.uri))
		}
		return target.uri
	}
	enc := func(s string) string {
		if chance(r, 0.4) {
			return url.QueryEscape(s)
		}
		return s
	}
	var query, body []string
	named := map[string]bool{}
	uris := map[string]bool{}
	put := func(k, v string) {
		p := url.QueryEscape(k) + "=" + url.QueryEscape(v)
		if r.IntN(2) == 0 {
			query = append(query, p)
		} else {
			body = append(body, p)
		}
	}
	times := func() int {
		if !chance(r, noise) {
			return 1
		}
		return pick(r, []int{1, 1, 1, 1, 1, 2, 2, 3, 0})
	}
	for n := times(); n > 0; n-- {
		id := target.id
		if chance(r, 0.2) {
			id = pick(r, []string{pick(r, clients).id, near(r, target.id), "", "nobody"})
		}
		named[id] = true
		put("client_id", id)
	}
	for n := times(); n > 0; n-- {
		u := enc(someURI())
		// every reading of the value
		uris[u] = true
		if d, err := url.QueryUnescape(u); err == nil {
			uris[d] = true
		}
		put("redirect_uri", u)
	}
	implicit := r.IntN(2) == 0
	for n := times(); n > 0; n-- {
		rt := map[bool]string{true: "token", false: "code"}[implicit]
		if chance(r, 0.15) {
			rt = pick(r, []string{"", "id_token", "code token", "Code", "none", "token", "code"})
		}
		put("response_type", rt)
	}
	if chance(r, 0.6) {
		put("scope", pick(r, []string{"foo", "foo bar", "", "admin", "foo admin"}))
	}
	if chance(r, 0.6) {
		put("state", text(r))
	}
	creds := []string{"username=u", "password=" + pick(r, []string{"p", "p", "p", "x"})}
	if chance(r, 0.8) {
		body = append(body, creds...)
	} else {
		query = append(query, creds...)
	}
	if chance(r, 0.1) {
		query = append(query, pick(r, []string{"%zz", "a;b", "x", "&"}))
	}
	if chance(r, 0.1) {
		body = append(body, pick(r, []string{"%zz", "a;b", "x", "&"}))
	}
	method := pick(r, []string{"POST", "POST", "POST", "POST", "POST", "POST", "POST", "POST", "POST", "POST", "GET", "GET", "HEAD", "PUT", "OPTIONS", "get", "post", "DELETE"})
	if method != "POST" && chance(r, 0.5) {
		query = append(query, pick(r, []string{"_method=POST", "method=post", "response_mode=form_post"}))
		if chance(r, 0.7) { // proper parameters in the URL, proper credentials in the body
			query = append(query, "client_id="+url.QueryEscape(target.id), "redirect_uri="+url.QueryEscape(target.uri), "response_type="+pick(r, []string{"token", "code"}))
			named[target.id], uris[target.uri] = true, true
			body = append(body, "username=u", "password=p", "_method=POST")
		}
	}
	data := strings.Join(shuffled(r, body), "&")
	req := &http.Request{Method: method, URL: &url.URL{Path: pick(r, endpoints["authorize"]), RawQuery: strings.Join(shuffled(r, query), "&")}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Host: pick(r, []string{"auth.example", "evil.example"}), Body: io.NopCloser(strings.NewReader(data)), ContentLength: int64(len(data))}
	req.Header.Set("Content-Type", pick(r, []string{"application/x-www-form-urlencoded", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded", "text/plain"}))
	if method != "POST" && chance(r, 0.5) { // pretend to be another method
		for _, k := range []string{"X-HTTP-Method-Override", "X-HTTP-Method", "X-Method-Override", "X-Http-Method", "Method"} {
			req.Header.Set(k, "POST")
		}
	}
	if chance(r, 0.1) {
		req.Header.Set("Referer", "https://evil.example/cb")
		req.Header.Set("Origin", "https://evil.example")
		req.Header.Set("X-Forwarded-Host", "evil.example")
	}
	desc := fmt.Sprintf("%s ?%s {%s}", method, req.URL.RawQuery, data)
	if chance(r, 0.15) {
		beside, around := surroundings(r, "https://evil.example/cb")
		around(req)
		desc += " (" + beside + ")"
		c.Count("requests with odd surroundings", 1)
	}
	w := NewRecorder()
	o := exchange(srv, req, w)
	fail := func(sig, format string, args ...any) {
		c.Violate(sig, map[string]any{"what": fmt.Sprintf(format, args...), "request": desc, "answer": o.String(), "clients": fmt.Sprintf("%+q", clients)})
	}
	if o.Panic != "" {
		fail("fuzz: panic", "the server panicked: %s", o.Panic)
		return
	}
	nA, nR, nC := len(srv.AccessTokens), len(srv.RefreshTokens), len(srv.AuthorizationCodes)
	if method != "POST" && nA+nR+nC > 0 {
		fail("fuzz: issued by "+method, "a %s request issued %d access tokens, %d refresh tokens and %d codes", method, nA, nR, nC)
	}
	if nR > 0 {
		fail("fuzz: refresh token", "the authorization endpoint issued %d refresh tokens", nR)
	}
	if nA+nC > 1 {
		fail("fuzz: several", "one request issued %d access tokens and %d codes", nA, nC)
	}
	if o.Location == "" {
		if nA+nC > 0 {
			fail("fuzz: lost", "a credential was issued without a redirection")
		}
		c.Count("requests answered directly", 1)
	} else {
		if method != "POST" {
			fail("fuzz: method", "a %s request was redirected", method)
		}
		ok := false
		for _, x := range clients {
			if named[x.id] && x.uri != "" && uris[x.uri] && leadsTo(o.Location, x.uri) {
				ok = true
			}
		}
		if !ok {
			fail("fuzz: open redirect", "redirected to %q, which is not the registered and requested URI of a client named in the request", o.Location)
		}
		if o.LFrag.Get("refresh_token") != "" || nA > 0 && o.LFrag.Get("access_token") == "" || nC > 0 && o.LQuery.Get("code") == "" {
			fail("fuzz: carried", "issued %d access tokens and %d codes, redirected to %q", nA, nC, o.Location)
		}
		c.Count("requests redirected", 1)
	}
	c.Eval(desc)
	if c.wantSample() {
		c.Sample(desc + " => " + o.String())
	}
}

// isURI tells whether text consists of characters of URIs only.
func isURI(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] <= 0x20 || s[i] >= 0x7f || strings.IndexByte("\"<>\\^`{|}", s[i]) >= 0 {
			return false
		}
	}
	return true
}

// leadsTo tells whether a location is a redirect URI extended by parameters.
func leadsTo(loc, uri string) bool {
	base, q, _, _ := splitLocation(uri)
	b, lq, _, _ := splitLocation(loc)
	if lowScheme(b) != lowScheme(base) {
		return false
	}
	for k, l := range q {
		if len(lq[k]) < len(l) {
			return false
		}
		for _, v := range l {
			found := false
			for _, x := range lq[k] {
				found = found || x == v
			}
			if !found {
				return false
			}
		}
	}
	for k := range lq {
		if _, own := q[k]; own {
			continue
		}
		switch k {
		case "code", "state", "error", "error_description", "error_uri", "iss":
		default:
			return false
		}
	}
	return true
}

func init() {
	checks["C12"] = func(t *testing.T, r *Run) {
		histories(t, r, 10000, 60000)
		r.Rule("(a) random authorization requests against one server with a reference model; (b) authorization requests with repeated, conflicting, misplaced and near-miss clients, redirect URIs and response types against servers with similar clients; every Location is compared with the registered URIs; distinct by operations and outcomes, or by request")
		r.Cases("fuzz", r.N(150000, 3000000), redirectFuzz)
		r.Floor("requests redirected", 10000)
		r.Floor("requests answered directly", 10000)
	}
}
