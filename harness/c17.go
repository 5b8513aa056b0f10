package harness

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"testing"

	"github.com/256dpi/oauth2/v2"
)

// rawReq is a request whose intended content is known.
type rawReq struct {
	method     string
	query      map[string]string
	body       map[string]string
	badQuery   bool
	badBody    bool // the body is malformed or breaks off
	ctype      string
	noBody     bool
	auth       string
	id, secret string
	authOK     bool
	authBad    bool // an unusable authorization header
	tail       string
	tailQ      string
	broken     bool
	around     func(*http.Request)
	beside     string
	multi      bool // multipart form data
}

func encode(m map[string]string, c *Case) string {
	var l []string
	for _, k := range sortedKeys(m) {
		v := url.QueryEscape(m[k])
		if chance(c.R, 0.2) {
			v = strings.ReplaceAll(v, "+", "%20")
		}
		if chance(c.R, 0.1) {
			v = strings.ToLower(v[:0]) + v
		}
		l = append(l, url.QueryEscape(k)+"="+v)
	}
	return strings.Join(shuffled(c.R, l), "&")
}

type breakingReader struct {
	data string
	err  error
}

func (b *breakingReader) Read(p []byte) (int, error) {
	if b.data == "" {
		return 0, b.err
	}
	n := copy(p, b.data)
	b.data = b.data[n:]
	return n, nil
}

func (q *rawReq) build(c *Case) *http.Request {
	u := &url.URL{Scheme: "", Path: "/oauth2/x", RawQuery: encode(q.query, c) + q.tailQ}
	r := &http.Request{Method: q.method, URL: u, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Body: http.NoBody, Host: "x"}
	if !q.noBody {
		data := encode(q.body, c) + q.tail
		if q.multi {
			f := url.Values{}
			for k, v := range q.body {
				f.Set(k, v)
			}
			data = multipartBody(f, "xx", true)
		}
		r.ContentLength = int64(len(data))
		if q.broken {
			r.Body = io.NopCloser(&breakingReader{data, pick(c.R, []error{io.ErrUnexpectedEOF, errors.New("reset")})})
		} else {
			r.Body = io.NopCloser(strings.NewReader(data))
		}
	}
	if q.ctype != "" {
		r.Header.Set("Content-Type", q.ctype)
	}
	if q.auth != "" {
		r.Header.Set("Authorization", q.auth)
	}
	if q.around != nil {
		q.around(r)
	}
	if q.method != "POST" && chance(c.R, 0.2) { // pretend to be another method
		for _, k := range []string{"X-Http-Method-Override", "X-Http-Method", "X-Method-Override", "Method"} {
			r.Header.Set(k, "POST")
		}
	}
	return r
}

func (q *rawReq) String() string {
	return fmt.Sprintf("%s query=%q%s body=%q%s type=%q auth=%q nobody=%v broken=%v (%s)", q.method, q.query, q.tailQ, q.body, q.tail, q.ctype, q.auth, q.noBody, q.broken, q.beside)
}

// makeAuth decides on the authorization header.
func (q *rawReq) makeAuth(c *Case, p float64) {
	r := c.R
	if !chance(r, p) {
		return
	}
	q.id, q.secret = strings.ReplaceAll(text(r), ":", "_")+"i", text(r)
	b := strings.TrimPrefix(basic(q.id, q.secret), "Basic ")
	if chance(r, 0.75) {
		q.auth, q.authOK = pick(r, []string{"Basic ", "Basic ", "basic ", "BASIC ", "bAsIc "})+b, true
		return
	}
	q.authBad = true
	q.auth = pick(r, []string{"Bearer " + b, "Basic", "Basic ", "Basic" + b, "Basic !" + b, "Digest " + b, b,
		strings.Replace(basic("nocolon", ""), basic("nocolon", "")[6:], "bm9jb2xvbg==", 1), "Basic " + b + "=x", "Negotiate " + b, " "})
	q.id, q.secret = "", ""
}

// makeBody decides on the quality of query and body.
func (q *rawReq) makeBody(c *Case) {
	r := c.R
	q.ctype = pick(r, []string{"application/x-www-form-urlencoded", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8", "Application/X-WWW-Form-Urlencoded"})
	if !chance(r, 0.25) {
		return
	}
	switch r.IntN(10) {
	case 9:
		q.multi, q.ctype = true, "multipart/form-data; boundary=xx"
	case 0:
		q.ctype, q.badBody = pick(r, []string{"application/json", "text/plain", "multipart/form-data; boundary=x", ""}), true
	case 1:
		q.tail, q.badBody = pick(r, []string{"&%zz", "&a=%", "&x=%2", "&a;b=c", "&%=x"}), true
	case 2:
		q.tailQ, q.badQuery = pick(r, []string{"&%zz", "&a=%", "&x=%2", "&a;b=c"}), true
	case 3:
		q.broken, q.badBody = true, true
	case 4:
		q.noBody, q.badBody = true, true
	case 5:
		q.tail = pick(r, []string{"&", "&&", "&=", "&x", "&ä=1"})
	case 6:
		q.tailQ = pick(r, []string{"&", "&x", "&=&"})
	case 7:
		q.ctype, q.badBody = "a/b; c", true
	case 8:
		q.method = pick(r, []string{"PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "post", "Post", "CONNECT", "PROPFIND", "", "GET", "get"})
	}
}

// uriParam makes a redirect URI parameter. want is what the client meant; valid
// tells whether it has to be accepted.
func uriParam(c *Case) (raw, want string, valid bool) {
	r := c.R
	if chance(r, 0.6) {
		u := validURI(r)
		if chance(r, 0.5) {
			return url.QueryEscape(u), u, true
		}
		return u, u, true
	}
	u := validURI(r)
	bad := pick(r, []string{"foo", "foo bar", "://x", "http://a b/", "http://[::1", "%zz", "http://x/%zz", "\x7fhttp://", "http://x/\x00", u + "#", u + "#frag", "#", "?x=1",
		"http://a:b:c/", "http://x/\n", " " + u, "1http://x/", u + "#a%23b", "http://x:port/", "cb", "%", "http://%zz/"})
	if chance(r, 0.5) {
		return url.QueryEscape(bad), "", false
	}
	return bad, "", false
}

// judgeParse compares the result of a parser with what has to come out.
func judgeParse(c *Case, what string, q *rawReq, got any, isNil bool, err error, want any, reject, either string) bool {
	fail := func(sig, format string, args ...any) bool {
		c.Violate(what+": "+sig, map[string]any{"what": fmt.Sprintf(format, args...), "request": q.String()})
		return false
	}
	if isNil == (err == nil) {
		return fail("both or neither", "the parser returned %+v and error %v", got, err)
	}
	if err != nil {
		e, ok := err.(*oauth2.Error)
		if !ok || e.Name != "invalid_request" || e.Status != 400 || e.RedirectURI != "" {
			return fail("error", "the error is %#v", err)
		}
	}
	switch {
	case reject != "":
		c.Count("requests that had to be rejected: "+reject, 1)
		if err == nil {
			return fail("accepted: "+reject, "a request was accepted (%s) as %+q", reject, got)
		}
	case either != "":
		c.Count("requests that may be rejected: "+either, 1)
	default:
		c.Count("requests that had to be accepted", 1)
		if err != nil {
			return fail("rejected", "a proper request was rejected: %v", err)
		}
	}
	if err == nil && fmt.Sprintf("%+q", got) != fmt.Sprintf("%+q", want) {
		return fail("values", "parsed %+q, expected %+q", got, want)
	}
	return true
}

func init() {
	checks["C17"] = func(t *testing.T, r *Run) {
		r.Rule("random requests with known intended parameters in body and URL, all methods, content types, broken and malformed bodies and queries, usable and unusable authorization headers, and redirect URIs in several encodings; the result of each parser is compared with the intent; distinct by request")
		place := func(c *Case, q *rawReq, k, v string, pBody, pQuery float64) {
			if chance(c.R, pBody) {
				q.body[k] = v
			}
			if chance(c.R, pQuery) {
				q.query[k] = v + pick(c.R, []string{"", "x"})
			}
		}
		r.Cases("token", r.N(80000, 1500000), func(c *Case) {
			rr := c.R
			q := &rawReq{method: "POST", query: map[string]string{}, body: map[string]string{}}
			if chance(c.R, 0.1) {
				q.beside, q.around = surroundings(c.R, basic("other", "secret"), "grant_type=password")
				c.Count("requests with odd surroundings", 1)
			}
			if chance(rr, 0.08) {
				q.method = pick(rr, []string{"GET", "PUT", "HEAD"})
			}
			q.makeBody(c)
			q.makeAuth(c, 0.6)
			place(c, q, "grant_type", maybe3(c, pick(rr, []string{"password", "refresh_token", text(rr)})), 0.93, 0.2)
			sc := properScope(c, 3)
			place(c, q, "scope", strings.Join(sc, pick(rr, []string{" ", "  "})), 0.6, 0.2)
			place(c, q, "client_id", maybe3(c, text(rr)), 0.6, 0.2)
			for _, k := range []string{"client_secret", "username", "password", "refresh_token", "code"} {
				place(c, q, k, text(rr), 0.4, 0.2)
			}
			uriOK := true
			wantURI := ""
			if chance(rr, 0.5) {
				raw, want, ok := uriParam(c)
				q.body["redirect_uri"], wantURI, uriOK = raw, want, ok
			} else if chance(rr, 0.2) {
				q.body["redirect_uri"] = ""
			}
			if chance(rr, 0.2) {
				q.query["redirect_uri"] = pick(rr, []string{"https://evil.example/", "invalid"})
			}
			id, secret := q.id, q.secret
			either := ""
			if !q.authOK {
				id, secret = q.body["client_id"], q.body["client_secret"]
				if q.authBad {
					either = "unusable authorization header"
				}
			}
			if q.multi {
				either = "multipart form data"
			}
			reject := ""
			switch {
			case q.method != "POST":
				reject = "method"
			case q.badBody:
				reject = "body"
			case q.badQuery:
				reject = "query"
			case q.body["grant_type"] == "":
				reject = "no grant type"
			case id == "":
				reject = "no client"
			case !uriOK:
				reject = "redirect URI"
			}
			got, err := oauth2.ParseTokenRequest(q.build(c))
			want := &oauth2.TokenRequest{GrantType: q.body["grant_type"], Scope: oauth2.Scope(names(q.body["scope"])), ClientID: id, ClientSecret: secret, Username: q.body["username"],
				Password: q.body["password"], RefreshToken: q.body["refresh_token"], RedirectURI: wantURI, Code: q.body["code"]}
			judgeParse(c, "token", q, got, got == nil, err, want, reject, either)
			c.Eval("t" + q.String())
			if c.wantSample() {
				c.Sample(q.String())
			}
		})
		r.Cases("authorization", r.N(80000, 1500000), func(c *Case) {
			rr := c.R
			q := &rawReq{method: pick(rr, []string{"GET", "POST", "POST"}), query: map[string]string{}, body: map[string]string{}}
			if chance(c.R, 0.1) {
				q.beside, q.around = surroundings(c.R, basic("other", "secret"), "grant_type=password")
				c.Count("requests with odd surroundings", 1)
			}
			if chance(rr, 0.08) {
				q.method = pick(rr, []string{"PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "get"})
			}
			q.makeBody(c)
			vals := map[string]string{}
			put := func(k, v string, p float64) {
				if !chance(rr, p) {
					return
				}
				if q.method == "POST" && chance(rr, 0.6) {
					if !q.badBody {
						vals[k] = v
					}
					q.body[k] = v
				} else {
					q.query[k] = v
					vals[k] = v
				}
			}
			put("response_type", maybe3(c, pick(rr, []string{"token", "code", text(rr)})), 0.95)
			put("client_id", maybe3(c, text(rr)), 0.95)
			put("state", text(rr), 0.6)
			put("scope", strings.Join(properScope(c, 3), " "), 0.6)
			put("extra", text(rr), 0.2)
			raw, wantURI, uriOK := uriParam(c)
			put("redirect_uri", raw, 0.95)
			if vals["redirect_uri"] == "" {
				uriOK = false
			}
			reject := ""
			switch {
			case q.method != "GET" && q.method != "POST":
				reject = "method"
			case q.badQuery:
				reject = "query"
			case q.method == "POST" && q.badBody && (q.tail != "" || q.broken || q.ctype == "a/b; c"):
				reject = "body"
			case vals["response_type"] == "":
				reject = "no response type"
			case vals["client_id"] == "":
				reject = "no client"
			case !uriOK:
				reject = "redirect URI"
			}
			either := ""
			if q.method == "POST" && q.badBody {
				either = "no usable body"
			}
			if q.method == "POST" && q.multi {
				either = "multipart form data"
			}
			if q.method == "GET" { // a body of a GET request does not count
				q.noBody = chance(rr, 0.7)
			}
			got, err := oauth2.ParseAuthorizationRequest(q.build(c))
			want := &oauth2.AuthorizationRequest{ResponseType: vals["response_type"], Scope: oauth2.Scope(names(vals["scope"])), ClientID: vals["client_id"], RedirectURI: wantURI, State: vals["state"]}
			if q.multi && got != nil { // the body may as well be ignored
				alt := *want
				alt.State, alt.Scope = q.query["state"], oauth2.Scope(names(q.query["scope"]))
				if fmt.Sprintf("%+q", got) == fmt.Sprintf("%+q", &alt) {
					want = &alt
				}
			}
			judgeParse(c, "authorization", q, got, got == nil, err, want, reject, either)
			c.Eval("a" + q.String())
		})
		r.Cases("inspection", r.N(80000, 1500000), func(c *Case) {
			rr := c.R
			q := &rawReq{method: "POST", query: map[string]string{}, body: map[string]string{}}
			if chance(c.R, 0.1) {
				q.beside, q.around = surroundings(c.R, basic("other", "secret"), "grant_type=password")
				c.Count("requests with odd surroundings", 1)
			}
			if chance(rr, 0.08) {
				q.method = pick(rr, []string{"GET", "PUT", "DELETE"})
			}
			q.makeBody(c)
			q.makeAuth(c, 0.85)
			place(c, q, "token", maybe3(c, text(rr)), 0.9, 0.3)
			place(c, q, "token_type_hint", maybe3(c, pick(rr, []string{"access_token", "refresh_token", text(rr)})), 0.5, 0.3)
			place(c, q, "client_id", text(rr), 0.3, 0.3)
			place(c, q, "client_secret", text(rr), 0.3, 0.3)
			reject := ""
			switch {
			case q.method != "POST":
				reject = "method"
			case q.badBody:
				reject = "body"
			case q.badQuery:
				reject = "query"
			case q.body["token"] == "":
				reject = "no token"
			case !q.authOK:
				reject = "no basic credentials"
			}
			either := ""
			if q.multi {
				either = "multipart form data"
			}
			gi, err := oauth2.ParseIntrospectionRequest(q.build(c))
			judgeParse(c, "introspection", q, gi, gi == nil, err, &oauth2.IntrospectionRequest{Token: q.body["token"], TokenTypeHint: q.body["token_type_hint"], ClientID: q.id, ClientSecret: q.secret}, reject, either)
			gr, err := oauth2.ParseRevocationRequest(q.build(c))
			judgeParse(c, "revocation", q, gr, gr == nil, err, &oauth2.RevocationRequest{Token: q.body["token"], TokenTypeHint: q.body["token_type_hint"], ClientID: q.id, ClientSecret: q.secret}, reject, either)
			c.Eval("i" + q.String())
		})
		for _, k := range []string{"requests that had to be accepted", "requests that had to be rejected: method", "requests that had to be rejected: body", "requests that had to be rejected: redirect URI",
			"requests that had to be rejected: no client", "requests that had to be rejected: no basic credentials", "requests that had to be rejected: no token"} {
			r.Floor(k, 500)
		}
	}
}

func maybe3(c *Case, s string) string {
	if chance(c.R, 0.05) {
		return ""
	}
	return s
}
