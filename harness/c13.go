package harness

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/256dpi/oauth2/v2"
)

// anyURI makes a redirect URI: an absolute URI without fragment, among them
// ones whose query is not form encoded.
func anyURI(c *Case) string {
	r := c.R
	switch r.IntN(12) {
	case 0:
		return pick(r, []string{"https://app.example/cb?a;b", "https://app.example/cb?100%", "https://app.example/cb?x=%zz&y=1", "https://app.example/?%", "https://app.example/?a=1;b=2&c=3", "http://h/p?;", "https://app.example/cb?%u1234"})
	case 1:
		return pick(r, []string{"urn:ietf:wg:oauth:2.0:oob", "app:callback", "com.example:a?b=c", "myapp:x?y=%20"})
	case 2:
		return pick(r, []string{"/local/cb", "/local/cb?x=%26", "/", "/a%2Fb?c=d&c=e"})
	case 3:
		return "HTTPS" + strings.TrimPrefix("https://App.Example:443/CB?A=B", "https")
	}
	return validURI(r)
}

// lowScheme normalizes the scheme of a URI, which is case insensitive.
func lowScheme(s string) string {
	if i := strings.IndexByte(s, ':'); i > 0 && !strings.HasPrefix(s, "/") {
		return strings.ToLower(s[:i]) + s[i:]
	}
	return s
}

// carried compares a redirection with what it has to carry.
func carried(c *Case, where, uri string, params map[string]string, frag bool, status int, h http.Header, body string) {
	l := h.Values("Location")
	fail := func(sig, format string, args ...any) {
		c.Violate(where+": "+sig, map[string]any{"what": fmt.Sprintf(format, args...), "uri": uri, "params": fmt.Sprintf("%q", params), "fragment": frag, "header": fmt.Sprintf("%q", h), "status": status})
	}
	if len(l) != 1 {
		fail("location", "there are %d locations", len(l))
		return
	}
	loc := l[0]
	if status != 303 || body != "" {
		fail("status", "the status is %d, the body %q", status, body)
	}
	if !noStore(h) || !strings.Contains(h.Get("Pragma"), "no-cache") {
		fail("cacheable", "headers %v", h)
	}
	if p := h.Get("Referrer-Policy"); p != "origin" && p != "no-referrer" && p != "strict-origin" {
		fail("referrer", "the referrer policy is %q", p)
	}
	if strings.ContainsAny(loc, "\r\n\x00 ") {
		fail("bytes", "the location %q contains white space", loc)
	}
	base, q0, _, bad := splitLocation(uri)
	gbase, _, gfrag, _ := splitLocation(loc)
	if lowScheme(gbase) != lowScheme(base) {
		fail("base", "redirected to %q, the redirect URI is %q", loc, uri)
		return
	}
	want := url.Values{}
	for k, v := range params {
		want[k] = []string{v}
	}
	rest := loc
	hash := strings.IndexByte(rest, '#')
	if hash >= 0 {
		rest = rest[:hash]
	}
	query := ""
	if i := strings.IndexByte(rest, '?'); i >= 0 {
		query = rest[i+1:]
	}
	add := url.Values{}
	if frag {
		if hash < 0 && len(params) > 0 || !reflect.DeepEqual(want, gfrag) {
			fail("fragment", "the fragment of %q is %q instead of %q", loc, gfrag, want)
			return
		}
		if f, err := url.ParseQuery(loc[max(hash, 0)+min(1, hash+1):]); hash >= 0 && (err != nil || !reflect.DeepEqual(f, want)) {
			fail("fragment syntax", "the fragment of %q does not decode: %v", loc, err)
		}
	} else {
		if hash >= 0 {
			fail("place", "there is a fragment in %q", loc)
			return
		}
		add = want
	}
	if bad != "" { // the query of the redirect URI is no form: it has to stay as it is
		raw := uri[strings.IndexByte(uri, '?')+1:]
		tail, ok := strings.CutPrefix(query, raw)
		sep := strings.HasPrefix(tail, "&") || strings.HasSuffix(raw, "&")
		ok = ok && (sep || len(add) == 0)
		tail = strings.TrimPrefix(tail, "&")
		got, err := url.ParseQuery(tail)
		if !ok || err != nil || !reflect.DeepEqual(got, add) {
			fail("raw query", "the query of %q does not extend %q by %q", loc, raw, add)
		}
		c.Count("redirect URIs with a query that is no form", 1)
		return
	}
	got, err := url.ParseQuery(query)
	if err != nil {
		fail("query syntax", "the query of %q does not decode: %v", loc, err)
		return
	}
	all := url.Values{}
	for k, v := range q0 {
		all[k] = append([]string{}, v...)
	}
	for k, v := range add {
		all[k] = append(all[k], v...)
	}
	// order only counts among the values the redirect URI has by itself
	for k, v := range all {
		g := got[k]
		if len(g) != len(v) || !reflect.DeepEqual(g[:len(q0[k])], v[:len(q0[k])]) && !reflect.DeepEqual(g[len(g)-len(q0[k]):], v[:len(q0[k])]) {
			fail("query", "the query of %q has %q=%q instead of %q", loc, k, g, v)
			return
		}
		rem := append([]string{}, g...)
		for _, x := range v {
			for i, y := range rem {
				if x == y {
					rem = append(rem[:i], rem[i+1:]...)
					break
				}
			}
		}
		if len(rem) > 0 {
			fail("query", "the query of %q has %q=%q instead of %q", loc, k, g, v)
			return
		}
	}
	for k := range got {
		if _, ok := all[k]; !ok {
			fail("query", "the query of %q has an unexpected parameter %q", loc, k)
			return
		}
	}
	c.Count("redirections decoded", 1)
}

// redirectable makes something that is written as a redirection.
func redirectable(c *Case) (uri string, params map[string]string, frag bool, write func(w http.ResponseWriter) error) {
	r := c.R
	uri = anyURI(c)
	f := func() string {
		if chance(r, 0.3) {
			return ""
		}
		if chance(r, 0.01) { // 1200 pieces of up to 40 bytes still fit into a header
			return strings.Repeat(text(r)+"x", 1+r.IntN(1200))
		}
		return text(r)
	}
	params = map[string]string{}
	put := func(k, v string) {
		if v != "" {
			params[k] = v
		}
	}
	switch r.IntN(4) {
	case 0:
		for i := r.IntN(6); i > 0; i-- {
			params[pick(r, []string{"state", "code", "a", "b", text(r), text(r), ""})] = f()
		}
		frag = r.IntN(2) == 0
		p := params
		return uri, params, frag, func(w http.ResponseWriter) error { return oauth2.WriteRedirect(w, uri, p, frag) }
	case 1:
		tr := oauth2.NewBearerTokenResponse(text(r), int(num(c)))
		tr.RefreshToken = f()
		if chance(r, 0.5) {
			for i := 1 + r.IntN(3); i > 0; i-- {
				tr.Scope = append(tr.Scope, "s"+strings.ReplaceAll(text(r), " ", "_"))
			}
		}
		tr.SetRedirect(uri, f())
		params["access_token"], params["token_type"], params["expires_in"] = tr.AccessToken, "bearer", fmt.Sprint(tr.ExpiresIn)
		put("refresh_token", tr.RefreshToken)
		put("scope", strings.Join(tr.Scope, " "))
		put("state", tr.State)
		return uri, params, true, func(w http.ResponseWriter) error { return oauth2.WriteTokenResponse(w, tr) }
	case 2:
		cr := oauth2.NewCodeResponse(text(r), uri, f())
		params["code"] = cr.Code
		put("state", cr.State)
		return uri, params, false, func(w http.ResponseWriter) error { return oauth2.WriteCodeResponse(w, cr) }
	}
	e := pick(r, constructors).make(f())
	if chance(r, 0.4) {
		e.URI, e.Realm = f(), f()
	}
	e.Scope = nil
	if chance(r, 0.4) {
		for i := 1 + r.IntN(3); i > 0; i-- {
			e.Scope = append(e.Scope, "s"+strings.ReplaceAll(text(r), " ", "_"))
		}
	}
	frag = r.IntN(2) == 0
	e = e.SetRedirect(uri, f(), frag)
	put("error", e.Name)
	put("error_description", e.Description)
	put("error_uri", e.URI)
	put("realm", e.Realm)
	put("scope", strings.Join(e.Scope, " "))
	put("state", e.State)
	return uri, params, frag, func(w http.ResponseWriter) error { return oauth2.WriteError(w, e) }
}

func init() {
	checks["C13"] = func(t *testing.T, r *Run) {
		histories(t, r, 10000, 60000)
		r.Rule("(a) random authorization requests with arbitrary states against the real server, every redirection compared with a model; (b) arbitrary parameters and redirect URIs written by each writer and read back by an independent URI and form decoder, directly and from a real connection; distinct by operations and outcomes, or by location")
		r.Cases("writers", r.N(150000, 3000000), func(c *Case) {
			uri, params, frag, write := redirectable(c)
			w := NewRecorder()
			if err := write(w); err != nil {
				c.Failf("writers: error", "redirecting to %q failed: %v", uri, err)
				return
			}
			w.Finish()
			if w.Headers != 1 {
				c.Failf("writers: header", "the header was written %d times", w.Headers)
			}
			carried(c, "writers", uri, params, frag, w.Status, w.Sent, w.Body.String())
			c.Eval("w" + w.Sent.Get("Location"))
		})
		var mu sync.Mutex
		pending := map[string]func(w http.ResponseWriter) error{}
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, rq *http.Request) {
			mu.Lock()
			f := pending[rq.URL.Path]
			delete(pending, rq.URL.Path)
			mu.Unlock()
			_ = f(w)
		}))
		defer srv.Close()
		cl := srv.Client()
		cl.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
		r.Cases("wire", r.N(5000, 100000), func(c *Case) {
			uri, params, frag, write := redirectable(c)
			key := fmt.Sprintf("/%d", c.Index)
			mu.Lock()
			pending[key] = write
			mu.Unlock()
			res, err := cl.Get(srv.URL + key)
			if err != nil {
				c.Failf("wire: broken", "the redirection to %q with %q could not be received: %v", uri, params, err)
				return
			}
			_ = res.Body.Close()
			carried(c, "wire", uri, params, frag, res.StatusCode, res.Header, "")
			c.Count("redirections received over a connection", 1)
			c.Eval("x" + res.Header.Get("Location"))
		})
		r.Floor("redirections decoded", 50000)
		r.Floor("redirect URIs with a query that is no form", 2000)
	}
}
