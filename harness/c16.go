package harness

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"fmt"
	"math/rand/v2"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"testing"

	"github.com/256dpi/oauth2/v2"
)

// validURI makes a valid absolute URI without fragment.
func validURI(r *rand.Rand) string {
	if chance(r, 0.3) {
		return pick(r, redirects)
	}
	var b strings.Builder
	b.WriteString(pick(r, []string{"https://", "http://", "com.example.app:/", "myapp://"}))
	b.WriteString(pick(r, []string{"app.example", "localhost:8080", "127.0.0.1", "[::1]:9000", "user@host.example", "xn--bcher-kva.example", "a.b-c.example:443"}))
	seg := []string{"cb", "a%20b", "%2F", "%C3%A4", "%25", "x+y", "~u", "a;b", "a=b", "@", ":", "%3D", "%26", ".", "..", "(", "!", "$", "'", "*", ",", "%00", "%E2%80%A8", "%2B", "%2526"}
	for n := r.IntN(4); n > 0; n-- {
		b.WriteString("/" + pick(r, seg))
	}
	if chance(r, 0.5) {
		b.WriteString("?")
		q := []string{"a=1", "b=%20", "c=%26", "d", "e=", "=f", "g=1+2", "h=%2B", "next=https%3A%2F%2Fx%2F%3Fy%3D1", "i=a%3Bb", "a=2", "%C3%A4=%C3%B6", "state=x", "j=/?:@", "k=%2525"}
		for i, n := 0, r.IntN(4); i < n; i++ {
			if i > 0 {
				b.WriteString("&")
			}
			b.WriteString(pick(r, q))
		}
	}
	return b.String()
}

// overWire sends a request through its serialized form.
func overWire(req *http.Request) (*http.Request, error) {
	var buf bytes.Buffer
	if err := req.Write(&buf); err != nil {
		return nil, err
	}
	return http.ReadRequest(bufio.NewReader(&buf))
}

func basicOf(h string) (id, secret string, ok bool) {
	if len(h) < 6 || !strings.EqualFold(h[:6], "Basic ") {
		return
	}
	d, err := base64.StdEncoding.DecodeString(h[6:])
	if err != nil {
		return
	}
	return strings.Cut(string(d), ":")
}

func maybe(c *Case, f func() string) string {
	if chance(c.R, 0.3) {
		return ""
	}
	return f()
}

func any1(c *Case) string {
	if chance(c.R, 0.004) { // longer than usual buffers
		return strings.Repeat(text(c.R)+"x", 1+pick(c.R, []int{100, 1000, 5000, 70000, 300000})/pick(c.R, []int{3, 7, 20}))
	}
	return text(c.R)
}

// checkBuilt checks the form of a built request.
func checkBuilt(c *Case, what string, req *http.Request, err error, uri, id, secret string, hidden []string, detail any) bool {
	if err != nil || req == nil {
		c.Failf(what+": not built", "building for %q failed: %v (%+v)", uri, err, detail)
		return false
	}
	gid, gsec, ok := basicOf(req.Header.Get("Authorization"))
	switch {
	case req.Method != "POST":
		c.Failf(what+": method", "built request has method %s", req.Method)
	case req.URL.String() != uri:
		c.Failf(what+": uri", "built request goes to %q instead of %q (%+v)", req.URL, uri, detail)
	case req.Header.Get("Content-Type") != "application/x-www-form-urlencoded":
		c.Failf(what+": type", "content type %q", req.Header.Get("Content-Type"))
	case !ok || gid != id || gsec != secret || len(req.Header.Values("Authorization")) != 1:
		c.Failf(what+": credentials", "built request has authorization %q (%+v)", req.Header.Values("Authorization"), detail)
	default:
		for k, l := range req.Header {
			if k != "Authorization" && k != "Content-Type" {
				for _, h := range hidden {
					if len(h) > 6 && strings.Contains(strings.Join(l, ""), h) {
						c.Failf(what+": leak", "the secret %q is in header %s", h, k)
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

// checkValues checks the values of a request: exactly the non-empty fields,
// and entries that are independent of each other.
func checkValues(c *Case, what string, make1 func() url.Values, want map[string][]string, unchanged func() bool) {
	v := make1()
	ref := map[string][]string{}
	for k, l := range v {
		w, ok := want[k]
		if !ok || len(l) != 1 || (l[0] != w[0] && l[0] != w[len(w)-1]) {
			c.Failf(what+": values", "unexpected form value %q=%q, expected %q", k, l, want[k])
			return
		}
		ref[k] = append([]string(nil), l...)
	}
	for k := range want {
		if _, ok := v[k]; !ok {
			c.Failf(what+": values", "the form value %q is missing in %v", k, v)
			return
		}
	}
	// change every entry in every way a user could
	keys := sortedKeys(ref)
	for _, k := range keys {
		v := make1()
		switch c.R.IntN(4) {
		case 0:
			v.Add(k, "added")
		case 1:
			_ = append(v[k], "one", "two", "three", "four", "five", "six")
		case 2:
			v[k][0] = "changed"
		case 3:
			v.Del(k)
			v.Set(k, "set")
		}
		for _, o := range keys {
			if o != k && !reflect.DeepEqual(v[o], ref[o]) {
				c.Failf(what+": entries share memory", "changing entry %q changed entry %q from %q to %q", k, o, ref[o], v[o])
				return
			}
		}
		if again := make1(); !reflect.DeepEqual(map[string][]string(again), ref) || !unchanged() {
			c.Failf(what+": request changed", "changing entry %q changed the request, its values are now %v instead of %v", k, again, ref)
			return
		}
		c.Count("entries changed", 1)
	}
}

func init() {
	checks["C16"] = func(t *testing.T, r *Run) {
		r.Rule("random requests with hostile text in every field and endpoints with conflicting queries are built, checked, parsed directly and after serialization, and compared, with and without credentials; entries of their form values are changed one by one; distinct by fields")
		r.Cases("token", r.N(150000, 1200000), func(c *Case) {
			rr := c.R
			rq := oauth2.TokenRequest{
				GrantType: pick(rr, []string{"password", "client_credentials", "authorization_code", "refresh_token", text(rr) + "g"}),
				Scope:     scopeOf(properScope(c, 4)),
				ClientID:  strings.ReplaceAll(text(rr), ":", "_") + pick(rr, []string{"", "x"}), ClientSecret: maybe(c, func() string { return any1(c) }),
				Username: maybe(c, func() string { return any1(c) }), Password: maybe(c, func() string { return any1(c) }),
				RefreshToken: maybe(c, func() string { return any1(c) }), RedirectURI: maybe(c, func() string { return validURI(rr) }), Code: maybe(c, func() string { return any1(c) }),
			}
			orig := rq
			orig.Scope = append(oauth2.Scope(nil), rq.Scope...)
			uri := endpointURI(c)
			req, err := oauth2.BuildTokenRequest(uri, rq)
			if !checkBuilt(c, "token", req, err, uri, rq.ClientID, rq.ClientSecret, []string{rq.ClientSecret, rq.Password, rq.RefreshToken, rq.Code}, rq) {
				return
			}
			for _, wire := range []bool{true, false} {
				in, err := oauth2.BuildTokenRequest(uri, rq)
				if err == nil && wire {
					in, err = overWire(in)
				}
				if err != nil {
					c.Failf("token: wire", "the request cannot be built or sent: %v (%+v)", err, rq)
					return
				}
				got, err := oauth2.ParseTokenRequest(in)
				if err != nil {
					c.Failf("token: parse", "parsing %+v built for %q failed: %v", rq, uri, err)
					return
				}
				want := orig
				if len(want.Scope) == 0 && len(got.Scope) == 0 {
					want.Scope = got.Scope
				}
				if !reflect.DeepEqual(*got, want) {
					c.Failf("token: round trip", "built from %+q, parsed as %+q", want, *got)
					return
				}
			}
			if !reflect.DeepEqual(rq.Scope, orig.Scope) && len(orig.Scope) > 0 {
				c.Failf("token: changed", "building changed the request")
			}
			want := map[string][]string{}
			for k, v := range map[string]string{"grant_type": rq.GrantType, "username": rq.Username, "password": rq.Password, "refresh_token": rq.RefreshToken, "code": rq.Code, "scope": strings.Join(rq.Scope, " ")} {
				if v != "" {
					want[k] = []string{v}
				}
			}
			if rq.RedirectURI != "" {
				want["redirect_uri"] = []string{rq.RedirectURI, url.QueryEscape(rq.RedirectURI)}
			}
			checkValues(c, "token", func() url.Values { return oauth2.TokenRequestValues(rq) }, want, func() bool {
				return sameList(rq.Scope, orig.Scope) && rq.GrantType == orig.GrantType
			})
			c.Count("token requests", 1)
			c.Eval(fmt.Sprintf("t%+q", rq))
			if c.wantSample() {
				c.Sample(fmt.Sprintf("%+q to %s", rq, uri))
			}
		})
		r.Cases("inspection", r.N(150000, 1200000), func(c *Case) {
			rr := c.R
			tok, hint := any1(c)+"t", maybe(c, func() string { return pick(rr, []string{"access_token", "refresh_token", text(rr)}) })
			id, secret := strings.ReplaceAll(text(rr), ":", "_")+pick(rr, []string{"", "x"}), maybe(c, func() string { return any1(c) })
			uri := endpointURI(c)
			irq := oauth2.IntrospectionRequest{Token: tok, TokenTypeHint: hint, ClientID: id, ClientSecret: secret}
			rrq := oauth2.RevocationRequest{Token: tok, TokenTypeHint: hint, ClientID: id, ClientSecret: secret}
			want := map[string][]string{"token": {tok}}
			if hint != "" {
				want["token_type_hint"] = []string{hint}
			}
			for _, wire := range []bool{false, true} {
				ireq, err := oauth2.BuildIntrospectionRequest(uri, irq)
				if !checkBuilt(c, "introspection", ireq, err, uri, id, secret, []string{secret, tok}, irq) {
					return
				}
				rreq, err := oauth2.BuildRevocationRequest(uri, rrq)
				if !checkBuilt(c, "revocation", rreq, err, uri, id, secret, []string{secret, tok}, rrq) {
					return
				}
				var e1, e2 error
				if wire {
					ireq, e1 = overWire(ireq)
					rreq, e2 = overWire(rreq)
					if e1 != nil || e2 != nil {
						c.Failf("inspection: wire", "the built request cannot be sent: %v %v", e1, e2)
						return
					}
				}
				gi, e1 := oauth2.ParseIntrospectionRequest(ireq)
				if e1 != nil || *gi != irq {
					c.Failf("introspection: round trip", "built from %+q, parsed as %+q (%v)", irq, gi, e1)
					return
				}
				gr, e2 := oauth2.ParseRevocationRequest(rreq)
				if e2 != nil || *gr != rrq {
					c.Failf("revocation: round trip", "built from %+q, parsed as %+q (%v)", rrq, gr, e2)
					return
				}
			}
			checkValues(c, "introspection", func() url.Values { return oauth2.IntrospectionRequestValues(irq) }, want, func() bool { return irq.Token == tok && irq.TokenTypeHint == hint })
			checkValues(c, "revocation", func() url.Values { return oauth2.RevocationRequestValues(rrq) }, want, func() bool { return rrq.Token == tok && rrq.TokenTypeHint == hint })
			c.Count("introspection and revocation requests", 2)
			c.Eval(fmt.Sprintf("i%+q", irq))
		})
		r.Cases("anonymous", r.N(4000, 100000), func(c *Case) {
			// without an identifier the credentials are the secret alone or none
			id, secret := "", maybe(c, func() string { return any1(c) })
			if c.R.IntN(4) == 0 {
				id = strings.ReplaceAll(text(c.R), ":", "_")
			}
			uri, tok := endpointURI(c), any1(c)+"t"
			trq := oauth2.TokenRequest{GrantType: "password", Username: tok, Password: "pw", ClientID: id, ClientSecret: secret}
			irq := oauth2.IntrospectionRequest{Token: tok, ClientID: id, ClientSecret: secret}
			rrq := oauth2.RevocationRequest{Token: tok, ClientID: id, ClientSecret: secret}
			t, e1 := oauth2.BuildTokenRequest(uri, trq)
			i, e2 := oauth2.BuildIntrospectionRequest(uri, irq)
			v, e3 := oauth2.BuildRevocationRequest(uri, rrq)
			for k, req := range []*http.Request{t, i, v} {
				what := []string{"token", "introspection", "revocation"}[k]
				if req == nil || []error{e1, e2, e3}[k] != nil {
					c.Failf(what+": not built", "building for %q failed: %v", uri, []error{e1, e2, e3}[k])
					return
				}
				l := req.Header.Values("Authorization")
				gid, gsec, ok := basicOf(strings.Join(l, ""))
				switch set := id != "" || secret != ""; {
				case set && (len(l) != 1 || !ok || gid != id || gsec != secret):
					c.Failf(what+": credentials", "built request has authorization %q for the identifier %q and the secret %q", l, id, secret)
				case !set && len(l) != 0:
					c.Failf(what+": needless credentials", "built request has authorization %q without an identifier and a secret", l)
				}
				if set := id != "" || secret != ""; !set {
					c.Count("requests without credentials", 1)
				}
			}
			c.Eval("a" + id + "|" + secret)
		})
		r.Floor("requests without credentials", 1000)
		r.Floor("token requests", 1000)
		r.Floor("introspection and revocation requests", 1000)
		r.Floor("entries changed", 1000)
	}
}

// endpointURI makes the URI of an endpoint, some with a query that names the
// same parameters.
func endpointURI(c *Case) string {
	u := pick(c.R, []string{"https://auth.example/oauth2/token", "http://localhost:1337/token", "https://auth.example/a/b/token", "http://[::1]:80/t"})
	switch c.R.IntN(4) {
	case 0:
		u += "?scope=root&grant_type=password&client_id=other&token=other&username=root&code=other&redirect_uri=https%3A%2F%2Fevil.example&token_type_hint=refresh_token&refresh_token=x&password=y"
	case 1:
		u += "?tenant=1"
	}
	return u
}
