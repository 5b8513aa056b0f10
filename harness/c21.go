package harness

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/256dpi/oauth2/v2"
)

// bearerHeader makes an authorization header value and tells the token it
// carries.
func bearerHeader(c *Case) (h, token string, ok bool) {
	r := c.R
	spell := func() string {
		s := []byte("bearer")
		for i := range s {
			if r.IntN(2) == 0 {
				s[i] -= 32
			}
		}
		return string(s)
	}
	scheme := pick(r, []string{"Bearer", "bearer", "BEARER", spell()})
	tok := pick(r, []string{wordn(r, 1), word(r), text(r), wordn(r, 60), " " + word(r), word(r) + " " + word(r), word(r) + " ", "Bearer " + word(r), ",", "=", "\t"})
	if tok == "" {
		tok = "x"
	}
	switch r.IntN(12) {
	case 0:
		return "", "", false
	case 1:
		return scheme + pick(r, []string{"", " ", "=", "\t", ":", "s", "s "}), "", false
	case 2:
		return scheme + pick(r, []string{"", "\t", ":", "=", ",", "\u00a0", "\n", "_", "\x00"}) + strings.TrimLeft("x"+tok, " "), "", false
	case 3:
		return pick(r, []string{"Basic ", "Token ", "MAC ", "Beare ", "Bearer2 ", "Bear er ", " Bearer ", "\tBearer ", "xBearer ", "Вearer ", "Digest ", "bearer_token ", "earer "}) + tok, "", false
	case 4:
		return word(r) + tok, "", false
	case 5:
		return basic(word(r), word(r)), "", false
	case 6: // letters that only fold to ASCII outside of it
		return strings.Replace("Bearer ", pick(r, []string{"B", "r", "e"}), pick(r, []string{"ſ", "K", "ℯ", "ʀ"}), 1) + tok, "", false
	case 7:
		b := []byte(scheme + " ")
		b[r.IntN(len(b))] ^= 1 << r.IntN(8)
		h = string(b) + tok
		if strings.EqualFold(string(b), "bearer ") {
			return h, tok, true
		}
		return h, "", false
	}
	return scheme + " " + tok, tok, true
}

// errorFields makes an error with texts in its fields and its parameters.
func errorFields(c *Case, gen func() string) (*oauth2.Error, map[string]string) {
	r := c.R
	f := func() string {
		if chance(r, 0.4) {
			return ""
		}
		return gen()
	}
	e := &oauth2.Error{Name: f(), State: f(), Realm: f(), Description: f(), URI: f(), Status: pick(r, []int{400, 401, 403, 404, 405, 429, 501, 503})}
	if chance(r, 0.1) {
		*e = oauth2.Error{Status: e.Status}
	}
	if chance(r, 0.3) {
		e = pick(r, constructors).make(strings.TrimSpace(f()))
		if e.Status == 500 {
			e.Status = 400
		}
	}
	for n := r.IntN(4); n > 0; n-- {
		e.Scope = append(e.Scope, strings.ReplaceAll(gen(), " ", "_"))
	}
	want := map[string]string{}
	for k, v := range map[string]string{"error": e.Name, "state": e.State, "realm": e.Realm, "error_description": e.Description, "error_uri": e.URI, "scope": strings.Join(e.Scope, " ")} {
		if v != "" {
			want[k] = v
		}
	}
	if len(e.Scope) > 0 {
		want["scope"] = strings.Join(e.Scope, " ")
	}
	return e, want
}

func isCTL(b byte) bool { return b < 0x20 || b == 0x7f }

func hasCTL(s string) bool {
	for i := 0; i < len(s); i++ {
		if isCTL(s[i]) {
			return true
		}
	}
	return false
}

// blank replaces control characters as an HTTP implementation may do.
func blank(s string) string {
	b := []byte(s)
	for i := range b {
		if isCTL(b[i]) {
			b[i] = ' '
		}
	}
	return string(b)
}

var hostile = []string{`"`, `\`, `\"`, `",`, `", error="`, `", scope="admin`, `\", realm="x`, `,`, `=`, ` `, `'`, `a="b"`, `Bearer`, `Basic realm="y"`, `%22`, `\\`, `"\"`, `;`, `{`, `}`, `[`, `<`, `é`, "\xff", `日本`, `\n`, `x`, `ok`, `~`, `!`}

func challengeText(c *Case, ctl bool) string {
	r := c.R
	var b strings.Builder
	for n := 1 + r.IntN(6); n > 0; n-- {
		switch {
		case ctl && r.IntN(3) == 0:
			b.WriteString(pick(r, []string{"\r\n", "\n", "\r", "\x00", "\t", "\x7f", "\x1f", "\r\nX-Evil: 1\r\n", "\r\nSet-Cookie: a=b", "\n\n<html>", "\\\r\n", "\"\r\n, error=\"x"}))
		case r.IntN(3) == 0:
			b.WriteString(word(r))
		case r.IntN(6) == 0:
			b.WriteByte(byte(0x20 + r.IntN(0x5f)))
		default:
			b.WriteString(pick(r, hostile))
		}
	}
	if chance(r, 0.01) {
		b.WriteString(wordn(r, pick(r, []int{100, 255, 300, 1000, 1100, 2100, 4200})))
	}
	return b.String()
}

// judgeChallenge compares a challenge header with the parameters it has to hold.
func judgeChallenge(c *Case, where string, e *oauth2.Error, want map[string]string, status int, h http.Header, body string) {
	fail := func(sig, format string, args ...any) {
		c.Violate(where+": "+sig, map[string]any{"what": fmt.Sprintf(format, args...), "error": fmt.Sprintf("%+q", e.Map()), "header": fmt.Sprintf("%q", h), "status": status})
	}
	if status != e.Status {
		fail("status", "the status is %d instead of %d", status, e.Status)
		return
	}
	if body != "" {
		fail("body", "the body is %q", body)
		return
	}
	l := h.Values("Www-Authenticate")
	if len(l) != 1 {
		fail("challenge", "there are %d challenges", len(l))
		return
	}
	ctl := false
	for _, v := range want {
		ctl = ctl || hasCTL(v)
	}
	v := l[0]
	if ctl {
		v = blank(v)
	}
	ch, ok := parseChallenge(v)
	if !ok || !strings.EqualFold(ch.scheme, "Bearer") {
		fail("syntax", "the challenge %q does not parse", l[0])
		return
	}
	if len(want) == 0 {
		if len(ch.params) != 1 || ch.params["realm"] == "" {
			fail("realm", "an error without parameters is written as %q", l[0])
		}
		c.Count("challenges without parameters", 1)
		return
	}
	if !reflect.DeepEqual(sortedKeys(ch.params), sortedKeys(want)) {
		fail("parameters", "the challenge %q carries %q instead of %q", l[0], sortedKeys(ch.params), sortedKeys(want))
		return
	}
	for k, v := range want {
		if !hasCTL(v) && ch.params[k] != v {
			fail("value", "%s is %q instead of %q", k, ch.params[k], v)
			return
		}
	}
	if ctl {
		c.Count("challenges of texts with control characters", 1)
	} else {
		c.Count("challenges parsed back exactly", 1)
	}
}

func init() {
	checks["C21"] = func(t *testing.T, r *Run) {
		r.Rule("random authorization headers around the bearer scheme, with tokens in URL and body as decoys, and random errors with quotes, backslashes, commas and control characters in every field; challenges are read by an independent RFC 7235 parser, also from a real connection; distinct by header value")

		r.Cases("parse", r.N(200000, 4000000), func(c *Case) {
			h, token, ok := bearerHeader(c)
			req := &http.Request{Method: pick(c.R, []string{"GET", "POST", "PUT", "DELETE"}), URL: &url.URL{Path: "/api"}, Header: http.Header{}, Body: http.NoBody}
			decoy := word(c.R)
			if chance(c.R, 0.4) {
				req.URL.RawQuery = "access_token=" + decoy
			}
			if chance(c.R, 0.4) {
				req.Method = "POST"
				req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
				req.Body = io.NopCloser(strings.NewReader("access_token=" + decoy))
				req.ContentLength = int64(len(decoy) + 13)
				if chance(c.R, 0.3) {
					_ = req.ParseForm()
				}
			}
			for _, k := range []string{"Access-Token", "X-Access-Token", "Proxy-Authorization", "Cookie"} {
				if chance(c.R, 0.1) {
					req.Header.Set(k, "Bearer "+decoy)
				}
			}
			if chance(c.R, 0.1) {
				_, around := surroundings(c.R, "Bearer "+decoy, decoy)
				around(req)
			}
			if h != "" || chance(c.R, 0.3) {
				req.Header["Authorization"] = []string{h}
			}
			got, err := oauth2.ParseBearerToken(req)
			switch {
			case ok:
				c.Count("headers with a token", 1)
				if err != nil || got != token {
					c.Failf("parse: token", "header %q yields %q, %v instead of %q", h, got, err, token)
				}
			default:
				e, is := err.(*oauth2.Error)
				if got != "" || !is {
					c.Failf("parse: accepted", "header %q yields token %q and error %v", h, got, err)
					break
				}
				if h == "" {
					c.Count("requests without a header", 1)
					w := NewRecorder()
					werr := oauth2.WriteBearerError(w, err)
					w.Finish()
					ch, chok := parseChallenge(w.Sent.Get("Www-Authenticate"))
					if e.Status != 401 || e.Name != "" || e.Description != "" || werr != nil || w.Status != 401 || !chok || !strings.EqualFold(ch.scheme, "Bearer") || len(ch.params) != 1 || ch.params["realm"] == "" {
						c.Failf("parse: missing", "no header yields %+v, challenge %q", e, w.Sent)
					}
				} else {
					c.Count("malformed headers", 1)
					if e.Status != 400 || e.Name != "invalid_request" {
						c.Failf("parse: malformed", "header %q yields %+v", h, e)
					}
				}
			}
			c.Eval("p" + h)
			if c.wantSample() {
				c.Sample(fmt.Sprintf("%q", h))
			}
		})
		r.Floor("headers with a token", 10000)
		r.Floor("malformed headers", 10000)

		r.Cases("write", r.N(120000, 3000000), func(c *Case) {
			ctl := chance(c.R, 0.25)
			e, want := errorFields(c, func() string { return challengeText(c, ctl) })
			w := NewRecorder()
			if err := oauth2.WriteBearerError(w, e); err != nil {
				c.Failf("write: error", "%v", err)
			}
			w.Finish()
			if w.Headers != 1 {
				c.Failf("write: header", "the header was written %d times", w.Headers)
			}
			judgeChallenge(c, "write", e, want, w.Status, w.Sent, w.Body.String())
			if !reflect.DeepEqual(e.Map(), want) {
				c.Failf("write: map", "the map is %q instead of %q", e.Map(), want)
			}
			c.Eval("w" + w.Sent.Get("Www-Authenticate"))
		})
		r.Floor("challenges parsed back exactly", 20000)
		r.Floor("challenges of texts with control characters", 2000)

		// over real connections
		var mu sync.Mutex
		pending := map[string]*oauth2.Error{}
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, rq *http.Request) {
			mu.Lock()
			e := pending[rq.URL.Path]
			delete(pending, rq.URL.Path)
			mu.Unlock()
			_ = oauth2.WriteBearerError(w, e)
		}))
		defer srv.Close()
		r.Cases("wire", r.N(4000, 60000), func(c *Case) {
			e, want := errorFields(c, func() string { return challengeText(c, c.R.IntN(2) == 0) })
			key := fmt.Sprintf("/%d", c.Index)
			mu.Lock()
			pending[key] = e
			mu.Unlock()
			res, err := srv.Client().Get(srv.URL + key)
			if err != nil {
				c.Count("answers the HTTP client refused", 1)
				return
			}
			body, _ := io.ReadAll(res.Body)
			_ = res.Body.Close()
			for k := range res.Header {
				switch k {
				case "Www-Authenticate", "Content-Length", "Date", "Content-Type", "X-Content-Type-Options", "Cache-Control", "Pragma":
				default:
					c.Failf("wire: header", "the answer has a header %s: %q", k, res.Header)
				}
			}
			// a HTTP implementation trims the ends of values, which lie outside of the quotes
			judgeChallenge(c, "wire", e, want, res.StatusCode, res.Header, string(body))
			c.Count("challenges received over a connection", 1)
			c.Eval("x" + res.Header.Get("Www-Authenticate"))
		})
		r.Floor("challenges received over a connection", 2000)
	}
}
