package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"mime"
	"net"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strings"
	"testing"

	"github.com/256dpi/oauth2/v2"
)

// utext0 is text that is sometimes empty.
func utext0(c *Case) string {
	if chance(c.R, 0.35) {
		return ""
	}
	return longtext(c.R)
}

// num makes a number with a bias to the extremes.
func num(c *Case) int64 {
	switch c.R.IntN(6) {
	case 0:
		return pick(c.R, []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MaxInt32 + 1, 1 << 53, 1<<53 + 1, -(1 << 53) - 1})
	case 1:
		return int64(c.R.Uint64())
	}
	return int64(c.R.IntN(1 << 32))
}

// jsonValue makes a random JSON value as encoding/json decodes it.
func jsonValue(c *Case, depth int) any {
	switch n := c.R.IntN(8); {
	case n < 3:
		return utext(c.R)
	case n == 3:
		return c.R.IntN(2) == 0
	case n == 4:
		return nil
	case n == 5 || depth == 0:
		return float64(c.R.IntN(1 << 30))
	case n == 6:
		l := []any{}
		for i := c.R.IntN(4); i > 0; i-- {
			l = append(l, jsonValue(c, depth-1))
		}
		return l
	}
	m := map[string]any{}
	for i := c.R.IntN(4); i > 0; i-- {
		m[utext(c.R)] = jsonValue(c, depth-1)
	}
	return m
}

// document decodes a body that must be exactly one JSON object without
// repeated names on the top level.
func document(body []byte) (map[string]any, error) {
	d := json.NewDecoder(bytes.NewReader(body))
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	if t != json.Delim('{') {
		return nil, fmt.Errorf("not an object: %v", t)
	}
	out := map[string]any{}
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, err
		}
		name := k.(string)
		if _, dup := out[name]; dup {
			return nil, fmt.Errorf("repeated name %q", name)
		}
		var raw json.RawMessage
		if err := d.Decode(&raw); err != nil {
			return nil, err
		}
		v := json.NewDecoder(bytes.NewReader(raw))
		v.UseNumber()
		var x any
		if err := v.Decode(&x); err != nil {
			return nil, err
		}
		out[name] = x
	}
	if _, err := d.Token(); err != nil {
		return nil, err
	}
	rest, err := io.ReadAll(io.MultiReader(d.Buffered(), bytes.NewReader(body[min(len(body), int(d.InputOffset())):])))
	if err != nil || strings.TrimSpace(string(rest)) != "" {
		return nil, fmt.Errorf("text after the document: %q", rest)
	}
	return out, nil
}

// noStore tells whether a header forbids caching.
func noStore(h http.Header) bool {
	for _, l := range h.Values("Cache-Control") {
		for _, d := range strings.Split(l, ",") {
			if strings.EqualFold(strings.TrimSpace(d), "no-store") {
				return true
			}
		}
	}
	return false
}

// jsonType tells whether a header announces JSON in UTF-8.
func jsonType(h http.Header) bool {
	l := h.Values("Content-Type")
	if len(l) != 1 {
		return false
	}
	mt, p, err := mime.ParseMediaType(l[0])
	return err == nil && mt == "application/json" && (p["charset"] == "" || strings.EqualFold(p["charset"], "utf-8"))
}

// checkWritten checks a written document and returns it as a response.
func checkWritten(c *Case, what string, w *Recorder, err error, status int, want map[string]any, detail any, again func(w http.ResponseWriter) error) *http.Response {
	fail := func(sig, format string, args ...any) *http.Response {
		c.Violate(what+": "+sig, map[string]any{"what": fmt.Sprintf(format, args...), "written": fmt.Sprintf("%+q", fmt.Sprint(detail)), "status": w.Status, "header": w.Sent, "body": w.Body.String()})
		return nil
	}
	if err != nil {
		return fail("error", "writing failed: %v", err)
	}
	w.Finish()
	if w.Headers != 1 || w.Status != status {
		return fail("status", "the header was written %d times, status %d instead of %d", w.Headers, w.Status, status)
	}
	if !jsonType(w.Sent) {
		return fail("content type", "the content type is %q", w.Sent.Values("Content-Type"))
	}
	if !noStore(w.Sent) {
		return fail("cacheable", "the answer can be cached: %v", w.Sent)
	}
	got, err := document(w.Body.Bytes())
	if err != nil {
		return fail("document", "the body is not one JSON document: %v", err)
	}
	// compare through the same representation
	wb, _ := json.Marshal(want)
	wd, _ := document(wb)
	if !reflect.DeepEqual(got, wd) {
		return fail("values", "the document is %+v instead of %+v", got, wd)
	}
	if again != nil { // writing must not use up what is written
		v := NewRecorder()
		aerr := again(v)
		v.Finish()
		if aerr != nil || v.Status != w.Status || !reflect.DeepEqual(v.Sent, w.Sent) || v.Body.String() != w.Body.String() {
			return fail("again", "written again: error %v, status %d, header %v, body %q", aerr, v.Status, v.Sent, v.Body.String())
		}
	}
	return &http.Response{StatusCode: w.Status, Status: fmt.Sprintf("%d x", w.Status), Header: w.Sent, Body: io.NopCloser(bytes.NewReader(w.Body.Bytes()))}
}

type fields map[string]any

func (f fields) str(k, v string) fields {
	if v != "" {
		f[k] = v
	}
	return f
}

func (f fields) num(k string, v int64) fields {
	if v != 0 {
		f[k] = v
	}
	return f
}

func (f fields) scope(l []string) fields {
	if len(l) > 0 {
		f["scope"] = strings.Join(l, " ")
	}
	return f
}

// constructors lists the error constructors with name and status as assigned by
// RFC 6749, 6750 and 7009.
var constructors = []struct {
	name, errName string
	status        int
	make          func(d string) *oauth2.Error
}{
	{"InvalidRequest", "invalid_request", 400, oauth2.InvalidRequest},
	{"InvalidClient", "invalid_client", 401, oauth2.InvalidClient},
	{"InvalidGrant", "invalid_grant", 400, oauth2.InvalidGrant},
	{"InvalidScope", "invalid_scope", 400, oauth2.InvalidScope},
	{"InvalidToken", "invalid_token", 401, oauth2.InvalidToken},
	{"UnauthorizedClient", "unauthorized_client", 400, oauth2.UnauthorizedClient},
	{"UnsupportedGrantType", "unsupported_grant_type", 400, oauth2.UnsupportedGrantType},
	{"UnsupportedResponseType", "unsupported_response_type", 400, oauth2.UnsupportedResponseType},
	{"UnsupportedTokenType", "unsupported_token_type", 400, oauth2.UnsupportedTokenType},
	{"ProtectedResource", "", 401, func(string) *oauth2.Error { return oauth2.ProtectedResource() }},
	{"InsufficientScope", "insufficient_scope", 403, func(d string) *oauth2.Error { return oauth2.InsufficientScope(names(d)) }},
	{"AccessDenied", "access_denied", 403, oauth2.AccessDenied},
	{"ServerError", "server_error", 500, oauth2.ServerError},
	{"TemporarilyUnavailable", "temporarily_unavailable", 503, oauth2.TemporarilyUnavailable},
}

type foreign struct {
	Name        string `json:"error"`
	Description string `json:"error_description"`
	text        string
	Status      int
	RedirectURI string
}

func (f foreign) Error() string { return f.text }

func (f foreign) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]string{"error": f.text})
}

type foreignPtr struct{ foreign }

func (f *foreignPtr) Error() string                { return f.text }
func (f *foreignPtr) Map() map[string]string       { return map[string]string{"error": f.text} }
func (f *foreignPtr) StatusCode() int              { return 200 }
func (f *foreignPtr) Headers() map[string]string   { return map[string]string{"X-Leak": f.text} }
func (f *foreignPtr) MarshalText() ([]byte, error) { return []byte(f.text), nil }

// foreignTraits is an error with many of the methods errors have elsewhere.
type foreignTraits struct {
	text  string
	flag  bool
	code  int
	inner error
}

func (f *foreignTraits) Error() string    { return f.text }
func (f *foreignTraits) String() string   { return f.text }
func (f *foreignTraits) Timeout() bool    { return f.flag }
func (f *foreignTraits) Temporary() bool  { return !f.flag }
func (f *foreignTraits) StatusCode() int  { return f.code }
func (f *foreignTraits) HTTPStatus() int  { return f.code }
func (f *foreignTraits) Code() int        { return f.code }
func (f *foreignTraits) NotFound() bool   { return f.flag }
func (f *foreignTraits) Unwrap() error    { return f.inner }
func (f *foreignTraits) Cause() error     { return f.inner }
func (f *foreignTraits) Message() string  { return f.text }
func (f *foreignTraits) GoString() string { return f.text }

type foreignValue struct {
	foreignTraits
	list []string // not comparable
}

func (f foreignTraits) value() error { return foreignValue{f, []string{f.text}} }

func (f foreignValue) Error() string   { return f.text }
func (f foreignValue) Timeout() bool   { return f.flag }
func (f foreignValue) Temporary() bool { return f.flag }
func (f foreignValue) StatusCode() int { return f.code }

// foreignError makes an error the library does not know, carrying the text.
func foreignError(c *Case, s string) error {
	switch c.R.IntN(16) {
	case 8:
		return &net.OpError{Op: "dial", Net: s, Err: os.ErrDeadlineExceeded}
	case 9:
		return fmt.Errorf("%s: %w", s, context.DeadlineExceeded)
	case 10:
		return &foreignTraits{text: s, flag: c.R.IntN(2) == 0, code: pick(c.R, []int{200, 301, 400, 401, 404, 503})}
	case 11:
		return foreignTraits{text: s, flag: c.R.IntN(2) == 0, code: pick(c.R, []int{200, 301, 400, 401, 404, 503})}.value()
	case 12:
		return fmt.Errorf("%s: %w", s, pick(c.R, []error{io.EOF, io.ErrUnexpectedEOF, context.Canceled, os.ErrNotExist, os.ErrPermission, http.ErrAbortHandler, http.ErrBodyReadAfterClose, http.ErrNoCookie}))
	case 13:
		return &net.DNSError{Err: s, Name: s, IsTimeout: true, IsTemporary: true, IsNotFound: c.R.IntN(2) == 0}
	case 14:
		return &foreignTraits{text: s, inner: &http.MaxBytesError{Limit: 1}}
	case 0:
		return errors.New(s)
	case 1:
		return fmt.Errorf("context: %w", errors.New(s))
	case 2:
		return &url.Error{Op: "Get", URL: s, Err: io.ErrUnexpectedEOF}
	case 3:
		return &os.PathError{Op: "open", Path: s, Err: os.ErrNotExist}
	case 4:
		return foreign{text: s, Name: s, Description: s, Status: 418, RedirectURI: "https://" + s + "/"}
	case 5:
		return &foreignPtr{foreign{text: s, Name: "invalid_client", Description: s, Status: 302, RedirectURI: "https://x/" + s}}
	case 6:
		return errors.Join(errors.New("a"), errors.New(s))
	case 7:
		return &json.UnsupportedValueError{Str: s}
	}
	return nil
}

func init() {
	checks["C18"] = func(t *testing.T, r *Run) {
		r.Rule("random documents with arbitrary valid text in every field are written to a strict response writer, decoded independently and parsed back; constructors are compared with the RFC table and mutated; foreign errors carry a marker text; distinct by content")

		r.Cases("token", r.N(150000, 1500000), func(c *Case) {
			sc := properScope(c, 4)
			tr := &oauth2.TokenResponse{TokenType: utext0(c), AccessToken: utext0(c), ExpiresIn: int(num(c)), RefreshToken: utext0(c), Scope: scopeOf(sc), State: utext0(c)}
			if chance(c.R, 0.3) {
				tr.TokenType = "bearer"
			}
			if chance(c.R, 0.1) && len(sc) == 0 {
				tr.Scope = oauth2.Scope{}
			}
			if chance(c.R, 0.3) {
				st, rt, s := tr.State, tr.RefreshToken, tr.Scope
				if tr.TokenType == "bearer" && chance(c.R, 0.5) {
					tr = oauth2.NewBearerTokenResponse(tr.AccessToken, tr.ExpiresIn)
				} else {
					tr = oauth2.NewTokenResponse(tr.TokenType, tr.AccessToken, tr.ExpiresIn)
				}
				tr.State, tr.RefreshToken, tr.Scope = st, rt, s
			}
			want := fields{"token_type": tr.TokenType, "access_token": tr.AccessToken, "expires_in": tr.ExpiresIn}
			want.str("refresh_token", tr.RefreshToken).scope(sc).str("state", tr.State)
			before := *tr
			w := NewRecorder()
			err := oauth2.WriteTokenResponse(w, tr)
			if !reflect.DeepEqual(before, *tr) {
				c.Failf("token: changed", "writing changed the response from %+v to %+v", before, *tr)
			}
			res := checkWritten(c, "token", w, err, 200, want, tr, func(w http.ResponseWriter) error { return oauth2.WriteTokenResponse(w, tr) })
			if res == nil {
				return
			}
			c.Count("token responses written and parsed", 1)
			size := int64(w.Body.Len())
			got, err := oauth2.ParseTokenResponse(res, size+int64(c.R.IntN(3)))
			if err != nil || got == nil || got.TokenType != tr.TokenType || got.AccessToken != tr.AccessToken || got.ExpiresIn != tr.ExpiresIn || got.RefreshToken != tr.RefreshToken ||
				!sameList(got.Scope, sc) || got.State != tr.State || got.RedirectURI != "" {
				c.Violate("token: parse", map[string]any{"what": fmt.Sprintf("wrote %+v, parsed %+v, error %v", tr, got, err), "body": w.Body.String()})
			}
			c.Eval("t" + w.Body.String())
			if c.wantSample() {
				c.Sample(w.Body.String())
			}
		})

		r.Cases("introspection", r.N(150000, 1500000), func(c *Case) {
			sc := properScope(c, 4)
			ir := &oauth2.IntrospectionResponse{Active: c.R.IntN(3) > 0, Scope: scopeOf(sc), ClientID: utext0(c), Username: utext0(c), TokenType: pick(c.R, []string{"access_token", "refresh_token"}),
				ExpiresAt: num(c), IssuedAt: num(c), NotBefore: num(c), Subject: utext0(c), Audience: utext0(c), Issuer: utext0(c), Identifier: utext0(c)}
			if !ir.Active && chance(c.R, 0.6) {
				ir.TokenType = utext0(c)
			}
			if chance(c.R, 0.1) {
				ir = oauth2.NewIntrospectionResponse(ir.Active, ir.Scope, ir.ClientID, ir.Username, ir.TokenType)
			}
			if chance(c.R, 0.4) {
				ir.Extra = map[string]any{}
				for i := c.R.IntN(4); i > 0; i-- {
					ir.Extra[utext(c.R)] = jsonValue(c, 3)
				}
			}
			bad := ir.Active && chance(c.R, 0.2)
			if bad {
				ir.TokenType = pick(c.R, []string{"", "Access_Token", "access_token ", "refresh-token", "bearer", "Bearer", "code", "id_token", near(c.R, "access_token"), near(c.R, "refresh_token")})
				if ir.TokenType == "access_token" || ir.TokenType == "refresh_token" {
					return
				}
			}
			w := NewRecorder()
			err := oauth2.WriteIntrospectionResponse(w, ir)
			if bad {
				c.Count("active answers with an unknown token type", 1)
				if err == nil || w.Headers != 0 || w.Body.Len() != 0 || len(w.header) != 0 {
					c.Failf("introspection: unknown type", "token type %q: error %v, status %d, header %v, body %q", ir.TokenType, err, w.Status, w.header, w.Body.String())
				}
				c.Eval("i!" + ir.TokenType)
				return
			}
			want := fields{"active": ir.Active}
			want.scope(sc).str("client_id", ir.ClientID).str("username", ir.Username).str("token_type", ir.TokenType).num("exp", ir.ExpiresAt).num("iat", ir.IssuedAt).num("nbf", ir.NotBefore).
				str("sub", ir.Subject).str("aud", ir.Audience).str("iss", ir.Issuer).str("jti", ir.Identifier)
			if len(ir.Extra) > 0 {
				want["extra"] = ir.Extra
			}
			res := checkWritten(c, "introspection", w, err, 200, want, ir, func(w http.ResponseWriter) error { return oauth2.WriteIntrospectionResponse(w, ir) })
			if res == nil {
				return
			}
			c.Count("introspection responses written and parsed", 1)
			got, err := oauth2.ParseIntrospectionResponse(res, int64(w.Body.Len())+int64(c.R.IntN(3)))
			ok := err == nil && got != nil
			if ok {
				g, x := *got, *ir
				ok = sameList(g.Scope, x.Scope) && (len(g.Extra) == 0 && len(x.Extra) == 0 || reflect.DeepEqual(g.Extra, x.Extra))
				g.Scope, x.Scope, g.Extra, x.Extra = nil, nil, nil, nil
				ok = ok && reflect.DeepEqual(g, x)
			}
			if !ok {
				c.Violate("introspection: parse", map[string]any{"what": fmt.Sprintf("wrote %+v, parsed %+v, error %v", ir, got, err), "body": w.Body.String()})
			}
			c.Eval("i" + w.Body.String())
		})

		r.Cases("error", r.N(150000, 1500000), func(c *Case) {
			sc := properScope(c, 4)
			e := &oauth2.Error{Name: utext0(c), State: utext0(c), Scope: scopeOf(sc), Realm: utext0(c), Description: utext0(c), URI: utext0(c), Status: pick(c.R, []int{400, 401, 403, 404, 418, 429, 500, 502, 503, 599, 200})}
			if chance(c.R, 0.4) {
				k := pick(c.R, constructors)
				e = k.make(utext0(c))
				if chance(c.R, 0.3) {
					e.State, e.Realm, e.URI = utext0(c), utext0(c), utext0(c)
				}
				sc = e.Scope
			}
			extra := map[string]string{}
			if chance(c.R, 0.3) {
				if e.Headers == nil {
					e.Headers = map[string]string{}
				}
				for i := c.R.IntN(3); i > 0; i-- {
					e.Headers[fmt.Sprintf("X-%d-%s", i, strings.NewReplacer(".", "-", "_", "-", "~", "-").Replace(word(c.R)))] = word(c.R)
				}
			}
			for k, v := range e.Headers {
				extra[k] = v
			}
			want := fields{"error": e.Name}
			want.str("state", e.State).scope(sc).str("realm", e.Realm).str("error_description", e.Description).str("error_uri", e.URI)
			// the map for redirects holds the same without empty values
			m := e.Map()
			wm := map[string]string{}
			for k, v := range want {
				if v != "" {
					wm[k] = v.(string)
				}
			}
			if !reflect.DeepEqual(m, wm) {
				c.Failf("error: map", "the map is %q instead of %q", m, wm)
			}
			w := NewRecorder()
			err := oauth2.WriteError(w, e)
			res := checkWritten(c, "error", w, err, e.Status, want, e, func(w http.ResponseWriter) error { return oauth2.WriteError(w, e) })
			if res == nil {
				return
			}
			for k, v := range extra {
				if w.Sent.Get(k) != v {
					c.Failf("error: header", "header %s is %q instead of %q", k, w.Sent.Get(k), v)
				}
			}
			c.Count("errors written and parsed", 1)
			perr := oauth2.ParseRequestError(res, int64(w.Body.Len()))
			got, ok := perr.(*oauth2.Error)
			if !ok || got.Name != e.Name || got.State != e.State || !sameList(got.Scope, sc) || got.Realm != e.Realm || got.Description != e.Description || got.URI != e.URI || got.Status != e.Status || got.RedirectURI != "" {
				c.Violate("error: parse", map[string]any{"what": fmt.Sprintf("wrote %+v, parsed %#v", e, perr), "body": w.Body.String()})
			}
			c.Eval("e" + w.Body.String() + fmt.Sprint(e.Status, extra))
		})

		r.Cases("constructors", r.N(4000, 100000), func(c *Case) {
			k := pick(c.R, constructors)
			d := utext0(c)
			check := func(e *oauth2.Error, d, when string) {
				wantDesc := d
				var wantScope []string
				switch k.name {
				case "ProtectedResource":
					wantDesc = ""
				case "InsufficientScope":
					wantDesc, wantScope = "", names(d)
				}
				if e == nil || e.Name != k.errName || e.Status != k.status || e.Description != wantDesc || !sameList(e.Scope, wantScope) || e.State != "" || e.Realm != "" || e.URI != "" || e.RedirectURI != "" || e.UseFragment {
					c.Failf("constructor: value", "%s %s(%q) is %+v", when, k.name, d, e)
				}
				if e.Name == "invalid_client" {
					if ch, ok := parseChallenge(e.Headers["WWW-Authenticate"]); !ok || !strings.EqualFold(ch.scheme, "Basic") || ch.params["realm"] == "" {
						c.Failf("constructor: challenge", "%s the challenge of %s is %q", when, k.name, e.Headers)
					}
				} else if len(e.Headers) != 0 {
					c.Failf("constructor: headers", "%s %s has headers %q", when, k.name, e.Headers)
				}
			}
			e1 := k.make(d)
			check(e1, d, "first")
			e2 := k.make(d)
			if e1 == e2 {
				c.Failf("constructor: shared", "%s returned the same value twice", k.name)
			}
			// deface one value completely
			e1.Name, e1.Status, e1.Description, e1.Realm, e1.URI = "x", 1, "y", "z", "u"
			e1.SetRedirect("https://evil.example/", "state", true)
			for h := range e1.Headers {
				e1.Headers[h] = "defaced"
			}
			if e1.Headers != nil {
				e1.Headers["X-More"] = "1"
			}
			if len(e1.Scope) > 0 && k.name != "InsufficientScope" {
				e1.Scope[0] = "defaced"
			}
			e1.Scope = nil
			check(e2, d, "afterwards")
			d2 := utext0(c)
			check(k.make(d2), d2, "later")
			c.Count("error constructors: "+k.name, 1)
			c.Eval("c" + k.name + d)
		})
		for _, k := range constructors {
			r.Floor("error constructors: "+k.name, 50)
		}

		// SetRedirect keeps the error and returns it
		r.Cases("redirect", r.N(2000, 50000), func(c *Case) {
			e := pick(c.R, constructors).make(utext0(c))
			uri, st, f := validURI(c.R), utext0(c), c.R.IntN(2) == 0
			before := *e
			got := e.SetRedirect(uri, st, f)
			before.RedirectURI, before.State, before.UseFragment = uri, st, f
			if got != e || !reflect.DeepEqual(before, *e) {
				c.Failf("redirect: set", "SetRedirect(%q, %q, %v) made %+v, expected %+v", uri, st, f, *got, before)
			}
			// writing it leaves the error as it is
			w, v := NewRecorder(), NewRecorder()
			err1, err2 := oauth2.WriteError(w, e), oauth2.WriteError(v, e)
			w.Finish()
			v.Finish()
			if (err1 == nil) != (err2 == nil) || w.Status != v.Status || !reflect.DeepEqual(w.Sent, v.Sent) || w.Body.String() != v.Body.String() {
				c.Failf("redirect: again", "%+v was written as %d %v and then as %d %v", before, w.Status, w.Sent, v.Status, v.Sent)
			}
			c.Eval("")
		})

		// a document that could not be written is reported
		r.Cases("broken", r.N(3000, 50000), func(c *Case) {
			w := NewRecorder()
			w.Fail = true
			var err error
			what := ""
			switch c.R.IntN(5) {
			case 0:
				what, err = "WriteTokenResponse", oauth2.WriteTokenResponse(w, oauth2.NewBearerTokenResponse(word(c.R), c.R.IntN(1000)))
			case 1:
				what, err = "WriteIntrospectionResponse", oauth2.WriteIntrospectionResponse(w, &oauth2.IntrospectionResponse{Active: true, TokenType: "access_token"})
			case 2:
				what, err = "WriteError", oauth2.WriteError(w, pick(c.R, constructors).make(utext0(c)))
			case 3:
				what, err = "WriteError of a foreign error", oauth2.WriteError(w, foreignError(c, word(c.R)))
			case 4:
				what, err = "Write", oauth2.Write(w, map[string]string{"a": utext0(c)}, 200)
			}
			if err == nil || w.Headers != 1 {
				c.Failf("broken: "+what, "%s to a broken connection returned the error %v and wrote %d headers", what, err, w.Headers)
			}
			c.Count("documents for broken connections", 1)
			c.Eval("b" + what)
			// a redirection that cannot be made is reported and not written
			uri := pick(c.R, []string{"", "foo", "://", "%zz", "http://[::1", "a b", "http://x/%", "http://x\x00"})
			v := NewRecorder()
			switch c.R.IntN(3) {
			case 0:
				what, err = "WriteRedirect", oauth2.WriteRedirect(v, uri, map[string]string{"a": "b"}, c.R.IntN(2) == 0)
			case 1:
				what, err = "WriteError", oauth2.WriteError(v, oauth2.InvalidScope("").SetRedirect(uri+" ", "", c.R.IntN(2) == 0))
				uri += " "
			case 2:
				what, err = "WriteCodeResponse", oauth2.WriteCodeResponse(v, oauth2.NewCodeResponse("c", uri, ""))
			}
			if _, perr := url.ParseRequestURI(uri); perr != nil && (err == nil || v.Headers != 0 || v.header.Get("Location") != "") {
				c.Failf("invalid redirect: "+what, "%s to %q returned the error %v and wrote %d headers with the location %q", what, uri, err, v.Headers, v.header.Get("Location"))
			}
		})

		r.Cases("foreign", r.N(40000, 300000), func(c *Case) {
			marker := "SECRET" + wordn(c.R, 12)
			err := foreignError(c, marker)
			leaks := func(w *Recorder) bool {
				return strings.Contains(w.Body.String(), marker) || strings.Contains(fmt.Sprint(w.Sent), marker) || strings.Contains(fmt.Sprint(w.header), marker)
			}
			w := NewRecorder()
			werr := oauth2.WriteError(w, err)
			checkWritten(c, "foreign", w, werr, 500, fields{"error": "server_error"}, err, func(w http.ResponseWriter) error { return oauth2.WriteError(w, err) })
			if leaks(w) {
				c.Failf("foreign: leak", "%#v: the answer %v %q contains the text of the error", err, w.Sent, w.Body.String())
			}
			if len(w.Sent) > 3 {
				c.Failf("foreign: headers", "%#v: headers %v", err, w.Sent)
			}
			// as a bearer error
			for _, e := range []error{err, oauth2.ServerError(marker), &oauth2.Error{Name: "invalid_token", Description: marker, Status: 500}} {
				w = NewRecorder()
				werr = oauth2.WriteBearerError(w, e)
				w.Finish()
				if werr != nil || w.Status != 500 || w.Headers != 1 || w.Body.Len() != 0 || w.Sent.Get("Www-Authenticate") != "" || leaks(w) {
					c.Failf("foreign: bearer", "%#v: error %v, status %d, header %v, body %q", e, werr, w.Status, w.Sent, w.Body.String())
				}
			}
			c.Count("foreign errors written", 1)
			c.Eval(fmt.Sprintf("f%T%s", err, marker))
		})
		r.Floor("active answers with an unknown token type", 500)
	}
}
