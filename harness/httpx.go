package harness

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/url"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Wire is a request as a client would send it.
type Wire struct {
	Method  string
	Path    string
	Query   url.Values
	Form    url.Values
	NoForm  bool // send no body at all
	Auth    string
	HasAuth bool
	CType   string // defaults to the form content type
	Around  func(*http.Request)
	Beside  string
}

func basic(user, pass string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
}

func (q *Wire) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s", q.Method, q.Path)
	if len(q.Query) > 0 {
		b.WriteString("?" + q.Query.Encode())
	}
	if q.HasAuth {
		a := q.Auth
		if s, ok := strings.CutPrefix(a, "Basic "); ok {
			if d, err := base64.StdEncoding.DecodeString(s); err == nil {
				a = fmt.Sprintf("Basic{%q}", d)
			}
		}
		b.WriteString(" [" + a + "]")
	}
	if !q.NoForm {
		b.WriteString(" body{" + q.Form.Encode() + "}")
	}
	if q.Beside != "" {
		b.WriteString(" (" + q.Beside + ")")
	}
	return b.String()
}

// Request builds the request a server would see for the wire request.
func (q *Wire) Request() *http.Request {
	target := q.Path
	if len(q.Query) > 0 {
		target += "?" + q.Query.Encode()
	}
	u, err := url.ParseRequestURI(target)
	if err != nil {
		panic("harness: " + err.Error())
	}
	r := &http.Request{
		Method: q.Method, URL: u, RequestURI: target, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Host: "auth.example", RemoteAddr: "192.0.2.1:1234", Body: http.NoBody,
	}
	if !q.NoForm {
		body := q.Form.Encode()
		r.Body = io.NopCloser(strings.NewReader(body))
		r.ContentLength = int64(len(body))
		ct := q.CType
		if ct == "" {
			ct = "application/x-www-form-urlencoded"
		}
		r.Header.Set("Content-Type", ct)
	}
	if q.HasAuth {
		r.Header.Set("Authorization", q.Auth)
	}
	if q.Around != nil {
		q.Around(r)
	}
	return r
}

var errBroken = errors.New("connection is broken")

// Recorder is a strict response writer. It notes what a lenient one would
// silently accept and can fail like a broken connection.
type Recorder struct {
	header    http.Header
	Sent      http.Header // snapshot when the header was written
	Status    int
	Body      bytes.Buffer
	Headers   int // calls of WriteHeader
	Late      int // header calls after the header was written
	Fail      bool
	Panics    bool // abort the handler like some middleware does
	WroteBody bool
	NoBody    bool // HEAD
	Excess    bool // more was written than announced
	Yield     func()
}

func NewRecorder() *Recorder { return &Recorder{header: http.Header{}} }

func (w *Recorder) Header() http.Header { return w.header }

func (w *Recorder) WriteHeader(code int) {
	if w.Yield != nil {
		w.Yield()
	}
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	w.Headers++
	if w.Status != 0 {
		w.Late++
		return
	}
	w.Status = code
	w.Sent = w.header.Clone()
}

func (w *Recorder) Write(p []byte) (int, error) {
	if w.Status == 0 {
		w.WriteHeader(http.StatusOK)
	}
	if w.Yield != nil {
		w.Yield()
	}
	if n, err := strconv.Atoi(w.Sent.Get("Content-Length")); err == nil && w.Body.Len()+len(p) > n { // as net/http does
		w.Excess = true
		return 0, http.ErrContentLength
	}
	w.Body.Write(p)
	if len(p) > 0 {
		w.WroteBody = true
	}
	if w.Panics {
		panic(http.ErrAbortHandler)
	}
	if w.Fail {
		return 0, errBroken
	}
	return len(p), nil
}

// Finish does what the HTTP server does when the handler returns.
func (w *Recorder) Finish() {
	if w.Status == 0 {
		w.Status = http.StatusOK
		w.Sent = w.header.Clone()
	}
}

// Outcome is a decoded response.
type Outcome struct {
	Status   int
	Header   http.Header
	Body     string
	Panic    string
	Stack    string
	JSON     map[string]any
	Location string
	Base     string     // location without query and fragment
	LQuery   url.Values // decoded query of the location
	LFrag    url.Values // decoded fragment of the location
	LBad     string     // why the location could not be decoded
	Rec      *Recorder
}

func (o *Outcome) Str(k string) string { s, _ := o.JSON[k].(string); return s }

// Error returns the error name the response carries, "" if none.
func (o *Outcome) ErrName() string {
	if o.Location != "" {
		if e := o.LQuery.Get("error"); e != "" {
			return e
		}
		return o.LFrag.Get("error")
	}
	if e := o.Str("error"); e != "" {
		return e
	}
	if c, ok := parseChallenge(o.Header.Get("Www-Authenticate")); ok && c.params["error"] != "" {
		return c.params["error"]
	}
	return ""
}

// Access returns an access token wherever the response carries it.
func (o *Outcome) Access() string {
	if s := o.Str("access_token"); s != "" {
		return s
	}
	if s := o.LFrag.Get("access_token"); s != "" {
		return s
	}
	return o.LQuery.Get("access_token")
}

func (o *Outcome) Refresh() string {
	if s := o.Str("refresh_token"); s != "" {
		return s
	}
	if s := o.LFrag.Get("refresh_token"); s != "" {
		return s
	}
	return o.LQuery.Get("refresh_token")
}

func (o *Outcome) Code() string {
	if s := o.LQuery.Get("code"); s != "" {
		return s
	}
	if s := o.LFrag.Get("code"); s != "" {
		return s
	}
	return o.Str("code")
}

// Issues tells whether the response carries any credential.
func (o *Outcome) Issues() bool { return o.Access() != "" || o.Refresh() != "" || o.Code() != "" }

func (o *Outcome) String() string {
	if o.Panic != "" {
		return "PANIC " + o.Panic
	}
	s := fmt.Sprintf("%d", o.Status)
	if o.Location != "" {
		s += " -> " + o.Location
	}
	if c := o.Header.Get("Www-Authenticate"); c != "" {
		s += " challenge{" + c + "}"
	}
	if o.Body != "" {
		b := strings.TrimSpace(o.Body)
		if len(b) > 400 {
			b = b[:400] + "..."
		}
		s += " " + b
	}
	return s
}

// decode fills in the decoded parts of a recorded response.
func decode(w *Recorder) *Outcome {
	w.Finish()
	if n, err := strconv.Atoi(w.Sent.Get("Content-Length")); err == nil && (w.Excess || n > w.Body.Len() && n > 0 && !w.Fail && !w.Panics && !w.NoBody) {
		// nobody can read such an answer
		return &Outcome{Status: w.Status, Header: w.Sent, Body: "", LBad: "wrong content length", Rec: w}
	}
	o := &Outcome{Status: w.Status, Header: w.Sent, Body: w.Body.String(), Rec: w}
	if strings.HasPrefix(strings.TrimSpace(o.Body), "{") {
		_ = json.Unmarshal([]byte(o.Body), &o.JSON)
	}
	if l := w.Sent.Values("Location"); len(l) > 0 {
		o.Location = l[0]
		o.Base, o.LQuery, o.LFrag, o.LBad = splitLocation(l[0])
		if len(l) > 1 {
			o.LBad = "several Location headers"
		}
	}
	return o
}

// splitLocation takes a URI apart by RFC 3986 appendix B and decodes query and
// fragment as form-encoded parameters.
func splitLocation(loc string) (base string, query, frag url.Values, bad string) {
	rest := loc
	query, frag = url.Values{}, url.Values{}
	if i := strings.IndexByte(rest, '#'); i >= 0 {
		f := rest[i+1:]
		rest = rest[:i]
		v, err := url.ParseQuery(f)
		if err != nil {
			bad = "fragment: " + err.Error()
		}
		frag = v
	}
	if i := strings.IndexByte(rest, '?'); i >= 0 {
		q := rest[i+1:]
		rest = rest[:i]
		v, err := url.ParseQuery(q)
		if err != nil {
			bad = "query: " + err.Error()
		}
		query = v
	}
	return rest, query, frag, bad
}

// exchange runs one request against a handler like the HTTP server does,
// including its recovery from panics.
func exchange(h http.Handler, r *http.Request, w *Recorder) (o *Outcome) {
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				o = &Outcome{Panic: fmt.Sprint(p), Stack: st, Header: http.Header{}, Rec: w}
			}
		}()
		w.NoBody = r.Method == "HEAD"
		h.ServeHTTP(w, r)
	}()
	if o == nil {
		o = decode(w)
	}
	return o
}

// challenge is a parsed WWW-Authenticate value.
type challenge struct {
	scheme string
	params map[string]string
	order  []string
}

// parseChallenge parses one challenge by the grammar of RFC 7235.
func parseChallenge(s string) (c challenge, ok bool) {
	c.params = map[string]string{}
	i := strings.IndexByte(s, ' ')
	if i <= 0 {
		return c, false
	}
	c.scheme = s[:i]
	rest := strings.TrimLeft(s[i:], " ")
	for {
		j := 0
		for j < len(rest) && isTokenChar(rest[j]) {
			j++
		}
		if j == 0 || j >= len(rest) || rest[j] != '=' {
			return c, false
		}
		name := strings.ToLower(rest[:j])
		rest = rest[j+1:]
		var val strings.Builder
		if strings.HasPrefix(rest, `"`) {
			k := 1
			closed := false
			for k < len(rest) {
				ch := rest[k]
				if ch == '\\' {
					if k+1 >= len(rest) {
						return c, false
					}
					val.WriteByte(rest[k+1])
					k += 2
					continue
				}
				if ch == '"' {
					closed = true
					k++
					break
				}
				if ch < 0x20 && ch != '\t' || ch == 0x7f {
					return c, false
				}
				val.WriteByte(ch)
				k++
			}
			if !closed {
				return c, false
			}
			rest = rest[k:]
		} else {
			k := 0
			for k < len(rest) && isTokenChar(rest[k]) {
				k++
			}
			if k == 0 {
				return c, false
			}
			val.WriteString(rest[:k])
			rest = rest[k:]
		}
		if _, dup := c.params[name]; dup {
			return c, false
		}
		c.params[name] = val.String()
		c.order = append(c.order, name)
		rest = strings.TrimLeft(rest, " \t")
		if rest == "" {
			return c, true
		}
		if rest[0] != ',' {
			return c, false
		}
		rest = strings.TrimLeft(rest[1:], " \t")
	}
}

func isTokenChar(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || strings.IndexByte("!#$%&'*+-.^_`|~", b) >= 0
}

// names returns the scope names of text, independent of the code under test:
// split at spaces, surrounding white space removed, empty names dropped.
func names(text string) []string {
	var out []string
	for _, s := range strings.Split(text, " ") {
		s = strings.TrimSpace(s)
		if s != "" {
			out = append(out, s)
		}
	}
	return out
}

func subset(a, b []string) bool {
	m := map[string]bool{}
	for _, s := range b {
		m[s] = true
	}
	for _, s := range a {
		if !m[s] {
			return false
		}
	}
	return true
}

func sameSet(a, b []string) bool { return subset(a, b) && subset(b, a) }

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// surroundings change what surrounds a request but must not matter: headers
// that belong to other mechanisms, and where and how the request came in. The
// texts are put into headers that some servers take for credentials.
func surroundings(r *rand.Rand, texts ...string) (string, func(*http.Request)) {
	var desc []string
	headers := map[string]string{}
	var do []func(*http.Request)
	for n := 1 + r.IntN(4); n > 0; n-- {
		if r.IntN(4) > 0 {
			f := pick(r, surroundingHeaders)
			headers[f[0]] = f[1]
			continue
		}
		if len(texts) > 0 && r.IntN(2) == 0 {
			headers[pick(r, []string{"Proxy-Authorization", "X-Authorization", "X-Forwarded-User", "Remote-User", "X-Remote-User", "X-Auth-Request-User", "X-User", "X-Client-Id", "X-Client-Secret", "X-Api-Key", "Cookie", "From", "X-Ssl-Client-Cn", "X-Forwarded-Client-Cert"})] = blank(pick(r, texts))
			continue
		}
		k := r.IntN(14)
		desc = append(desc, []string{"no host", "other host", "no address", "local address", "odd address", "HTTP/1.0", "HTTP/2.0", "TLS", "context cancelled", "context expired", "close", "unknown length", "absolute URI", "no request URI"}[k])
		do = append(do, func(q *http.Request) {
			switch k {
			case 0:
				q.Host = ""
			case 1:
				q.Host = "localhost:1"
			case 2:
				q.RemoteAddr = ""
			case 3:
				q.RemoteAddr = "127.0.0.1:80"
			case 4:
				q.RemoteAddr = "@"
			case 5:
				q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/1.0", 1, 0
			case 6:
				q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/2.0", 2, 0
			case 7:
				q.TLS = &tls.ConnectionState{HandshakeComplete: true}
			case 8, 9:
				ctx, cancel := context.WithCancel(q.Context())
				if k == 9 {
					cancel()
					ctx, cancel = context.WithDeadline(q.Context(), time.Now().Add(-time.Second))
				}
				cancel()
				*q = *q.WithContext(ctx)
			case 10:
				q.Close = true
			case 11:
				if q.ContentLength > 0 {
					q.ContentLength = -1
					q.TransferEncoding = []string{"chunked"}
				}
			case 12:
				q.URL.Scheme, q.URL.Host = "http", "auth.example"
			case 13:
				q.RequestURI = ""
			}
		})
	}
	for k, v := range headers {
		desc = append(desc, k+": "+v)
	}
	sort.Strings(desc)
	return strings.Join(desc, ", "), func(q *http.Request) {
		for _, f := range do {
			f(q)
		}
		for k, v := range headers {
			if http.CanonicalHeaderKey(k) == k && q.Header[k] == nil {
				q.Header[k] = []string{v}
			}
		}
	}
}

var surroundingHeaders = [][2]string{
	{"Accept", "text/html"}, {"Accept", "application/xml;q=0.9"}, {"Accept", "application/json;version=2"}, {"Accept", "application/jwt"}, {"Accept", "*/*;q=0"}, {"Accept", ""},
	{"Accept-Language", "de"}, {"Accept-Charset", "utf-16"}, {"Accept-Encoding", "gzip, br"}, {"Origin", "https://app.example"}, {"Origin", "null"}, {"Referer", "https://app.example/cb"},
	{"Cookie", "session=1; access_token=x"}, {"Range", "bytes=0-0"}, {"If-None-Match", "*"}, {"If-Match", `"x"`}, {"If-Modified-Since", "Fri, 01 Jan 2100 00:00:00 GMT"}, {"Cache-Control", "only-if-cached"}, {"Cache-Control", "max-age=100"}, {"Pragma", "cache"},
	{"Content-Encoding", "gzip"}, {"Content-Encoding", "identity"}, {"Content-Language", "en"}, {"Content-Md5", "x"}, {"Digest", "x"}, {"X-Http-Method-Override", "GET"}, {"X-Http-Method-Override", "DELETE"}, {"X-Forwarded-Proto", "http"}, {"X-Forwarded-For", "127.0.0.1"}, {"X-Real-Ip", "127.0.0.1"}, {"Forwarded", "for=127.0.0.1;proto=http"},
	{"X-Request-Id", "1"}, {"Idempotency-Key", "1"}, {"User-Agent", "kube-probe/1.0"}, {"User-Agent", "Mozilla/5.0 (iPhone)"}, {"User-Agent", ""}, {"Connection", "close"}, {"Connection", "upgrade"}, {"Upgrade", "websocket"}, {"Upgrade", "h2c"},
	{"Sec-Fetch-Mode", "cors"}, {"Sec-Fetch-Site", "cross-site"}, {"Dpop", "x.y.z"}, {"Prefer", "return=minimal"}, {"Te", "trailers"}, {"X-Forwarded-Host", "evil.example"}, {"X-Original-Url", "/oauth2/token"}, {"X-Rewrite-Url", "/oauth2/authorize"}, {"X-Forwarded-Prefix", "/x"},
	{"Max-Forwards", "0"}, {"X-Requested-With", "XMLHttpRequest"}, {"Access-Control-Request-Method", "POST"}, {"Dnt", "1"}, {"Save-Data", "on"}, {"Purpose", "prefetch"}, {"Sec-Purpose", "prefetch"}, {"X-Debug", "1"}, {"X-Test", "true"}, {"Expect", "100-continue"}, {"Warning", "199 - x"}, {"Trailer", "X"}, {"X-Forwarded-User", "root"}, {"X-Api-Key", "secret"},
}
