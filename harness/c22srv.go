package harness

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/http"
	"net/url"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/256dpi/oauth2/v2/oauth2test"
)

// A small authentication server of its own that shares no code with the
// package under test. It conforms to what the suite describes and can be told
// to deviate in exactly one answer.

// capabilities of a specification
const (
	capPassword = 1 << iota
	capClient
	capImplicit
	capCode
	capRefresh
	capIntrospect
	capRevoke
	capReplay
	capAll = 1<<iota - 1
)

const capLetters = "PCIARXVM"

func capName(caps int) string {
	out := ""
	for i, l := range capLetters {
		if caps&(1<<i) != 0 {
			out += string(l)
		}
	}
	return out
}

func capValue(name string) int {
	caps := 0
	for i, l := range capLetters {
		if strings.ContainsRune(name, l) {
			caps |= 1 << i
		}
	}
	return caps
}

type ccred struct {
	kind     string // access, refresh or code
	client   string
	scope    []string
	exp      time.Time
	redirect string
	origin   string
	family   string
	state    string // empty, revoked, spent or replayed
}

type cserver struct {
	r     *rand.Rand
	spec  *oauth2test.Spec
	label string
	mut   string

	format  int
	headers bool // user credentials are taken from a header
	values  bool // values that are missing make an invalid request
	scopes  bool // a scope must be requested
	methods bool // other methods are not allowed
	user    string
	pass    string
	realm   string
	comma   string
	allowed map[string]bool
	needed  []string
	creds   map[string]*ccred
	codes   int
	uses    map[string]int

	applied int
	hits    map[string]map[string]bool // mutations that apply per label
	shots   []string                   // all requests with what they carried
}

type cresp struct {
	status int
	err    string
	realm  bool
	bearer bool
	doc    map[string]any
	to     string
	frag   bool
	params url.Values
	body   string
	nodoc  bool
	raw    string
	noch   bool
}

func (s *cserver) token() string {
	b := make([]byte, 15)
	for i := range b {
		b[i] = byte(s.r.Uint32())
	}
	switch s.format {
	case 0:
		return "tk_" + hex.EncodeToString(b)
	case 1:
		return base64.StdEncoding.EncodeToString(append([]byte{0xfb, 0xff}, b...)) + "="
	case 2:
		return "eyJ0." + base64.RawURLEncoding.EncodeToString(b) + "." + base64.RawURLEncoding.EncodeToString(b[:6])
	default:
		return "~" + hex.EncodeToString(b) + "-._~+/=="
	}
}

// wellformed accepts what the server could have made.
func (s *cserver) wellformed(t string) bool {
	switch s.format {
	case 0:
		return strings.HasPrefix(t, "tk_") && len(t) == 33
	case 1:
		return strings.HasSuffix(t, "=") && len(t) == 25
	case 2:
		return strings.HasPrefix(t, "eyJ0.") && strings.Count(t, ".") == 2
	default:
		return strings.HasPrefix(t, "~") && strings.HasSuffix(t, "-._~+/==")
	}
}

func plain(r *rand.Rand, n int) string {
	const chars = "abcdefghijklmnopqrstuvwxyz0123456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = chars[r.IntN(len(chars))]
	}
	return string(b)
}

// newSuite makes a server and a specification that describes it.
func newSuite(r *rand.Rand, caps int) (*cserver, *oauth2test.Spec) {
	s := &cserver{r: r, creds: map[string]*ccred{}, hits: map[string]map[string]bool{}, allowed: map[string]bool{}, uses: map[string]int{},
		format: r.IntN(4), headers: chance(r, 0.3), values: chance(r, 0.5), scopes: chance(r, 0.5), methods: chance(r, 0.5), realm: pick(r, []string{"OAuth2", "x", "auth server", "a,b"}), comma: pick(r, []string{", ", ",", ",  "})}
	h := http.Handler(s)
	spec := oauth2test.Default(h)
	s.spec = spec
	if chance(r, 0.6) {
		base := pick(r, []string{"/", "/v2/", "/a/b/"})
		spec.TokenEndpoint, spec.AuthorizeEndpoint, spec.ProtectedResource = base+"tok", base+"auth", base+"data"
		spec.RevocationEndpoint, spec.IntrospectionEndpoint = base+"rev", base+"intro"
		spec.InvalidToken, spec.InvalidRefreshToken = "broken"+plain(r, 3), "broken"+plain(r, 2)
		spec.InvalidRedirectURI = "https://evil." + plain(r, 4) + ".example/x"
		spec.ExpectedExpiresIn = pick(r, []int{1, 60, 86400, 1000000, r.IntN(100000) + 1})
	}
	spec.PasswordGrantSupport = caps&capPassword != 0
	spec.ClientCredentialsGrantSupport = caps&capClient != 0
	spec.ImplicitGrantSupport = caps&capImplicit != 0
	spec.AuthorizationCodeGrantSupport = caps&capCode != 0
	spec.RefreshTokenGrantSupport = caps&capRefresh != 0
	if caps&capIntrospect == 0 {
		spec.IntrospectionEndpoint = ""
	}
	if caps&capRevoke == 0 {
		spec.RevocationEndpoint = ""
	}
	spec.CodeReplayMitigation = caps&capReplay != 0
	spec.ConfidentialClientID, spec.ConfidentialClientSecret, spec.PublicClientID = "conf-"+plain(r, 4), "s:"+plain(r, 5)+pick(r, []string{"", "%", " x", "ä", "+"}), "pub-"+plain(r, 4)
	var names []string
	for i := 0; i < 1+r.IntN(4); i++ {
		n := fmt.Sprintf("%s%d", pick(r, []string{"read", "write:", "a/", "x"}), i)
		names = append(names, n)
		s.allowed[n] = true
	}
	s.needed = names[:1]
	spec.ValidScope, spec.InvalidScope, spec.ExceedingScope = strings.Join(names, " "), "none"+plain(r, 3), strings.Join(append(append([]string{}, names...), "more"), " ")
	if r.IntN(2) == 0 {
		spec.ExceedingScope = "more " + spec.ValidScope
	}
	s.user, s.pass = "user-"+plain(r, 3), "p "+plain(r, 4)+pick(r, []string{"", "&=", "ö"})
	spec.PrimaryRedirectURI = pick(r, []string{"http://app.example/cb", "https://app.example:8443/cb?x=1&y=%20", "http://localhost:9000", "http://app.example/cb/"})
	spec.SecondaryRedirectURI = pick(r, []string{"http://app.example/cb2", "https://other.example/cb"})
	scope := names
	give := func(kind, origin string, scope []string, life time.Duration) string {
		t := s.token()
		s.creds[t] = &ccred{kind: kind, client: spec.ConfidentialClientID, scope: scope, exp: time.Now().Add(life), origin: origin, redirect: spec.PrimaryRedirectURI}
		return t
	}
	spec.UnknownToken = s.token()
	spec.ValidToken = give("access", "valid", scope, time.Hour)
	spec.ExpiredToken = give("access", "expired", scope, -time.Hour)
	spec.InsufficientToken = give("access", "insufficient", nil, time.Hour)
	if caps&capPassword != 0 || chance(r, 0.3) {
		spec.ResourceOwnerUsername, spec.ResourceOwnerPassword = s.user, s.pass
	}
	if caps&capCode != 0 || chance(r, 0.3) {
		spec.InvalidAuthorizationCode, spec.UnknownAuthorizationCode = "broken"+plain(r, 2), s.token()
		spec.ExpiredAuthorizationCode = give("code", "expired", scope, -time.Hour)
	}
	if caps&capRefresh != 0 || chance(r, 0.3) {
		spec.UnknownRefreshToken = s.token()
		spec.ValidRefreshToken = give("refresh", "valid", scope, time.Hour)
		spec.ExpiredRefreshToken = give("refresh", "expired", scope, -time.Hour)
	}
	if caps&(capCode|capImplicit) == 0 && r.IntN(2) == 0 {
		spec.PrimaryRedirectURI, spec.SecondaryRedirectURI, spec.InvalidRedirectURI = "", "", ""
	}
	if caps&(capCode|capImplicit) != 0 || chance(r, 0.3) {
		if s.headers {
			name := pick(r, []string{"X-Session", "x-session", "X-SESSION"})
			spec.ValidAuthorizationHeaders = map[string]string{name: s.user + "/" + base64.StdEncoding.EncodeToString([]byte(s.pass))}
			spec.InvalidAuthorizationHeaders = map[string]string{name: s.user + "/bm8="}
		} else {
			spec.ValidAuthorizationParams = map[string]string{"username": s.user, "password": s.pass}
			spec.InvalidAuthorizationParams = map[string]string{"username": s.user, "password": "invalid"}
		}
	}
	return s, spec
}

func (s *cserver) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.shots = append(s.shots, r.Method+" "+r.URL.Path+" "+r.PostForm.Encode())
	if r.URL.Path == "" {
		http.NotFound(w, r)
		return
	}
	if want := map[string]string{s.spec.TokenEndpoint: "POST", s.spec.AuthorizeEndpoint: "GET POST", s.spec.ProtectedResource: "GET"}[r.URL.Path]; s.methods && want != "" && !slices.Contains(strings.Fields(want), r.Method) {
		w.Header().Set("Allow", want)
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
		return
	}
	switch r.URL.Path {
	case s.spec.TokenEndpoint:
		s.tokenEP(w, r)
	case s.spec.AuthorizeEndpoint:
		s.authorizeEP(w, r)
	case s.spec.RevocationEndpoint:
		s.tokenOp(w, r, "revoke")
	case s.spec.IntrospectionEndpoint:
		s.tokenOp(w, r, "introspect")
	case s.spec.ProtectedResource:
		s.resource(w, r)
	default:
		http.NotFound(w, r)
	}
}

// deviates reports whether the decision of the label is to be ignored.
func (s *cserver) deviates(label, mut string) bool {
	if s.hits[label] == nil {
		s.hits[label] = map[string]bool{}
	}
	s.hits[label][mut] = true
	if s.label == label && s.mut == mut {
		s.applied++
		return true
	}
	return false
}

func (s *cserver) send(w http.ResponseWriter, label string, a *cresp) {
	is := func(mut string) bool { return s.deviates(label, mut) }
	if is("panic") {
		panic("the server fails")
	}
	before, right := s.applied, *a
	right.doc, right.params = map[string]any{}, url.Values{}
	for k, v := range a.doc {
		right.doc[k] = v
	}
	for k, v := range a.params {
		right.params[k] = v
	}
	if is("status") {
		for old := a.status; a.status == old; {
			a.status = pick(s.r, []int{200, 201, 202, 204, 301, 302, 303, 307, 400, 401, 402, 403, 404, 409, 500, 503})
		}
	}
	if a.err != "" {
		if is("error") {
			for old := a.err; a.err == old; {
				a.err = pick(s.r, []string{"invalid_request", "invalid_client", "invalid_grant", "invalid_scope", "access_denied", "invalid_token", "insufficient_scope", "server_error", "unsupported_token_type", "unauthorized_client", strings.ToUpper(old), old + "s", old[:len(old)-1], " " + old})
			}
		}
		if is("no error") {
			a.err = ""
		}
	}
	if a.realm || a.bearer {
		a.noch = is("no challenge")
		if a.realm && is("no realm") {
			a.realm = false
		}
	}
	if a.bearer && is("body") {
		a.body = pick(s.r, []string{"no", "{}", " ", `{"error":"` + a.err + `"}`})
	}
	if !a.bearer && a.to == "" && (a.err != "" || a.doc != nil) {
		if is("no document") {
			a.nodoc = true
		}
		if is("no JSON") {
			a.raw = pick(s.r, []string{"<html></html>", "error=" + a.err, "[]", "null", "{"})
		}
	}
	keys := make([]string, 0, len(a.doc)+len(a.params))
	for k := range a.doc {
		keys = append(keys, k)
	}
	for k := range a.params {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if is("no " + k) {
			delete(a.doc, k)
			a.params.Del(k)
		}
		if is("wrong " + k) {
			if a.doc != nil {
				switch v := a.doc[k].(type) {
				case bool:
					a.doc[k] = !v
				case int:
					a.doc[k] = v + pick(s.r, []int{-1, 1, 1000, -v})
				case string:
					a.doc[k] = s.other(k, v)
				}
			} else {
				a.params.Set(k, s.other(k, a.params.Get(k)))
			}
		}
		if a.doc != nil && is("type "+k) {
			switch v := a.doc[k].(type) {
			case bool:
				a.doc[k] = fmt.Sprint(v)
			case int:
				a.doc[k] = fmt.Sprint(v)
			case string:
				a.doc[k] = []string{v}
			}
		}
	}
	if a.to != "" {
		if a.params.Get("access_token") != "" && is("extra refresh_token") {
			a.params.Set("refresh_token", s.token())
		}
		if is("swap") {
			a.frag = !a.frag
		}
		if is("no location") {
			a.to = ""
		}
	}

	// what is missing or wrong may be found in the wrong place
	decoy := s.applied > before && s.r.IntN(3) > 0
	if right.err != "" {
		right.doc["error"] = right.err
		right.params.Set("error", right.err)
	}

	// render the answer
	h := w.Header()
	switch {
	case a.to != "":
		enc := a.params.Encode()
		if a.err != "" {
			a.params.Set("error", a.err)
			enc = a.params.Encode()
		}
		if s.r.IntN(2) == 0 {
			enc = strings.ReplaceAll(enc, "+", "%20")
		}
		if decoy && a.frag == right.frag {
			if a.frag {
				if s.r.IntN(2) == 0 && !strings.Contains(a.to, "?") {
					a.to += "?" + right.params.Encode()
				}
				enc = decoys(right.params).Encode() + "&" + enc
			} else if s.r.IntN(2) == 0 {
				enc += "#" + right.params.Encode()
			} else {
				enc = decoys(right.params).Encode() + "&" + enc
			}
			buf, _ := json.Marshal(right.doc)
			a.body = string(buf)
		}
		switch {
		case a.frag:
			h.Set("Location", a.to+"#"+enc)
		case strings.Contains(a.to, "?"):
			h.Set("Location", a.to+"&"+enc)
		default:
			h.Set("Location", a.to+"?"+enc)
		}
		w.WriteHeader(a.status)
		_, _ = w.Write([]byte(a.body))
		return
	case a.bearer:
		var parts []string
		if decoy {
			if right.err != "" {
				parts = append(parts, `x_error="`+right.err+`"`, `error_uri="`+right.err+`"`)
			}
			if right.realm {
				parts = append(parts, `xrealm="`+s.realm+`"`)
				right.doc["realm"] = s.realm
			}
			if a.body == right.body && s.r.IntN(2) == 0 {
				buf, _ := json.Marshal(right.doc)
				a.body = string(buf)
			}
			h.Set("X-WWW-Authenticate", `Bearer realm="`+s.realm+`", error="`+right.err+`"`)
		}
		if a.realm || s.r.IntN(2) == 0 && a.err != "" {
			parts = append(parts, `realm="`+s.realm+`"`)
		}
		if a.err != "" {
			parts = append(parts, `error="`+a.err+`"`)
			if s.r.IntN(2) == 0 {
				parts = append(parts, `error_description="`+pick(s.r, []string{"text", "a, b", "realm, error", ""})+`"`)
			}
		}
		if !a.noch {
			h.Set("WWW-Authenticate", "Bearer "+strings.Join(shuffled(s.r, parts), s.comma))
			if len(parts) == 0 {
				h.Set("WWW-Authenticate", "Bearer")
			}
		}
		w.WriteHeader(a.status)
		_, _ = w.Write([]byte(a.body))
		return
	}
	if decoy && right.realm && !a.realm && !a.noch {
		h.Set("WWW-Authenticate", pick(s.r, []string{"Basic", "Bearer"})+` xrealm="`+s.realm+`", realms="x"`)
	} else if a.realm && !a.noch {
		h.Set("WWW-Authenticate", pick(s.r, []string{"Basic", "Bearer"})+` realm="`+s.realm+`"`)
	} else if a.status == 401 && !a.noch {
		h.Set("WWW-Authenticate", pick(s.r, []string{"Basic", `Basic charset="UTF-8"`}))
	}
	doc := a.doc
	if a.err != "" {
		doc = map[string]any{"error": a.err}
		if s.r.IntN(2) == 0 {
			doc["error_description"] = "text"
		}
	}
	if decoy {
		if doc == nil && !a.nodoc && right.err != "" {
			doc = map[string]any{}
		}
		if doc != nil {
			if right.realm {
				doc["realm"] = s.realm
			}
			for k, v := range right.doc {
				doc["x_"+k], doc[strings.ToUpper(k[:1])+k[1:]], doc[k+"s"] = v, v, v
			}
			doc["data"] = right.doc
		}
		h.Set("X-Error", right.err)
	}
	if doc != nil {
		h.Set("Content-Type", "application/json")
	}
	w.WriteHeader(a.status)
	switch {
	case a.nodoc:
	case a.raw != "":
		_, _ = w.Write([]byte(a.raw))
	case doc != nil:
		buf, _ := json.Marshal(doc)
		if s.r.IntN(2) == 0 {
			buf, _ = json.MarshalIndent(doc, "", " ")
		}
		_, _ = w.Write(buf)
	default:
		_, _ = w.Write([]byte(a.body))
	}
}

// decoys makes parameters that only look like the given ones.
func decoys(v url.Values) url.Values {
	out := url.Values{}
	for k, l := range v {
		out["x_"+k], out[k+"s"], out[strings.ToUpper(k)] = l, l, l
	}
	return out
}

// other makes another plausible value of a member.
func (s *cserver) other(k, v string) string {
	for {
		o := v
		switch k {
		case "access_token", "refresh_token", "code":
			o = s.token()
		case "token_type":
			o = pick(s.r, []string{"mac", "access_token", "refresh_token", "bearer", "other", "Bearer", v + "s", ""})
		case "scope":
			o = pick(s.r, []string{v + " more", "more", "", strings.Split(v, " ")[0], v + " "})
		case "expires_in":
			o = pick(s.r, []string{v + "0", "1", "0", v + ".5", "-" + v})
		case "state":
			o = pick(s.r, []string{"abc", v[:len(v)-1], v + "z", strings.ToUpper(v), " " + v, ""})
		default:
			o = v + "x"
		}
		if o != v {
			return o
		}
	}
}

func (s *cserver) refuse(w http.ResponseWriter, label string, status int, name string) {
	s.send(w, label, &cresp{status: status, err: name, realm: status == 401})
}

// issue makes tokens and answers with them.
func (s *cserver) issue(w http.ResponseWriter, label, origin, family, client string, scope []string) {
	if s.deviates(label, "refuse") {
		s.send(w, "", &cresp{status: 400, err: "invalid_request"})
		return
	}
	at, rt := s.token(), s.token()
	life := time.Duration(s.spec.ExpectedExpiresIn)*time.Second + time.Hour
	s.creds[at] = &ccred{kind: "access", client: client, scope: scope, exp: time.Now().Add(life), origin: origin, family: family}
	s.creds[rt] = &ccred{kind: "refresh", client: client, scope: scope, exp: time.Now().Add(life), origin: origin, family: family}
	s.send(w, label, &cresp{status: 200, doc: map[string]any{"token_type": "bearer", "access_token": at, "refresh_token": rt, "expires_in": s.spec.ExpectedExpiresIn, "scope": strings.Join(scope, " ")}})
}

// scopeError classifies a requested scope.
func (s *cserver) scopeError(scope []string) string {
	if s.scopes && len(scope) == 0 {
		return "no scope"
	}
	good, bad := 0, 0
	for _, n := range scope {
		if s.allowed[n] {
			good++
		} else {
			bad++
		}
	}
	switch {
	case bad == 0:
		return ""
	case good == 0:
		return "invalid scope"
	default:
		return "exceeding scope"
	}
}

// ccheck is a reason to refuse a request.
type ccheck struct {
	bad    bool
	label  string
	status int
	name   string
}

// refusal finds the reason to refuse a request. Where the order of groups of
// reasons is open, the caller asks for a random one. A server that ignores a
// reason goes on with the next.
func (s *cserver) refusal(open bool, groups ...[]ccheck) *ccheck {
	if open {
		s.r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	}
	for _, g := range groups {
		for i := range g {
			if g[i].bad && !s.deviates(g[i].label, "ignore") {
				return &g[i]
			}
		}
	}
	return nil
}

// blank stands for a credential that a server accepts without knowing it.
func (s *cserver) blank(kind, client, redirect string) *ccred {
	return &ccred{kind: kind, client: client, scope: strings.Fields(s.spec.ValidScope), exp: time.Now().Add(time.Hour), origin: "nothing", redirect: redirect}
}

func (s *cserver) tokenEP(w http.ResponseWriter, r *http.Request) {
	f := r.PostForm
	id, secret, _ := r.BasicAuth()
	grant := f.Get("grant_type")
	scope := strings.Fields(f.Get("scope"))
	public, confidential := id == s.spec.PublicClientID, id == s.spec.ConfidentialClientID
	stop := func(c *ccheck) bool {
		if c == nil {
			return false
		}
		if s.deviates(c.label, "accept") {
			s.issue(w, "", "accepted", "", s.spec.ConfidentialClientID, strings.Fields(s.spec.ValidScope))
			return true
		}
		s.refuse(w, c.label, c.status, c.name)
		return true
	}
	if stop(s.refusal(false, []ccheck{{grant == "", "token: empty", 400, "invalid_request"}})) {
		return
	}
	known := grant == "password" || grant == "client_credentials" || grant == "authorization_code" || grant == "refresh_token"
	if stop(s.refusal(true,
		[]ccheck{{!known, "token: unknown grant", 400, "invalid_request"}},
		[]ccheck{{!public && !confidential, "token: unknown client", 401, "invalid_client"},
			{confidential && secret != s.spec.ConfidentialClientSecret, "token: " + grant + ": client secret", 401, "invalid_client"}})) {
		return
	}
	e := s.scopeError(scope)
	missing := s.values && (grant == "password" && (f.Get("username") == "" || f.Get("password") == "") || grant == "authorization_code" && (f.Get("code") == "" || f.Get("redirect_uri") == "") || grant == "refresh_token" && f.Get("refresh_token") == "")
	if stop(s.refusal(false, []ccheck{{missing, "token: " + grant + ": missing value", 400, "invalid_request"}})) {
		return
	}
	switch grant {
	case "client_credentials":
		if !stop(s.refusal(true,
			[]ccheck{{public, "token: client_credentials: public client", 401, "invalid_client"}},
			[]ccheck{{e != "", "token: client_credentials: " + e, 400, "invalid_scope"}})) {
			s.issue(w, "token: client_credentials: success", "client", "", id, scope)
		}
	case "authorization_code":
		c := f.Get("code")
		cr := s.creds[c]
		if stop(s.refusal(false, []ccheck{{!s.wellformed(c), "token: code: malformed", 400, "invalid_request"},
			{cr == nil || cr.kind != "code", "token: code: unknown", 400, "invalid_grant"}})) {
			return
		}
		if cr == nil {
			cr = s.blank("code", id, f.Get("redirect_uri"))
		}
		if cr.state == "spent" {
			for _, o := range s.creds {
				if o.family == c && o.kind != "code" && o.state == "" && !s.deviates("token: code: replayed", "spare") {
					o.state = "replayed"
				}
			}
		}
		if stop(s.refusal(true,
			[]ccheck{{cr.state == "spent", "token: code: replayed", 400, "invalid_grant"}},
			[]ccheck{{cr.exp.Before(time.Now()), "token: code: expired", 400, "invalid_grant"}},
			[]ccheck{{cr.client != id, "token: code: wrong client", 400, "invalid_grant"}},
			[]ccheck{{cr.redirect != f.Get("redirect_uri"), "token: code: wrong redirect URI", 400, "invalid_grant"}})) {
			return
		}
		cr.state = "spent"
		s.issue(w, "token: code: success of "+cr.origin, cr.origin, c, id, cr.scope)
	case "refresh_token":
		t := f.Get("refresh_token")
		cr := s.creds[t]
		if stop(s.refusal(false, []ccheck{{!s.wellformed(t), "token: refresh: malformed", 400, "invalid_request"},
			{cr == nil || cr.kind != "refresh", "token: refresh: unknown", 400, "invalid_grant"}})) {
			return
		}
		if cr == nil {
			cr = s.blank("refresh", id, "")
		}
		if stop(s.refusal(true,
			[]ccheck{{cr.state != "", "token: refresh: " + cr.state + " of " + cr.origin, 400, "invalid_grant"}},
			[]ccheck{{cr.exp.Before(time.Now()), "token: refresh: expired", 400, "invalid_grant"}},
			[]ccheck{{cr.client != id, "token: refresh: wrong client", 400, "invalid_grant"}},
			[]ccheck{{len(scope) > 0 && !subset(scope, cr.scope), "token: refresh: exceeding scope", 400, "invalid_scope"}})) {
			return
		}
		if len(scope) == 0 {
			scope = cr.scope
		}
		if !s.deviates("token: refresh: success of "+cr.origin, "keep") {
			cr.state = "spent"
		}
		s.issue(w, "token: refresh: success of "+cr.origin, "refreshed "+cr.origin, cr.family, id, scope)
	default:
		// a server that ignores the grant type may take it for this one
		if !stop(s.refusal(true,
			[]ccheck{{f.Get("username") != s.user, "token: password: unknown user", 403, "access_denied"},
				{f.Get("password") != s.pass, "token: password: wrong password", 403, "access_denied"}},
			[]ccheck{{e != "", "token: password: " + e, 400, "invalid_scope"}})) {
			s.issue(w, "token: password: success", "password", "", id, scope)
		}
	}
}

func (s *cserver) authorizeEP(w http.ResponseWriter, r *http.Request) {
	f := r.PostForm
	typ := f.Get("response_type")
	uri, state := f.Get("redirect_uri"), f.Get("state")
	frag := typ == "token"
	scope := strings.Fields(f.Get("scope"))
	if c := s.refusal(false, []ccheck{{typ == "" || f.Get("client_id") == "" || uri == "", "authorize: empty", 400, "invalid_request"}},
		[]ccheck{{typ != "token" && typ != "code", "authorize: unknown response type", 400, "invalid_request"}},
		[]ccheck{{f.Get("client_id") != s.spec.ConfidentialClientID, "authorize: unknown client", 401, "invalid_client"}},
		[]ccheck{{uri != s.spec.PrimaryRedirectURI, "authorize: wrong redirect URI", 400, "invalid_request"}}); c != nil {
		if s.deviates(c.label, "accept") {
			s.send(w, "", &cresp{status: 303, err: "access_denied", to: uri, frag: frag, params: url.Values{"state": {state}}})
			return
		}
		s.refuse(w, c.label, c.status, c.name)
		return
	}
	if r.Method == "GET" {
		if s.deviates("authorize: form", "not found") {
			s.send(w, "", &cresp{status: 404})
			return
		}
		s.send(w, "authorize: form", &cresp{status: pick(s.r, []int{200, 200, 302, 400, 405}), body: "please"})
		return
	}
	user, pass := f.Get("username"), f.Get("password")
	if s.headers {
		var enc string
		user, enc, _ = strings.Cut(r.Header.Get("X-Session"), "/")
		buf, _ := base64.StdEncoding.DecodeString(enc)
		pass = string(buf)
	}
	e := s.scopeError(scope)
	if c := s.refusal(true, []ccheck{{e != "", "authorize: " + typ + ": " + e, 303, "invalid_scope"}},
		[]ccheck{{user == "", "authorize: " + typ + ": no user", 303, "access_denied"},
			{user != "" && (user != s.user || pass != s.pass), "authorize: " + typ + ": wrong password", 303, "access_denied"}}); c != nil {
		switch {
		case s.deviates(c.label, "accept"):
		case s.deviates(c.label, "direct"):
			s.send(w, "", &cresp{status: 400, err: c.name})
			return
		default:
			s.send(w, c.label, &cresp{status: 303, err: c.name, to: uri, frag: frag, params: url.Values{"state": {state}}})
			return
		}
	}
	if typ == "token" {
		at := s.token()
		s.creds[at] = &ccred{kind: "access", client: f.Get("client_id"), scope: scope, exp: time.Now().Add(time.Hour), origin: "implicit"}
		label := "authorize: token: success"
		if s.deviates(label, "refuse") {
			s.send(w, "", &cresp{status: 303, err: "access_denied", to: uri, frag: frag, params: url.Values{"state": {state}}})
			return
		}
		s.send(w, label, &cresp{status: 303, to: uri, frag: true, params: url.Values{"access_token": {at}, "token_type": {"bearer"},
			"expires_in": {fmt.Sprint(s.spec.ExpectedExpiresIn)}, "scope": {strings.Join(scope, " ")}, "state": {state}}})
		return
	}
	code := s.token()
	s.codes++
	origin := fmt.Sprintf("code %d", s.codes)
	s.creds[code] = &ccred{kind: "code", client: f.Get("client_id"), scope: scope, exp: time.Now().Add(time.Hour), origin: origin, redirect: uri}
	label := "authorize: code: success of " + origin
	if s.deviates(label, "refuse") {
		s.send(w, "", &cresp{status: 303, err: "access_denied", to: uri, params: url.Values{"state": {state}}})
		return
	}
	s.send(w, label, &cresp{status: 303, to: uri, params: url.Values{"code": {code}, "state": {state}}})
}

// tokenOp is revocation and introspection.
func (s *cserver) tokenOp(w http.ResponseWriter, r *http.Request, op string) {
	f := r.PostForm
	id, secret, _ := r.BasicAuth()
	t, hint := f.Get("token"), f.Get("token_type_hint")
	ok := func(label string, active bool, kind string) {
		if op == "revoke" {
			s.send(w, label, &cresp{status: 200})
			return
		}
		doc := map[string]any{"active": active}
		if active {
			doc["token_type"], doc["client_id"] = kind+"_token", s.spec.ConfidentialClientID
		}
		s.send(w, label, &cresp{status: 200, doc: doc})
	}
	cr := s.creds[t]
	stop := func(c *ccheck) bool {
		if c == nil {
			return false
		}
		if s.deviates(c.label, "accept") {
			if cr != nil && op == "revoke" && s.r.IntN(2) == 0 {
				cr.state = "revoked"
			}
			ok("", true, "access")
			return true
		}
		s.refuse(w, c.label, c.status, c.name)
		return true
	}
	public, confidential := id == s.spec.PublicClientID, id == s.spec.ConfidentialClientID
	if stop(s.refusal(false, []ccheck{{r.Method != "POST", op + ": method", 400, "invalid_request"},
		{t == "" && id == "", op + ": empty", 400, "invalid_request"},
		{t != "" && id == "", op + ": no client", 400, "invalid_request"}})) {
		return
	}
	if stop(s.refusal(true,
		[]ccheck{{hint != "" && hint != "access_token" && hint != "refresh_token", op + ": unknown hint", 400, "unsupported_token_type"}},
		[]ccheck{{!public && !confidential, op + ": unknown client", 401, "invalid_client"},
			{confidential && secret != s.spec.ConfidentialClientSecret, op + ": client secret", 401, "invalid_client"}},
		[]ccheck{{t == "", op + ": no token", 400, "invalid_request"}, {t != "" && !s.wellformed(t), op + ": malformed", 400, "invalid_request"}})) {
		return
	}
	if cr == nil || cr.kind == "code" {
		if s.deviates(op+": unknown", "refuse") {
			s.send(w, "", &cresp{status: 400, err: "invalid_request"})
			return
		}
		ok(op+": unknown", false, "")
		return
	}
	if stop(s.refusal(false, []ccheck{{cr.client != id, op + ": wrong client", 401, "invalid_client"}})) {
		return
	}
	dead := cr.state
	if dead == "" && cr.exp.Before(time.Now()) {
		dead = "expired"
	}
	label := fmt.Sprintf("%s: %s %s of %s", op, dead, cr.kind, cr.origin)
	if dead == "" {
		label = fmt.Sprintf("%s: live %s of %s", op, cr.kind, cr.origin)
	}
	if s.deviates(label, "refuse") {
		s.send(w, "", &cresp{status: pick(s.r, []int{400, 404, 500}), err: "invalid_request"})
		return
	}
	if op == "revoke" && !s.deviates(label, "no effect") && cr.state == "" {
		cr.state = "revoked"
	}
	ok(label, dead == "", cr.kind)
}

func (s *cserver) resource(w http.ResponseWriter, r *http.Request) {
	stop := func(label string, status int, name string) {
		label = "resource: " + label
		if s.deviates(label, "accept") {
			s.send(w, "", &cresp{status: 200, body: "data"})
			return
		}
		s.send(w, label, &cresp{status: status, err: name, realm: name == "", bearer: true})
	}
	a := r.Header.Get("Authorization")
	if a == "" {
		stop("no token", 401, "")
		return
	}
	t, found := strings.CutPrefix(a, "Bearer ")
	if !found || t == "" {
		stop("invalid header", 400, "invalid_request")
		return
	}
	cr := s.creds[t]
	switch {
	case !s.wellformed(t):
		stop("malformed", 401, "invalid_token")
	case cr == nil || cr.kind != "access":
		stop("unknown", 401, "invalid_token")
	case cr.state != "":
		stop(cr.state+" of "+cr.origin, 401, "invalid_token")
	case cr.exp.Before(time.Now()):
		stop("expired", 401, "invalid_token")
	case !subset(s.needed, cr.scope):
		stop("insufficient scope", 403, "insufficient_scope")
	default:
		label := "resource: live of " + cr.origin
		if s.deviates(label, "refuse") {
			s.send(w, "", &cresp{status: pick(s.r, []int{400, 401, 403, 500}), err: "invalid_token", bearer: true})
			return
		}
		s.send(w, label, &cresp{status: 200, body: "data"})
	}
}
