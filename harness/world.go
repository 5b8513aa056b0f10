package harness

import (
	"crypto/hmac"
	"crypto/sha256"
	"fmt"
	"math/rand/v2"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/256dpi/oauth2/v2"
)

// World couples a real server with a reference model of what it has to answer.
// The model never looks into the server: it is fed with the requests that were
// sent and the responses that were received.
type World struct {
	*Case
	srv     *oauth2.Server
	clients []*wclient
	users   []*wuser
	allowed []string
	secret  []byte
	keyLen  int
	lifeA   time.Duration
	instant bool // something expires right now
	lifeR   time.Duration
	lifeC   time.Duration
	creds   []*wcred
	byStr   map[string]*wcred
	log     []string
	events  []event
	step    int
	dead    bool
	big     bool // long names and secrets
	p       *profile
	shape   []string
	opOwn   []string
}

type wclient struct {
	id, secret, redirect string
	conf                 bool
	gone                 bool // removed from the server
	oldSecrets, oldURIs  []string
}

type wuser struct {
	name, pass string
	gone       bool
	oldPass    []string
}

type wcred struct {
	n            int
	str          string
	kind         string // access, refresh or code
	client, user string
	scope        []string
	iat, exp     time.Time
	redirect     string
	root         *wcred
	dead         string // revoked, replayed, spent or used
	good         int    // last step at which it was seen to be alive
}

// event is something that changed the state of the world.
type event struct {
	step int
	kind string
}

// shown is a credential as presented in a request.
type shown struct {
	str  string
	c    *wcred
	what string // cred, stray, bad or none
}

// fault is one reason for which a request has to be refused.
type fault struct {
	why  string
	errs []string
	own  []string
}

func ids(s string) []string { return strings.Fields(s) }

var statusOf = map[string]int{
	"invalid_request": 400, "invalid_client": 401, "invalid_grant": 400, "unauthorized_client": 400,
	"unsupported_grant_type": 400, "unsupported_response_type": 400, "invalid_scope": 400,
	"access_denied": 403, "server_error": 500, "temporarily_unavailable": 503,
	"invalid_token": 401, "insufficient_scope": 403, "unsupported_token_type": 400,
}

func sign(secret, key []byte) string {
	m := hmac.New(sha256.New, secret)
	m.Write(key)
	return rawb64.EncodeToString(key) + "." + rawb64.EncodeToString(m.Sum(nil))
}

// profile biases the workload to what a property is about.
type profile struct {
	ops     map[string]int
	perturb float64 // chance of a perturbed request
	probe   float64 // chance of a full probe after an operation
	long    bool
}

var redirects = []string{
	"https://app.example/cb", "https://app.example/cb?x=1&y=a%20b", "http://localhost:8080/", "https://app.example/%C3%A4/cb",
	"https://app.example/a%2Fb/cb", "http://example.org/r?next=https%3A%2F%2Fevil.example%2F", "https://app.example",
	"http://127.0.0.1:3000/callback;v=1", "https://user@app.example/cb", "https://app.example/cb?state=own&code=own", "com.example.app:/cb",
	"https://app.example/cb?", "https://app.example/cb?a=1&a=2&b", "https://app.example/?q=1+1", "https://app.example/a+b",
}

var scopePool = []string{"foo", "bar", "foo:read", "foo:write", "Foo", "fo", "a", "b", "openid", "https://api.example/x", "ä", "f\"q", "bar,baz", "*", "foo:*", "foo.*", "all", "/", "offline_access", "profile", "admin", "email"}

func newWorld(c *Case, p *profile) *World {
	r := c.R
	w := &World{Case: c, p: p, byStr: map[string]*wcred{}}
	w.secret = rbytes(r, 1+r.IntN(40))
	w.keyLen = pick(r, []int{8, 16, 16, 17, 32, 40})
	w.allowed = shuffled(r, scopePool)[:1+r.IntN(6)]
	switch r.IntN(16) {
	case 0: // a server that allows no scope at all
		w.allowed = nil
	case 1: // a server that allows many
		for i := 10 + r.IntN(60); i > 0; i-- {
			w.allowed = append(w.allowed, fmt.Sprintf("n%d:%s", i, word(r)))
		}
	}
	w.lifeA = pick(r, []time.Duration{time.Hour, time.Minute, 1500 * time.Millisecond, 10 * time.Second, 24 * time.Hour, 59*time.Second + 999*time.Millisecond, 400 * time.Millisecond, 50 * 365 * 24 * time.Hour, 100 * 365 * 24 * time.Hour, 0})
	w.lifeR = pick(r, []time.Duration{7 * 24 * time.Hour, 2 * time.Minute, time.Hour, 30 * time.Second, 2500 * time.Millisecond, 700 * time.Millisecond, 60 * 365 * 24 * time.Hour, 200 * 365 * 24 * time.Hour, 30 * 24 * time.Hour, 1001 * time.Millisecond, 0})
	w.lifeC = pick(r, []time.Duration{10 * time.Minute, time.Minute, 5 * time.Second, 1100 * time.Millisecond, 300 * time.Millisecond, 24 * time.Hour, 10 * time.Minute, 90 * time.Second, 0})
	cfg := oauth2.DefaultServerConfig(w.secret, oauth2.Scope(append([]string(nil), w.allowed...)))
	cfg.KeyLength = w.keyLen
	cfg.AccessTokenLifespan, cfg.RefreshTokenLifespan, cfg.AuthorizationCodeLifespan = w.lifeA, w.lifeR, w.lifeC
	w.srv = oauth2.NewServer(cfg)

	// clients
	reds := shuffled(r, redirects)
	w.big = chance(r, 0.08)
	n := 2 + r.IntN(3)
	for i := 0; i < n; i++ {
		cl := &wclient{id: fmt.Sprintf("c%d-%s", i, word(r)), secret: "s" + word(r), redirect: reds[i], conf: i != 1}
		switch r.IntN(6) {
		case 0:
			cl.secret = "p:" + utext(r) + "x"
		case 1:
			if i > 0 {
				cl.redirect = w.clients[0].redirect
			}
		case 2:
			if i > 0 {
				cl.secret = w.clients[0].secret
			}
		case 3:
			if i > 0 {
				cl.id = w.clients[0].id + "x"
			}
		case 4:
			cl.id = "c" + fmt.Sprint(i) + utextNoColon(c)
		}
		if w.big {
			cl.id += wordn(r, pick(r, []int{30, 70, 130, 260, 600}))
			cl.secret += wordn(r, pick(r, []int{16, 60, 64, 72, 128, 300, 1100}))
			cl.redirect += pick(r, []string{"", "#"})
			cl.redirect = longURI(r, strings.TrimSuffix(cl.redirect, "#"))
		}
		if !cl.conf && r.IntN(2) == 0 {
			cl.secret = ""
		}
		if cl.conf && i > 1 && r.IntN(4) == 0 {
			cl.conf = false
		}
		if cl.conf && chance(r, 0.04) { // an empty secret is still the only one
			cl.secret = ""
		}
		for w.clientOf(cl.id) != nil {
			cl.id += "y"
		}
		w.clients = append(w.clients, cl)
		w.srv.Clients[cl.id] = &oauth2.ServerEntity{Secret: cl.secret, RedirectURI: cl.redirect, Confidential: cl.conf}
	}

	// users
	for i := 0; i < 2+r.IntN(2); i++ {
		u := &wuser{name: fmt.Sprintf("u%d%s", i, word(r)), pass: "p" + word(r)}
		switch r.IntN(6) {
		case 0:
			u.name = w.clients[0].id + fmt.Sprint(i)
		case 1:
			u.pass = utext(r) + "z"
		case 2:
			u.name = fmt.Sprint(i) + utext(r) + "n"
		case 3:
			if i > 0 {
				u.pass = w.users[0].pass
			}
		case 4:
			u.pass = word(r) + pick(r, []string{":", " ", "|", ",", "/", ";"}) + word(r)
		}
		if i == 0 && r.IntN(3) == 0 {
			u.name, u.pass = w.clients[0].id, w.clients[0].secret
		}
		if chance(r, 0.04) {
			u.pass = ""
		}
		if w.big {
			u.name += wordn(r, pick(r, []int{30, 70, 130, 260, 600}))
			u.pass += wordn(r, pick(r, []int{16, 60, 64, 72, 128, 300, 1100}))
		}
		for w.userOf(u.name) != nil {
			u.name += "y"
		}
		w.users = append(w.users, u)
		w.srv.Users[u.name] = &oauth2.ServerEntity{Secret: u.pass}
	}
	w.logf("config: allowed=%q key=%d access=%v refresh=%v code=%v", w.allowed, w.keyLen, w.lifeA, w.lifeR, w.lifeC)
	for _, cl := range w.clients {
		w.logf("client %q secret=%q conf=%v redirect=%q", cl.id, cl.secret, cl.conf, cl.redirect)
	}
	for _, u := range w.users {
		w.logf("user %q pass=%q", u.name, u.pass)
	}
	return w
}

func utextNoColon(c *Case) string { return strings.ReplaceAll(utext(c.R), ":", "_") }

func (w *World) logf(format string, args ...any) { w.log = append(w.log, fmt.Sprintf(format, args...)) }

func (w *World) clientOf(id string) *wclient {
	if cl := w.clientAny(id); cl != nil && !cl.gone {
		return cl
	}
	return nil
}

// clientAny also finds removed clients.
func (w *World) clientAny(id string) *wclient {
	for _, cl := range w.clients {
		if cl.id == id {
			return cl
		}
	}
	return nil
}

func (w *World) userOf(name string) *wuser {
	for _, u := range w.users {
		if u.name == name && !u.gone {
			return u
		}
	}
	return nil
}

// diverge reports that the server did not do what the model demands. It ends
// the history since model and server may now disagree about the state.
func (w *World) diverge(sig string, own []string, format string, args ...any) {
	if w.dead {
		return
	}
	w.dead = true
	for _, id := range own {
		if id == w.Prop {
			log := w.log
			if len(log) > 120 {
				log = append(append([]string{}, log[:10]...), log[len(log)-110:]...)
			}
			w.Violate(sig, map[string]any{"what": fmt.Sprintf(format, args...), "history": log})
			return
		}
	}
	w.Count("histories abandoned after a divergence that another property owns", 1)
	w.note("unowned divergence %s (%s): %s", sig, strings.Join(own, " "), fmt.Sprintf(format, args...))
}

func (w *World) event(kind string) { w.events = append(w.events, event{w.step, kind}) }

// since names the owners of what happened after the given step.
func (w *World) since(step int) []string {
	var own []string
	for _, e := range w.events {
		if e.step > step {
			own = append(own, ids(eventOwner[e.kind])...)
		}
	}
	return own
}

var eventOwner = map[string]string{
	"replay": "C06", "revoke": "C10", "revoke-refused": "C10", "introspect": "C11", "time": "C23", "refresh": "C07 C23", "refresh-refused": "C07",
	"redeem": "C05 C23", "redeem-refused": "C05", "issue": "C23", "broken": "C15", "probe": "C11",
}

func (w *World) state(c *wcred) string {
	switch {
	case c.dead != "":
		return c.dead
	case time.Now().After(c.exp):
		return "expired"
	}
	return "live"
}

func (w *World) add(kind, str string, cl, user string, scope []string, life time.Duration, root *wcred, redirect string) *wcred {
	c := &wcred{n: len(w.creds), str: str, kind: kind, client: cl, user: user, scope: scope, iat: time.Now(), exp: time.Now().Add(life), root: root, redirect: redirect, good: w.step}
	w.creds = append(w.creds, c)
	w.byStr[str] = c
	w.instant = w.instant || life == 0
	w.Count("credentials issued: "+kind, 1)
	return c
}

// tick leaves the instant at which credentials without lifespan were issued.
func (w *World) tick() {
	if w.instant {
		time.Sleep(time.Microsecond)
		w.instant = false
	}
}

// advance moves the virtual clock, preferably to just before or just after the
// end of some credential.
func (w *World) advance() {
	r := w.R
	now := time.Now()
	var d time.Duration
	var alive []*wcred
	for _, c := range w.creds {
		if w.state(c) == "live" || (c.dead != "" && now.Before(c.exp)) {
			alive = append(alive, c)
		}
	}
	if len(alive) > 0 && chance(r, 0.75) {
		c := pick(r, alive)
		delta := pick(r, []time.Duration{1, time.Microsecond, time.Millisecond, 300 * time.Millisecond, time.Second, 1500 * time.Millisecond})
		if chance(r, 0.5) {
			delta = -delta
		}
		d = c.exp.Sub(now) + delta
	} else {
		d = time.Duration(r.Int64N(int64(pick(r, []time.Duration{time.Second, time.Minute, time.Hour, 24 * time.Hour}))))
	}
	if d <= 0 {
		d = 1
	}
	if now.Add(d).Year() > 2150 { // the clock ends in 2262
		return
	}
again:
	for _, c := range w.creds {
		if c.exp.Equal(now.Add(d)) {
			d++
			goto again
		}
	}
	time.Sleep(d)
	w.logf("#%d advance %v", w.step, d)
	w.event("time")
	w.Count("clock steps", 1)
	w.shape = append(w.shape, "T")
}

// ---- presenting credentials

func (w *World) list(kind string, cond func(c *wcred) bool) []*wcred {
	var out []*wcred
	for _, c := range w.creds {
		if (kind == "" || c.kind == kind) && (cond == nil || cond(c)) {
			out = append(out, c)
		}
	}
	return out
}

// show picks a credential of a kind, live ones and unusual ones.
func (w *World) show(kind string, odd bool) (shown, bool) {
	s, ok := w.choose(kind, odd)
	if ok && s.c != nil && chance(w.R, 0.04) {
		s.str = equivalent(w.R, s.str)
		w.Count("credentials in another form", 1)
	}
	return s, ok
}

func (w *World) choose(kind string, odd bool) (shown, bool) {
	r := w.R
	if !odd {
		l := w.list(kind, func(c *wcred) bool { return w.state(c) == "live" })
		if len(l) == 0 {
			return shown{}, false
		}
		c := pick(r, l)
		if chance(r, 0.5) { // prefer young ones
			c = l[len(l)-1]
		}
		return shown{c.str, c, "cred"}, true
	}
	switch r.IntN(8) {
	case 0, 1, 2: // dead ones
		if l := w.list(kind, func(c *wcred) bool { return w.state(c) != "live" }); len(l) > 0 {
			c := pick(r, l)
			return shown{c.str, c, "cred"}, true
		}
	case 3: // another kind
		if l := w.list("", func(c *wcred) bool { return c.kind != kind }); len(l) > 0 {
			c := pick(r, l)
			return shown{c.str, c, "cred"}, true
		}
	case 4: // tampered
		if l := w.list(kind, nil); len(l) > 0 {
			return shown{tamper(r, pick(r, l).str), nil, "bad"}, true
		}
	case 5: // signed with the right secret but never issued
		return shown{sign(w.secret, rbytes(r, w.keyLen)), nil, "stray"}, true
	case 6: // of another server
		return shown{sign(append([]byte("x"), w.secret...), rbytes(r, w.keyLen)), nil, "bad"}, true
	}
	if l := w.list(kind, nil); len(l) > 0 && chance(r, 0.5) {
		c := pick(r, l)
		if t := mix(w, c); t != "" {
			return shown{t, nil, "bad"}, true
		}
	}
	return shown{pick(r, []string{"foo", "foo.bar", ".", "a.b.c", "null", " ", "!.!"}), nil, "bad"}, true
}

// mix combines the key of one credential with the signature of another.
func mix(w *World, c *wcred) string {
	o := pick(w.R, w.creds)
	if o == c {
		return ""
	}
	k, _, _ := strings.Cut(o.str, ".")
	_, s, _ := strings.Cut(c.str, ".")
	return k + "." + s
}

// ---- client authentication

// authIn describes how a client authenticates.
type authIn struct {
	hset, bset, qset bool
	hid, hsec        string
	bid, bsec        string
	qid, qsec        string
	noSec            bool // body credentials without a secret parameter
}

func (a authIn) apply(q *Wire) {
	if a.hset {
		q.HasAuth, q.Auth = true, basic(a.hid, a.hsec)
	}
	if a.bset {
		q.Form.Set("client_id", a.bid)
		if !a.noSec {
			q.Form.Set("client_secret", a.bsec)
		}
	}
	if a.qset {
		q.Query.Set("client_id", a.qid)
		q.Query.Set("client_secret", a.qsec)
	}
}

func (a authIn) effective(bodyAllowed bool) (id, sec string, ok bool) {
	if a.hset {
		return a.hid, a.hsec, true
	}
	if a.bset && bodyAllowed {
		if a.noSec {
			return a.bid, "", true
		}
		return a.bid, a.bsec, true
	}
	return "", "", false
}

// goodAuth authenticates the client properly.
func (w *World) goodAuth(cl *wclient, bodyAllowed bool) authIn {
	r := w.R
	sec := cl.secret
	if !cl.conf {
		sec = pick(r, []string{"", cl.secret, "anything"})
	}
	var a authIn
	if bodyAllowed && chance(r, 0.35) {
		a.bset, a.bid, a.bsec = true, cl.id, sec
		if sec == "" {
			a.noSec = chance(r, 0.5)
		}
		return a
	}
	a.hset, a.hid, a.hsec = true, cl.id, sec
	return a
}

// badAuth perturbs a proper authentication.
func (w *World) badAuth(cl *wclient, a authIn, bodyAllowed bool) authIn {
	r := w.R
	other := pick(r, w.clients)
	set := func(id, sec string) {
		if a.hset {
			a.hid, a.hsec = id, sec
		} else {
			a.bid, a.bsec, a.noSec = id, sec, false
		}
	}
	id, sec, _ := a.effective(bodyAllowed)
	switch r.IntN(12) {
	case 11: // other parts that join to the same
		if i, s := resplit(r, id, sec); i != "" && !strings.Contains(i, ":") {
			set(i, s)
		} else {
			set(id, sec+" ")
		}
	case 10: // a header without a client beside proper credentials
		if bodyAllowed {
			a.bset, a.bid, a.bsec, a.noSec = true, cl.id, cl.secret, false
		}
		a.hset, a.hid, a.hsec = true, "", pick(r, []string{"", cl.secret})
	case 9: // a secret of the past
		if len(cl.oldSecrets) > 0 {
			set(id, pick(r, cl.oldSecrets))
		} else {
			set(id, cl.secret+" ")
		}
	case 0:
		set(id, near(r, cl.secret))
	case 1:
		set(id, other.secret)
	case 2:
		set(strings.ReplaceAll(near(r, id), ":", "_"), sec)
	case 3:
		set(other.id, sec)
	case 4:
		set(id, "")
	case 5: // both, the header is wrong
		if bodyAllowed {
			a.hset, a.hid, a.hsec = true, cl.id, near(r, cl.secret)
			a.bset, a.bid, a.bsec, a.noSec = true, cl.id, cl.secret, false
		}
	case 6: // both, the body is wrong or somebody else
		if bodyAllowed {
			a.hset, a.hid, a.hsec = true, cl.id, cl.secret
			a.bset, a.bid, a.bsec, a.noSec = true, pick(r, []string{cl.id, other.id}), pick(r, []string{near(r, cl.secret), other.secret, ""}), false
		}
	case 7: // in the URL only
		a = authIn{qset: true, qid: cl.id, qsec: cl.secret}
	case 8: // a user's credentials
		u := pick(r, w.users)
		set(strings.ReplaceAll(u.name, ":", "_"), u.pass)
	}
	return a
}

// checkAuth returns the faults of the authentication.
func (w *World) checkAuth(a authIn, bodyAllowed bool, f []fault) (string, []fault) {
	id, sec, ok := a.effective(bodyAllowed)
	if !ok || (id == "" && bodyAllowed) {
		return "", append(f, fault{"no client credentials", ids("invalid_request invalid_client"), ids("C03 C17")})
	}
	cl := w.clientOf(id)
	if cl == nil {
		return "", append(f, fault{"unknown client", ids("invalid_client"), ids("C03")})
	}
	if cl.conf && cl.secret != sec {
		return "", append(f, fault{"wrong client secret", ids("invalid_client"), ids("C03")})
	}
	return id, f
}

// ---- scopes

func (w *World) goodScope() []string {
	r := w.R
	s := shuffled(r, some(r, w.allowed))
	if len(s) > 0 && chance(r, 0.15) {
		s = append(s, s[0])
	}
	return s
}

// anAllowed is one of the scopes the server allows.
func (w *World) anAllowed() string {
	if len(w.allowed) == 0 {
		return pick(w.R, scopePool)
	}
	return pick(w.R, w.allowed)
}

// longURI appends to the path or query of a URI.
func longURI(r *rand.Rand, u string) string {
	n := pick(r, []int{0, 100, 250, 1000, 2100})
	if n == 0 {
		return u
	}
	p, err := url.Parse(u)
	if err != nil {
		panic(err)
	}
	switch {
	case strings.Contains(u, "?"):
		return u + "&l=" + wordn(r, n)
	case p.Path == "":
		return u + "/" + wordn(r, n)
	}
	return u + wordn(r, n)
}

func (w *World) badScope(s []string) []string {
	r := w.R
	s = append([]string(nil), s...)
	var x string
	switch r.IntN(4) {
	case 0:
		x = pick(r, scopePool)
	case 1:
		x = w.anAllowed() + pick(r, []string{"x", ":read", ".", "*"})
	case 2:
		a := w.anAllowed()
		x = a[:len(a)-1]
	case 3:
		x = pick(r, []string{strings.ToUpper(w.anAllowed()), "*", "admin", w.anAllowed() + "," + w.anAllowed()})
	}
	if x == "" {
		x = "z"
	}
	bad := []string{x}
	if chance(r, 0.2) { // several names at once
		for n := 1 + r.IntN(4); n > 0; n-- {
			bad = append(bad, pick(r, []string{pick(r, scopePool), x + word(r), word(r)}))
		}
	}
	i := r.IntN(len(s) + 1)
	return append(s[:i:i], append(bad, s[i:]...)...)
}

func (w *World) scopeText(s []string) string {
	t := strings.Join(s, " ")
	if chance(w.R, 0.1) {
		t = pick(w.R, []string{" " + t, t + " ", strings.ReplaceAll(t, " ", "  "), "\t" + t})
	}
	return t
}

// ---- sending

func (w *World) send(q *Wire, broken bool) *Outcome {
	rec := NewRecorder()
	rec.Fail = broken
	o := exchange(w.srv, q.Request(), rec)
	note := ""
	if broken {
		note = " (response writing failed)"
		w.Count("responses whose writing failed", 1)
	}
	w.logf("#%d %s => %s%s", w.step, q, o, note)
	w.Count("requests", 1)
	return o
}

var endpoints = map[string][]string{
	"token": {"/oauth2/token", "/token", "/a/b/token"}, "authorize": {"/oauth2/authorize", "/authorize"},
	"introspect": {"/oauth2/introspect", "/introspect"}, "revoke": {"/oauth2/revoke", "/revoke"},
}

func (w *World) wire(endpoint string) *Wire {
	q := &Wire{Method: "POST", Path: pick(w.R, endpoints[endpoint]), Query: url.Values{}, Form: url.Values{}}
	if chance(w.R, 0.12) {
		var texts []string
		for _, c := range w.clients {
			texts = append(texts, c.id, basic(c.id, c.secret))
		}
		for _, u := range w.users {
			texts = append(texts, u.name, basic(u.name, u.pass))
		}
		q.Beside, q.Around = surroundings(w.R, texts...)
		w.Count("requests with odd surroundings", 1)
	}
	return q
}

// refused judges the answer to a request that has faults. It returns whether
// the answer is the refusal that was expected.
func (w *World) refused(op string, o *Outcome, f []fault, base []string) bool {
	var own, errs, why []string
	for _, x := range f {
		own = append(own, x.own...)
		errs = append(errs, x.errs...)
		why = append(why, x.why)
	}
	sort.Strings(why)
	label := op + ": " + strings.Join(why, " + ")
	w.Count("refusals due: "+label1(op, why), 1)
	if o.Panic != "" {
		w.diverge("panic", append(own, append(base, "C15")...), "%s: the server panicked: %s\n%s", label, o.Panic, o.Stack)
		return false
	}
	if o.Issues() {
		w.diverge("issued:"+label, own, "a credential was handed out although the request had to be refused (%s): %s", label, o)
		return false
	}
	name := o.ErrName()
	if o.Location == "" && o.Status < 400 || name == "" {
		w.diverge("accepted:"+label, own, "the request had to be refused (%s) but was answered with %s", label, o)
		return false
	}
	found := false
	for _, e := range errs {
		found = found || e == name
	}
	if !found {
		w.diverge("error:"+label, append(own, "C15"), "%s: got error %q, expected one of %q: %s", label, name, errs, o)
		return false
	}
	if o.Location == "" && o.Status != statusOf[name] {
		w.diverge("status:"+label, append(own, "C15", "C18"), "%s: error %q has status %d, expected %d", label, name, o.Status, statusOf[name])
		return false
	}
	if o.Status == 401 {
		if _, ok := parseChallenge(o.Header.Get("Www-Authenticate")); !ok {
			w.diverge("challenge:"+label, ids("C15"), "%s: 401 without a challenge: %s", label, o)
			return false
		}
	}
	return true
}

func label1(op string, why []string) string {
	if len(why) > 1 {
		return op + ": several reasons"
	}
	return op + ": " + why[0]
}

// unexpected reports the refusal of a request without faults.
func (w *World) unexpected(op string, o *Outcome, base []string, c *wcred) {
	own := append([]string(nil), base...)
	switch o.ErrName() {
	case "invalid_client":
		own = append(own, "C03")
	case "access_denied":
		own = append(own, "C04")
	case "invalid_scope", "insufficient_scope":
		own = append(own, "C08")
	case "invalid_request":
		own = append(own, "C17")
	}
	if o.Panic != "" {
		own = append(own, "C15")
	}
	if c != nil {
		own = append(own, w.since(c.good)...)
	}
	w.diverge("refused:"+op, own, "%s: a request without fault was answered with %s", op, o)
}

// fresh notes the credentials of a successful answer and checks that they are
// new.
func (w *World) fresh(str, kind string, own []string) bool {
	if w.byStr[str] != nil {
		w.diverge("reused:"+kind, append(own, "C02"), "a %s was handed out that equals credential %d", kind, w.byStr[str].n)
		return false
	}
	k, s, ok := strings.Cut(str, ".")
	key, err := rawb64.DecodeString(k)
	if !ok || err != nil || len(key) != w.keyLen || str != sign(w.secret, key) {
		w.diverge("malformed:"+kind, ids("C01 C02"), "a %s was handed out that is not a token of the configured key length and secret: %q (signature %q)", kind, str, s)
		return false
	}
	return true
}

// tokens judges a successful token response.
func (w *World) tokens(op string, o *Outcome, own []string, cl, user string, scope []string, root *wcred, refresh bool) bool {
	get := func(k string) string {
		if o.Location != "" {
			return o.LFrag.Get(k)
		}
		if v, ok := o.JSON[k].(float64); ok && v == float64(int64(v)) {
			return fmt.Sprint(int64(v))
		}
		return o.Str(k)
	}
	access := get("access_token")
	if access == "" {
		w.diverge("no access token:"+op, own, "%s: no access token in %s", op, o)
		return false
	}
	if !strings.EqualFold(get("token_type"), "bearer") {
		w.diverge("token type:"+op, append(own, "C18"), "%s: token type %q", op, get("token_type"))
		return false
	}
	if exp := fmt.Sprint(int64(w.lifeA / time.Second)); get("expires_in") != exp {
		w.diverge("expires_in:"+op, ids("C23"), "%s: announced lifetime %q, expected %q", op, get("expires_in"), exp)
		return false
	}
	if got := names(get("scope")); !sameSet(got, scope) {
		w.diverge("scope:"+op, append(ids("C08"), own...), "%s: announced scope %q, expected %q", op, got, scope)
		return false
	}
	if !w.fresh(access, "access token", own) {
		return false
	}
	rt := get("refresh_token")
	if refresh != (rt != "") {
		o2 := own
		if !refresh {
			o2 = ids("C12")
		}
		w.diverge("refresh token:"+op, o2, "%s: refresh token %q", op, rt)
		return false
	}
	w.add("access", access, cl, user, scope, w.lifeA, root, "")
	if rt != "" {
		if !w.fresh(rt, "refresh token", own) {
			return false
		}
		w.add("refresh", rt, cl, user, scope, w.lifeR, root, "")
	}
	return true
}

func sh(s shown) string {
	if s.c != nil {
		return fmt.Sprintf("%s%d", s.c.kind, s.c.n)
	}
	return s.what
}

var kindName = map[string]string{"access": "access_token", "refresh": "refresh_token"}

// life returns the fault of presenting a credential that is not alive as the
// given kind.
func (w *World) life(s shown, kind, own string) *fault {
	inv := ids("invalid_grant invalid_request")
	switch {
	case s.what == "none":
		return &fault{"no " + kind, inv, ids(own)}
	case s.what == "bad":
		return &fault{kind + " was tampered with", inv, ids(own + " C01")}
	case s.what == "stray":
		return &fault{kind + " was never issued", ids("invalid_grant"), ids(own)}
	case s.c.kind != kind:
		return &fault{"a " + s.c.kind + " as " + kind, ids("invalid_grant"), ids(own)}
	}
	more := map[string]string{"revoked": "C10", "replayed": "C06", "spent": "C07", "expired": "C23", "used": "C05 C06"}
	if st := w.state(s.c); st != "live" {
		return &fault{st + " " + kind, ids("invalid_grant"), ids(own + " " + more[st])}
	}
	return nil
}

// ---- operations

type tokenIn struct {
	grant       string
	cl          *wclient
	auth        authIn
	user, pass  string
	userPlace   string // body, query or none
	scope       []string
	scopeSet    bool
	code        shown
	refresh     shown
	redirect    string
	redirectSet bool
	twice       bool
	noise       bool
	broken      bool
}

func (w *World) opToken(grant string) {
	r := w.R
	in := &tokenIn{grant: grant, cl: pick(r, w.clients), userPlace: "none"}
	odd := chance(r, w.p.perturb)
	n := 0
	if odd {
		n = 1
		if chance(r, 0.2) {
			n = 2
		}
	}
	in.broken = chance(r, 0.05)
	in.noise = chance(r, 0.2)
	kinds := []string{"auth"}
	switch grant {
	case "password":
		u := pick(r, w.users)
		in.user, in.pass, in.userPlace = u.name, u.pass, "body"
		in.scope = w.goodScope()
		kinds = append(kinds, "user", "user", "scope")
	case "client_credentials":
		for i := 0; i < 8 && !in.cl.conf; i++ {
			in.cl = pick(r, w.clients)
		}
		in.scope = w.goodScope()
		kinds = append(kinds, "scope", "public")
	case "authorization_code":
		s, ok := w.show("code", odd && chance(r, 0.5))
		if !ok && chance(r, 0.7) {
			w.opAuthorize("code")
			return
		}
		if !ok {
			if s, ok = w.show("code", true); !ok {
				return
			}
		}
		in.code = s
		if s.c != nil {
			in.cl = w.clientAny(s.c.client)
			in.redirect = s.c.redirect
		} else {
			in.redirect = in.cl.redirect
		}
		if in.redirect == "" {
			in.redirect = in.cl.redirect
		}
		in.redirectSet = true
		in.twice = chance(r, 0.5)
		kinds = append(kinds, "client", "client", "redirect", "redirect", "redirect")
		if chance(r, 0.2) {
			in.scope = w.badScope(w.goodScope())
		}
	case "refresh_token":
		s, ok := w.show("refresh", odd && chance(r, 0.5))
		if !ok && chance(r, 0.7) {
			w.opToken("password")
			return
		}
		if !ok {
			if s, ok = w.show("refresh", true); !ok {
				return
			}
		}
		in.refresh = s
		if s.c != nil {
			in.cl = w.clientAny(s.c.client)
			if chance(r, 0.5) {
				in.scope = shuffled(r, some(r, s.c.scope))
			}
		}
		kinds = append(kinds, "client", "client", "scope")
	}
	in.auth = w.goodAuth(in.cl, true)
	for i := 0; i < n; i++ {
		switch pick(r, kinds) {
		case "auth":
			in.auth = w.badAuth(in.cl, in.auth, true)
		case "user":
			u := w.userOf(in.user)
			if u == nil {
				break
			}
			if len(u.oldPass) > 0 && chance(r, 0.3) {
				in.pass = pick(r, u.oldPass)
				break
			}
			switch r.IntN(8) {
			case 7: // other parts that join to the same
				in.user, in.pass = resplit(r, u.name, u.pass)
			case 0:
				in.pass = near(r, u.pass)
			case 1:
				in.user = near(r, u.name)
			case 2:
				in.pass = pick(r, w.users).pass
			case 3:
				in.user = pick(r, w.users).name
			case 4:
				in.userPlace = "query"
			case 5:
				in.user, in.pass = in.cl.id, in.cl.secret
			case 6:
				in.pass = ""
			}
		case "scope":
			if in.refresh.c != nil && chance(r, 0.6) { // allowed by the server but not by the grant
				in.scope = append(append([]string(nil), in.scope...), w.anAllowed())
			} else {
				in.scope = w.badScope(in.scope)
			}
		case "public":
			for _, cl := range shuffled(r, w.clients) {
				if !cl.conf {
					in.cl = cl
					in.auth = w.goodAuth(cl, true)
				}
			}
		case "client":
			in.cl = pick(r, w.clients)
			in.auth = w.goodAuth(in.cl, true)
		case "redirect":
			switch r.IntN(4) {
			case 0:
				in.redirectSet = false
			case 1:
				in.redirect = pick(r, w.clients).redirect
			default:
				in.redirect = nearURI(r, in.redirect)
			}
		}
	}
	in.scopeSet = len(in.scope) > 0 || chance(r, 0.2)
	w.doToken(in)
}

// resplit moves characters between two values that somebody may join.
func resplit(r *rand.Rand, a, b string) (string, string) {
	if i := strings.IndexAny(b, ":;,/ |"); i >= 0 && chance(r, 0.6) {
		sep := string(b[i])
		return a + sep + b[:i], b[i+1:]
	}
	if i := strings.IndexAny(a, ":;,/ |"); i >= 0 && chance(r, 0.6) {
		return a[:i], a[i+1:] + string(a[i]) + b
	}
	if n := len(b); n > 1 && chance(r, 0.5) {
		i := 1 + r.IntN(n-1)
		return a + b[:i], b[i:]
	}
	if n := len(a); n > 1 {
		i := 1 + r.IntN(n-1)
		return a[:i], a[i:] + b
	}
	return a + b, ""
}

func pick2(r interface{ IntN(int) int }, list ...string) string { return list[r.IntN(len(list))] }

// nearURI makes a valid URI that differs slightly from the given one.
func nearURI(r interface{ IntN(int) int }, u string) string {
	p, err := url.Parse(u)
	if err != nil {
		panic(err)
	}
	for {
		var t string
		switch r.IntN(18) {
		case 13: // the same place, spelled differently
			i := strings.LastIndexByte(u, '/') + 1
			if i < len(u) && p.Path != "" {
				t = u[:i] + fmt.Sprintf("%%%02x", u[i]) + u[i+1:]
			}
		case 14:
			if p.Host != "" {
				port := map[string]string{"http": ":80", "https": ":443"}[p.Scheme]
				t = strings.Replace(u, p.Host, pick2(r, p.Host+port, p.Host+".", p.Host+":", strings.Split(p.Host, ":")[0]), 1)
			}
		case 15: // parameters in another order
			if i := strings.IndexByte(u, '?'); i >= 0 {
				l := strings.Split(u[i+1:], "&")
				for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
					l[a], l[b] = l[b], l[a]
				}
				t = u[:i+1] + strings.Join(l, "&")
			}
		case 16:
			t = strings.NewReplacer("%C3", "%c3", "%2F", "%2f", "%3A", "%3a", "+", "%20", "%20", "+").Replace(u)
		case 17:
			if p.User != nil {
				continue
			}
			t = strings.Replace(u, "://", pick2(r, "://user@", "://app.example@", "://app.example:80@", ":///"), 1)
		case 0:
			t = u + "/"
		case 1:
			t = u + "x"
		case 2:
			t = strings.TrimSuffix(u, "/")
		case 3:
			t = u + "?"
		case 4:
			t = u + "&x=1"
		case 5:
			t = strings.ToUpper(u[:1]) + u[1:]
		case 6:
			t = strings.Replace(u, "https:", "http:", 1)
		case 7:
			t = strings.Replace(u, "://", "://evil.", 1)
		case 8:
			t = strings.Replace(u, p.Host, p.Host+".evil.example", 1)
		case 9:
			t = strings.Replace(u, p.Host, strings.ToUpper(p.Host), 1)
		case 10:
			t = strings.Replace(u, "/cb", "/cb/../cb", 1)
		case 11:
			if d, err := url.QueryUnescape(u); err == nil {
				t = d
			}
		case 12:
			if i := strings.IndexByte(u, '?'); i >= 0 {
				t = u[:i]
			} else {
				t = strings.Replace(u, "app", "%61pp", 1)
			}
		}
		if t == "" || t == u || strings.Contains(t, "#") {
			continue
		}
		if x, err := url.ParseRequestURI(t); err == nil && x != nil {
			return t
		}
	}
}

func (w *World) doToken(in *tokenIn) {
	w.tick()
	r := w.R
	q := w.wire("token")
	q.Form.Set("grant_type", in.grant)
	in.auth.apply(q)
	place := map[string]url.Values{"body": q.Form, "query": q.Query, "none": {}}[in.userPlace]
	place.Set("username", in.user)
	place.Set("password", in.pass)
	if in.scopeSet {
		q.Form.Set("scope", w.scopeText(in.scope))
	}
	if in.code.str != "" {
		q.Form.Set("code", in.code.str)
	}
	if in.refresh.str != "" {
		q.Form.Set("refresh_token", in.refresh.str)
	}
	if in.redirectSet {
		v := in.redirect
		if in.twice {
			v = url.QueryEscape(v)
		}
		q.Form.Set("redirect_uri", v)
	}
	if in.noise {
		w.tokenNoise(in, q)
	}
	base := map[string][]string{
		"password": ids("C04"), "client_credentials": ids("C03 C04"), "authorization_code": ids("C05"), "refresh_token": ids("C07"),
	}[in.grant]

	// collect the faults
	var f []fault
	id, f := w.checkAuth(in.auth, true, f)
	authOK := id != ""
	scope := in.scope
	user := ""
	var root *wcred
	replay := false
	switch in.grant {
	case "password":
		user = in.user
		u := w.userOf(in.user)
		if in.userPlace != "body" || u == nil || u.pass != in.pass {
			f = append(f, fault{"wrong owner credentials", ids("access_denied"), ids("C04")})
		}
		if !subset(in.scope, w.allowed) {
			f = append(f, fault{"scope exceeded", ids("invalid_scope"), ids("C08")})
		}
	case "client_credentials":
		if cl := w.clientOf(id); cl != nil && !cl.conf {
			f = append(f, fault{"public client", ids("invalid_client unauthorized_client"), ids("C03")})
		}
		if !subset(in.scope, w.allowed) {
			f = append(f, fault{"scope exceeded", ids("invalid_scope"), ids("C08")})
		}
	case "authorization_code":
		if x := w.life(in.code, "code", "C05"); x != nil {
			f = append(f, *x)
		}
		if c := in.code.c; c != nil && c.kind == "code" {
			if authOK && c.client != id {
				f = append(f, fault{"code of another client", ids("invalid_grant"), ids("C05")})
			}
			if !in.redirectSet || in.redirect != c.redirect {
				f = append(f, fault{"another redirect URI", ids("invalid_grant invalid_request"), ids("C05")})
			}
			replay = authOK && c.dead == "used"
			root, user, scope = c, c.user, c.scope
		}
	case "refresh_token":
		if x := w.life(in.refresh, "refresh", "C07"); x != nil {
			f = append(f, *x)
		}
		if c := in.refresh.c; c != nil && c.kind == "refresh" {
			if authOK && c.client != id {
				f = append(f, fault{"refresh token of another client", ids("invalid_grant"), ids("C07")})
			}
			if !subset(in.scope, c.scope) {
				f = append(f, fault{"scope exceeds the grant", ids("invalid_scope"), ids("C08")})
			}
			root, user = c.root, c.user
			if len(in.scope) == 0 {
				scope = c.scope
			}
		}
	}
	what := in.grant
	switch in.grant {
	case "authorization_code":
		what += "(" + sh(in.code) + ")"
	case "refresh_token":
		what += "(" + sh(in.refresh) + ")"
	}
	w.logf("#%d   %s as %q", w.step, what, id)
	o := w.send(q, in.broken)
	w.Eval("")
	if len(f) > 0 {
		w.shape = append(w.shape, in.grant[:1]+"!"+f[0].why)
		if w.refused(in.grant, o, f, base) {
			w.event(map[string]string{"authorization_code": "redeem-refused", "refresh_token": "refresh-refused"}[in.grant])
			if o.Location != "" {
				w.diverge("redirect", ids("C12 C15"), "the token endpoint redirected to %s", o.Location)
			}
		}
		if replay {
			w.kill(in.code.c)
		}
		return
	}
	w.shape = append(w.shape, in.grant[:1])
	if o.Panic != "" || o.Status != 200 || o.JSON == nil {
		var c *wcred
		if in.grant == "authorization_code" {
			c = in.code.c
		} else if in.grant == "refresh_token" {
			c = in.refresh.c
		}
		w.unexpected(in.grant, o, base, c)
		return
	}
	switch in.grant {
	case "authorization_code":
		in.code.c.dead = "used"
		w.event("redeem")
	case "refresh_token":
		in.refresh.c.dead = "spent"
		w.event("refresh")
	default:
		w.event("issue")
	}
	if w.tokens(in.grant, o, base, id, user, scope, root, true) {
		w.Count("grants: "+in.grant, 1)
		w.uncached(o)
	}
	_ = r
}

func (w *World) uncached(o *Outcome) {
	if !strings.Contains(o.Header.Get("Cache-Control"), "no-store") || !strings.Contains(o.Header.Get("Pragma"), "no-cache") {
		w.diverge("cacheable", ids("C15 C18"), "the answer can be cached: %s %v", o, o.Header)
	}
}

// kill notes that a used code was presented again.
func (w *World) kill(code *wcred) {
	n := 0
	for _, c := range w.creds {
		if c.root == code && c.dead == "" {
			c.dead = "replayed"
			n++
		}
	}
	w.event("replay")
	w.Count("code replays", 1)
	if n > 0 {
		w.Count("code replays that killed live tokens", 1)
	}
	w.shape = append(w.shape, fmt.Sprintf("R%d", min(n, 6)))
}

// tokenNoise adds parameters that must have no influence.
func (w *World) tokenNoise(in *tokenIn, q *Wire) {
	r := w.R
	set := func(v url.Values, k, s string) {
		if _, ok := v[k]; !ok {
			v.Set(k, s)
		}
	}
	for i := 0; i < 1+r.IntN(3); i++ {
		switch r.IntN(9) {
		case 0:
			set(q.Query, "scope", strings.Join(w.allowed, " "))
		case 1:
			set(q.Query, "client_id", pick(r, w.clients).id)
		case 2:
			set(q.Query, "grant_type", pick(r, []string{"password", "client_credentials", "refresh_token", "authorization_code"}))
		case 3:
			if in.userPlace == "body" {
				u := pick(r, w.users)
				set(q.Query, "username", u.name)
				set(q.Query, "password", u.pass)
			}
		case 4:
			if in.grant != "password" {
				u := pick(r, w.users)
				set(q.Form, "username", u.name)
				set(q.Form, "password", u.pass)
			}
		case 5:
			if in.grant != "authorization_code" {
				set(q.Form, "redirect_uri", pick(r, w.clients).redirect)
				if s, ok := w.show("code", false); ok {
					set(q.Form, "code", s.str)
				}
			}
		case 6:
			if in.grant != "refresh_token" {
				if s, ok := w.show("refresh", false); ok {
					set(q.Form, "refresh_token", s.str)
				}
			}
		case 7:
			set(q.Form, "state", text(r))
			set(q.Form, "response_type", "token")
		case 8:
			set(q.Form, utext(r)+"x", text(r))
			set(q.Query, utext(r)+"x", text(r))
		}
	}
}

type authzIn struct {
	rtype      string
	method     string
	client     string
	redirect   string
	twice      bool
	scope      []string
	state      string
	stateSet   bool
	user, pass string
	userPlace  string
	inQuery    bool
	broken     bool
	malformed  string // why the request is malformed
	dropType   bool
	dropClient bool
	dropURI    bool
	header     string
	mixed      bool // parameters in body and URL
}

func (w *World) opAuthorize(rtype string) {
	r := w.R
	cl := pick(r, w.clients)
	u := pick(r, w.users)
	in := &authzIn{rtype: rtype, method: "POST", client: cl.id, redirect: cl.redirect, twice: chance(r, 0.4), scope: w.goodScope(),
		user: u.name, pass: u.pass, userPlace: "body", inQuery: chance(r, 0.5), mixed: chance(r, 0.15), broken: chance(r, 0.05)}
	if chance(r, 0.7) {
		in.stateSet, in.state = true, text(r)
	}
	if in.stateSet && chance(r, 0.03) {
		in.state = strings.Repeat(in.state+word(r), 1+r.IntN(800))
	}
	if chance(r, 0.12) { // a header must not matter
		in.header = pick(r, []string{basic(cl.id, cl.secret), basic(u.name, u.pass), basic(u.name, ""), "Bearer x", basic("", "")})
		if s, ok := w.show("access", false); ok && chance(r, 0.5) {
			in.header = "Bearer " + s.str
		}
	}
	n := 0
	if chance(r, w.p.perturb) {
		n = 1
		if chance(r, 0.2) {
			n = 2
		}
	}
	for i := 0; i < n; i++ {
		switch r.IntN(10) {
		case 0:
			in.method = pick(r, []string{"GET", "GET", "PUT", "HEAD"})
		case 1:
			in.rtype = pick(r, []string{"id_token", "Token", "code token", "password", "CODE", "token "})
		case 2:
			in.client = pick(r, []string{near(r, cl.id), pick(r, w.users).name, "nobody"})
		case 3:
			in.redirect = nearURI(r, cl.redirect)
		case 4:
			in.redirect = pick(r, append([]*wclient{{redirect: "https://evil.example/cb"}}, w.clients...)).redirect
			if len(cl.oldURIs) > 0 && chance(r, 0.5) {
				in.redirect = pick(r, cl.oldURIs)
			}
		case 5:
			in.scope = w.badScope(in.scope)
		case 6:
			in.pass = near(r, u.pass)
			if len(u.oldPass) > 0 && chance(r, 0.5) {
				in.pass = pick(r, u.oldPass)
			}
		case 7:
			in.user = pick(r, []string{near(r, u.name), pick(r, w.users).name, cl.id})
		case 8:
			in.userPlace = pick(r, []string{"query", "none"})
		case 9:
			switch r.IntN(3) {
			case 0:
				in.dropType = true
			case 1:
				in.dropClient = true
			case 2:
				in.dropURI = true
			}
		}
	}
	w.doAuthorize(in)
}

func (w *World) doAuthorize(in *authzIn) {
	w.tick()
	q := w.wire("authorize")
	q.Method = in.method
	if in.method != "POST" && in.method != "PUT" {
		in.inQuery = true
		q.NoForm = true
	}
	p := q.Form
	if in.inQuery {
		p = q.Query
	}
	if !in.dropType {
		p.Set("response_type", in.rtype)
	}
	if !in.dropClient {
		p.Set("client_id", in.client)
	}
	if !in.dropURI {
		v := in.redirect
		if in.twice {
			v = url.QueryEscape(v)
		}
		p.Set("redirect_uri", v)
	}
	if len(in.scope) > 0 || chance(w.R, 0.2) {
		p.Set("scope", w.scopeText(in.scope))
	}
	if in.stateSet {
		p.Set("state", in.state)
	}
	if in.mixed && in.method == "POST" { // in both places
		from, to := q.Form, q.Query
		if in.inQuery {
			from, to = to, from
		}
		for _, k := range sortedKeys(from) {
			if chance(w.R, 0.4) {
				to[k] = from[k]
				delete(from, k)
			}
		}
	}
	place := map[string]url.Values{"body": q.Form, "query": q.Query, "none": {}}[in.userPlace]
	place.Set("username", in.user)
	place.Set("password", in.pass)
	if in.header != "" {
		q.HasAuth, q.Auth = true, in.header
	}

	// faults that must be answered directly
	var f []fault
	if in.method != "GET" && in.method != "POST" {
		f = append(f, fault{"method " + in.method, ids("invalid_request"), ids("C12 C17")})
	}
	if in.dropType || in.dropClient || in.dropURI {
		f = append(f, fault{"missing parameter", ids("invalid_request"), ids("C12 C17")})
	}
	if !in.dropType && in.rtype != "token" && in.rtype != "code" {
		f = append(f, fault{"unknown response type", ids("invalid_request unsupported_response_type"), ids("C12")})
	}
	cl := w.clientOf(in.client)
	if !in.dropClient && cl == nil {
		f = append(f, fault{"unknown client", ids("invalid_client invalid_request"), ids("C12 C03")})
	}
	if !in.dropURI && cl != nil && cl.redirect != in.redirect {
		f = append(f, fault{"wrong redirect URI", ids("invalid_request"), ids("C12")})
	}
	o := w.send(q, in.broken)
	w.Eval("")
	w.shape = append(w.shape, "A"+in.rtype[:1]+in.method[:1])
	if len(f) > 0 {
		if o.Location != "" {
			w.diverge("redirect:"+f[0].why, ids("C12"), "the request had to be answered directly (%s) but was redirected to %s", f[0].why, o.Location)
			return
		}
		w.refused("authorize", o, f, ids("C12"))
		return
	}
	if in.method == "GET" {
		w.Count("authorization notices", 1)
		if o.Location != "" || o.Issues() || o.Status != 200 {
			w.diverge("get", ids("C12 C15"), "a GET request was answered with %s", o)
		}
		return
	}
	if o.Location == "" || o.Panic != "" {
		w.unexpected("authorize", o, ids("C12 C13"), nil)
		return
	}
	// redirected answers
	frag := in.rtype == "token"
	if !w.redirected(o, cl.redirect, frag, in) {
		return
	}
	var g []fault
	if !subset(in.scope, w.allowed) {
		g = append(g, fault{"scope exceeded", ids("invalid_scope"), ids("C08")})
	}
	u := w.userOf(in.user)
	if in.userPlace != "body" || u == nil || u.pass != in.pass {
		g = append(g, fault{"wrong owner credentials", ids("access_denied"), ids("C04")})
	}
	if len(g) > 0 {
		w.refused("authorize "+in.rtype, o, g, ids("C12"))
		return
	}
	if o.ErrName() != "" && !o.Issues() {
		w.unexpected("authorize "+in.rtype, o, ids("C04"), nil)
		return
	}
	w.event("issue")
	if in.rtype == "token" {
		if w.tokens("implicit", o, ids("C04"), cl.id, in.user, in.scope, nil, false) {
			w.Count("grants: implicit", 1)
		}
		return
	}
	code := o.LQuery["code"]
	if len(code) == 0 {
		w.diverge("no code", ids("C05 C13"), "no code in %s", o.Location)
		return
	}
	if !w.fresh(code[len(code)-1], "code", ids("C05")) {
		return
	}
	w.add("code", code[len(code)-1], cl.id, in.user, in.scope, w.lifeC, nil, cl.redirect)
	w.Count("grants: code", 1)
}

// redirected checks the form of a redirection that answers an authorization
// request.
func (w *World) redirected(o *Outcome, uri string, frag bool, in *authzIn) bool {
	base, query, _, _ := splitLocation(uri)
	if o.Base != base {
		w.diverge("redirect base", ids("C12 C13"), "redirected to %q, registered is %q", o.Location, uri)
		return false
	}
	if o.LBad != "" {
		w.diverge("redirect syntax", ids("C13"), "the location %q is broken: %s", o.Location, o.LBad)
		return false
	}
	if o.Status != 303 {
		w.diverge("redirect status", ids("C13 C15"), "status %d of a redirection", o.Status)
		return false
	}
	if !strings.Contains(o.Header.Get("Cache-Control"), "no-store") || o.Header.Get("Referrer-Policy") != "origin" && o.Header.Get("Referrer-Policy") != "no-referrer" {
		w.diverge("redirect headers", ids("C13 C15"), "headers of a redirection: %v", o.Header)
		return false
	}
	// remove what the registered URI has by itself
	rest := url.Values{}
	for k, l := range o.LQuery {
		rest[k] = append([]string(nil), l...)
	}
	for k, l := range query {
		for _, v := range l {
			found := false
			for i, x := range rest[k] {
				if x == v {
					rest[k] = append(rest[k][:i:i], rest[k][i+1:]...)
					found = true
					break
				}
			}
			if !found {
				w.diverge("redirect query", ids("C12 C13"), "the parameter %q=%q of the redirect URI %q was lost: %q", k, v, uri, o.Location)
				return false
			}
			if len(rest[k]) == 0 {
				delete(rest, k)
			}
		}
	}
	resp := rest
	o.LQuery = rest
	if frag {
		if len(rest) > 0 {
			w.diverge("redirect place", ids("C13"), "unexpected query parameters %v in %q", rest, o.Location)
			return false
		}
		resp = o.LFrag
	} else {
		if len(o.LFrag) > 0 || strings.Contains(o.Location, "#") {
			w.diverge("redirect place", ids("C13"), "unexpected fragment in %q", o.Location)
			return false
		}
	}
	st := resp["state"]
	want := []string(nil)
	if in.stateSet && in.state != "" {
		want = []string{in.state}
	}
	if len(st) != len(want) || len(st) == 1 && st[0] != want[0] {
		w.diverge("state", ids("C13"), "state %q came back as %q in %q", want, st, o.Location)
		return false
	}
	for k, l := range resp {
		ok := false
		for _, n := range []string{"state", "code", "access_token", "token_type", "expires_in", "scope", "refresh_token", "error", "error_description", "error_uri"} {
			ok = ok || n == k
		}
		if !ok || len(l) != 1 {
			w.diverge("redirect parameters", ids("C13"), "unexpected parameter %q=%q in %q", k, l, o.Location)
			return false
		}
	}
	return true
}

// inspectIn is a revocation or introspection request.
type inspectIn struct {
	auth   authIn
	tok    shown
	hint   string
	broken bool
	noAuth bool
}

func (w *World) opInspect(endpoint string) {
	r := w.R
	in := &inspectIn{broken: chance(r, 0.05)}
	odd := chance(r, w.p.perturb)
	kind := pick(r, []string{"access", "refresh"})
	s, ok := w.show(kind, odd && chance(r, 0.6))
	if !ok {
		if s, ok = w.show(kind, true); !ok {
			return
		}
	}
	in.tok = s
	cl := pick(r, w.clients)
	if s.c != nil && chance(r, 0.85) {
		cl = w.clientAny(s.c.client)
	}
	if s.c != nil && s.c.kind == "code" && endpoint == "revoke" && w.state(s.c) == "live" {
		// whether a client can revoke its own code is not specified
		return
	}
	in.auth = w.goodAuth(cl, false)
	in.hint = pick(r, []string{"", "", "access_token", "refresh_token"})
	if odd {
		switch r.IntN(6) {
		case 0, 1:
			in.auth = w.badAuth(cl, in.auth, false)
		case 2:
			in.auth = w.goodAuth(pick(r, w.clients), false)
		case 3:
			in.hint = pick(r, []string{"code", "Access_Token", "authorization_code", "token"})
		case 4:
			in.auth = authIn{bset: true, bid: cl.id, bsec: cl.secret}
		}
	}
	w.doInspect(endpoint, in)
}

func (w *World) doInspect(endpoint string, in *inspectIn) *Outcome {
	w.tick()
	q := w.wire(endpoint)
	in.auth.apply(q)
	q.Form.Set("token", in.tok.str)
	if in.hint != "" {
		q.Form.Set("token_type_hint", in.hint)
	}
	revoke := endpoint == "revoke"
	base := ids("C11")
	if revoke {
		base = ids("C10")
	}
	var f []fault
	if in.hint != "" && in.hint != "access_token" && in.hint != "refresh_token" {
		f = append(f, fault{"unknown hint", ids("unsupported_token_type"), ids("C15")})
	}
	id, f := w.checkAuth(in.auth, false, f)
	either := false
	if in.tok.what == "bad" {
		f = append(f, fault{"token was tampered with", ids("invalid_request"), append(ids("C01"), base...)})
	}
	if c := in.tok.c; c != nil && id != "" && c.client != id && c.kind != "code" {
		switch w.state(c) {
		case "live":
			f = append(f, fault{"token of another client", ids("invalid_client"), base})
		case "expired":
			either = true
		}
	}
	w.logf("#%d   %s(%s) as %q", w.step, endpoint, sh(in.tok), id)
	o := w.send(q, in.broken)
	w.Eval("")
	w.shape = append(w.shape, endpoint[:1])
	if len(f) > 0 {
		if o.JSON != nil && o.JSON["active"] != nil {
			w.diverge("introspected:"+f[0].why, append(ids("C11"), f[0].own...), "the request had to be refused (%s) but was answered with %s", f[0].why, o)
			return o
		}
		w.refused(endpoint, o, f, base)
		if revoke {
			w.event("revoke-refused")
		} else {
			w.event("introspect")
		}
		return o
	}
	if either && o.Status == 401 && o.ErrName() == "invalid_client" {
		return o
	}
	if o.Panic != "" || o.Status != 200 {
		w.unexpected(endpoint, o, base, nil)
		return o
	}
	c := in.tok.c
	if revoke {
		if c != nil && c.client == id && c.kind != "code" {
			if w.state(c) == "live" {
				w.Count("live tokens revoked: "+c.kind, 1)
			}
			if c.dead == "" {
				c.dead = "revoked"
			}
		}
		w.event("revoke")
		return o
	}
	w.event("introspect")
	w.uncached(o)
	w.checkIntrospection(o, c, id)
	return o
}

// checkIntrospection judges a successful introspection.
func (w *World) checkIntrospection(o *Outcome, c *wcred, id string) {
	active, ok := o.JSON["active"].(bool)
	if !ok {
		w.diverge("introspection document", ids("C11 C15"), "not an introspection: %s", o)
		return
	}
	st := "unknown"
	if c != nil && c.kind != "code" {
		st = w.state(c)
		if c.client != id {
			st = "foreign"
		}
	}
	w.Count("introspections of tokens that are "+st, 1)
	if st != "live" {
		if active || len(o.JSON) != 1 {
			more := map[string]string{"revoked": "C10", "replayed": "C06", "spent": "C07", "expired": "C23"}
			w.diverge("introspection of "+st, append(ids("C11"), ids(more[st])...), "a token that is %s was reported as %s", st, o)
		}
		return
	}
	if !active {
		w.diverge("introspection inactive", append(ids("C11"), w.since(c.good)...), "the live credential %s%d was reported as %s", c.kind, c.n, o)
		return
	}
	num := func(k string) int64 { v, _ := o.JSON[k].(float64); return int64(v) }
	switch {
	case o.Str("token_type") != kindName[c.kind]:
		w.diverge("introspection kind", ids("C11"), "the %s token was reported as %s", c.kind, o)
	case !sameSet(names(o.Str("scope")), c.scope):
		w.diverge("introspection scope", ids("C08 C11"), "scope %q was reported as %s", c.scope, o)
	case o.Str("client_id") != c.client:
		w.diverge("introspection client", ids("C04 C11"), "client %q was reported as %s", c.client, o)
	case o.Str("username") != c.user:
		w.diverge("introspection owner", ids("C04 C11"), "owner %q was reported as %s", c.user, o)
	case num("exp") != c.exp.Unix():
		w.diverge("introspection expiry", ids("C11 C23"), "expiry %d was reported as %s", c.exp.Unix(), o)
	default:
		c.good = w.step
	}
}

// access presents a token to the protected resource.
func (w *World) access(s shown, header string, required []string, broken bool) {
	w.tick()
	req := &http.Request{Method: "GET", URL: &url.URL{Path: "/api"}, Header: http.Header{}, Body: http.NoBody, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if r := w.R; chance(r, 0.15) { // nothing but the token matters
		req.Method = pick(r, []string{"POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "OPTIONS", "TRACE"})
		req.URL.Path = pick(r, []string{"/api", "/", "/oauth2/token", "/favicon.ico", "/health", "/.well-known/x", "*"})
		req.RemoteAddr = pick(r, []string{"", "127.0.0.1:1234", "[::1]:1234", "192.0.2.1:80"})
		for _, f := range some(r, [][2]string{{"Origin", "https://app.example"}, {"Access-Control-Request-Method", "GET"}, {"Access-Control-Request-Headers", "authorization"}, {"X-Forwarded-For", "127.0.0.1"}, {"Cookie", "access_token=x"},
			{"X-Http-Method-Override", "OPTIONS"}, {"Upgrade", "websocket"}, {"Connection", "upgrade"}, {"User-Agent", "kube-probe/1.0"}}) {
			req.Header.Set(f[0], f[1])
		}
		if live := w.list("access", func(c *wcred) bool { return w.state(c) == "live" }); len(live) > 0 && chance(r, 0.5) {
			tk := pick(r, live).str
			switch r.IntN(3) {
			case 0:
				req.URL.RawQuery = "access_token=" + tk
			case 1:
				req.Header.Set("Cookie", "access_token="+tk)
			case 2:
				req.Header.Set(pick(r, []string{"X-Access-Token", "X-Authorization", "Proxy-Authorization", "X-Auth-Token"}), "Bearer "+tk)
			}
		}
	} else if chance(r, 0.1) {
		_, around := surroundings(r)
		around(req)
	}
	if header != "" {
		req.Header.Set("Authorization", header)
	}
	rec := NewRecorder()
	rec.Fail = broken
	granted := false
	o := exchange(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		granted = w.srv.Authorize(rw, r, oauth2.Scope(required))
	}), req, rec)
	untouched := rec.Status == 200 && rec.Headers == 0 && rec.Body.Len() == 0 && len(rec.header) == 0
	w.Count("resource requests", 1)
	w.Eval("")

	// faults
	type expect struct {
		err    string
		status int
	}
	var exp []expect
	own := ids("C09")
	why := ""
	switch {
	case header == "":
		exp, why = []expect{{"", 401}}, "no authorization header"
		own = ids("C09 C21")
	case !strings.EqualFold(header[:min(7, len(header))], "bearer ") || len(header) < 8:
		exp, why = []expect{{"invalid_request", 400}}, "not a bearer token"
		own = ids("C09 C21")
	case s.c == nil || s.c.kind != "access":
		exp, why = []expect{{"invalid_token", 401}}, "not an access token ("+sh(s)+")"
	case w.state(s.c) != "live":
		why = w.state(s.c) + " token"
		exp = []expect{{"invalid_token", 401}}
		if !subset(required, s.c.scope) {
			exp = append(exp, expect{"insufficient_scope", 403})
		}
		own = append(own, ids(map[string]string{"revoked": "C10", "replayed": "C06", "expired": "C23"}[w.state(s.c)])...)
	case !subset(required, s.c.scope):
		exp, why = []expect{{"insufficient_scope", 403}}, "scope not included"
		own = ids("C08 C09")
	}
	if why == "" {
		if o.Panic != "" || !granted {
			w.logf("#%d resource %s required=%q => refused %s", w.step, header, required, o)
			o2 := append(ids("C09"), w.since(s.c.good)...)
			if o.ErrName() == "insufficient_scope" {
				o2 = append(o2, "C08")
			}
			if o.Panic != "" {
				o2 = append(o2, "C15")
			}
			w.diverge("resource refused", o2, "the live credential access%d (scope %q) was refused for %q: %s", s.c.n, s.c.scope, required, o)
			return
		}
		if !untouched {
			w.logf("#%d resource %s required=%q => granted %s", w.step, header, required, o)
			w.diverge("resource touched", ids("C09"), "a granted resource request wrote a response: %s", o)
			return
		}
		w.Count("resource grants", 1)
		s.c.good = w.step
		return
	}
	w.Count("resource refusals: "+strings.SplitN(why, " (", 2)[0], 1)
	if granted {
		w.logf("#%d resource %s required=%q => granted", w.step, header, required)
		w.diverge("resource granted: "+why, own, "the resource was opened although: %s (required %q)", why, required)
		return
	}
	ch, ok := parseChallenge(o.Header.Get("Www-Authenticate"))
	match := false
	for _, e := range exp {
		match = match || ch.params["error"] == e.err && o.Status == e.status
	}
	if o.Panic != "" || !ok || !strings.EqualFold(ch.scheme, "bearer") || !match || o.Body != "" || rec.Headers != 1 {
		w.logf("#%d resource %s required=%q => refused %s", w.step, header, required, o)
		o2 := append(append([]string(nil), own...), "C09")
		if o.Panic != "" {
			o2 = append(o2, "C15")
		}
		w.diverge("resource refusal: "+why, o2, "a refusal (%s) was answered with %s, expected %v", why, o, exp)
	}
}

func (w *World) opResource() {
	r := w.R
	odd := chance(r, w.p.perturb)
	s, ok := w.show("access", odd && chance(r, 0.5))
	if !ok {
		if s, ok = w.show("access", true); !ok {
			return
		}
	}
	header := pick(r, []string{"Bearer ", "bearer ", "BEARER ", "BeArEr "}) + s.str
	required := []string{}
	if s.c != nil {
		required = shuffled(r, some(r, s.c.scope))
		for len(required) > 0 && chance(r, 0.2) {
			required = append(required, pick(r, required))
		}
	}
	if odd {
		switch r.IntN(6) {
		case 0: // one name more
			i := r.IntN(len(required) + 1)
			required = append(required[:i:i], append([]string{pick(r, scopePool)}, required[i:]...)...)
		case 2: // mostly missing names
			required = shuffled(r, append(shuffled(r, scopePool)[:1+r.IntN(4)], required...))
		case 3: // a name that is almost granted
			i := r.IntN(len(required) + 1)
			x := append([]string{}, required...)
			if i < len(x) {
				x[i] = pick(r, []string{x[i] + "x", x[i] + ":read", strings.ToUpper(x[i]), "x" + x[i], strings.Split(x[i], ":")[0]})
				required = x
			}
		case 1:
			header = pick(r, []string{"", "Basic " + s.str, "Bearer", "Bearer ", "Bearer" + s.str, "Token " + s.str, s.str})
		}
	}
	if strings.HasPrefix(strings.ToLower(header), "bearer ") && len(header) > 7 && header[7:] != s.str {
		return
	}
	w.access(s, header, required, chance(r, 0.03))
	w.event("probe")
	w.shape = append(w.shape, "P")
}

// probe checks every credential without changing anything.
func (w *World) probe() {
	for _, c := range w.creds {
		if w.dead {
			return
		}
		s := shown{c.str, c, "cred"}
		w.access(s, "Bearer "+c.str, c.scope, false)
		if c.kind == "code" || w.dead {
			continue
		}
		cl := w.clientAny(c.client)
		w.doInspect("introspect", &inspectIn{auth: authIn{hset: true, hid: cl.id, hsec: cl.secret}, tok: s})
	}
}

// settle presents every code and refresh token a last time, which shows the
// state in which they are.
func (w *World) settle() {
	l := w.list("", func(c *wcred) bool { return c.kind != "access" })
	// replays come last as they kill families
	sort.SliceStable(l, func(i, j int) bool { return l[i].dead != "used" && l[j].dead == "used" })
	used := 0
	for _, c := range l {
		if w.dead {
			return
		}
		if c.dead == "used" {
			if used++; used > 600 { // every replay looks at all tokens
				continue
			}
		}
		w.step++
		cl := w.clientAny(c.client)
		in := &tokenIn{cl: cl, auth: authIn{hset: true, hid: cl.id, hsec: cl.secret}, userPlace: "none"}
		if c.kind == "code" {
			in.grant, in.code, in.redirect, in.redirectSet = "authorization_code", shown{c.str, c, "cred"}, c.redirect, true
		} else {
			in.grant, in.refresh = "refresh_token", shown{c.str, c, "cred"}
		}
		w.doToken(in)
	}
	if !w.dead {
		w.step++
		w.probe()
	}
}

// run plays one random history.
func (w *World) run(steps int) {
	total := 0
	for _, n := range w.p.ops {
		total += n
	}
	keys := sortedKeys(w.p.ops)
	for i := 0; i < steps && !w.dead; i++ {
		w.step++
		n := w.R.IntN(total)
		for _, k := range keys {
			if n -= w.p.ops[k]; n < 0 {
				w.op(k)
				break
			}
		}
		if !w.dead && chance(w.R, w.p.probe) {
			w.probe()
		}
	}
	if !w.dead {
		w.restore()
		w.settle()
	}
	w.Count("histories", 1)
	w.Eval(strings.Join(w.shape, " "))
}

func (w *World) op(k string) {
	switch k {
	case "password", "client_credentials", "authorization_code", "refresh_token":
		w.opToken(k)
	case "token", "code":
		w.opAuthorize(k)
	case "revoke", "introspect":
		w.opInspect(k)
	case "resource":
		w.opResource()
	case "time":
		w.advance()
	case "replay":
		w.opReplay()
	case "sweep":
		w.opSweep()
	case "storm":
		w.opStorm()
	case "admin":
		w.opAdmin()
	}
}

// register makes the server know a client as it is in the model.
func (w *World) register(cl *wclient) {
	w.srv.Mutex.Lock()
	defer w.srv.Mutex.Unlock()
	if cl.gone {
		delete(w.srv.Clients, cl.id)
		return
	}
	if e := w.srv.Clients[cl.id]; e != nil && chance(w.R, 0.5) {
		e.Secret, e.RedirectURI, e.Confidential = cl.secret, cl.redirect, cl.conf
		return
	}
	w.srv.Clients[cl.id] = &oauth2.ServerEntity{Secret: cl.secret, RedirectURI: cl.redirect, Confidential: cl.conf}
}

func (w *World) registerUser(u *wuser) {
	w.srv.Mutex.Lock()
	defer w.srv.Mutex.Unlock()
	if u.gone {
		delete(w.srv.Users, u.name)
		return
	}
	if e := w.srv.Users[u.name]; e != nil && chance(w.R, 0.5) {
		e.Secret = u.pass
		return
	}
	w.srv.Users[u.name] = &oauth2.ServerEntity{Secret: u.pass}
}

// restore brings back what was removed.
func (w *World) restore() {
	for _, cl := range w.clients {
		if cl.gone {
			cl.gone = false
			w.register(cl)
			w.logf("#%d client %q is back", w.step, cl.id)
		}
	}
	for _, u := range w.users {
		if u.gone {
			u.gone = false
			w.registerUser(u)
			w.logf("#%d user %q is back", w.step, u.name)
		}
	}
}

// opAdmin changes clients and users the way an operator does.
func (w *World) opAdmin() {
	r := w.R
	w.shape = append(w.shape, "M")
	if chance(r, 0.2) {
		w.opSeed()
		return
	}
	if chance(r, 0.4) {
		u := pick(r, w.users)
		switch {
		case u.gone:
			u.gone = false
			if chance(r, 0.5) {
				u.oldPass, u.pass = append(u.oldPass, u.pass), "p"+word(r)
			}
		case chance(r, 0.3):
			u.gone = true
			w.Count("users removed", 1)
		default:
			u.oldPass, u.pass = append(u.oldPass, u.pass), pick(r, []string{"p" + word(r), near(r, u.pass) + "x", pick(r, w.clients).secret + "q"})
			w.Count("passwords changed", 1)
		}
		w.registerUser(u)
		w.logf("#%d admin: user %q pass=%q gone=%v", w.step, u.name, u.pass, u.gone)
		return
	}
	cl := pick(r, w.clients)
	k := r.IntN(5)
	if cl.gone {
		cl.gone = false
		if chance(r, 0.6) {
			k = 4
		}
	}
	switch k {
	case 0:
		left := 0
		for _, x := range w.clients {
			if !x.gone {
				left++
			}
		}
		if left > 1 {
			cl.gone = true
			w.Count("clients removed", 1)
		}
	case 1, 2:
		cl.oldSecrets, cl.secret = append(cl.oldSecrets, cl.secret), pick(r, []string{"s" + word(r), near(r, cl.secret) + "x", pick(r, w.clients).secret + "q"})
		w.Count("secrets rotated", 1)
	case 3:
		cl.oldURIs, cl.redirect = append(cl.oldURIs, cl.redirect), pick(r, redirects)
		w.Count("redirect URIs changed", 1)
	case 4:
		cl.conf = !cl.conf
		if cl.secret == "" {
			cl.secret = "s" + word(r)
		}
		w.Count("confidentiality changed", 1)
	}
	w.register(cl)
	w.logf("#%d admin: client %q secret=%q conf=%v redirect=%q gone=%v", w.step, cl.id, cl.secret, cl.conf, cl.redirect, cl.gone)
}

// opReplay presents a used code again.
func (w *World) opReplay() {
	l := w.list("code", func(c *wcred) bool { return c.dead == "used" })
	if len(l) == 0 {
		w.opToken("authorization_code")
		return
	}
	c := pick(w.R, l)
	cl := w.clientAny(c.client)
	if chance(w.R, 0.3) {
		cl = pick(w.R, w.clients)
	}
	in := &tokenIn{grant: "authorization_code", cl: cl, auth: w.goodAuth(cl, true), userPlace: "none", code: shown{c.str, c, "cred"},
		redirect: c.redirect, redirectSet: !chance(w.R, 0.15), broken: chance(w.R, 0.05)}
	if chance(w.R, 0.15) {
		in.redirect = nearURI(w.R, c.redirect)
	}
	if chance(w.R, 0.15) {
		in.auth = w.badAuth(cl, in.auth, true)
	}
	w.doToken(in)
}

// opSweep refreshes or revokes several credentials in a row.
func (w *World) opSweep() {
	for i := 0; i < 4 && !w.dead; i++ {
		w.opToken("refresh_token")
		w.step++
	}
}

// opStorm does the same thing many times in a row, which reaches the limits of
// bounded memories.
func (w *World) opStorm() {
	r := w.R
	n := pick(r, []int{9, 17, 33, 65, 130})
	if !chance(r, 0.25) {
		n = 5
	}
	kind := pick(r, []string{"revoke", "revoke", "refresh", "refresh", "redeem", "issue", "replay", "guess", "guess"})
	victim, target := pick(r, w.clients), pick(r, w.users)
	guess := r.IntN(5)
	w.Count("storms: "+kind, 1)
	w.shape = append(w.shape, fmt.Sprintf("S%s%d", kind, n))
	var last *wcred
	for i := 0; i < n && !w.dead; i++ {
		w.step++
		cl := pick(r, w.clients)
		u := pick(r, w.users)
		if cl.gone || u.gone {
			continue
		}
		auth := func(c *wclient) authIn { return authIn{hset: true, hid: c.id, hsec: c.secret} }
		issue := func() *wcred {
			k := len(w.creds)
			w.doToken(&tokenIn{grant: "password", cl: cl, auth: auth(cl), user: u.name, pass: u.pass, userPlace: "body", scope: w.goodScope(), scopeSet: true})
			if w.dead || len(w.creds) == k {
				return nil
			}
			return w.creds[k+r.IntN(len(w.creds)-k)]
		}
		code := func() *wcred {
			k := len(w.creds)
			w.doAuthorize(&authzIn{rtype: "code", method: "POST", client: cl.id, redirect: cl.redirect, scope: w.goodScope(), user: u.name, pass: u.pass, userPlace: "body"})
			if w.dead || len(w.creds) == k {
				return nil
			}
			c := w.creds[k]
			w.doToken(&tokenIn{grant: "authorization_code", cl: cl, auth: auth(cl), userPlace: "none", code: shown{c.str, c, "cred"}, redirect: c.redirect, redirectSet: true})
			return c
		}
		switch kind {
		case "guess": // wrong guesses must not lock anybody out
			if victim.gone || target.gone {
				return
			}
			wrong := i < n-1
			sec, pass := victim.secret, target.pass
			if wrong {
				sec, pass = near(r, sec), near(r, pass)
			}
			a := authIn{hset: true, hid: victim.id, hsec: victim.secret}
			switch guess {
			case 0:
				a.hsec = sec
				w.doToken(&tokenIn{grant: "password", cl: victim, auth: a, user: target.name, pass: target.pass, userPlace: "body"})
			case 1:
				w.doToken(&tokenIn{grant: "password", cl: victim, auth: a, user: target.name, pass: pass, userPlace: "body"})
			case 2:
				w.doAuthorize(&authzIn{rtype: pick(r, []string{"code", "token"}), method: "POST", client: victim.id, redirect: victim.redirect, user: target.name, pass: pass, userPlace: "body"})
			case 3:
				if c := w.live("refresh"); c != nil {
					a.hid, a.hsec = c.client, w.clientAny(c.client).secret
					s := shown{c.str, c, "cred"}
					if wrong {
						a = w.badAuth(w.clientAny(c.client), a, true)
					}
					w.doToken(&tokenIn{grant: "refresh_token", cl: victim, auth: a, userPlace: "none", refresh: s})
				}
			case 4:
				if c := w.live("access"); c != nil {
					s := shown{c.str, c, "cred"}
					if wrong {
						s = shown{tamper(r, c.str), nil, "bad"}
					}
					w.access(s, "Bearer "+s.str, nil, false)
				}
			}
		case "issue":
			issue()
		case "revoke":
			if c := issue(); c != nil {
				w.doInspect("revoke", &inspectIn{auth: auth(cl), tok: shown{c.str, c, "cred"}, hint: pick(r, []string{"", "access_token", "refresh_token"})})
			}
		case "redeem":
			code()
		case "replay":
			if c := code(); c != nil && !w.dead {
				w.doToken(&tokenIn{grant: "authorization_code", cl: cl, auth: auth(cl), userPlace: "none", code: shown{c.str, c, "cred"}, redirect: c.redirect, redirectSet: true})
			}
		case "refresh":
			if last == nil || last.kind != "refresh" || w.state(last) != "live" {
				if i%2 == 0 {
					if c := code(); c == nil || c.dead != "used" {
						continue
					}
				} else if issue() == nil {
					continue
				}
				last = w.creds[len(w.creds)-1]
			}
			k := len(w.creds)
			o := w.clientAny(last.client)
			if o.gone {
				continue
			}
			w.doToken(&tokenIn{grant: "refresh_token", cl: o, auth: auth(o), userPlace: "none", refresh: shown{last.str, last, "cred"}})
			if len(w.creds) > k {
				last = w.creds[len(w.creds)-1]
			}
		}
	}
	if !w.dead {
		w.step++
		w.probe()
	}
}

// live is the youngest live credential of a kind, or nil.
func (w *World) live(kind string) *wcred {
	l := w.list(kind, func(c *wcred) bool { return w.state(c) == "live" })
	if len(l) == 0 {
		return nil
	}
	return l[len(l)-1]
}

// opSeed places a credential into the public registries of the server, as an
// operator does who restores them.
func (w *World) opSeed() {
	r := w.R
	cl, u := pick(r, w.clients), pick(r, w.users)
	tk := oauth2.HS256TokenFromKey(w.secret, rbytes(r, pick(r, []int{1, 8, 16, 20, 64})))
	if w.byStr[tk.String()] != nil {
		return
	}
	life := pick(r, []time.Duration{-time.Second, 1500 * time.Millisecond, time.Minute, time.Hour, 400 * 24 * time.Hour})
	user := pick(r, []string{u.name, "", "somebody else"})
	scope := shuffled(r, some(r, scopePool))
	kind := pick(r, []string{"access", "refresh", "code"})
	if kind != "access" {
		scope = w.goodScope()
	}
	e := &oauth2.ServerCredential{ClientID: cl.id, Username: user, ExpiresAt: time.Now().Add(life), Scope: oauth2.Scope(append([]string(nil), scope...))}
	redirect := ""
	w.srv.Mutex.Lock()
	switch kind {
	case "access":
		w.srv.AccessTokens[tk.SignatureString()] = e
	case "refresh":
		w.srv.RefreshTokens[tk.SignatureString()] = e
	case "code":
		redirect = cl.redirect
		e.RedirectURI = redirect
		w.srv.AuthorizationCodes[tk.SignatureString()] = e
	}
	w.srv.Mutex.Unlock()
	c := w.add(kind, tk.String(), cl.id, user, scope, life, nil, redirect)
	w.Count("credentials placed by an operator", 1)
	w.logf("#%d admin: %s%d %s of %q and %q with scope %q for %v", w.step, kind, c.n, c.str, cl.id, user, scope, life)
}

// crowd lets a large number of things happen, beyond the sizes at which bounded
// registries and memories overflow, and then looks at all of them.
func (w *World) crowd(kind string, n int) {
	r := w.R
	w.shape = append(w.shape, fmt.Sprintf("crowd %s %d", kind, n))
	w.Count("crowds: "+kind, 1)
	w.logf("a crowd of %d: %s", n, kind)
	auth := func(c *wclient) authIn { return authIn{hset: true, hid: c.id, hsec: c.secret} }
	code := func(cl *wclient, u *wuser) *wcred {
		k := len(w.creds)
		w.doAuthorize(&authzIn{rtype: "code", method: "POST", client: cl.id, redirect: cl.redirect, scope: w.goodScope(), user: u.name, pass: u.pass, userPlace: "body"})
		if w.dead || len(w.creds) == k {
			return nil
		}
		return w.creds[k]
	}
	redeem := func(c *wcred) {
		cl := w.clientAny(c.client)
		w.doToken(&tokenIn{grant: "authorization_code", cl: cl, auth: auth(cl), userPlace: "none", code: shown{c.str, c, "cred"}, redirect: c.redirect, redirectSet: true})
	}
	var first, last *wcred
	for i := 0; i < n && !w.dead; i++ {
		w.step++
		cl, u := pick(r, w.clients), pick(r, w.users)
		switch kind {
		case "issue":
			w.doToken(&tokenIn{grant: "password", cl: cl, auth: auth(cl), user: u.name, pass: u.pass, userPlace: "body", scope: w.goodScope(), scopeSet: true})
		case "codes":
			code(cl, u)
		case "redeem", "revoke":
			k := len(w.creds)
			if kind == "revoke" && i%2 == 0 {
				w.doToken(&tokenIn{grant: "password", cl: cl, auth: auth(cl), user: u.name, pass: u.pass, userPlace: "body", scope: w.goodScope(), scopeSet: true})
				if len(w.creds) > k {
					c := w.creds[k+r.IntN(len(w.creds)-k)]
					w.doInspect("revoke", &inspectIn{auth: auth(cl), tok: shown{c.str, c, "cred"}})
				}
				continue
			}
			if c := code(cl, u); c != nil {
				redeem(c)
				if kind == "revoke" && len(w.creds) > k+1 && chance(r, 0.9) {
					c = w.creds[k+1+r.IntN(len(w.creds)-k-1)]
					w.doInspect("revoke", &inspectIn{auth: auth(cl), tok: shown{c.str, c, "cred"}})
				}
			}
		case "chain":
			if last == nil {
				if first = code(cl, u); first == nil {
					return
				}
				redeem(first)
			} else {
				cl = w.clientAny(last.client)
				w.doToken(&tokenIn{grant: "refresh_token", cl: cl, auth: auth(cl), userPlace: "none", refresh: shown{last.str, last, "cred"}})
			}
			if last = w.creds[len(w.creds)-1]; last.kind != "refresh" {
				return
			}
		}
	}
	if w.dead {
		return
	}
	if !w.dead {
		w.step++
		w.probe()
	}
	if kind == "chain" && !w.dead {
		w.step++
		redeem(first)
	}
	if !w.dead && len(w.creds) < 15000 {
		w.settle()
	}
	w.Eval(strings.Join(w.shape, " "))
}
