package harness

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/url"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"

	"a.verif/harness/entropy"
	"github.com/256dpi/oauth2/v2"
)

// dawdle gives other goroutines a chance to run at this point.
func dawdle(mode int) {
	switch mode {
	case 1:
		runtime.Gosched()
	case 2:
		for i := 0; i < 3; i++ {
			runtime.Gosched()
		}
	case 3:
		time.Sleep(time.Duration(rand.IntN(30)) * time.Microsecond)
	}
}

// slowSource delays whoever draws from the random source.
type slowSource struct{ r io.Reader }

func (s slowSource) Read(p []byte) (int, error) {
	dawdle(rand.IntN(4))
	n, err := s.r.Read(p)
	dawdle(rand.IntN(4))
	return n, err
}

// slowBody delays whoever reads it.
type slowBody struct {
	r    io.Reader
	mode int
}

func (s slowBody) Read(p []byte) (int, error) {
	dawdle(s.mode)
	return s.r.Read(p[:min(len(p), 1+rand.IntN(64))])
}

// A family is what descends from one code or one direct grant. The operations on
// it are checked for linearizability by themselves.
type family struct {
	id       int
	site     int
	client   string
	user     string
	scope    string
	redirect string
	code     string

	mu     sync.Mutex
	tokens []string
	kinds  []byte // a or r
	ops    []porcupine.Operation
}

type famOp struct {
	kind string // redeem, refresh, revoke, introspect, resource, grant
	tok  int    // number of the token it is about
}

type famOut struct {
	ok     bool
	access int
	fresh  int
	note   string
}

type famState struct {
	used bool
	live uint64
}

var familyModel = porcupine.Model{
	Init: func() any { return famState{} },
	Step: func(state, input, output any) (bool, any) {
		s, in, out := state.(famState), input.(famOp), output.(famOut)
		bit := uint64(1) << in.tok
		switch in.kind {
		case "grant":
			s.live |= 1<<out.access | 1<<out.fresh
			return out.ok, s
		case "redeem":
			if !s.used {
				s.used = true
				s.live |= 1<<out.access | 1<<out.fresh
				return out.ok, s
			}
			s.live = 0
			return !out.ok, s
		case "refresh":
			if s.live&bit == 0 {
				return !out.ok, s
			}
			s.live = s.live&^bit | 1<<out.access | 1<<out.fresh
			return out.ok, s
		case "revoke":
			s.live &^= bit
			return out.ok, s
		case "introspect", "resource":
			return out.ok == (s.live&bit != 0), s
		}
		return false, s
	},
	Equal: func(a, b any) bool { return a.(famState) == b.(famState) },
	DescribeOperation: func(in, out any) string {
		i, o := in.(famOp), out.(famOut)
		s := i.kind
		if i.kind != "grant" && i.kind != "redeem" {
			s += fmt.Sprintf("(t%d)", i.tok)
		}
		if !o.ok {
			return s + " -> refused"
		}
		if i.kind == "grant" || i.kind == "redeem" || i.kind == "refresh" {
			return s + fmt.Sprintf(" -> t%d, t%d", o.access, o.fresh)
		}
		return s + " -> ok"
	},
}

// arena is one concurrent execution.
type arena struct {
	c        *Case
	srvs     []*oauth2.Server
	clock    atomic.Int64
	mu       sync.Mutex
	families []*family
	mode     int
	failed   atomic.Bool
	overlap  atomic.Int64
	active   atomic.Int64
}

func (a *arena) fail(sig, format string, args ...any) {
	if a.failed.CompareAndSwap(false, true) {
		a.c.Failf(sig, format, args...)
	}
}

// call sends a request and notes when it began and ended.
func (a *arena) call(h http.Handler, path, auth string, form url.Values, header string) (o *Outcome, from, to int64) {
	q := &Wire{Method: "POST", Path: path, Form: form}
	if auth != "" {
		q.HasAuth, q.Auth = true, auth
	}
	req := q.Request()
	req.Body = io.NopCloser(slowBody{req.Body, a.mode})
	if header != "" {
		req.Header.Set("Authorization", header)
	}
	w := NewRecorder()
	w.Yield = func() { dawdle(a.mode) }
	if a.active.Add(1) > 1 {
		a.overlap.Add(1)
	}
	from = a.clock.Add(1)
	o = exchange(h, req, w)
	to = a.clock.Add(1)
	a.active.Add(-1)
	a.c.progress.Add(1)
	if o.Panic != "" {
		a.fail("panic", "%s panicked: %s\n%s", path, o.Panic, o.Stack)
	} else if w.Headers > 1 {
		a.fail("several answers", "%s wrote its header %d times", path, w.Headers)
	}
	return
}

func (f *family) note(worker int, in famOp, out famOut, from, to int64) {
	f.mu.Lock()
	f.ops = append(f.ops, porcupine.Operation{ClientId: worker, Input: in, Call: from, Output: out, Return: to})
	f.mu.Unlock()
}

// learn registers the tokens of an answer.
func (f *family) learn(o *Outcome) (a, r int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.tokens = append(f.tokens, o.Str("access_token"), o.Str("refresh_token"))
	f.kinds = append(f.kinds, 'a', 'r')
	return len(f.tokens) - 2, len(f.tokens) - 1
}

func (f *family) size() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return len(f.tokens)
}

// token picks a token of the family; kind 0 means any.
func (f *family) token(r *rand.Rand, kind byte) (int, string, byte) {
	f.mu.Lock()
	defer f.mu.Unlock()
	var l []int
	for i := range f.tokens {
		if kind == 0 || f.kinds[i] == kind {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return -1, "", 0
	}
	i := pick(r, l)
	if r.IntN(2) == 0 {
		i = l[len(l)-1]
	}
	return i, f.tokens[i], f.kinds[i]
}

const maxFamily = 60

func (a *arena) issued(f *family, o *Outcome, what string) bool {
	if o.Status != 200 || o.Str("access_token") == "" || o.Str("refresh_token") == "" {
		return false
	}
	if !sameSet(names(o.Str("scope")), names(f.scope)) {
		a.fail("mixed: scope", "%s for the scope %q was answered with the scope %q", what, f.scope, o.Str("scope"))
	}
	return true
}

// perform runs one operation on a family.
func (a *arena) perform(worker int, f *family, kind string, tok int, str string) {
	auth := basic(f.client, "s-"+f.client)
	srv := a.srvs[f.site]
	in := famOp{kind, tok}
	bad := func(o *Outcome) {
		a.fail("unexpected: "+kind, "%s of family %d was answered with %s", kind, f.id, o)
	}
	switch kind {
	case "redeem":
		o, from, to := a.call(srv, "/oauth2/token", auth, url.Values{"grant_type": {"authorization_code"}, "code": {f.code}, "redirect_uri": {f.redirect}}, "")
		switch {
		case a.issued(f, o, kind):
			x, y := f.learn(o)
			f.note(worker, in, famOut{ok: true, access: x, fresh: y}, from, to)
		case o.ErrName() == "invalid_grant":
			f.note(worker, in, famOut{}, from, to)
		default:
			bad(o)
		}
	case "refresh":
		o, from, to := a.call(srv, "/oauth2/token", auth, url.Values{"grant_type": {"refresh_token"}, "refresh_token": {str}}, "")
		switch {
		case a.issued(f, o, kind):
			x, y := f.learn(o)
			f.note(worker, in, famOut{ok: true, access: x, fresh: y}, from, to)
		case o.ErrName() == "invalid_grant":
			f.note(worker, in, famOut{}, from, to)
		default:
			bad(o)
		}
	case "revoke":
		o, from, to := a.call(srv, "/oauth2/revoke", auth, url.Values{"token": {str}}, "")
		if o.Status != 200 {
			bad(o)
			return
		}
		f.note(worker, in, famOut{ok: true}, from, to)
	case "introspect":
		o, from, to := a.call(srv, "/oauth2/introspect", auth, url.Values{"token": {str}}, "")
		active, ok := o.JSON["active"].(bool)
		if o.Status != 200 || !ok {
			bad(o)
			return
		}
		if active && (o.Str("username") != f.user || o.Str("client_id") != f.client || !sameSet(names(o.Str("scope")), names(f.scope))) {
			a.fail("mixed: introspection", "a token of %q for %q with scope %q was reported as %s", f.client, f.user, f.scope, o)
		}
		f.note(worker, in, famOut{ok: active}, from, to)
	case "resource":
		granted := false
		o, from, to := a.call(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			granted = srv.Authorize(w, r, oauth2.ParseScope(f.scope))
		}), "/api", "", nil, "Bearer "+str)
		if !granted && o.ErrName() != "invalid_token" {
			bad(o)
			return
		}
		f.note(worker, in, famOut{ok: granted}, from, to)
	}
}

func (a *arena) addFamily(f *family) {
	a.mu.Lock()
	f.id = len(a.families)
	a.families = append(a.families, f)
	a.mu.Unlock()
}

func (a *arena) family(r *rand.Rand) *family {
	a.mu.Lock()
	defer a.mu.Unlock()
	// few families at a time, so that workers meet
	n := len(a.families)
	return a.families[max(0, n-1-r.IntN(3))]
}

// start begins a new family with a request of its own.
func (a *arena) start(worker int, r *rand.Rand) {
	site := r.IntN(len(a.srvs))
	k := r.IntN(4)
	f := &family{site: site, client: fmt.Sprintf("c%d", r.IntN(3)), user: fmt.Sprintf("u%d", k), scope: []string{"s0", "s0 s1", "s1 s2", "s3"}[r.IntN(4)]}
	f.redirect = "https://" + f.client + ".example/cb"
	srv := a.srvs[site]
	if r.IntN(4) == 0 {
		o, from, to := a.call(srv, "/oauth2/token", basic(f.client, "s-"+f.client), url.Values{"grant_type": {"password"}, "username": {f.user}, "password": {"p-" + f.user}, "scope": {f.scope}}, "")
		if !a.issued(f, o, "password") {
			a.fail("unexpected: password", "a password grant was answered with %s", o)
			return
		}
		x, y := f.learn(o)
		f.note(worker, famOp{kind: "grant"}, famOut{ok: true, access: x, fresh: y}, from, to)
		a.addFamily(f)
		return
	}
	state := fmt.Sprintf("state-%d-%d", worker, r.Uint64())
	rt := "code"
	if r.IntN(5) == 0 {
		rt = "token"
	}
	form := url.Values{"client_id": {f.client}, "response_type": {rt}, "redirect_uri": {f.redirect}, "username": {f.user}, "password": {"p-" + f.user}, "scope": {f.scope}, "state": {state}}
	refuse := r.IntN(6) == 0
	if refuse {
		form.Set("password", "wrong")
	}
	o, _, _ := a.call(srv, "/oauth2/authorize", "", form, "")
	got := o.LQuery
	if rt == "token" {
		got = o.LFrag
	}
	if o.Base != f.redirect || got.Get("state") != state {
		a.fail("mixed: authorization", "the authorization request of %q with state %q was answered with %s", f.client, state, o)
		return
	}
	if refuse {
		if o.ErrName() != "access_denied" {
			a.fail("unexpected: authorization", "a wrong password was answered with %s", o)
		}
		return
	}
	if rt == "token" {
		return
	}
	f.code = o.LQuery.Get("code")
	if f.code == "" {
		a.fail("unexpected: authorization", "an authorization request was answered with %s", o)
		return
	}
	a.addFamily(f)
}

func (a *arena) act(worker int, r *rand.Rand) {
	if r.IntN(12) == 0 {
		a.start(worker, r)
		return
	}
	f := a.family(r)
	switch k := r.IntN(16); {
	case k < 3 && f.code != "":
		if f.size() < maxFamily {
			a.perform(worker, f, "redeem", 0, "")
		}
	case k < 7:
		if i, s, _ := f.token(r, 'r'); i >= 0 && f.size() < maxFamily {
			a.perform(worker, f, "refresh", i, s)
		}
	case k < 9:
		if i, s, _ := f.token(r, 0); i >= 0 {
			a.perform(worker, f, "revoke", i, s)
		}
	case k < 12:
		if i, s, _ := f.token(r, 0); i >= 0 {
			a.perform(worker, f, "introspect", i, s)
		}
	default:
		if i, s, _ := f.token(r, 'a'); i >= 0 {
			a.perform(worker, f, "resource", i, s)
		}
	}
}

// herd lets all workers do the same thing to the same family at once.
func (a *arena) herd(r *rand.Rand, workers int) {
	f := &family{}
	for i := 0; f.code == ""; i++ {
		a.start(0, r)
		f = a.family(r)
		if i > 50 || a.failed.Load() {
			return
		}
	}
	var tok int
	var str string
	kind := pick(r, []string{"redeem", "refresh", "mixed", "mixed"})
	if kind != "redeem" {
		a.perform(0, f, "redeem", 0, "")
		if tok, str, _ = f.token(r, 'r'); tok < 0 {
			return
		}
	}
	kinds := make([]string, workers)
	for i := range kinds {
		kinds[i] = kind
		if kind == "mixed" {
			kinds[i] = pick(r, []string{"refresh", "refresh", "revoke", "redeem", "introspect"})
		}
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			a.perform(i, f, kinds[i], tok, str)
		}()
	}
	close(gate)
	wg.Wait()
	a.c.Count("herds: "+kind, 1)
}

// audit reads the registries under the mutex, as users of the server do.
func (a *arena) audit(stop chan struct{}, done *sync.WaitGroup) {
	defer done.Done()
	for {
		select {
		case <-stop:
			return
		default:
		}
		for _, s := range a.srvs {
			s.Mutex.Lock()
			n := 0
			for _, m := range []map[string]*oauth2.ServerCredential{s.AccessTokens, s.RefreshTokens, s.AuthorizationCodes} {
				for _, c := range m {
					if c.Used || c.ClientID != "" || c.ExpiresAt.IsZero() || len(c.Scope) > 0 {
						n++
					}
				}
			}
			for _, e := range s.Clients {
				n += len(e.RedirectURI)
			}
			s.Mutex.Unlock()
			_ = n
		}
		time.Sleep(50 * time.Microsecond)
	}
}

func concurrency(c *Case) {
	r := c.R
	a := &arena{c: c, mode: r.IntN(4)}
	for i := 0; i < 2; i++ {
		s := oauth2.NewServer(oauth2.DefaultServerConfig(rbytes(r, 16), oauth2.Scope{"s0", "s1", "s2", "s3"}))
		for k := 0; k < 4; k++ {
			id := fmt.Sprintf("c%d", k)
			s.Clients[id] = &oauth2.ServerEntity{Secret: "s-" + id, RedirectURI: "https://" + id + ".example/cb", Confidential: true}
			u := fmt.Sprintf("u%d", k)
			s.Users[u] = &oauth2.ServerEntity{Secret: "p-" + u}
		}
		a.srvs = append(a.srvs, s)
	}
	for len(a.families) < 2 && !a.failed.Load() {
		a.start(0, r)
	}
	workers := 2 + r.IntN(7)
	stop := make(chan struct{})
	var aud, wg sync.WaitGroup
	aud.Add(1)
	go a.audit(stop, &aud)
	if r.IntN(3) == 0 {
		for i := 0; i < 6 && !a.failed.Load(); i++ {
			a.herd(r, workers)
		}
	} else {
		steps := 10 + r.IntN(20)
		for w := 0; w < workers; w++ {
			wg.Add(1)
			wr := rand.New(rand.NewPCG(r.Uint64(), uint64(w)))
			go func() {
				defer wg.Done()
				for i := 0; i < steps && !a.failed.Load(); i++ {
					a.act(w, wr)
				}
			}()
		}
		wg.Wait()
	}
	// observe the final state of everything
	for _, f := range a.families {
		for i, s := range f.tokens {
			if a.failed.Load() {
				break
			}
			if f.kinds[i] == 'a' {
				a.perform(0, f, "resource", i, s)
			}
			a.perform(0, f, "introspect", i, s)
		}
	}
	close(stop)
	aud.Wait()
	if a.failed.Load() {
		return
	}
	for _, f := range a.families {
		if len(f.ops) == 0 {
			continue
		}
		res, info := porcupine.CheckOperationsVerbose(familyModel, f.ops, 20*time.Second)
		c.Count("families checked", 1)
		c.Count("operations in checked families", int64(len(f.ops)))
		switch res {
		case porcupine.Unknown:
			c.Count("families too large to decide", 1)
		case porcupine.Illegal:
			longest := 0
			for _, p := range info.PartialLinearizations() {
				for _, l := range p {
					longest = max(longest, len(l))
				}
			}
			sort.Slice(f.ops, func(i, j int) bool { return f.ops[i].Call < f.ops[j].Call })
			var hist []string
			for _, o := range f.ops {
				hist = append(hist, fmt.Sprintf("[%d,%d] worker %d: %s", o.Call, o.Return, o.ClientId, familyModel.DescribeOperation(o.Input, o.Output)))
			}
			c.Violate("not linearizable", map[string]any{"what": fmt.Sprintf("no sequential order explains the %d operations on one family (at most %d of them)", len(f.ops), longest), "operations": hist, "code": f.code != ""})
			return
		}
		// identity of the interleaving
		type ev struct {
			t int64
			s string
		}
		var evs []ev
		for _, o := range f.ops {
			d := familyModel.DescribeOperation(o.Input, o.Output)
			evs = append(evs, ev{o.Call, fmt.Sprintf("(%d:%s", o.ClientId, o.Input.(famOp).kind)}, ev{o.Return, fmt.Sprintf("%d)%s", o.ClientId, d)})
		}
		sort.Slice(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
		var b strings.Builder
		conc := false
		open := 0
		for _, e := range evs {
			b.WriteString(e.s + " ")
			if strings.HasPrefix(e.s, "(") {
				open++
				conc = conc || open > 1
			} else {
				open--
			}
		}
		if conc {
			c.Count("families with overlapping operations", 1)
			c.Eval(b.String())
			if c.wantSample() && len(f.ops) < 30 {
				c.Sample(b.String())
			}
		} else {
			c.Eval("")
		}
		// contention on the same credential
		used := map[string]int{}
		for _, o := range f.ops {
			in, out := o.Input.(famOp), o.Output.(famOut)
			for _, p := range f.ops {
				pin := p.Input.(famOp)
				if pin.kind == in.kind && pin.tok == in.tok && (in.kind == "redeem" || in.kind == "refresh") && out.ok && o.Call < p.Return && p.Call < o.Return && p.Call != o.Call {
					used[in.kind]++
				}
			}
		}
		for k, n := range used {
			c.Count("lost races to "+k+" the same credential", int64(n))
		}
	}
	c.Count("requests that overlapped others", a.overlap.Load())
}

// preload fills the registries with credentials of the past and of others, as
// they are found in a server that has been running for a while.
func preload(srv *oauth2.Server, r *rand.Rand, n int) (expired []string) {
	srv.Mutex.Lock()
	defer srv.Mutex.Unlock()
	for i := 0; i < n; i++ {
		tk := oauth2.HS256TokenFromKey(srv.Config.Secret, rbytes(r, 16))
		e := &oauth2.ServerCredential{ClientID: fmt.Sprintf("c%d", r.IntN(4)), Username: fmt.Sprintf("u%d", r.IntN(4)), Scope: oauth2.Scope{"s0"}, ExpiresAt: time.Now().Add(time.Hour)}
		if i%4 != 0 {
			e.ExpiresAt = time.Now().Add(-time.Duration(1+r.IntN(1000)) * time.Second)
			expired = append(expired, tk.String())
		}
		switch i % 3 {
		case 0:
			srv.AccessTokens[tk.SignatureString()] = e
		case 1:
			srv.RefreshTokens[tk.SignatureString()] = e
		case 2:
			e.RedirectURI, e.Used = "https://"+e.ClientID+".example/cb", r.IntN(2) == 0
			srv.AuthorizationCodes[tk.SignatureString()] = e
		}
	}
	return
}

// rush lets workers use tokens of their own. What they observe must not depend
// on the others at all.
func rush(c *Case) {
	r := c.R
	srv := oauth2.NewServer(oauth2.DefaultServerConfig(rbytes(r, 16), oauth2.Scope{"s0", "s1", "s2", "s3"}))
	for k := 0; k < 4; k++ {
		id := fmt.Sprintf("c%d", k)
		srv.Clients[id] = &oauth2.ServerEntity{Secret: "s-" + id, RedirectURI: "https://" + id + ".example/cb", Confidential: true}
		u := fmt.Sprintf("u%d", k)
		srv.Users[u] = &oauth2.ServerEntity{Secret: "p-" + u}
	}
	a := &arena{c: c, mode: r.IntN(3), srvs: []*oauth2.Server{srv}}
	expired := preload(srv, r, pick(r, []int{0, 20, 100, 300}))
	stop := make(chan struct{})
	var aud, wg sync.WaitGroup
	aud.Add(1)
	go a.audit(stop, &aud)
	var seen sync.Map
	steps := 20 + r.IntN(40)
	for w := 0; w < 4+r.IntN(8); w++ {
		wg.Add(1)
		wr := rand.New(rand.NewPCG(r.Uint64(), uint64(w)))
		go func() {
			defer wg.Done()
			var kept [][2]string
			client, user := fmt.Sprintf("c%d", wr.IntN(4)), fmt.Sprintf("u%d", wr.IntN(4))
			auth := basic(client, "s-"+client)
			uri := "https://" + client + ".example/cb"
			post := func(path string, kv ...string) *Outcome {
				f := url.Values{}
				for i := 0; i < len(kv); i += 2 {
					f.Set(kv[i], kv[i+1])
				}
				o, _, _ := a.call(srv, path, auth, f, "")
				return o
			}
			opens := func(tk, scope string) bool {
				ok := false
				a.call(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					ok = srv.Authorize(w, r, oauth2.ParseScope(scope))
				}), "/api", "", nil, "Bearer "+tk)
				return ok
			}
			expect := func(ok bool, what string, o *Outcome) bool {
				if !ok {
					a.fail("rush: "+what, "worker %d of client %s and owner %s: %s: %s", w, client, user, what, o)
				}
				return ok
			}
			// pair checks an answer with tokens and returns them
			pair := func(o *Outcome, scope, what string) (string, string, bool) {
				at, rt := o.Str("access_token"), o.Str("refresh_token")
				if !expect(o.Status == 200 && at != "" && rt != "" && o.Str("scope") == scope, what, o) {
					return "", "", false
				}
				for _, s := range []string{at, rt} {
					_, dup := seen.LoadOrStore(s, w)
					expect(!dup, "a token that was handed out before", o)
				}
				return at, rt, true
			}
			check := func(tk, scope, kind string, live bool) {
				o := post("/introspect", "token", tk)
				good := o.Status == 200 && o.JSON["active"] == live
				if live {
					good = good && o.Str("scope") == scope && o.Str("username") == user && o.Str("client_id") == client && o.Str("token_type") == kind
				}
				expect(good, fmt.Sprintf("introspection of a token that is live=%v with scope %q", live, scope), o)
				if kind == "access_token" {
					expect(opens(tk, scope) == live, fmt.Sprintf("resource for a token that is live=%v", live), nil)
				}
			}
			for i := 0; i < steps && !a.failed.Load(); i++ {
				scope := pick(wr, []string{"s0", "s1 s2", "s3 s0"})
				var o *Outcome
				code := ""
				if wr.IntN(2) == 0 {
					o = post("/token", "grant_type", "password", "username", user, "password", "p-"+user, "scope", scope)
				} else {
					state := fmt.Sprintf("w%d-%d", w, i)
					o = post("/authorize", "response_type", "code", "client_id", client, "redirect_uri", uri, "scope", scope, "username", user, "password", "p-"+user, "state", state)
					code = o.LQuery.Get("code")
					if !expect(o.Status == 303 && code != "" && o.LQuery.Get("state") == state, "authorization", o) {
						return
					}
					o = post("/token", "grant_type", "authorization_code", "code", code, "redirect_uri", uri)
				}
				at, rt, ok := pair(o, scope, "grant")
				if !ok {
					return
				}
				switch wr.IntN(6) {
				case 0:
					check(at, scope, "access_token", true)
					check(rt, scope, "refresh_token", true)
				case 1:
					at2, _, ok := pair(post("/token", "grant_type", "refresh_token", "refresh_token", rt), scope, "refresh")
					if !ok {
						return
					}
					check(rt, scope, "refresh_token", false)
					check(at2, scope, "access_token", true)
				case 2:
					expect(post("/revoke", "token", at).Status == 200, "revocation", nil)
					check(at, scope, "access_token", false)
				case 3:
					if code != "" {
						o := post("/token", "grant_type", "authorization_code", "code", code, "redirect_uri", uri)
						expect(o.ErrName() == "invalid_grant", "replay", o)
						check(at, scope, "access_token", false)
						check(rt, scope, "refresh_token", false)
					}
				case 4:
					if len(expired) > 0 {
						tk := pick(wr, expired)
						o := post("/token", "grant_type", "refresh_token", "refresh_token", tk)
						expect(o.ErrName() == "invalid_grant" || o.ErrName() == "invalid_request", "expired credential", o)
						expect(!opens(tk, ""), "expired credential at a resource", nil)
					}
				case 5:
					kept = append(kept, [2]string{at, scope})
				}
				c.Count("steps of isolated workers", 1)
			}
			for _, k := range kept {
				if !a.failed.Load() {
					check(k[0], k[1], "access_token", true)
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	aud.Wait()
	if !a.failed.Load() {
		c.Count("requests that overlapped others", a.overlap.Load())
		c.Eval(fmt.Sprintf("rush %d", a.clock.Load()))
	}
}

func init() {
	checks["C14"] = func(t *testing.T, r *Run) {
		prev := entropy.Swap(slowSource{entropy.Swap(nil)})
		_ = prev
		r.Rule("two servers used by 2-8 concurrent workers that start, redeem, replay, refresh, revoke, introspect and use tokens of few shared families, with delays in the random source, request bodies and response writers, while an auditor reads the registries under the mutex; in another phase up to 11 workers use a server with a past, whose registries hold expired and foreign entries, each with credentials of its own, and nobody may notice the others; the call/return history of every family is checked for linearizability (porcupine), all of it under the race detector; distinct by the interleaving of calls and returns, non-trivial if operations overlap")
		r.Cases("concurrency", r.N(3000, 60000), concurrency)
		r.Cases("rush", r.N(60, 1500), rush)
		r.Floor("families with overlapping operations", 200)
		r.Floor("lost races to redeem the same credential", 100)
		r.Floor("lost races to refresh the same credential", 100)
		if n := r.counters["families too large to decide"]; n > r.counters["families checked"]/20 {
			r.Floor("decided families", 1)
		}
	}
}
