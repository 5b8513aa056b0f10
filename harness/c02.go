package harness

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"testing"

	"a.verif/harness/entropy"
	"github.com/256dpi/oauth2/v2"
)

// tape is a random source that remembers what was drawn from it and can
// fragment reads and fail.
type tape struct {
	mu     sync.Mutex
	r      *rand.Rand
	drawn  []byte
	reads  int
	frag   int // longest read, 0 for whole reads
	zero   int // reads in a row that yield nothing
	failAt int // byte position at which the source fails, -1 for never
	err    error
	heals  bool // fails only once
	fails  int
	yield  bool
}

func (t *tape) Read(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.reads++
	if t.yield {
		t.mu.Unlock()
		runtime.Gosched()
		t.mu.Lock()
	}
	if len(p) == 0 {
		return 0, nil
	}
	if t.frag > 0 && t.zero > 0 && t.reads%3 == 0 {
		return 0, nil
	}
	n := len(p)
	if t.frag > 0 {
		n = min(n, 1+t.r.IntN(t.frag))
	}
	if t.failAt >= 0 {
		left := t.failAt - len(t.drawn)
		if left <= 0 {
			t.fails++
			if t.heals {
				t.failAt = -1
			}
			return 0, t.err
		}
		n = min(n, left)
	}
	for i := 0; i < n; i++ {
		p[i] = byte(t.r.Uint32())
	}
	t.drawn = append(t.drawn, p[:n]...)
	return n, nil
}

func newTape(c *Case) *tape {
	return &tape{r: rand.New(rand.NewPCG(c.R.Uint64(), c.R.Uint64())), failAt: -1, err: errors.New("entropy source failed")}
}

// with runs a function while the package draws from the given source.
func (t *tape) with(f func()) {
	prev := entropy.Swap(t)
	defer entropy.Swap(prev)
	f()
}

// generate calls one of the generators.
func generate(kind int, secret []byte, n int) (tk *oauth2.HS256Token, err error, panicked bool) {
	defer func() {
		if p := recover(); p != nil {
			tk, panicked = nil, true
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	switch kind {
	case 0:
		tk, err = oauth2.GenerateHS256Token(secret, n)
	case 1:
		tk = oauth2.MustGenerateHS256Token(secret, n)
	case 2:
		tk = oauth2.ServerConfig{Secret: secret, KeyLength: n}.MustGenerate()
	}
	return
}

// spans finds where keys were drawn from a tape.
type spans struct {
	tape []byte
	at   map[uint64]int
}

func newSpans(tape []byte) *spans {
	s := &spans{tape: tape, at: map[uint64]int{}}
	for i := 0; i+8 <= len(tape); i++ {
		s.at[binary.LittleEndian.Uint64(tape[i:])] = i
	}
	return s
}

func (s *spans) find(key []byte) int {
	if len(key) < 8 {
		return -1
	}
	i, ok := s.at[binary.LittleEndian.Uint64(key)]
	if !ok || i+len(key) > len(s.tape) || string(s.tape[i:i+len(key)]) != string(key) {
		return -1
	}
	return i
}

func init() {
	checks["C02"] = func(t *testing.T, r *Run) {
		r.Rule("token generation from a recorded random source that fragments its reads, yields and fails at every byte position, alone, from many goroutines and inside of server requests; every key has to be an own, complete stretch of the drawn bytes; distinct by generator, lengths, fragmentation and fault")
		r.Serial("sequential", r.N(3000, 60000), func(c *Case) {
			rr := c.R
			tp := newTape(c)
			tp.frag = pick(rr, []int{0, 1, 2, 3, 7, 15, 31})
			tp.zero = rr.IntN(2)
			secret := rbytes(rr, rr.IntN(40))
			kind := rr.IntN(3)
			var desc []string
			tp.with(func() {
				end := 0
				for i := 0; i < 8; i++ {
					n := pick(rr, []int{1, 8, 15, 16, 16, 17, 32, 33, 64, 100, 1000, 0, pick(rr, []int{2, 128, 4095, 5000, 70000})})
					tk, err, _ := generate(kind, secret, n)
					if err != nil || tk == nil {
						c.Failf("no token", "generator %d failed for length %d from a working source: %v", kind, n, err)
						return
					}
					if len(tk.Key) != n {
						c.Failf("length", "generator %d returned a key of %d instead of %d bytes (longest read %d)", kind, len(tk.Key), n, tp.frag)
						return
					}
					pos := -1
					for p := end; p+n <= len(tp.drawn); p++ {
						if string(tp.drawn[p:p+n]) == string(tk.Key) {
							pos = p
							break
						}
					}
					if pos < 0 {
						c.Violate("not fresh", map[string]any{"what": fmt.Sprintf("generator %d returned key %x, which is not a stretch of the bytes %x that were drawn since the last token (longest read %d)", kind, tk.Key, tp.drawn[min(end, len(tp.drawn)):], tp.frag)})
						return
					}
					end = pos + n
					if string(tk.Signature) != string(mac(secret, tk.Key)) {
						c.Failf("signature", "generated token %x.%x has a wrong signature", tk.Key, tk.Signature)
						return
					}
					c.Count("keys traced to drawn bytes", 1)
					desc = append(desc, fmt.Sprint(n))
				}
			})
			c.Eval(fmt.Sprint("seq", kind, tp.frag, tp.zero, desc))
			if c.wantSample() {
				c.Sample(map[string]any{"generator": kind, "longest read": tp.frag, "lengths": desc, "drawn": len(tp.drawn)})
			}
		})
		r.Serial("faults", r.N(4000, 40000), func(c *Case) {
			rr := c.R
			n := pick(rr, []int{1, 8, 16, 17, 32, 64})
			kind := c.Index % 3
			secret := rbytes(rr, 16)
			tp := newTape(c)
			tp.frag = pick(rr, []int{0, 1, 5})
			tp.err = pick(rr, []error{io.EOF, io.ErrUnexpectedEOF, errors.New("broken"), io.ErrClosedPipe, io.ErrNoProgress})
			tp.failAt = (c.Index / 3) % n
			before := rr.IntN(3)
			tp.failAt += before * n
			tp.heals = chance(rr, 0.5)
			tp.with(func() {
				for i := 0; i < before; i++ {
					if tk, err, _ := generate(kind, secret, n); err != nil || len(tk.Key) != n {
						c.Failf("no token", "generation before the fault failed: %v", err)
						return
					}
				}
				fails := tp.fails
				tk, err, panicked := generate(kind, secret, n)
				if tp.fails == fails {
					if tk != nil { // read ahead: the fault was not met
						c.Count("faults not met", 1)
					}
					return
				}
				if err == nil || tk != nil {
					c.Violate("token without entropy", map[string]any{"what": fmt.Sprintf("generator %d returned a token although the source failed with %q after %d of %d bytes: %x", kind, tp.err, tp.failAt-before*n, n, tk.Key)})
				}
				if (kind != 0) != panicked {
					c.Failf("panic", "generator %d: panicked is %v on a failing source", kind, panicked)
				}
				c.Count("faults met", 1)
				if tp.heals {
					drawn := len(tp.drawn)
					tk, err, _ := generate(kind, secret, n)
					if err != nil || len(tk.Key) != n || !strings.Contains(string(tp.drawn[drawn:]), string(tk.Key)) {
						c.Failf("no recovery", "generator %d does not work after the source recovered: %v %x", kind, err, tk)
					}
				}
			})
			c.Eval(fmt.Sprint("fault", kind, n, tp.failAt, tp.frag, tp.err, tp.heals))
		})
		r.Serial("concurrent", r.N(60, 1500), func(c *Case) {
			rr := c.R
			tp := newTape(c)
			tp.yield = true
			n := pick(rr, []int{8, 16, 17, 32})
			frag := c.Index%3 == 2
			if frag {
				tp.frag = 5
			}
			g, per := 8, 60
			keys := make([][][]byte, g)
			tp.with(func() {
				var wg sync.WaitGroup
				for i := 0; i < g; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for j := 0; j < per; j++ {
							tk, err, _ := generate((i+j)%3, []byte("secret"), n)
							if err != nil || len(tk.Key) != n || string(tk.Signature) != string(mac([]byte("secret"), tk.Key)) {
								c.Failf("concurrent token", "concurrent generation failed: %v %x", err, tk)
								return
							}
							keys[i] = append(keys[i], tk.Key)
						}
					}()
				}
				wg.Wait()
			})
			if frag { // drawn bytes and key bytes must be the same collection
				var got, want [256]int
				total := 0
				for _, l := range keys {
					for _, k := range l {
						total += len(k)
						for _, b := range k {
							got[b]++
						}
					}
				}
				for _, b := range tp.drawn {
					want[b]++
				}
				if total == len(tp.drawn) && got != want || total > len(tp.drawn) {
					c.Failf("concurrent bytes", "keys of %d bytes do not consist of the %d drawn bytes", total, len(tp.drawn))
				}
			} else {
				s := newSpans(tp.drawn)
				used := make([]bool, len(tp.drawn))
				for _, l := range keys {
					for _, k := range l {
						p := s.find(k)
						if p < 0 {
							c.Failf("concurrent not fresh", "key %x was not drawn from the source", k)
							return
						}
						for q := p; q < p+len(k); q++ {
							if used[q] {
								c.Failf("concurrent reuse", "byte %d of the source was used for two tokens, the second is %x", q, k)
								return
							}
							used[q] = true
						}
					}
				}
			}
			c.Count("keys generated concurrently", int64(g*per))
			c.Eval(fmt.Sprint("conc", c.Index))
		})
		r.Serial("real source", r.N(1, 8), func(c *Case) {
			var mu sync.Mutex
			seen := map[string]bool{}
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 4000; i++ {
						tk, err, _ := generate(i%3, []byte("s"), 16)
						if err != nil || len(tk.Key) != 16 {
							c.Failf("real source", "generation failed: %v", err)
							return
						}
						mu.Lock()
						dup := seen[string(tk.Key)] || string(tk.Key[:8]) == string(tk.Key[8:])
						seen[string(tk.Key)] = true
						mu.Unlock()
						if dup {
							c.Failf("real source", "the key %x came twice or repeats itself", tk.Key)
							return
						}
					}
				}()
			}
			wg.Wait()
			// every byte position has to vary
			for p := 0; p < 16; p++ {
				var vals [256]int
				for k := range seen {
					vals[k[p]]++
				}
				for b, n := range vals {
					if n == 0 {
						c.Failf("real source bias", "byte %d never has the value %d in %d keys", p, b, len(seen))
						return
					}
				}
			}
			c.Count("keys from the real source", int64(len(seen)))
			c.Eval("real")
		})
		r.Serial("server", r.N(1500, 30000), func(c *Case) { entropyServer(c) })
		r.Floor("keys traced to drawn bytes", 10000)
		r.Floor("faults met", 1000)
		r.Floor("requests during which the source failed", 500)
	}
}

// entropyServer lets the random source fail during the requests to a server.
func entropyServer(c *Case) {
	rr := c.R
	keyLen := pick(rr, []int{8, 16, 32})
	cfg := oauth2.DefaultServerConfig([]byte("secret"), oauth2.ParseScope("foo bar"))
	cfg.KeyLength = keyLen
	srv := oauth2.NewServer(cfg)
	srv.Clients["c"] = &oauth2.ServerEntity{Secret: "s", RedirectURI: "https://app.example/cb", Confidential: true}
	srv.Users["u"] = &oauth2.ServerEntity{Secret: "p"}
	tp := newTape(c)
	tp.frag = pick(rr, []int{0, 0, 3})
	seen := map[string]bool{}
	ask := func(path string, kv ...string) *Outcome {
		f := url.Values{}
		for i := 0; i < len(kv); i += 2 {
			f.Set(kv[i], kv[i+1])
		}
		q := &Wire{Method: "POST", Path: path, Query: url.Values{}, Form: f, HasAuth: path == "/token", Auth: basic("c", "s")}
		return exchange(srv, q.Request(), NewRecorder())
	}
	var live []string // access tokens
	var refresh, code string
	ops := []string{"password", "client_credentials", "token", "code", "authorization_code", "refresh_token"}
	do := func(op string) *Outcome {
		switch op {
		case "password":
			return ask("/token", "grant_type", op, "username", "u", "password", "p", "scope", "foo")
		case "client_credentials":
			return ask("/token", "grant_type", op, "scope", "foo")
		case "token", "code":
			return ask("/authorize", "response_type", op, "client_id", "c", "redirect_uri", "https://app.example/cb", "username", "u", "password", "p", "scope", "foo")
		case "authorization_code":
			return ask("/token", "grant_type", op, "code", code, "redirect_uri", "https://app.example/cb")
		}
		return ask("/token", "grant_type", op, "refresh_token", refresh)
	}
	take := func(op string, o *Outcome) bool {
		for _, s := range []string{o.Access(), o.Refresh(), o.Code()} {
			if s == "" {
				continue
			}
			k, _, _ := strings.Cut(s, ".")
			key, err := rawb64.DecodeString(k)
			if err != nil || len(key) != keyLen || s != sign([]byte("secret"), key) {
				c.Failf("server token", "%s handed out %q, which is no full token", op, s)
				return false
			}
			if seen[s] || !strings.Contains(string(tp.drawn), string(key)) {
				c.Failf("server token reuse", "%s handed out %q again or from bytes that were not drawn", op, s)
				return false
			}
			seen[s] = true
		}
		if s := o.Access(); s != "" {
			live = append(live, s)
		}
		if s := o.Refresh(); s != "" {
			refresh = s
		}
		if s := o.Code(); s != "" {
			code = s
		}
		return true
	}
	var trace []string
	var last struct {
		op     string
		failed bool
	}
	tp.with(func() {
		for i := 0; i < 10; i++ {
			op := pick(rr, ops)
			if op == "authorization_code" && code == "" {
				op = "code"
			}
			if op == "refresh_token" && refresh == "" {
				op = "password"
			}
			broken := chance(rr, 0.5)
			if broken {
				tp.failAt = len(tp.drawn) + rr.IntN(2*keyLen+1)
				tp.heals = chance(rr, 0.3)
			} else {
				tp.failAt = -1
			}
			fails := tp.fails
			o := do(op)
			met := tp.fails > fails
			trace = append(trace, fmt.Sprintf("%s broken=%v met=%v => %s", op, broken, met, o))
			viol := func(sig, what string) {
				c.Violate(sig, map[string]any{"what": what, "trace": trace})
			}
			if met {
				c.Count("requests during which the source failed", 1)
				if o.Issues() {
					viol("issued without entropy", op+" handed out a credential although the source failed: "+o.String())
					return
				}
				if o.Panic == "" && o.Status < 400 && !(o.Location != "" && o.ErrName() != "") {
					viol("success without entropy", op+" was answered with success although the source failed: "+o.String())
					return
				}
			}
			if !srv.Mutex.TryLock() {
				viol("lock kept", "the mutex of the server is still held after "+op)
				return
			}
			srv.Mutex.Unlock()
			if met { // the credential may or may not have been consumed
				if op == "authorization_code" {
					code = ""
				} else if op == "refresh_token" {
					refresh = ""
				}
			} else {
				if !o.Issues() {
					viol("refused", op+" was not granted from a working source: "+o.String())
					return
				}
				if op == "authorization_code" {
					code = ""
				}
				if !take(op, o) {
					return
				}
			}
			last.op, last.failed = op, met
			// the server has to serve normally once the source works again
			tp.failAt = -1
			for _, op := range []string{"password", "code"} {
				o := do(op)
				if !o.Issues() {
					viol("not recovered", "after "+trace[len(trace)-1]+" a "+op+" grant was answered with "+o.String())
					return
				}
				if !take(op, o) {
					return
				}
			}
			tok := pick(rr, live)
			req := &http.Request{Method: "GET", URL: &url.URL{Path: "/x"}, Header: http.Header{"Authorization": {"Bearer " + tok}}}
			if !srv.Authorize(NewRecorder(), req, oauth2.ParseScope("foo")) {
				viol("resource", "a live token is refused after "+trace[len(trace)-1])
				return
			}
		}
	})
	c.Eval(strings.Join(trace, "\n"))
}
