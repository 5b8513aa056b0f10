package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/256dpi/oauth2/v2"
)

// The work done to reject a token is observed instruction by instruction: a
// child process runs the code under test on its main thread and is
// single-stepped by the harness. What the runtime does on the side (memory,
// scheduling, maps) is not counted, comparisons of memory are.

const stepEnv = "VERIF_STEP_JOB"

// stepJob is what a child has to do.
type stepJob struct {
	Kind   string
	Secret []byte
	Live   [][]byte // keys of the tokens the server knows
	Tokens []string // presented, all of them wrong
}

func (j *stepJob) server() *oauth2.Server {
	s := oauth2.NewServer(oauth2.DefaultServerConfig(j.Secret, oauth2.Scope{"foo"}))
	s.Clients["client"] = &oauth2.ServerEntity{Secret: "secret", RedirectURI: "http://example.com/cb", Confidential: true}
	for _, k := range j.Live {
		n := oauth2.HS256TokenFromKey(j.Secret, k).SignatureString()
		e := oauth2.ServerCredential{ClientID: "client", ExpiresAt: time.Now().Add(time.Hour), RedirectURI: "http://example.com/cb"}
		a, b, d := e, e, e
		s.AccessTokens[n], s.RefreshTokens[n], s.AuthorizationCodes[n] = &a, &b, &d
	}
	return s
}

// ready prepares the presentation of a token. The call reports whether it was
// rejected.
func (j *stepJob) ready(s *oauth2.Server, str string) func() bool {
	a, b, _ := strings.Cut(str, ".")
	key, _, _ := decodeSegment(a)
	sig, _, _ := decodeSegment(b)
	form := func(path string, v url.Values) func() bool {
		r, _ := http.NewRequest("POST", "http://server"+path, strings.NewReader(v.Encode()))
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		r.Header.Set("Authorization", basic("client", "secret"))
		w := NewRecorder()
		return func() bool {
			s.ServeHTTP(w, r)
			return w.Status != 200 || !bytes.Contains(w.Body.Bytes(), []byte(`true`)) && !bytes.Contains(w.Body.Bytes(), []byte("access_token"))
		}
	}
	switch j.Kind {
	case "parse":
		return func() bool { _, err := oauth2.ParseHS256Token(j.Secret, str); return err != nil }
	case "valid":
		tk := &oauth2.HS256Token{Key: key, Signature: sig}
		return func() bool { return !tk.Valid(j.Secret) }
	case "equal":
		tk := oauth2.HS256TokenFromKey(j.Secret, key)
		return func() bool { return !tk.Equal(sig) }
	case "equal reversed":
		tk := &oauth2.HS256Token{Key: key, Signature: sig}
		right := oauth2.HS256TokenFromKey(j.Secret, key).Signature
		return func() bool { return !tk.Equal(right) }
	case "authorize":
		r, _ := http.NewRequest("GET", "http://server/resource", nil)
		r.Header.Set("Authorization", "Bearer "+str)
		w := NewRecorder()
		return func() bool { return !s.Authorize(w, r, nil) }
	case "introspect":
		return form("/oauth2/introspect", url.Values{"token": {str}})
	case "revoke":
		f := form("/oauth2/revoke", url.Values{"token": {str}})
		return func() bool { f(); return true }
	case "refresh":
		return form("/oauth2/token", url.Values{"grant_type": {"refresh_token"}, "refresh_token": {str}})
	case "redeem":
		return form("/oauth2/token", url.Values{"grant_type": {"authorization_code"}, "code": {str}, "redirect_uri": {"http://example.com/cb"}})
	}
	panic(j.Kind)
}

// A child does its job during initialization, when it owns the main thread, and
// marks begin and end of every measured call with a breakpoint.
func init() {
	if os.Getenv(stepEnv) == "" {
		return
	}
	runtime.LockOSThread()
	var j stepJob
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		fmt.Println("bad job:", err)
		os.Exit(3)
	}
	s := j.server()
	for n := 0; n < 2; n++ {
		for _, str := range j.Tokens {
			if !j.ready(s, str)() {
				os.Exit(4)
			}
		}
	}
	for _, str := range j.Tokens {
		f := j.ready(s, str)
		runtime.Breakpoint()
		f()
		runtime.Breakpoint()
	}
	os.Exit(0)
}

var errAccepted = errors.New("a wrong token was accepted")

// counted decides which functions count.
func counted(name string) bool {
	switch {
	case name == "" || name == "gogo" || name == "gosave_systemstack_switch":
		return false
	case strings.HasPrefix(name, "runtime."):
		return strings.HasPrefix(name, "runtime.memequal") || name == "runtime.strequal" || name == "runtime.cmpstring"
	case strings.HasPrefix(name, "internal/runtime/"), strings.HasPrefix(name, "internal/chacha8rand"), strings.Contains(name, "verif/harness."):
		return false
	}
	return true
}

const (
	traceClone   = 0x8
	traceExit    = 0x100000
	waitOwn      = 0x20000000 | syscall.WALL // only what this thread traces
	stepDeadline = 300 * time.Second
)

var errStuck = errors.New("the call did not end while it was alone")

// steps runs a job and returns the number of instructions that each
// presentation took, and where they were spent. While the main thread is
// stepped all others stand still.
func steps(j *stepJob, progress func()) (counts []int64, where []map[string]int64, err error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	in, _ := json.Marshal(j)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), stepEnv+"=1", "GODEBUG=asyncpreemptoff=1", "GOGC=off", "GOMAXPROCS=1")
	cmd.Stdin = bytes.NewReader(in)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, nil, err
	}
	pid := cmd.Process.Pid
	var late atomic.Bool
	dog := time.AfterFunc(stepDeadline, func() { late.Store(true); syscall.Kill(pid, syscall.SIGKILL) })
	ended := false
	defer func() {
		dog.Stop()
		if !ended {
			syscall.Kill(pid, syscall.SIGKILL)
			for !ended {
				var ws syscall.WaitStatus
				tid, err := syscall.Wait4(-1, &ws, waitOwn, nil)
				ended = err != nil && err != syscall.EINTR || tid == pid && (ws.Exited() || ws.Signaled())
			}
		}
		cmd.Process.Release()
	}()
	trace := func(request, tid int, data uintptr) error {
		if _, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, uintptr(request), uintptr(tid), 0, data, 0, 0); e != 0 {
			return fmt.Errorf("ptrace %d: %w", request, e)
		}
		return nil
	}
	var regs syscall.PtraceRegs
	names := map[uint64]string{}
	threads := map[int]bool{} // the other threads, and whether they run
	frozen, inside, first := false, false, true
	var marker uint64
	for {
		var ws syscall.WaitStatus
		tid, err := syscall.Wait4(-1, &ws, waitOwn, nil)
		if err == syscall.EINTR {
			continue
		} else if err != nil {
			return nil, nil, fmt.Errorf("wait: %w", err)
		}
		if ws.Exited() || ws.Signaled() {
			if tid != pid {
				delete(threads, tid)
				continue
			}
			ended = true
			switch {
			case late.Load():
				return nil, nil, errStuck
			case ws.Exited() && ws.ExitStatus() == 0 && len(counts) == len(j.Tokens):
				return counts, where, nil
			case ws.Exited() && ws.ExitStatus() == 4:
				return nil, nil, errAccepted
			}
			return nil, nil, fmt.Errorf("the child ended with %#x after %d calls: %s", uint32(ws), len(counts), out.String())
		}
		sig := ws.StopSignal()
		if tid != pid {
			_, known := threads[tid]
			threads[tid] = false
			if frozen {
				continue
			}
			if !known || sig == syscall.SIGTRAP || sig == syscall.SIGSTOP {
				sig = 0
			}
			threads[tid] = true
			if err := trace(syscall.PTRACE_CONT, tid, uintptr(sig)); err != nil && !errors.Is(err, syscall.ESRCH) {
				return nil, nil, err
			}
			continue
		}
		switch {
		case sig != syscall.SIGTRAP: // passed on
		case first:
			first, sig = false, 0
			if err := trace(syscall.PTRACE_SETOPTIONS, pid, traceClone|traceExit); err != nil {
				return nil, nil, err
			}
		case ws.TrapCause() > 0: // a new thread
			sig = 0
		default:
			sig = 0
			if err := syscall.PtraceGetRegs(pid, &regs); err != nil {
				return nil, nil, err
			}
			pc := regs.Rip
			switch {
			case !inside:
				marker, inside = pc, true
				counts = append(counts, 0)
				where = append(where, map[string]int64{})
				if !frozen {
					frozen = true
					for other, runs := range threads {
						if runs {
							syscall.Tgkill(pid, other, syscall.SIGSTOP)
						}
					}
				}
			case pc == marker:
				inside = false
				progress()
			default:
				name, ok := names[pc]
				if !ok {
					if f := runtime.FuncForPC(uintptr(pc)); f != nil {
						name = f.Name()
					}
					if !counted(name) {
						name = ""
					}
					names[pc] = name
				}
				if name != "" {
					counts[len(counts)-1]++
					where[len(where)-1][name]++
				}
			}
		}
		request := syscall.PTRACE_CONT
		if inside {
			request = syscall.PTRACE_SINGLESTEP
		}
		if err := trace(request, pid, uintptr(sig)); err != nil && !errors.Is(err, syscall.ESRCH) {
			return nil, nil, err
		}
	}
}

// resembling is a way in which a wrong signature resembles the right one.
type resembling struct {
	name string
	make func(right []byte) []byte
}

func wrong(c *Case, b byte) byte { return b ^ byte(1+c.R.IntN(255)) }

// resemblances lists ways to be wrong that are equally long.
func resemblances(c *Case, n int) (list []resembling) {
	spoil := func(right []byte, from, to int) []byte {
		out := make([]byte, n)
		for i := range out {
			var b byte
			if i < len(right) {
				b = right[i]
			}
			if i >= from && i < to {
				b = wrong(c, b)
			}
			out[i] = b
		}
		return out
	}
	add := func(name string, f func(right []byte) []byte) { list = append(list, resembling{name, f}) }
	add("wrong everywhere", func(r []byte) []byte { return spoil(r, 0, n) })
	m := n
	if m > 32 {
		m = 32
	}
	ks := map[int]bool{1: true, m - 1: true, m / 2: true, 8: true}
	for len(ks) < 7 && len(ks) < m-1 {
		ks[1+c.R.IntN(m-1)] = true
	}
	var order []int
	for k := range ks {
		if k > 0 && k < m {
			order = append(order, k)
		}
	}
	sort.Ints(order)
	for _, k := range order {
		add(fmt.Sprintf("right in the first %d bytes", k), func(r []byte) []byte { return spoil(r, k, n) })
	}
	k := 1 + c.R.IntN(m-1)
	add(fmt.Sprintf("right in the last %d bytes", k), func(r []byte) []byte { return spoil(r, 0, n-k) })
	k = c.R.IntN(m)
	add(fmt.Sprintf("wrong in byte %d", k), func(r []byte) []byte { return spoil(r, k, k+1) })
	if n != 32 {
		add("right as far as it goes", func(r []byte) []byte { return spoil(r, 32, n) })
	}
	return list
}

// measured is what was seen of one resemblance.
type measured struct {
	counts map[int64]int
	where  map[string]int64 // of the last
}

// measure presents samples of every resemblance in a fresh child.
func measure(c *Case, kind string, secret, key []byte, samples int, list []resembling, got []measured) error {
	right := oauth2.HS256TokenFromKey(secret, key).Signature
	j := &stepJob{Kind: kind, Secret: secret, Live: [][]byte{key}}
	for range 3 {
		j.Live = append(j.Live, rbytes(c.R, len(key)))
	}
	add := func(q resembling) {
		j.Tokens = append(j.Tokens, rawb64.EncodeToString(key)+"."+rawb64.EncodeToString(q.make(right)))
	}
	add(list[0]) // settles the threads
	for range samples {
		for _, q := range list {
			add(q)
		}
	}
	counts, spent, err := steps(j, func() { c.progress.Add(1) })
	if err != nil {
		return err
	}
	for i, n := range counts {
		c.Count("presentations stepped through", 1)
		c.Count("instructions counted", n)
		if i == 0 {
			continue
		}
		m := &got[(i-1)%len(list)]
		if m.counts == nil {
			m.counts = map[int64]int{}
		}
		m.counts[n]++
		m.where = spent[i]
	}
	return nil
}

// steady tells whether numbers mostly recur, so that having none in common
// means something.
func steady(m map[int64]int) bool {
	n := 0
	for _, k := range m {
		n += k
	}
	return 2*len(m) <= n
}

// common tells whether a number was seen on both sides.
func common(a, b map[int64]int) bool {
	for n := range a {
		if b[n] > 0 {
			return true
		}
	}
	return false
}

var stepKinds = []string{"parse", "valid", "equal", "parse", "authorize", "equal reversed", "parse", "introspect", "valid", "revoke", "parse", "equal", "refresh", "redeem"}

func constantWork(c *Case) {
	kind := stepKinds[c.Index%len(stepKinds)]
	server := kind != "parse" && kind != "valid" && !strings.HasPrefix(kind, "equal")
	n := 32
	if chance(c.R, 0.25) {
		n = pick(c.R, []int{2, 4, 8, 16, 20, 31, 33, 48, 64})
	}
	secret := rbytes(c.R, pick(c.R, []int{0, 1, 16, 20, 32, 64, 65, 100}))
	key := rbytes(c.R, pick(c.R, []int{1, 8, 16, 16, 16, 20, 32, 64, 200}))
	if server && n == 2 {
		n = 32
	}
	list := resemblances(c, n)
	if server { // long calls
		list = append(list[:1], shuffled(c.R, list[1:])[:4]...)
	}
	got := make([]measured, len(list))
	for try, samples := range []int{1, 2, 4, 7} {
		if c.stopped.Load() {
			return
		}
		err := measure(c, kind, secret, key, samples, list, got)
		switch {
		case err == errStuck && try < 3:
			c.note("%s/%d: %v", c.Phase, c.Index, err)
			continue
		case err == errAccepted:
			c.note("%s/%d: %s accepted a wrong token, which other checks judge", c.Phase, c.Index, kind)
			return
		case err != nil:
			c.harnessError("%s/%d: %v", c.Phase, c.Index, err)
			return
		}
		// what has nothing to do with the token varies as well, but not apart
		var apart []string
		for i := range list {
			if !common(got[0].counts, got[i].counts) && (try < 3 || steady(got[0].counts) && steady(got[i].counts)) {
				apart = append(apart, fmt.Sprintf("%s: %v instead of %v instructions%s", list[i].name, sortedCounts(got[i].counts), sortedCounts(got[0].counts), moved(got[0].where, got[i].where)))
			}
		}
		if len(apart) == 0 {
			for i := range list {
				c.Eval(fmt.Sprintf("%s %d %s", kind, n, list[i].name))
			}
			if c.wantSample() {
				c.Sample(map[string]any{"kind": kind, "signature bytes": n, "key bytes": len(key), "instructions": sortedCounts(got[0].counts), "ways to be wrong": len(list)})
			}
			c.Count("calls to "+kind+" that took the same number of instructions", 1)
			return
		}
		c.Count("measurements repeated", 1)
		if try == 3 {
			c.Failf("work:"+kind, "rejecting a token by %q with a signature of %d bytes (key of %d bytes, secret of %d bytes) takes a number of instructions that depends on which bytes are right, compared with a signature that is wrong everywhere:\n%s", kind, n, len(key), len(secret), strings.Join(apart, "\n"))
			c.stopped.Store(true) // one is enough, they are long
		}
	}
}

func sortedCounts(m map[int64]int) []int64 {
	var out []int64
	for n := range m {
		out = append(out, n)
	}
	slices.Sort(out)
	return out
}

// moved lists the functions in which the numbers differ.
func moved(a, b map[string]int64) string {
	var out []string
	all := map[string]bool{}
	for k := range a {
		all[k] = true
	}
	for k := range b {
		all[k] = true
	}
	for _, k := range sortedKeys(all) {
		if a[k] != b[k] {
			out = append(out, fmt.Sprintf("%s %d/%d", k, b[k], a[k]))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return " (" + strings.Join(out, ", ") + ")"
}

func init() {
	checks["C25"] = func(t *testing.T, r *Run) {
		r.Rule("a token of a live credential is presented with signatures that agree with the right one in different sets of bytes to the token functions and to the endpoints of a server in a child process; every executed instruction outside of the runtime is counted by single-stepping, and the numbers of instructions must not differ between ways to be wrong (they count as different when no number is common to both over 14 samples); a case is distinct by the function, the length of the signature and the way in which it is wrong")
		r.Cases("steps", r.N(112, 2800), constantWork)
		r.Floor("presentations stepped through", 500)
		r.Floor("instructions counted", 100000)
		for _, k := range stepKinds {
			r.Floor("calls to "+k+" that took the same number of instructions", 1)
		}
	}
}
