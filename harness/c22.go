package harness

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/256dpi/oauth2/v2/oauth2test"
)

// suiteJob is one run of the suite in a child process.
type suiteJob struct {
	Seed    uint64 `json:"seed"`
	Caps    int    `json:"caps"`
	Label   string `json:"label,omitempty"`
	Mut     string `json:"mut,omitempty"`
	Missing string `json:"missing,omitempty"`
}

// suiteResult is what a child reports about a job.
type suiteResult struct {
	Job      int                 `json:"job"`
	Begun    bool                `json:"begun"`
	OK       bool                `json:"ok"`
	Applied  int                 `json:"applied"`
	Requests int                 `json:"requests"`
	Shots    []string            `json:"shots,omitempty"`
	Hits     map[string][]string `json:"hits,omitempty"`
	Changed  bool                `json:"changed"`
	crashed  bool
	output   string
}

// suiteChild runs the jobs given by the environment.
func suiteChild(t *testing.T) {
	in, out := os.Getenv("VERIF_SUITE_IN"), os.Getenv("VERIF_SUITE_OUT")
	if in == "" {
		t.Skip("only used by the check")
	}
	buf, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	var jobs []suiteJob
	if err := json.Unmarshal(buf, &jobs); err != nil {
		t.Fatal(err)
	}
	f, err := os.OpenFile(out, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	var mu sync.Mutex
	put := func(r *suiteResult) {
		buf, _ := json.Marshal(r)
		mu.Lock()
		_, _ = f.Write(append(buf, '\n'))
		mu.Unlock()
	}
	run := func(i int, j suiteJob) {
		s, spec := newSuite(rand.New(rand.NewPCG(j.Seed, uint64(j.Caps))), j.Caps)
		s.label, s.mut = j.Label, j.Mut
		if j.Missing != "" {
			removeValue(spec, j.Missing)
			// every request is on record before the suite can stop
			spec.Handler = &recorder{s: s, note: func(shot string) { put(&suiteResult{Job: i, Shots: []string{shot}}) }}
			if j.Missing == "Handler" {
				spec.Handler = nil
			}
		}
		before := *spec
		before.ValidAuthorizationParams, before.InvalidAuthorizationParams = clone(spec.ValidAuthorizationParams), clone(spec.InvalidAuthorizationParams)
		before.ValidAuthorizationHeaders, before.InvalidAuthorizationHeaders = clone(spec.ValidAuthorizationHeaders), clone(spec.InvalidAuthorizationHeaders)
		before.Handler = nil
		put(&suiteResult{Job: i, Begun: true})
		ok := t.Run(fmt.Sprint("job", i), func(t *testing.T) { oauth2test.Run(t, spec) })
		after := *spec
		after.Handler = nil
		r := &suiteResult{Job: i, OK: ok, Applied: s.applied, Requests: len(s.shots), Hits: map[string][]string{}, Changed: !reflect.DeepEqual(before, after)}
		for l, m := range s.hits {
			for k := range m {
				r.Hits[l] = append(r.Hits[l], k)
			}
			sort.Strings(r.Hits[l])
		}
		put(r)
	}
	if os.Getenv("VERIF_SUITE_PARALLEL") != "" {
		var wg sync.WaitGroup
		for i, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				run(i, j)
			}()
		}
		wg.Wait()
		return
	}
	for i, j := range jobs {
		run(i, j)
	}
}

type recorder struct {
	s    *cserver
	note func(string)
}

func (r *recorder) ServeHTTP(w http.ResponseWriter, rq *http.Request) {
	r.note(rq.Method + " " + rq.URL.Path + " " + rq.PostForm.Encode())
	r.s.ServeHTTP(w, rq)
}

func clone(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	out := map[string]string{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

// removeValue clears required values of a specification.
func removeValue(spec *oauth2test.Spec, name string) {
	for _, n := range strings.Split(name, "+") {
		f := reflect.ValueOf(spec).Elem().FieldByName(n)
		f.Set(reflect.Zero(f.Type()))
	}
}

// runSuites executes jobs in child processes; a child that ends early is
// followed by another one for the rest.
func runSuites(c *Case, jobs []suiteJob, parallel bool) []suiteResult {
	results := make([]suiteResult, len(jobs))
	for start := 0; start < len(jobs); {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "suite")
		if err != nil {
			c.harnessError("%v", err)
			return nil
		}
		in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
		buf, _ := json.Marshal(jobs[start:])
		_ = os.WriteFile(in, buf, 0o644)
		cmd := exec.Command(os.Args[0], "-test.run=^TestSuite$", "-test.timeout=120s")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "VERIF_SUITE_IN="+in, "VERIF_SUITE_OUT="+out)
		if parallel {
			cmd.Env = append(cmd.Env, "VERIF_SUITE_PARALLEL=1")
		}
		text, _ := cmd.CombinedOutput()
		c.Count("child processes", 1)
		done, last := map[int]bool{}, -1
		shots := map[int][]string{}
		if f, err := os.Open(out); err == nil {
			sc := bufio.NewScanner(f)
			sc.Buffer(nil, 1<<24)
			for sc.Scan() {
				var r suiteResult
				if json.Unmarshal(sc.Bytes(), &r) != nil {
					continue
				}
				if r.Begun {
					last = max(last, r.Job)
					continue
				}
				if r.Shots != nil {
					shots[r.Job] = append(shots[r.Job], r.Shots...)
					continue
				}
				done[r.Job] = true
				results[start+r.Job] = r
			}
			_ = f.Close()
		}
		_ = os.RemoveAll(dir)
		for j, l := range shots {
			results[start+j].Shots = l
		}
		if len(done) == len(jobs)-start {
			for i := start; i < len(jobs); i++ {
				results[i].output = string(text)
			}
			break
		}
		if last < 0 || done[last] || parallel {
			c.harnessError("a suite process ended early:\n%s", text)
			return nil
		}
		for i := range done {
			results[start+i].output = string(text)
		}
		results[start+last].crashed = true
		results[start+last].output = string(text)
		start += last + 1
	}
	return results
}

// suiteTable lists what the suite notices: per answer of the server the
// capabilities that make the suite look at it and the deviations it reports.
// It was recorded from the suite at the pinned commit and read through.
//
//go:embed c22table.json
var suiteTableJSON []byte

type suiteEntry struct {
	Label string   `json:"label"`
	Caps  []string `json:"caps"`
	Muts  []string `json:"muts"`
}

func suiteTable() []suiteEntry {
	var t []suiteEntry
	if err := json.Unmarshal(suiteTableJSON, &t); err != nil {
		panic(err)
	}
	return t
}

// suiteRequired lists the values that a specification must have, the
// capabilities that make them required, and what the first request that
// depends on them looks like.
var suiteRequired = []struct {
	name string
	caps string // any of them
	use  func(spec *oauth2test.Spec, shot string) bool
}{
	{"Handler", "", nil}, {"TokenEndpoint", "", nil}, {"AuthorizeEndpoint", "", nil}, {"ProtectedResource", "", nil}, {"ConfidentialClientID", "", nil},
	{"ConfidentialClientSecret", "", nil}, {"PublicClientID", "", nil}, {"InvalidScope", "", nil}, {"ValidScope", "", nil}, {"ExceedingScope", "", nil},
	{"InvalidToken", "", nil}, {"ValidToken", "", nil}, {"UnknownToken", "", nil}, {"ExpiredToken", "", nil},
	{"InvalidRedirectURI", "IA", useAuthorize}, {"PrimaryRedirectURI", "IA", useAuthorize}, {"SecondaryRedirectURI", "IA", useAuthorize},
	{"ResourceOwnerUsername", "P", usePassword}, {"ResourceOwnerPassword", "P", usePassword},
	{"InvalidAuthorizationParams+InvalidAuthorizationHeaders", "IA", useGrant}, {"ValidAuthorizationParams+ValidAuthorizationHeaders", "IA", useGrant},
	{"InvalidAuthorizationCode", "A", useCode}, {"UnknownAuthorizationCode", "A", useCode}, {"ExpiredAuthorizationCode", "A", useCode},
	{"InvalidRefreshToken", "R", useRefresh}, {"UnknownRefreshToken", "R", useRefresh}, {"ValidRefreshToken", "R", useRefresh}, {"ExpiredRefreshToken", "R", useRefresh},
}

func useAuthorize(spec *oauth2test.Spec, shot string) bool {
	return strings.Contains(shot, " "+spec.AuthorizeEndpoint+" ")
}
func usePassword(spec *oauth2test.Spec, shot string) bool {
	return strings.Contains(shot, "grant_type=password&") && strings.Contains(shot, "scope=")
}
func useGrant(spec *oauth2test.Spec, shot string) bool {
	return useAuthorize(spec, shot) && strings.Contains(shot, "scope=")
}
func useCode(spec *oauth2test.Spec, shot string) bool {
	return strings.Contains(shot, "response_type=code") && strings.Contains(shot, "scope=") || strings.Contains(shot, "code=&")
}
func useRefresh(spec *oauth2test.Spec, shot string) bool {
	return strings.HasSuffix(shot, "refresh_token=") || strings.Contains(shot, "refresh_token=&")
}

func suiteConforming(c *Case) {
	var jobs []suiteJob
	for caps := 0; caps <= capAll; caps++ {
		if caps%16 == c.Index%16 {
			jobs = append(jobs, suiteJob{Seed: c.R.Uint64(), Caps: caps})
		}
	}
	jobs = shuffled(c.R, jobs)
	for i, r := range runSuites(c, jobs, c.Index%3 == 2) {
		c.Eval(fmt.Sprint("conforming", jobs[i].Caps, jobs[i].Seed%4096))
		c.Count("runs against conforming servers", 1)
		c.Count("exchanges with conforming servers", int64(r.Requests))
		if !r.OK || r.crashed {
			c.Violate("conforming server fails", map[string]any{"what": "the suite fails a conforming server with the capabilities " + capName(jobs[i].Caps), "job": jobs[i], "crashed": r.crashed, "output": tail(r.output)})
		}
		if r.Changed {
			c.Violate("specification changed", map[string]any{"what": "the suite changed the specification it was given", "job": jobs[i]})
		}
	}
}

func tail(s string) string {
	if len(s) > 6000 {
		return s[:3000] + "\n...\n" + s[len(s)-3000:]
	}
	return s
}

func suiteDeviating(c *Case, table []suiteEntry) {
	// the cases walk through all deviations
	const per = 8
	type dev struct{ label, mut, caps string }
	var devs []dev
	for _, e := range table {
		for _, m := range e.Muts {
			devs = append(devs, dev{e.Label, m, strings.Join(e.Caps, ",")})
		}
	}
	order := rand.New(rand.NewPCG(c.Seed, uint64(c.Index*per/len(devs)))).Perm(len(devs))
	var jobs []suiteJob
	for k := 0; k < per; k++ {
		d := devs[order[(c.Index*per+k)%len(devs)]]
		caps := capValue(pick(c.R, strings.Split(d.caps, ",")))
		switch c.R.IntN(4) {
		case 0:
			caps = capAll
		case 1:
		default:
			caps |= c.R.IntN(capAll + 1)
		}
		jobs = append(jobs, suiteJob{Seed: c.R.Uint64(), Caps: caps, Label: d.label, Mut: d.mut})
	}
	jobs = append(jobs, suiteJob{Seed: c.R.Uint64(), Caps: c.R.IntN(capAll + 1)})
	jobs = shuffled(c.R, jobs)
	if c.Index%4 == 0 {
		// a server that panics ends the process, which is as good as a failure
		d := devs[c.R.IntN(len(devs))]
		jobs = append(jobs, suiteJob{Seed: c.R.Uint64(), Caps: capValue(pick(c.R, strings.Split(d.caps, ","))) | c.R.IntN(capAll+1), Label: d.label, Mut: "panic"})
	}
	for i, r := range runSuites(c, jobs, false) {
		j := jobs[i]
		c.Eval(fmt.Sprint(j.Label, j.Mut, j.Caps))
		if j.Label == "" {
			c.Count("runs against conforming servers", 1)
			if !r.OK || r.crashed {
				c.Violate("conforming server fails beside others", map[string]any{"what": "the suite fails a conforming server after it ran against deviating ones", "job": j, "output": tail(r.output)})
			}
			continue
		}
		c.Count("runs against deviating servers", 1)
		if r.crashed && j.Mut == "panic" {
			c.Count("runs against panicking servers", 1)
			continue
		}
		if r.crashed {
			c.Violate("crash: "+j.Label+": "+j.Mut, map[string]any{"what": fmt.Sprintf("the suite crashes instead of failing against a server that deviates at %q by %q (capabilities %s)", j.Label, j.Mut, capName(j.Caps)), "job": j, "output": tail(r.output)})
			continue
		}
		if r.OK {
			c.Violate("deviation passes: "+j.Label+": "+j.Mut, map[string]any{"what": fmt.Sprintf("a server that deviates at %q by %q passes the suite (capabilities %s, deviation seen %d times)", j.Label, j.Mut, capName(j.Caps), r.Applied), "job": j, "requests": r.Requests})
		}
		if c.wantSample() {
			c.Sample(fmt.Sprintf("%s: %s (capabilities %s): failed as it must after %d exchanges", j.Label, j.Mut, capName(j.Caps), r.Requests))
		}
	}
}

func suiteMissing(c *Case) {
	req := suiteRequired[c.Index%len(suiteRequired)]
	caps := c.R.IntN(capAll + 1)
	if req.caps != "" && caps&capValue(req.caps) == 0 {
		caps |= capValue(string(req.caps[c.R.IntN(len(req.caps))]))
	}
	if chance(c.R, 0.3) {
		caps = capAll
	}
	j := suiteJob{Seed: c.R.Uint64(), Caps: caps, Missing: req.name}
	_, spec := newSuite(rand.New(rand.NewPCG(j.Seed, uint64(j.Caps))), j.Caps)
	for _, r := range runSuites(c, []suiteJob{j}, false) {
		c.Eval(fmt.Sprint(j.Missing, caps))
		c.Count("runs with incomplete specifications", 1)
		if r.OK && !r.crashed {
			c.Violate("incomplete specification: "+req.name, map[string]any{"what": "the suite passes with a specification that lacks " + req.name, "job": j})
			continue
		}
		for _, shot := range r.Shots {
			if req.use == nil || req.use(spec, shot) {
				c.Violate("incomplete specification: "+req.name, map[string]any{"what": "the suite does not refuse a specification that lacks " + req.name + " but sends " + shot, "job": j, "output": tail(r.output)})
				break
			}
		}
	}
	// a value that only other capabilities need may be missing
	if req.caps != "" {
		caps &^= capValue(req.caps)
		j := suiteJob{Seed: c.R.Uint64(), Caps: caps, Missing: req.name}
		for _, r := range runSuites(c, []suiteJob{j}, false) {
			c.Count("runs without values that are not needed", 1)
			if !r.OK || r.crashed {
				c.Violate("needless value: "+req.name, map[string]any{"what": "the suite fails a conforming server as " + req.name + " is missing, which the capabilities " + capName(caps) + " do not need", "job": j, "output": tail(r.output)})
			}
		}
	}
}

// suiteRecord writes the table anew; it is not part of the check.
func suiteRecord(r *Run, path string) {
	type mark struct {
		caps map[int]bool
		muts map[string]bool
	}
	labels := map[string]*mark{}
	c := r.newCase("record", 0)
	for rep := 0; rep < 4; rep++ {
		var jobs []suiteJob
		for caps := 0; caps <= capAll; caps++ {
			jobs = append(jobs, suiteJob{Seed: c.R.Uint64(), Caps: caps})
		}
		for i, res := range runSuites(c, jobs, false) {
			if !res.OK {
				panic(fmt.Sprint("not conforming: ", jobs[i], tail(res.output)))
			}
			for l, m := range res.Hits {
				if labels[l] == nil {
					labels[l] = &mark{map[int]bool{}, map[string]bool{}}
				}
				labels[l].caps[jobs[i].Caps] = true
				for _, k := range m {
					labels[l].muts[k] = true
				}
			}
		}
	}
	var table []suiteEntry
	var mu sync.Mutex
	var names []string
	for l := range labels {
		if l != "" {
			names = append(names, l)
		}
	}
	sort.Strings(names)
	r.Cases("record", len(names), func(c *Case) {
		l := names[c.Index]
		m := labels[l]
		e := suiteEntry{Label: l}
		var minimal []int
		for a := 0; a <= capAll; a++ {
			least := m.caps[a]
			for b := 0; b < a; b++ {
				if b&a == b && m.caps[b] {
					least = false
				}
			}
			if least {
				minimal = append(minimal, a)
				e.Caps = append(e.Caps, capName(a))
			}
		}
		var muts []string
		for k := range m.muts {
			if k != "panic" {
				muts = append(muts, k)
			}
		}
		sort.Strings(muts)
		for _, k := range muts {
			var jobs []suiteJob
			for i := 0; i < 48; i++ {
				caps := minimal[i%len(minimal)]
				if i >= 16 {
					caps |= c.R.IntN(capAll + 1)
				}
				jobs = append(jobs, suiteJob{Seed: c.R.Uint64(), Caps: caps, Label: l, Mut: k})
			}
			bad := 0
			r.progress.Add(1)
			for _, res := range runSuites(c, jobs, false) {
				if res.crashed {
					fmt.Println("crash", l, k)
				}
				if !res.OK {
					bad++
				}
			}
			mu.Lock()
			if bad == len(jobs) {
				e.Muts = append(e.Muts, k)
			} else {
				fmt.Printf("not noticed (%d of %d): %s: %s\n", bad, len(jobs), l, k)
			}
			mu.Unlock()
		}
		mu.Lock()
		table = append(table, e)
		mu.Unlock()
	})
	sort.Slice(table, func(i, j int) bool { return table[i].Label < table[j].Label })
	var b strings.Builder
	b.WriteString("[\n")
	for i, e := range table {
		buf, _ := json.Marshal(e)
		b.Write(buf)
		if i < len(table)-1 {
			b.WriteString(",")
		}
		b.WriteString("\n")
	}
	b.WriteString("]\n")
	_ = os.WriteFile(path, []byte(b.String()), 0o644)
}

func init() {
	checks["C22"] = func(t *testing.T, r *Run) {
		if p := os.Getenv("SUITE_RECORD"); p != "" {
			suiteRecord(r, p)
			return
		}
		table := suiteTable()
		total := 0
		for _, e := range table {
			total += len(e.Muts)
		}
		r.Rule("the suite run in child processes against an independent conforming server with random specifications and token formats under all 256 combinations of capabilities, against the same server deviating in exactly one answer, for every deviation in a table recorded from the pinned suite, and with specifications that lack one required value; distinct by deviation and capabilities")
		r.Cases("conforming", r.N(128, 3200), suiteConforming)
		rounds := r.N(8, 400)
		r.Cases("deviating", (total*rounds+7)/8, func(c *Case) { suiteDeviating(c, table) })
		r.Cases("incomplete", len(suiteRequired)*r.N(6, 100), suiteMissing)
		r.Count("deviations in the table", int64(total))
		r.Floor("runs against conforming servers", 256)
		r.Floor("runs against deviating servers", int64(total))
		r.Floor("runs with incomplete specifications", int64(len(suiteRequired)))
	}
}
