package harness

import "testing"

// The properties that are decided by comparing histories of a real server with
// the reference model.

func ops(w map[string]int) map[string]int {
	m := map[string]int{"password": 6, "client_credentials": 3, "token": 4, "code": 6, "authorization_code": 7, "refresh_token": 8, "revoke": 4, "introspect": 4, "resource": 5, "time": 4, "replay": 2, "admin": 1, "storm": 1}
	for k, v := range w {
		m[k] = v
	}
	return m
}

var profiles = map[string]*profile{
	"C03": {ops: ops(map[string]int{"password": 8, "client_credentials": 8, "revoke": 8, "introspect": 8, "admin": 5}), perturb: 0.6, probe: 0.3},
	"C04": {ops: ops(map[string]int{"password": 12, "token": 10, "code": 10, "refresh_token": 10, "introspect": 8, "admin": 4}), perturb: 0.5, probe: 0.3},
	"C05": {ops: ops(map[string]int{"code": 14, "authorization_code": 22, "replay": 3, "time": 5}), perturb: 0.55, probe: 0.2},
	"C06": {ops: ops(map[string]int{"code": 8, "authorization_code": 10, "refresh_token": 14, "replay": 7, "sweep": 2}), perturb: 0.2, probe: 0.4, long: true},
	"C07": {ops: ops(map[string]int{"refresh_token": 24, "sweep": 3, "password": 8}), perturb: 0.45, probe: 0.3},
	"C08": {ops: ops(map[string]int{"password": 10, "client_credentials": 6, "token": 8, "code": 10, "refresh_token": 16, "resource": 10}), perturb: 0.45, probe: 0.3},
	"C09": {ops: ops(map[string]int{"resource": 20, "revoke": 6, "time": 5}), perturb: 0.55, probe: 0.5},
	"C10": {ops: ops(map[string]int{"revoke": 20, "resource": 6, "time": 3}), perturb: 0.45, probe: 0.6},
	"C11": {ops: ops(map[string]int{"introspect": 24, "revoke": 5, "time": 5}), perturb: 0.45, probe: 0.3},
	"C12": {ops: map[string]int{"token": 20, "code": 20, "authorization_code": 8, "refresh_token": 2, "introspect": 3, "resource": 2, "time": 2, "replay": 1, "password": 2, "client_credentials": 2, "admin": 3}, perturb: 0.7, probe: 0.1},
	"C13": {ops: map[string]int{"token": 20, "code": 20, "authorization_code": 8, "refresh_token": 2, "introspect": 3, "resource": 2, "time": 2, "replay": 1, "password": 2, "client_credentials": 2, "admin": 3}, perturb: 0.4, probe: 0.1},
	"C23": {ops: ops(map[string]int{"time": 14, "refresh_token": 12}), perturb: 0.15, probe: 0.6, long: true},
}

func histories(t *testing.T, r *Run, quick, thorough int) {
	p := profiles[r.Prop]
	r.Rule("random histories of requests by several clients and owners against one server under a virtual clock, with perturbed credentials, scopes, redirect URIs, token strings, placements and response failures; every answer is compared with a reference model, all credentials are probed in between and redeemed at the end; a history is non-trivial and distinct by its sequence of operations, outcomes and refusal reasons")
	r.Virtual(t, "histories", r.N(quick, thorough), func(c *Case) {
		w := newWorld(c, p)
		n := 12 + c.R.IntN(25)
		if p.long {
			n = 25 + c.R.IntN(40)
		}
		w.run(n)
		if c.wantSample() {
			c.Sample(w.log[max(0, len(w.log)-40):])
		}
	})
	if r.Prop == "C12" || r.Prop == "C13" {
		r.Floor("grants: implicit", 1000)
		r.Floor("grants: code", 1000)
		return
	}
	crowds := []struct {
		kind string
		n    int
	}{{"issue", 10500}, {"codes", 4200}, {"redeem", 2100}, {"revoke", 1100}, {"chain", 4200}, {"issue", 1100}, {"codes", 10500}, {"redeem", 4200}, {"revoke", 2100}, {"chain", 1100}, {"chain", 300}}
	r.Virtual(t, "crowds", r.N(len(crowds), 5*len(crowds)), func(c *Case) {
		w := newWorld(c, p)
		w.crowd(crowds[c.Index%len(crowds)].kind, crowds[c.Index%len(crowds)].n*(1+c.Index/len(crowds)))
	})
	for _, k := range []string{"grants: password", "grants: implicit", "grants: code", "grants: authorization_code", "grants: refresh_token", "grants: client_credentials", "resource grants", "clock steps", "code replays that killed live tokens"} {
		r.Floor(k, 100)
	}
}

func init() {
	for id := range profiles {
		if id == "C12" || id == "C13" {
			continue
		}
		n := 14000
		if profiles[id].long {
			n = 8000
		}
		checks[id] = func(t *testing.T, r *Run) { histories(t, r, n, 20*n) }
	}
}
