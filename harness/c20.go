package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/256dpi/oauth2/v2"
)

// proper makes a scope name without spaces and surrounding white space.
func proper(c *Case) string {
	for {
		var s string
		if chance(c.R, 0.4) {
			s = pick(c.R, scopePool)
		} else {
			s = strings.TrimSpace(strings.ReplaceAll(utext(c.R), " ", "_"))
		}
		if s != "" && s == strings.TrimSpace(s) && !strings.Contains(s, " ") && utf8.ValidString(s) {
			return s
		}
	}
}

func properScope(c *Case, max int) []string {
	var l []string
	n := c.R.IntN(max + 1)
	if chance(c.R, 0.004) {
		n = pick(c.R, []int{17, 33, 65, 66, 70, 130, 260})
	}
	for ; n > 0; n-- {
		l = append(l, proper(c))
	}
	if len(l) > 0 && chance(c.R, 0.2) {
		l = append(l, pick(c.R, l))
	}
	return l
}

func scopeOf(l []string) oauth2.Scope {
	if l == nil {
		return nil
	}
	return oauth2.Scope(append([]string{}, l...))
}

func sameList(a, b []string) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual([]string(a), []string(b))
}

func init() {
	checks["C20"] = func(t *testing.T, r *Run) {
		r.Rule("random scopes of proper names and random scope texts with white space and Unicode; parsing, rendering, JSON, containment and inclusion are compared with independent set operations on the lists; distinct by the texts")
		r.Cases("scopes", r.N(300000, 2000000), func(c *Case) {
			rr := c.R
			bad := func(sig, format string, args ...any) { c.Failf(sig, format, args...) }

			// text
			var txt string
			switch rr.IntN(4) {
			case 0:
				txt = text(rr)
			case 1:
				var b strings.Builder
				for n := rr.IntN(10); n > 0; n-- {
					b.WriteString(pick(rr, []string{" ", "  ", "\t", "\n", "a", "b", "\u00a0", "\u2003", "foo", "\v", "\f", "\r", "\u0085", "a\tb", ","}))
				}
				txt = b.String()
			case 2:
				txt = strings.Join(properScope(c, 5), pick(rr, []string{" ", "  ", " \t "}))
			case 3:
				txt = strings.Join(properScope(c, 40), " ")
			}
			got := oauth2.ParseScope(txt)
			want := names(txt)
			if !sameList(got, want) {
				bad("parse", "the text %q was parsed as %q instead of %q", txt, got, want)
				return
			}
			if again := oauth2.ParseScope(got.String()); !sameList(again, got) {
				bad("stable", "the text %q parses as %q, rendered and parsed as %q", txt, got, again)
			}
			if got.Empty() != (len(want) == 0) {
				bad("empty", "emptiness of %q is %v", got, got.Empty())
			}
			if len(got) > 0 { // results must be independent
				got[0] = "changed"
				_ = append(got, "more")
				if again := oauth2.ParseScope(txt); !sameList(again, want) {
					bad("shared", "a changed scope changed another parse of %q: %q", txt, again)
				}
			}
			c.Eval("t" + txt)

			// lossless
			l := properScope(c, 6)
			s := scopeOf(l)
			if str := s.String(); str != strings.Join(l, " ") || !sameList(oauth2.ParseScope(str), l) {
				bad("lossless", "scope %q is rendered as %q and parsed as %q", l, str, oauth2.ParseScope(str))
			}
			buf, err := json.Marshal(s)
			var str string
			if err != nil || json.Unmarshal(buf, &str) != nil || str != strings.Join(l, " ") {
				bad("marshal", "scope %q is marshaled as %s (%v)", l, buf, err)
			}
			back := oauth2.Scope{"left", "over"}
			if err := json.Unmarshal(buf, &back); err != nil || !sameList(back, l) {
				bad("json", "scope %q comes back from JSON as %q (%v)", l, back, err)
			}
			st := struct {
				S oauth2.Scope `json:"s,omitempty"`
				P *oauth2.Scope
			}{S: s, P: &s}
			buf, err = json.Marshal(st)
			st2 := st
			st2.S, st2.P = nil, nil
			if err != nil || json.Unmarshal(buf, &st2) != nil || !sameList(st2.S, l) || st2.P == nil || !sameList(*st2.P, l) {
				bad("json field", "scope %q comes back from %s as %q", l, buf, st2)
			}
			if !sameList(s, l) {
				bad("changed", "rendering changed the scope %q to %q", l, s)
			}

			// sets
			a, b := properScope(c, 6), properScope(c, 6)
			if chance(rr, 0.6) {
				b = shuffled(rr, some(rr, a))
				if len(b) > 0 && chance(rr, 0.3) {
					b = append(b, b[rr.IntN(len(b))])
				}
				if chance(rr, 0.3) {
					b = append(b, proper(c))
				}
				if len(b) > 0 && chance(rr, 0.2) {
					i := rr.IntN(len(b))
					b[i] = near(rr, b[i])
				}
			}
			if len(a) > 16 && chance(rr, 0.7) { // large, but for the last names
				b = append(append([]string{}, a...), proper(c))
			}
			sa, sb := scopeOf(a), scopeOf(b)
			if got := sa.Includes(sb); got != subset(b, a) {
				bad("includes", "%q includes %q: %v", a, b, got)
			}
			if sub := subset(b, a); sub {
				c.Count("inclusions that hold", 1)
			} else {
				c.Count("inclusions that do not hold", 1)
			}
			if !sa.Includes(sa) || !sa.Includes(nil) || !sa.Includes(oauth2.Scope{}) || oauth2.Scope(nil).Includes(sa) != (len(a) == 0) {
				bad("includes trivially", "inclusion of itself or the empty scope fails for %q", a)
			}
			if got := scopeOf(shuffled(rr, append(append([]string{}, a...), a...))).Includes(scopeOf(shuffled(rr, b))); got != subset(b, a) {
				bad("includes order", "inclusion of %q in %q depends on order or duplicates", b, a)
			}
			x := proper(c)
			if len(a) > 0 && chance(rr, 0.6) {
				x = pick(rr, a)
				if chance(rr, 0.5) {
					x = near(rr, x)
				}
			}
			if got := sa.Contains(x); got != subset([]string{x}, a) {
				bad("contains", "%q contains %q: %v", a, x, got)
			}
			if sa.Empty() != (len(a) == 0) || !sameList(sa, a) || !sameList(sb, b) {
				bad("changed", "the predicates changed %q or %q", a, b)
			}
			c.Eval("s" + strings.Join(a, " ") + "|" + strings.Join(b, " "))

			// failed decoding
			doc := pick(rr, []string{"1", "true", "[]", "{}", `["foo"]`, `{"scope":"foo"}`, `"foo`, `foo`, ``, `"a" "b"`, "-0.5e3", "\"\x01\"", `"\x"`, `[null]`, "false", `"a",`, "'foo'"})
			keep := scopeOf(l)
			if err := keep.UnmarshalJSON([]byte(doc)); err == nil || !sameList(keep, l) {
				bad("decoded", "the document %s was decoded as %q (%v), before it was %q", doc, keep, err, l)
			}
			c.Count("failing documents", 1)
			var null = scopeOf(l)
			if err := null.UnmarshalJSON([]byte("null")); err == nil && len(null) != 0 && !sameList(null, l) {
				bad("null", "null was decoded as %q", null)
			}
			if c.wantSample() {
				c.Sample(map[string]string{"text": fmt.Sprintf("%q", txt), "a": fmt.Sprintf("%q", a), "b": fmt.Sprintf("%q", b)})
			}
		})
		r.Floor("inclusions that hold", 1000)
		r.Floor("inclusions that do not hold", 1000)
	}
}
