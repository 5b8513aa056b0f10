package harness

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"math/rand/v2"
	"net/url"
	"strings"
)

// Generators of hostile but reproducible values.

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

func pick[T any](r *rand.Rand, list []T) T { return list[r.IntN(len(list))] }

var nasty = []string{
	"%", "%2", "%20", "%25", "%zz", "+", " ", "&", "=", ";", "?", "#", "/", "\\", "\"", "'", "<", ">", ":", "@", ",", ".",
	"\r", "\n", "\r\n", "\t", "\x00", "\x1f", "\x7f", "ä", "日本", "\u2028", "🙂", "\xff", "\xc3\x28", "{}", "[]", "null", "true", "../",
	"a", "Z", "0", "é", "\u00a0", "javascript:", "http://", "access_token", "error=", "${x}", "`", "~", "*", "(", ")", "!", "-", "_",
}

// text makes text of arbitrary bytes with a bias to characters that encodings
// treat specially.
func text(r *rand.Rand) string {
	switch r.IntN(8) {
	case 0:
		return word(r)
	case 1:
		return pick(r, nasty)
	}
	var b strings.Builder
	for n := 1 + r.IntN(8); n > 0; n-- {
		switch r.IntN(4) {
		case 0:
			b.WriteByte(byte(r.IntN(256)))
		case 1:
			b.WriteString(word(r))
		default:
			b.WriteString(pick(r, nasty))
		}
	}
	return b.String()
}

// utext is text in valid UTF-8.
func utext(r *rand.Rand) string { return strings.ToValidUTF8(text(r), "\u00bf") }

// longtext is text of up to a few kilobytes.
func longtext(r *rand.Rand) string {
	if chance(r, 0.001) {
		return strings.Repeat(utext(r)+"x", 1+200000/pick(r, []int{3, 7, 20, 100}))
	}
	if chance(r, 0.05) {
		return strings.Repeat(utext(r)+"x", 1+r.IntN(300))
	}
	return utext(r)
}

const wordChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"

func word(r *rand.Rand) string { return wordn(r, 1+r.IntN(10)) }

func wordn(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = wordChars[r.IntN(len(wordChars))]
	}
	return string(b)
}

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

// near makes a value that differs slightly from s.
func near(r *rand.Rand, s string) string {
	for {
		var t string
		switch r.IntN(17) {
		case 12: // escaped or unescaped
			if t = url.QueryEscape(s); r.IntN(2) == 0 {
				t, _ = url.QueryUnescape(s)
			}
		case 13: // characters that fold to those of s
			t = strings.NewReplacer("k", "\u212a", "s", "\u017f", "K", "\u212a", "S", "\u017f").Replace(s)
		case 14:
			t = pick(r, []string{`"` + s + `"`, "'" + s + "'", "<" + s + ">", "\ufeff" + s, s + "\x00" + word(r), s + "," + word(r), s + ":" + s, s + "@example.org"})
		case 15: // transformed as stored secrets may be
			h := sha256.Sum256([]byte(s))
			t = pick(r, []string{hex.EncodeToString(h[:]), rawb64.EncodeToString(h[:]), rawb64.EncodeToString([]byte(s)), hex.EncodeToString([]byte(s))})
		case 16: // patterns
			t = pick(r, []string{"*", ".*", "%", s + "*", "?" + s[len(s)/2:]})
		case 0:
			t = s + pick(r, []string{"x", " ", "\x00", "0", "/", ".", "\n"})
		case 1:
			t = pick(r, []string{"x", " ", "\x00", "/"}) + s
		case 2:
			if len(s) > 0 {
				t = s[:len(s)-1]
			}
		case 3:
			if len(s) > 0 {
				t = s[1:]
			}
		case 4:
			t = strings.ToUpper(s)
		case 5:
			t = strings.ToLower(s)
		case 6:
			if len(s) > 0 {
				i := r.IntN(len(s))
				t = s[:i] + string(rune('a'+r.IntN(26))) + s[i+1:]
			}
		case 7:
			t = s + s
		case 8:
			if len(s) > 1 {
				i := r.IntN(len(s) - 1)
				t = s[:i] + string(s[i+1]) + string(s[i]) + s[i+2:]
			}
		case 9:
			t = ""
		case 10:
			t = s[:len(s)/2]
		case 11:
			if len(s) > 0 {
				i := r.IntN(len(s))
				t = s[:i] + s[i+1:]
			}
		}
		if t != s {
			return t
		}
	}
}

// shuffled returns the list in another order.
func shuffled[T any](r *rand.Rand, list []T) []T {
	out := append([]T(nil), list...)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// some returns a random sublist.
func some[T any](r *rand.Rand, list []T) []T {
	var out []T
	for _, v := range list {
		if r.IntN(2) == 0 {
			out = append(out, v)
		}
	}
	return out
}

var rawb64 = base64.RawURLEncoding

// tamper changes a signed token into a different, canonically spelled string
// that was signed by nobody.
func tamper(r *rand.Rand, tok string) string {
	key, sig, _ := strings.Cut(tok, ".")
	k, _ := rawb64.DecodeString(key)
	s, _ := rawb64.DecodeString(sig)
	enc := rawb64.EncodeToString
	for {
		var t string
		switch r.IntN(12) {
		case 0: // flip a bit of the key
			k2 := append([]byte(nil), k...)
			if len(k2) > 0 {
				k2[r.IntN(len(k2))] ^= 1 << r.IntN(8)
			}
			t = enc(k2) + "." + sig
		case 1: // flip a bit of the signature
			s2 := append([]byte(nil), s...)
			if len(s2) > 0 {
				s2[r.IntN(len(s2))] ^= 1 << r.IntN(8)
			}
			t = key + "." + enc(s2)
		case 2:
			t = key + "."
		case 3:
			t = "." + sig
		case 4:
			t = key
		case 5:
			t = tok + "." + sig
		case 6:
			t = sig + "." + key
		case 7:
			t = key + "." + enc(s[:r.IntN(len(s))])
		case 8:
			t = key + "." + enc(append(append([]byte(nil), s...), byte(r.IntN(256))))
		case 9:
			t = enc(rbytes(r, len(k)+1)) + "." + sig
		case 10:
			t = enc(append(append([]byte(nil), k...), byte(r.IntN(256)))) + "." + sig
		case 11:
			t = key + "." + enc(rbytes(r, len(s)))
		}
		if t != tok {
			return t
		}
	}
}

// equivalent changes bits of a token that mean nothing: those that are left
// over in the last character of a segment.
func equivalent(r *rand.Rand, tok string) string {
	const chars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	k, s, ok := strings.Cut(tok, ".")
	if !ok {
		return tok
	}
	parts := []string{k, s}
	for i, n := range shuffled(r, []int{0, 1}) {
		p := parts[n]
		free := map[int]int{2: 4, 3: 2}[len(p)%4]
		if free == 0 || i == 1 && r.IntN(3) > 0 {
			continue
		}
		at := strings.IndexByte(chars, p[len(p)-1])
		if at < 0 {
			return tok
		}
		parts[n] = p[:len(p)-1] + string(chars[at^(1+r.IntN(1<<free-1))])
	}
	return parts[0] + "." + parts[1]
}
