package harness

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"fmt"
	"strings"
	"testing"

	"github.com/256dpi/oauth2/v2"
)

const b64chars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

// decodeSegment is an independent decoder of unpadded URL-safe base64. It
// ignores line breaks and reports whether the spelling is the canonical one.
func decodeSegment(s string) (out []byte, canonical, ok bool) {
	canonical = true
	var acc uint32
	bits, n := 0, 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\r' || s[i] == '\n' {
			canonical = false
			continue
		}
		v := strings.IndexByte(b64chars, s[i])
		if v < 0 {
			return nil, false, false
		}
		acc = acc<<6 | uint32(v)
		bits += 6
		n++
		if bits >= 8 {
			bits -= 8
			out = append(out, byte(acc>>bits))
			acc &= 1<<bits - 1
		}
	}
	if n%4 == 1 {
		return nil, false, false
	}
	if acc != 0 {
		canonical = false
	}
	return out, canonical, true
}

func mac(secret, key []byte) []byte {
	m := hmac.New(sha256.New, secret)
	m.Write(key)
	return m.Sum(nil)
}

// judgeToken decides what parsing a string as a token has to yield.
func judgeToken(secret []byte, str string) (key, sig []byte, must, may bool) {
	parts := strings.Split(str, ".")
	if len(parts) != 2 {
		return
	}
	key, c1, ok1 := decodeSegment(parts[0])
	sig, c2, ok2 := decodeSegment(parts[1])
	if !ok1 || !ok2 || !bytes.Equal(sig, mac(secret, key)) {
		return nil, nil, false, false
	}
	return key, sig, c1 && c2, true
}

func checkToken(c *Case, secret []byte, str, kind string) {
	key, sig, must, may := judgeToken(secret, str)
	tk, err := oauth2.ParseHS256Token(secret, str)
	detail := func(what string) map[string]any {
		return map[string]any{"what": what, "secret": fmt.Sprintf("%x", secret), "string": fmt.Sprintf("%q", str), "mutation": kind, "error": fmt.Sprint(err), "token": fmt.Sprintf("%x", tk)}
	}
	switch {
	case (tk == nil) == (err == nil):
		c.Violate("both or neither", detail("parsing returned both or neither of token and error"))
	case err == nil && !may:
		c.Violate("forged:"+kind, detail("a string was accepted that is no token of this secret"))
	case err != nil && must:
		c.Violate("rejected:"+kind, detail("a genuine token was rejected"))
	case err == nil && (!bytes.Equal(tk.Key, key) || !bytes.Equal(tk.Signature, sig)):
		c.Violate("bytes:"+kind, detail("the parsed token holds other bytes"))
	}
	switch {
	case must:
		c.Count("strings that had to be accepted", 1)
	case may:
		c.Count("strings spelled unusually", 1)
	default:
		c.Count("strings that had to be rejected", 1)
	}
	c.Eval(kind + "\x00" + str)
}

func init() {
	checks["C01"] = func(t *testing.T, r *Run) {
		r.Rule("random secrets and keys of all lengths; genuine tokens and every kind of mutation of them (all single bit flips, truncations and extensions of some, other spellings, alphabets and segments, other secrets) are parsed and compared with an independent decoder and HMAC; distinct by mutation and string")
		r.Cases("tokens", r.N(90000, 600000), func(c *Case) {
			rr := c.R
			lens := []int{0, 1, 2, 15, 16, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 1000}
			secret := rbytes(rr, pick(rr, lens))
			key := rbytes(rr, rr.IntN(70))
			if chance(rr, 0.02) {
				key = rbytes(rr, 1000)
			}
			orig := append([]byte(nil), key...)
			tk := oauth2.HS256TokenFromKey(secret, key)
			sig := mac(secret, key)
			fail := func(sig, format string, args ...any) {
				c.Violate(sig, map[string]any{"what": fmt.Sprintf(format, args...), "secret": fmt.Sprintf("%x", secret), "key": fmt.Sprintf("%x", orig)})
			}
			if !bytes.Equal(tk.Key, orig) || !bytes.Equal(key, orig) || !bytes.Equal(tk.Signature, sig) {
				fail("construct", "constructed token is %x.%x", tk.Key, tk.Signature)
				return
			}
			str := tk.String()
			if want := rawb64.EncodeToString(orig) + "." + rawb64.EncodeToString(sig); str != want || tk.KeyString() != rawb64.EncodeToString(orig) || tk.SignatureString() != rawb64.EncodeToString(sig) {
				fail("render", "token is rendered as %q instead of %q", str, want)
				return
			}
			checkToken(c, secret, str, "genuine")
			if !tk.Valid(secret) {
				fail("valid", "a genuine token is not valid")
			}
			if c.wantSample() {
				c.Sample(map[string]string{"secret": fmt.Sprintf("%x", secret), "token": str})
			}

			// other secrets
			other := append([]byte(nil), secret...)
			switch rr.IntN(4) {
			case 0:
				other = append(other, byte(1+rr.IntN(255)))
			case 1:
				if len(other) > 0 {
					other[rr.IntN(len(other))] ^= 1 << rr.IntN(8)
				}
			case 2:
				if len(other) > 0 {
					other = other[:rr.IntN(len(other))]
				}
			case 3:
				other = rbytes(rr, 1+rr.IntN(40))
			}
			checkToken(c, other, str, "other secret")
			if got, want := tk.Valid(other), hmac.Equal(mac(other, orig), sig); got != want {
				fail("valid other", "validity under the secret %x is %v", other, got)
			}

			// a secret whose buffer is changed in place
			if len(secret) > 0 {
				buf := append([]byte(nil), secret...)
				checkToken(c, buf, str, "reused buffer")
				buf[rr.IntN(len(buf))] ^= 1 << rr.IntN(8)
				checkToken(c, buf, str, "changed buffer")
				if got, want := tk.Valid(buf), hmac.Equal(mac(buf, orig), sig); got != want {
					fail("valid changed buffer", "validity under the secret %x is %v", buf, got)
				}
				tk2 := oauth2.HS256TokenFromKey(buf, orig)
				if !bytes.Equal(tk2.Signature, mac(buf, orig)) {
					fail("construct changed buffer", "constructed token is %x.%x with the secret %x", tk2.Key, tk2.Signature, buf)
				}
			}

			// mutations of the string
			for i := 0; i < 6; i++ {
				checkToken(c, secret, tamper(rr, str), "tampered")
			}
			k, s := rawb64.EncodeToString(orig), rawb64.EncodeToString(sig)
			for i := 0; i < 4; i++ {
				pos := rr.IntN(len(str) + 1)
				ins := pick(rr, []string{"=", ".", "\n", "\r\n", " ", "+", "/", "A", "-", "_", "\x00", "ä", "%3D", "=="})
				checkToken(c, secret, str[:pos]+ins+str[pos:], "inserted")
				pos = rr.IntN(len(str))
				checkToken(c, secret, str[:pos]+str[pos+1:], "deleted")
				checkToken(c, secret, str[:pos]+string(rune(rr.IntN(128)))+str[pos+1:], "replaced")
				checkToken(c, secret, str[:pos], "truncated")
			}
			checkToken(c, secret, strings.NewReplacer("-", "+", "_", "/").Replace(str), "standard alphabet")
			checkToken(c, secret, k+strings.Repeat("=", (4-len(k)%4)%4)+"."+s+"=", "padded")
			checkToken(c, secret, k+".."+s, "two dots")
			checkToken(c, secret, "."+str, "leading dot")
			checkToken(c, secret, str+".", "trailing dot")
			checkToken(c, secret, k+"."+fmt.Sprintf("%x", sig), "hex signature")
			checkToken(c, secret, rawb64.EncodeToString(mac(secret, sig))+"."+s, "signature of signature")
			// the last character of the signature carries unused bits
			if last := strings.IndexByte(b64chars, s[len(s)-1]); last >= 0 {
				checkToken(c, secret, k+"."+s[:len(s)-1]+string(b64chars[last^1]), "unused bits")
				checkToken(c, secret, k+"."+s[:len(s)-1]+string(b64chars[last^4]), "used bits")
			}
			checkToken(c, secret, text(rr), "text")
			checkToken(c, secret, word(rr)+"."+word(rr), "words")
			// tokens signed by weaker means
			h := sha256.Sum256(append(append([]byte(nil), secret...), orig...))
			checkToken(c, secret, k+"."+rawb64.EncodeToString(h[:]), "plain hash")
			checkToken(c, secret, k+"."+rawb64.EncodeToString(mac(nil, orig)), "empty secret")
			checkToken(c, secret, k+"."+rawb64.EncodeToString(mac(orig, secret)), "swapped hmac")
			checkToken(c, secret, k+"."+rawb64.EncodeToString(mac(secret, []byte(k))), "hmac of the text")
			checkToken(c, secret, "."+rawb64.EncodeToString(mac(secret, nil)), "empty key")

			// exhaustive bit flips and lengths for some
			if c.Index%50 == 0 {
				for b := 0; b < len(sig)*8; b++ {
					s2 := append([]byte(nil), sig...)
					s2[b/8] ^= 1 << (b % 8)
					checkToken(c, secret, k+"."+rawb64.EncodeToString(s2), "signature bit")
				}
				for b := 0; b < len(orig)*8; b++ {
					k2 := append([]byte(nil), orig...)
					k2[b/8] ^= 1 << (b % 8)
					checkToken(c, secret, rawb64.EncodeToString(k2)+"."+s, "key bit")
				}
				for n := 0; n < len(sig); n++ {
					checkToken(c, secret, k+"."+rawb64.EncodeToString(sig[:n]), "short signature")
					checkToken(c, secret, k+"."+rawb64.EncodeToString(append(append([]byte(nil), sig...), sig[:n+1]...)), "long signature")
				}
			}

			// the predicates
			for i := 0; i < 6; i++ {
				var x []byte
				switch i {
				case 0:
				case 1:
					x = append([]byte(nil), sig...)
				case 2:
					x = sig[:rr.IntN(len(sig))]
				case 3:
					x = append(append([]byte(nil), sig...), rbytes(rr, 1+rr.IntN(3))...)
				case 4:
					x = append([]byte(nil), sig...)
					x[rr.IntN(len(x))] ^= 1 << rr.IntN(8)
				case 5:
					x = rbytes(rr, 32)
				}
				want := bytes.Equal(x, sig)
				if got := tk.Equal(x); got != want {
					fail("equal", "comparison with the signature %x yields %v", x, got)
				}
				y := &oauth2.HS256Token{Key: orig, Signature: x}
				if got := y.Valid(secret); got != want {
					fail("valid arbitrary", "validity with the signature %x is %v", x, got)
				}
				if y.Equal(sig) != want {
					fail("equal reversed", "comparison of signature %x with the right one yields %v", x, !want)
				}
				c.Count("predicates compared", 3)
			}
		})
		r.Floor("strings that had to be accepted", 1000)
		r.Floor("strings spelled unusually", 1000)
		r.Floor("strings that had to be rejected", 1000)
	}
}
