//go:build go1.21

package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"runtime"
	"strings"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// tokenContents (C06): headers and claims that are neither the algorithm, the kid nor the signature. Only exp and nbf
// decide about a correctly signed token, and nothing a token says about its own key makes another key's signature good.
func tokenContents(c *lib.Check) {
	idp := lib.NewIdP("c06c", lib.K("a"))
	evil := lib.NewIdP("c06e", lib.K("x"))
	w := lib.NewWorld(nil, nil)
	w.Set(lib.JwtConfig("ns", "j", idp.URL("jwks")))
	w.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
	now := time.Now().Unix()
	pub := lib.Key("x").PublicKey
	b64 := func(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }
	jwk := map[string]string{"kty": "RSA", "kid": "a", "alg": "RS256", "n": b64(pub.N.Bytes()), "e": b64(big.NewInt(int64(pub.E)).Bytes())}
	obj := func(kv ...interface{}) map[string]interface{} {
		m := map[string]interface{}{}
		for i := 0; i+1 < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	many := obj()
	for i := 0; i < 200; i++ {
		many[fmt.Sprintf("claim%d", i)] = i
	}
	headers := []map[string]interface{}{
		obj("typ", "JWT"), obj(), obj("typ", "at+jwt"), obj("typ", "jwt"), obj("typ", "JOSE"), obj("typ", 5), obj("typ", "JWT", "cty", "JWT"), obj("x5t", "abc"), obj("typ", "JWT", "jwk", jwk), obj("jku", evil.URL("jwks")), obj("x5u", evil.URL("jwks"), "x5c", []string{"AAAA"}), obj("typ", "JWT", "iss", "x", "exp", 1), obj("typ", nil), many,
	}
	bodies := []map[string]interface{}{
		obj("sub", "u", "aud", "x"), obj(), obj("sub", "u", "aud", []string{"x", "y"}, "jti", "1", "azp", "x"), obj("iss", "https://other.test", "sub", "u"), obj("sub", 5, "aud", nil), obj("kid", "x", "alg", "none", "exp2", 0), many, obj("sub", strings.Repeat("\u00fc", 5000)), obj("EXP", 1, "Nbf", now+1e6),
	}
	times := []int64{0, now - 86400, now - 60, now + 86400, now + 90000}
	type tok struct {
		h, b          map[string]interface{}
		exp, nbf, iat int64
		kid, key      string
	}
	var all []tok
	for _, k := range []string{"a", "x"} { // signed by the configured key, by another
		for _, kid := range []string{"a", "x"} {
			for hi, h := range headers {
				for bi, b := range bodies {
					for ei, e := range times {
						for ni, n := range times {
							for ii, iat := range times {
								dev := 0
								for _, x := range []int{hi, bi, (ei + 2) % 5, ni, ii} {
									if x != 0 {
										dev++
									}
								}
								if dev > c.Pick(2, 5) && !(hi+bi == 0) {
									continue
								}
								all = append(all, tok{h, b, e, n, iat, kid, k})
							}
						}
					}
				}
			}
		}
	}
	lib.Parallel(len(all), runtime.NumCPU(), func(i int) {
		if c.Stop() {
			return
		}
		t := all[i]
		h, b := obj("alg", "RS256", "kid", t.kid), obj()
		for k, v := range t.h {
			h[k] = v
		}
		for k, v := range t.b {
			b[k] = v
		}
		want := 1
		for n, v := range map[string]int64{"exp": t.exp, "nbf": t.nbf, "iat": t.iat} {
			if v != 0 {
				b[n] = v
			}
		}
		if t.iat > now {
			want = -1 // the statement does not speak of iat
		}
		if t.key != "a" || t.kid != "a" || t.exp != 0 && t.exp < now || t.nbf > now {
			want = 0
		}
		hj, _ := json.Marshal(h)
		bj, _ := json.Marshal(b)
		r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Auth: "Bearer " + lib.Sign(string(hj), string(bj), "RS256", lib.Key(t.key))}
		judge := func() string {
			res := w.Do(r)
			if res.Kind == lib.KPanic || want == 1 && res.Kind != lib.KOK || want == 0 && res.Kind != lib.KDeny {
				return res.String()
			}
			return ""
		}
		c.Count("evaluations", 1)
		c.Count("distinct_nontrivial", 1)
		if bad := judge(); bad != "" {
			c.Violation("contents", fmt.Sprintf("token signed by key %s, header %.200s, claims %.200s (wanted %d): %s", t.key, hj, bj, want, bad), r.Auth, func() bool { return judge() != "" })
		}
	})
	if len(evil.Requests("jwks")) > 0 {
		c.Violation("contents", "a token made the adapter fetch keys from where the token said", nil, nil)
	}
}
