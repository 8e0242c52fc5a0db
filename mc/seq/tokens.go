//go:build go1.21

package main

import (
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"runtime"
	"strings"
	"time"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// ---------------------------------------------------------------- C06: token validity

// tokSpec is one combination of token features.
type tokSpec struct {
	alg    string // header alg
	sign   string // RS256, RS384, RS512, PS256, HSpem, HSn, HSoct, none
	key    string // signing key
	kid    string // raw JSON of kid header, "" absent
	exp    string // raw JSON, "" absent
	nbf    string
	tamper string
}

func (t tokSpec) String() string {
	return fmt.Sprintf("{alg=%s signed=%s with key %s kid=%s exp=%s nbf=%s tamper=%s}", t.alg, t.sign, t.key, t.kid, t.exp, t.nbf, t.tamper)
}

// valid is the oracle: 1 must be accepted, 0 must be rejected, -1 unspecified.
func (t tokSpec) valid() int {
	if t.alg != t.sign || !strings.HasPrefix(t.sign, "RS") && !strings.HasPrefix(t.sign, "PS") {
		return 0
	}
	if t.kid != fmt.Sprintf("%q", t.key) || t.key == "x" {
		return 0
	}
	switch t.tamper {
	case "":
	default:
		return 0
	}
	now := time.Now().Unix()
	for _, e := range []struct {
		raw string
		exp bool
	}{{t.exp, true}, {t.nbf, false}} {
		if e.raw == "" {
			continue
		}
		var f float64
		if json.Unmarshal([]byte(e.raw), &f) != nil || e.raw == "null" {
			return -1
		}
		if e.exp && f < float64(now) || !e.exp && f > float64(now) {
			return 0
		}
	}
	return 1
}

func pubPEM(name string) []byte {
	b, _ := x509.MarshalPKIXPublicKey(&lib.Key(name).PublicKey)
	return pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b})
}

var octSecret = []byte("published-symmetric-key")

func (t tokSpec) mint() string {
	h := map[string]json.RawMessage{"typ": json.RawMessage(`"JWT"`)}
	if t.alg != "-" {
		h["alg"] = json.RawMessage(fmt.Sprintf("%q", t.alg))
	}
	if t.kid != "" {
		h["kid"] = json.RawMessage(t.kid)
	}
	c := map[string]json.RawMessage{"sub": json.RawMessage(`"u"`), "aud": json.RawMessage(`"x"`)}
	if t.exp != "" {
		c["exp"] = json.RawMessage(t.exp)
	}
	if t.nbf != "" {
		c["nbf"] = json.RawMessage(t.nbf)
	}
	hj, cj := lib.JSON(h), lib.JSON(c)
	var tok string
	switch t.sign {
	case "HSpem":
		tok = lib.Sign(hj, cj, "HS256", pubPEM(t.key))
	case "HSn":
		tok = lib.Sign(hj, cj, "HS256", lib.Key(t.key).N.Bytes())
	case "HSoct":
		tok = lib.Sign(hj, cj, "HS256", octSecret)
	case "none":
		tok = lib.Sign(hj, cj, "none", nil)
	default:
		tok = lib.Sign(hj, cj, t.sign, lib.Key(t.key))
	}
	p := strings.Split(tok, ".")
	b64 := func(s string) string { return base64.RawURLEncoding.EncodeToString([]byte(s)) }
	switch t.tamper {
	case "payload":
		p[1] = b64(strings.Replace(cj, `"u"`, `"admin"`, 1))
	case "header":
		p[0] = b64(strings.Replace(hj, `"JWT"`, `"jwt"`, 1))
	case "sig-bit":
		b, _ := base64.RawURLEncoding.DecodeString(p[2])
		if len(b) > 0 {
			b[len(b)/2] ^= 1
		} else {
			b = []byte{0}
		}
		p[2] = base64.RawURLEncoding.EncodeToString(b)
	case "sig-cut":
		p[2] = p[2][:len(p[2])/2]
	case "sig-empty":
		if p[2] == "" {
			p[2] = "AA"
		} else {
			p[2] = ""
		}
	case "sig-other":
		o := strings.Split(lib.JWT("a", lib.Std("other", "y")), ".")
		p[2] = o[2]
	case "two-segments":
		p = p[:2]
	case "four-segments":
		p = append(p, "AAAA")
	case "padding":
		p[2] += "=="
	case "bad-base64":
		p[1] = p[1] + "!"
	}
	return strings.Join(p, ".")
}

func tokenSpecs(c *lib.Check) []tokSpec {
	now := time.Now().Unix()
	n := func(d int64) string { return fmt.Sprint(now + d) }
	type as struct{ alg, sign string }
	algs := []as{{"RS256", "RS256"}, {"RS384", "RS384"}, {"RS512", "RS512"}, {"PS256", "PS256"}, {"RS512", "RS256"}, {"HS256", "HSpem"}, {"HS256", "HSn"}, {"HS256", "HSoct"}, {"none", "none"}, {"None", "none"}, {"", "none"}, {"RS256", "none"}, {"-", "RS256"}, {"rs256", "RS256"}, {"ES256", "RS256"}}
	keys := []string{"a", "b", "x"}
	kids := []string{`"a"`, `"b"`, `"oct"`, `"unknown"`, `""`, ``, `5`, `null`, `["a"]`, `"a "`, `"A"`, `"ec"`}
	exps := []string{n(86400), n(-60), n(-86400), "", "0", "-1", fmt.Sprintf("%d.5", now+86400), `"never"`}
	nbfs := []string{"", n(-60), n(86400)}
	tampers := []string{"", "payload", "header", "sig-bit", "sig-cut", "sig-empty", "sig-other", "two-segments", "four-segments", "padding", "bad-base64"}
	var l []tokSpec
	for _, a := range algs {
		for _, k := range keys {
			for _, kid := range kids {
				for _, e := range exps {
					for _, nb := range nbfs {
						for _, t := range tampers {
							s := tokSpec{a.alg, a.sign, k, kid, e, nb, t}
							// quick: at most two features differ from a good token
							d := 0
							for _, x := range []bool{a != algs[0], k != "a", kid != `"a"`, e != exps[0], nb != "", t != ""} {
								if x {
									d++
								}
							}
							if d > c.Pick(5, 6) {
								continue
							}
							l = append(l, s)
						}
					}
				}
			}
		}
	}
	return l
}

func c06() {
	c := lib.NewCheck("C06", "exploration")
	c.Cov["rule"] = "all combinations of algorithm/signature x key x kid x exp x nbf x tampering, in the access token, the ID token, and both positions, with at most 5 (quick) or any number (thorough) of features deviating from a valid token; non-trivial: exactly one deviation, or none"
	idp := lib.NewIdP("c06", lib.K("a"), lib.PubKey{Raw: fmt.Sprintf(`{"kty":"oct","kid":"oct","alg":"HS256","k":%q}`, base64.RawURLEncoding.EncodeToString(octSecret))}, lib.K("b"),
		lib.PubKey{Raw: `{"kty":"EC","kid":"ec","crv":"P-256","x":"f83OJ3D2xF1Bg8vub9tLe1gHMzV76e8Tus9uPHvRVEU","y":"x_FEzRu9m36HLN_tue659LNpXW6pCyStikYjKIWI5a0"}`})
	w := lib.NewWorld(nil, nil)
	w.Set(lib.JwtConfig("ns", "j", idp.URL("jwks")))
	w.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
	good := lib.JWT("a", lib.Std("u", "x"))
	good2 := lib.JWT("b", lib.Std("u", "x"))
	specs := tokenSpecs(c)
	// warm the signature cache in one goroutine-safe pass and count
	modes := []string{"access", "id", "both"}
	lib.Parallel(len(specs), runtime.NumCPU(), func(i int) {
		if c.Stop() {
			return
		}
		s := specs[i]
		t := s.mint()
		want := s.valid()
		for _, mode := range modes {
			auth := ""
			switch mode {
			case "access":
				auth = "Bearer " + t
			case "id":
				auth = "Bearer " + good2 + " " + t
			case "both":
				auth = "bearer " + t + " " + t
			}
			r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Auth: auth}
			ask := func() lib.Res { return w.Do(r) }
			judge := func(res lib.Res) string {
				if want == 1 && res.Kind != lib.KOK {
					return "a valid token was rejected: " + res.String()
				}
				if want == 0 && res.Kind != lib.KDeny {
					return "an invalid token was not rejected: " + res.String()
				}
				return ""
			}
			res := ask()
			c.Count("evaluations", 1)
			c.Outcome(res.Kind + " " + res.Msg)
			nd := 0
			for _, x := range []bool{s.alg+s.sign != "RS256RS256", s.key != "a", s.kid != `"a"`, s.exp != specs[0].exp, s.nbf != "", s.tamper != ""} {
				if x {
					nd++
				}
			}
			if nd <= 1 {
				c.Count("distinct_nontrivial", 1)
			}
			if bad := judge(res); bad != "" {
				c.Violation("token", fmt.Sprintf("%s token %v: %s", mode, s, bad), map[string]interface{}{"token": s.String(), "position": mode, "authorization": auth}, func() bool { return judge(ask()) != "" })
			}
		}
	})
	c.Sample(map[string]string{"token": specs[len(specs)/2].String()})
	// Authorization header shapes with good and bad tokens
	bad := lib.JWT("x", lib.Std("u", "x"))
	exp := lib.JWT("a", lib.Std("u", "x").With("exp", lib.In(-time.Hour)))
	type shape struct {
		f    string
		want int // for good tokens
	}
	shapes := []shape{{"Bearer A", 1}, {"bearer A", 1}, {"Bearer A I", 1}, {"bearer A I", 1}, {"A", 0}, {"Basic A", 0}, {"Bearer", 0}, {"Bearer ", 0}, {"", 0}, {" ", 0}, {"Bearer  A", -1}, {"Bearer A ", -1}, {"BEARER A", -1}, {"Bearer A I I", -1}, {" Bearer A", -1}, {"Bearer\tA", -1}, {"Bearer A,I", 0}, {"Bearer I A I", -1}, {"Token A", 0}, {"BearerA", 0}, {"Bearer null", 0}, {"Bearer . .", 0}, {"Bearer ..", 0}, {"Bearer A ..", 0}, {"Bearer A .", 0}}
	for _, sh := range shapes {
		for _, at := range []string{good, bad, exp} {
			for _, it := range []string{good2, bad, exp} {
				auth := strings.Replace(strings.Replace(strings.Replace(strings.Replace(sh.f, "I", "\x01", -1), "A", "\x02", -1), "\x01", it, -1), "\x02", at, -1)
				if strings.HasPrefix(sh.f, "BearerA") {
					auth = "Bearer" + at
				}
				if sh.f == "BEARER A" {
					auth = "BEARER " + at
				}
				want := sh.want
				if strings.Contains(sh.f, "A") && at != good || strings.Contains(sh.f, "I") && it != good2 {
					want = 0
				}
				r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Auth: auth}
				ok := func(res lib.Res) bool {
					return !(want == 1 && res.Kind != lib.KOK || want == 0 && res.Kind != lib.KDeny || res.Kind == lib.KPanic)
				}
				res := w.Do(r)
				c.Count("evaluations", 1)
				c.Count("distinct_nontrivial", 1)
				if !ok(res) {
					c.Violation("header", fmt.Sprintf("Authorization %q (valid access %v, valid id %v): %v", sh.f, at == good, it == good2, res), map[string]string{"authorization": auth}, func() bool { return !ok(w.Do(r)) })
				}
			}
		}
	}
	// the moment of expiry and validity, on the explorer's clock
	lab := lib.NewLab()
	lab.W = w
	for _, d := range []time.Duration{-2 * time.Second, 2 * time.Second} {
		for _, claim := range []string{"exp", "nbf"} {
			t := lib.JWT("a", lib.Std("u", "x").With("exp", lib.In(200*time.Hour)).With(claim, lib.In(100*time.Hour)))
			ask := func() bool {
				lab.Offset = 100*time.Hour + d - time.Since(c.Start)
				return lab.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Auth: "Bearer " + t}).Kind == lib.KOK
			}
			want := (d < 0) == (claim == "exp")
			if claim == "nbf" {
				want = d > 0
			}
			c.Count("evaluations", 1)
			if d < 0 && time.Since(c.Start) < 0 {
				continue
			}
			if ask() != want {
				c.Violation("clock", fmt.Sprintf("token whose %s is %v after the current time: accepted=%v", claim, -d, !want), claim, func() bool { return ask() != want })
			}
		}
	}
	tokenContents(c)
	headerForms(c)
	tokenHistories(c)
	c.Finish()
}

// ---------------------------------------------------------------- C07: rules

// claimSet is the reference meaning of a claim value: its values, or unsupported, or missing.
func claimSet(v interface{}) (set map[string]bool, kind string) {
	set = map[string]bool{}
	num := func(f float64) string {
		b, _ := json.Marshal(f)
		if !strings.ContainsAny(string(b), "eE") {
			return string(b)
		}
		return strings.TrimSuffix(strings.TrimRight(fmt.Sprintf("%.20f", f), "0"), ".")
	}
	one := func(x interface{}) (string, bool) {
		switch t := x.(type) {
		case string:
			return t, true
		case bool:
			return fmt.Sprint(t), true
		case float64:
			return num(t), true
		}
		return "", false
	}
	switch t := v.(type) {
	case nil:
		return set, "missing"
	case string:
		for _, p := range strings.Split(t, " ") {
			set[p] = true
		}
		return set, "ok"
	case []interface{}:
		for _, x := range t {
			s, ok := one(x)
			if !ok {
				return nil, "unsupported"
			}
			set[s] = true
		}
		return set, "ok"
	}
	if s, ok := one(v); ok {
		set[s] = true
		return set, "ok"
	}
	return nil, "unsupported"
}

func claimAt(claims map[string]interface{}, name string) interface{} {
	var cur interface{} = claims
	for _, p := range strings.Split(name, ".") {
		m, ok := cur.(map[string]interface{})
		if !ok {
			return nil
		}
		cur = m[p]
	}
	return cur
}

// ruleHolds is the reference semantics: 1 yes, 0 no, -1 unspecified.
func ruleHolds(r v1.Rule, claims map[string]interface{}) int {
	set, kind := claimSet(claimAt(claims, r.Claim))
	has := func(v string) bool { return kind == "ok" && set[v] }
	switch r.Match {
	case "ANY":
		for _, v := range r.Values {
			if has(v) {
				return 1
			}
		}
		return 0
	case "NOT":
		if kind == "unsupported" {
			return -1
		}
		for _, v := range r.Values {
			if has(v) {
				return 0
			}
		}
		return 1
	default:
		if kind != "ok" || len(set) == 0 {
			return 0
		}
		for _, v := range r.Values {
			if !has(v) {
				return 0
			}
		}
		if len(r.Values) == 0 {
			return -1
		}
		return 1
	}
}

// rulesHold combines rules for a token pair (nil: token absent).
func rulesHold(rules []v1.Rule, access, id map[string]interface{}) int {
	res := 1
	for _, r := range rules {
		t := access
		if r.Source == "id_token" {
			t = id
		}
		h := 0
		if t != nil {
			h = ruleHolds(r, t)
		}
		if h == 0 {
			return 0
		}
		if h < 0 {
			res = -1
		}
	}
	return res
}

// decode gives the claims as a verifier sees them.
func decode(c lib.Claims) map[string]interface{} {
	var m map[string]interface{}
	_ = json.Unmarshal([]byte(lib.JSON(c)), &m)
	return m
}

type ruleCase struct {
	rules      []v1.Rule
	access, id lib.Claims // id nil: no ID token
	opaque     bool       // OIDC only: the access token is no JWT
}

func (k ruleCase) String() string {
	s := fmt.Sprintf("rules %s access claims %s", lib.JSON(k.rules), lib.JSON(k.access))
	if k.opaque {
		s = fmt.Sprintf("rules %s opaque access token", lib.JSON(k.rules))
	}
	if k.id != nil {
		s += " id claims " + lib.JSON(k.id)
	}
	return s
}

func (k ruleCase) want() int {
	var id map[string]interface{}
	if k.id != nil {
		id = decode(k.id)
	}
	if k.opaque {
		return rulesHold(k.rules, nil, id)
	}
	return rulesHold(k.rules, decode(k.access), id)
}

var ruleClaimValues = []interface{}{
	nil, "", "x", "x y", "y x z", "xy", " x", "x  y", "X", float64(1), 1.5, 1e6, 12345678901234.0, 1e21, 0.1, -3.0, true, false,
	[]interface{}{}, []interface{}{"x"}, []interface{}{"x", "y"}, []interface{}{1.0, "x", true}, []interface{}{"x y"}, []interface{}{1234567.0}, []interface{}{1.5}, []interface{}{1e21, 0.1}, []interface{}{-3.0, 12345678901234.0},
	[]interface{}{[]interface{}{"x"}}, []interface{}{map[string]interface{}{"x": "x"}}, []interface{}{nil}, []interface{}{"x", nil},
	map[string]interface{}{}, map[string]interface{}{"x": "x"}, map[string]interface{}{"b": "x"}, map[string]interface{}{"b": []interface{}{"x", "y"}}, map[string]interface{}{"b": map[string]interface{}{"c": "x y"}}, map[string]interface{}{"b": 1000000.0}, map[string]interface{}{"b": true},
	// JSON strings that look like other shapes
	"[x]", "1", "true", "x,y",
	// only a space separates
	"x\ty", "x\ny", "x\u00a0y", "x;y", "x|y", "x+y", "\"x\"", "x\r\ny",
	// other letters that fold to the same, or compare equal to, an expected one
	"\u212a", "k", "\u00e9", "e\u0301", "x\x00",
	[]interface{}{map[string]interface{}{"b": "x"}}, []interface{}{map[string]interface{}{"b": "x"}, map[string]interface{}{"b": "y"}}, map[string]interface{}{"b": []interface{}{map[string]interface{}{"c": "x y"}}}, map[string]interface{}{"B": "x", "b ": "x"},
}

var ruleValueSets = [][]string{
	{}, {"x"}, {"y"}, {"x", "y"}, {"y", "x"}, {"x", "q"}, {"q"}, {"x y"}, {"xy"}, {"1"}, {"1.5"}, {"1000000"}, {"12345678901234"}, {"1000000000000000000000"}, {"0.1"}, {"-3"}, {"true"}, {"false"}, {"x", "x"}, {"X"}, {"1", "x", "true"}, {"null"}, {"<nil>"}, {"map[x:x]"}, {"1e+06"}, {"1234567"}, {"1.234567e+06"}, {"1.000000"},
	{"K"}, {"k"}, {"\u00e9"}, {"x\ty"}, {"x;y"}, {" x"}, {"x "}, {""}, {"x", ""}, {"[x]"}, {"TRUE"}, {"01"}, {"1.0"}, {"x*"}, {"*"}, {".*"}, {"x,y"}, {"!x"},
}

func ruleCases(c *lib.Check) []ruleCase {
	var l []ruleCase
	base := lib.Std("u", "cid").With("iat", nil)
	with := func(name string, v interface{}) lib.Claims {
		n := base.With(name, v)
		if v == nil && name == "c" {
			// both a missing claim and an explicit null occur in the domain (the latter below)
		}
		return n
	}
	for _, m := range []string{"", "ALL", "ANY", "NOT"} {
		for _, src := range []string{"", "access_token", "id_token"} {
			for _, name := range []string{"c", "c.b", "c.b.c", "d"} {
				for _, vs := range ruleValueSets {
					for _, v := range ruleClaimValues {
						if name != "c" && name != "d" {
							_, ok := v.(map[string]interface{})
							if a, is := v.([]interface{}); is && len(a) > 0 {
								_, ok = a[0].(map[string]interface{})
							}
							if !ok && v != nil && v != "x" {
								continue
							}
						}
						if name == "d" && v != nil {
							continue
						}
						r := []v1.Rule{{Claim: name, Match: m, Values: vs, Source: src}}
						with1 := with("c", v)
						other := base.With("c", "x y 1 true")
						if src == "id_token" {
							l = append(l, ruleCase{rules: r, access: other, id: with1})
							if m != "NOT" {
								l = append(l, ruleCase{rules: r, access: with1}) // no ID token at all
							}
						} else {
							l = append(l, ruleCase{rules: r, access: with1}, ruleCase{rules: r, access: with1, id: other})
						}
					}
				}
			}
		}
	}
	// trees of claims: every place a dotted name can point to or nearly point to
	mp := func(kv ...interface{}) map[string]interface{} {
		m := map[string]interface{}{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	trees := []interface{}{nil, "x", mp(), mp("b", "x"), mp("c", "x"), mp("b", "q", "c", "x"), mp("b", mp("c", "x")), mp("c", mp("b", "x")), mp("b.c", "x"), mp("", "x")}
	for _, m := range []string{"ALL", "ANY", "NOT"} {
		for _, name := range []string{"c", "b", "c.b", "b.c", "c.c", "b.b", "c.b.c", "b.c.b", ".c", "c.", "c..b", "c.b.", "", ".", "C", "B", "C.b", "c.B", " c", "c "} {
			for _, vs := range [][]string{{"x"}, {"q"}} {
				for _, b := range trees {
					for _, cc := range trees {
						for _, dotted := range []string{"", "c.b", "b.c", "c.b.c", ".c"} {
							if c.Tier == "quick" && m != "ANY" && dotted != "" && dotted != name {
								continue
							}
							t := base.With("c", cc).With("b", b)
							if dotted != "" {
								t = t.With(dotted, "x")
							}
							l = append(l, ruleCase{rules: []v1.Rule{{Claim: name, Match: m, Values: vs}}, access: t})
						}
					}
				}
			}
		}
	}
	// explicit null
	for _, m := range []string{"ALL", "ANY", "NOT"} {
		n := lib.Claims{"aud": "cid", "exp": lib.In(24 * time.Hour), "c": json.RawMessage("null")}
		l = append(l, ruleCase{rules: []v1.Rule{{Claim: "c", Match: m, Values: []string{"null"}}}, access: n}, ruleCase{rules: []v1.Rule{{Claim: "c", Match: m, Values: []string{""}}}, access: n})
	}
	// missing ID token with every match type
	for _, m := range []string{"ALL", "ANY", "NOT", ""} {
		l = append(l, ruleCase{rules: []v1.Rule{{Claim: "c", Match: m, Values: []string{"x"}, Source: "id_token"}}, access: base.With("c", "x")})
	}
	// pairs and triples
	var dom []v1.Rule
	for _, m := range []string{"", "ALL", "ANY", "NOT"} {
		for _, src := range []string{"", "access_token", "id_token"} {
			for _, name := range []string{"c", "d"} {
				for _, vs := range [][]string{{"x"}, {"x", "y"}, {"z"}} {
					dom = append(dom, v1.Rule{Claim: name, Match: m, Values: vs, Source: src})
				}
			}
		}
	}
	toks := []lib.Claims{base.With("c", "x").With("d", "x y"), base.With("c", "z"), base.With("c", []string{"x", "y"}).With("d", "z")}
	for i, a := range dom {
		for j, b := range dom {
			if c.Tier == "quick" && (i+j)%2 == 1 && a.Source == b.Source && a.Claim == b.Claim {
				continue
			}
			for _, at := range toks {
				l = append(l, ruleCase{rules: []v1.Rule{a, b}, access: at}, ruleCase{rules: []v1.Rule{a, b}, access: at, id: toks[0]}, ruleCase{rules: []v1.Rule{a, b}, access: at, id: toks[1]})
			}
		}
	}
	if c.Thorough() {
		small := []v1.Rule{}
		for i := 0; i < len(dom); i += 3 {
			small = append(small, dom[i])
		}
		for _, a := range small {
			for _, b := range small {
				for _, d := range small {
					for _, at := range toks {
						l = append(l, ruleCase{rules: []v1.Rule{a, b, d}, access: at, id: toks[0]})
					}
				}
			}
		}
	}
	return l
}

func c07() {
	c := lib.NewCheck("C07", "exploration")
	c.Cov["rule"] = "every single rule of the domain against every claim shape (API flow), all ordered pairs (thorough: triples) of a reduced rule domain, and every case of the OIDC domain at the callback, for an existing session under a changed policy, and at refresh; non-trivial: the reference semantics decides the case"
	cases := ruleCases(c)
	idp := lib.NewIdP("c07", lib.K("a"))
	worlds := make(chan *lib.World, 16)
	for i := 0; i < 16; i++ {
		w := lib.NewWorld(polKubeInit(), polWeb)
		w.Set(lib.JwtConfig("ns", "j", idp.URL("jwks")))
		worlds <- w
	}
	apiAsk := func(w *lib.World, k ruleCase) lib.Res {
		w.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j", k.rules...))))
		auth := "Bearer " + lib.JWT("a", k.access)
		if k.id != nil {
			auth += " " + lib.JWT("a", k.id)
		}
		return w.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Auth: auth})
	}
	lib.Parallel(len(cases), runtime.NumCPU(), func(i int) {
		if c.Stop() {
			return
		}
		k := cases[i]
		want := k.want()
		w := <-worlds
		defer func() { worlds <- w }()
		bad := func(res lib.Res) bool {
			return want == 1 && res.Kind != lib.KOK || want == 0 && res.Kind != lib.KDeny || res.Kind == lib.KPanic
		}
		res := apiAsk(w, k)
		c.Count("evaluations", 1)
		if want >= 0 {
			c.Count("distinct_nontrivial", 1)
		}
		c.Outcome(fmt.Sprintf("api want=%d %s", want, res.Kind))
		if bad(res) {
			c.Violation("api", fmt.Sprintf("API request, %v: answered %v, reference says %d", k, res, want), map[string]interface{}{"rules": k.rules, "access": k.access, "id": k.id}, func() bool { return bad(apiAsk(w, k)) })
		}
	})
	c.Sample(map[string]interface{}{"case": cases[len(cases)/3].String()})
	c07oidc(c)
	policyMix(c)
	manyRules(c)
	c.Finish()
}

func polKubeInit() *lib.Kube { polInit(); return polKube }

// c07oidc enforces rules on the OIDC flows.
func c07oidc(c *lib.Check) {
	base := lib.Std("u", "cid").With("iat", nil)
	var cases []ruleCase
	vals := []interface{}{nil, "x", "x y", "z", []interface{}{"x", "y"}, true, map[string]interface{}{"b": "x"}}
	sets := [][]string{{"x"}, {"x", "y"}, {"q"}, {"true"}}
	for _, m := range []string{"", "ALL", "ANY", "NOT"} {
		for _, src := range []string{"", "access_token", "id_token"} {
			for _, name := range []string{"c", "c.b"} {
				for _, vs := range sets {
					r := []v1.Rule{{Claim: name, Match: m, Values: vs, Source: src}}
					for _, v := range vals {
						for _, o := range []interface{}{"x", "q"} {
							if src == "id_token" {
								cases = append(cases, ruleCase{rules: r, access: base.With("c", o), id: base.With("c", v)})
							} else {
								cases = append(cases, ruleCase{rules: r, access: base.With("c", v), id: base.With("c", o)})
							}
						}
					}
					cases = append(cases, ruleCase{rules: r, opaque: true, access: base, id: base.With("c", "x y")})
				}
			}
		}
	}
	// two rules, one per token
	for _, a := range []string{"ALL", "NOT"} {
		for _, b := range []string{"ANY", "NOT"} {
			for _, v1v := range vals {
				for _, v2v := range vals {
					rs := []v1.Rule{{Claim: "c", Match: a, Values: []string{"x"}}, {Claim: "c", Match: b, Values: []string{"x"}, Source: "id_token"}}
					cases = append(cases, ruleCase{rules: rs, access: base.With("c", v1v), id: base.With("c", v2v)})
					cases = append(cases, ruleCase{rules: []v1.Rule{rs[1], rs[0]}, access: base.With("c", v1v), id: base.With("c", v2v)})
				}
			}
		}
	}
	flows := []string{"callback", "session", "refresh"}
	lib.Parallel(len(cases), runtime.NumCPU(), func(i int) {
		if c.Stop() {
			return
		}
		k := cases[i]
		want := k.want()
		for _, flow := range flows {
			res, passed := oidcRuleFlow(k, flow)
			c.Count("evaluations", 1)
			if want >= 0 {
				c.Count("distinct_nontrivial", 1)
			}
			c.Outcome(fmt.Sprintf("%s want=%d passed=%v", flow, want, passed))
			bad := func(p bool, r lib.Res) bool { return want == 1 && !p || want == 0 && p || r.Kind == lib.KPanic }
			if bad(passed, res) {
				key := "oidc-" + flow
				if k.opaque && passed && k.rules[0].Source == "" && res.Kind != lib.KPanic {
					key = "opaque-access-token-with-omitted-rule-source"
				}
				c.Violation(key, fmt.Sprintf("OIDC %s, %v: passed=%v (%v), reference says %d", flow, k, passed, res, want), map[string]interface{}{"flow": flow, "rules": k.rules, "access": k.access, "id": k.id, "opaque": k.opaque},
					func() bool { r, p := oidcRuleFlow(k, flow); return bad(p, r) })
			}
		}
	})
	c.Sample(map[string]interface{}{"oidc case": cases[7].String()})
}

// oidcRuleFlow establishes a session and applies the rules at the given point; passed: a request gets through.
func oidcRuleFlow(k ruleCase, flow string) (lib.Res, bool) {
	l := lib.NewLab()
	defer l.Close()
	l.Secrets["cid"] = "secret-cid"
	l.W = lib.NewWorld(polKubeInit(), nil)
	l.W.Set(lib.OidcConfig("ns", "o", "cid", l.URL("disc")))
	pol := func(rules []v1.Rule) {
		l.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("oidc", "o", rules...))))
	}
	strict := k.rules
	lax := []v1.Rule{{Claim: "sub", Match: "ANY", Values: []string{"u"}, Source: "id_token"}}
	useCase := flow != "refresh"
	expired := flow == "refresh"
	l.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
		a, i := k.access, k.id
		if kind == "code" && expired {
			a, i = lib.Std("u", "cid").With("exp", lib.In(time.Hour)), lib.Std("u", "cid").With("exp", lib.In(time.Hour))
		}
		t.Access, t.ID = lib.JWT("a", a), lib.JWT("a", i)
		if k.opaque && !(kind == "code" && expired) {
			t.Access = "opaque-token"
		}
		return t.Body()
	}
	_ = useCase
	if flow == "callback" {
		pol(strict)
	} else {
		pol(lax)
	}
	b := lib.NewBrowser()
	r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p"}
	res := l.Do(r)
	a, err := lib.ParseAuth(res.Location)
	if res.Kind != lib.KRedirect || err != nil {
		return res, false
	}
	b.Apply(res)
	cb := r
	cb.Path, cb.Cookies, cb.Code, cb.State = "/p/oidc/callback", b.Cookies(), l.Code("u", "cid", a.Redirect), a.State
	res = l.Do(cb)
	b.Apply(res)
	if flow == "session" {
		pol(strict)
	}
	if flow == "refresh" {
		pol(strict)
		l.Offset = 2 * time.Hour
	}
	r.Cookies = b.Cookies()
	res2 := l.Do(r)
	if res2.Kind == lib.KPanic || res2.Kind == lib.KOK {
		return res2, res2.Kind == lib.KOK
	}
	if res.Kind == lib.KPanic {
		return res, false
	}
	return res2, false
}

// ---------------------------------------------------------------- C08: challenges

func c08() {
	c := lib.NewCheck("C08", "exploration")
	c.Cov["rule"] = "every Authorization header shape x access token defect x ID token defect x rule set; each rejected answer is parsed; non-trivial: the request was rejected"
	idp := lib.NewIdP("c08", lib.K("a"))
	w := lib.NewWorld(nil, nil)
	w.Set(lib.JwtConfig("ns", "j", idp.URL("jwks")))
	ruleSets := []struct {
		name   string
		rules  []v1.Rule
		scopes []string
	}{
		{"none", nil, nil},
		{"scope", []v1.Rule{{Claim: "scope", Match: "ALL", Values: []string{"read"}}}, []string{"read"}},
		{"scopes", []v1.Rule{{Claim: "scope", Match: "ALL", Values: []string{"read", "write"}}}, []string{"read", "write"}},
		{"other-then-scope", []v1.Rule{{Claim: "aud", Match: "ANY", Values: []string{"x"}}, {Claim: "scope", Match: "ANY", Values: []string{"a", "b", "c"}, Source: "access_token"}}, []string{"a", "b", "c"}},
		{"many scopes", []v1.Rule{{Claim: "scope", Match: "ALL", Values: []string{"openid", "profile.read", "https://api.test/x", "a:b", "e-f_g", "Z", "q1"}}}, []string{"openid", "profile.read", "https://api.test/x", "a:b", "e-f_g", "Z", "q1"}},
		{"repeated and similar scopes", []v1.Rule{{Claim: "scope", Match: "ANY", Values: []string{"read", "read:all", "Read"}}}, []string{"read", "read:all", "Read"}},
		{"no-scope-rule", []v1.Rule{{Claim: "aud", Match: "ANY", Values: []string{"y"}}}, nil},
		{"id", []v1.Rule{{Claim: "c", Match: "ALL", Values: []string{"v"}, Source: "id_token"}}, nil},
		{"id-and-scope", []v1.Rule{{Claim: "c", Match: "ALL", Values: []string{"v"}, Source: "id_token"}, {Claim: "scope", Match: "ALL", Values: []string{"read"}}}, []string{"read"}},
	}
	for i, rs := range ruleSets {
		w.Set(lib.Policy("ns", fmt.Sprintf("p%d", i), fmt.Sprintf("s%d", i), lib.Path("", "/", "ALL", lib.Pol("jwt", "j", rs.rules...))))
	}
	g := lib.Std("u", "x")
	toks := map[string]string{
		"ok": lib.JWT("a", g), "ok-scope": lib.JWT("a", g.With("scope", "read")), "ok-all": lib.JWT("a", g.With("scope", "read write a").With("c", "v")),
		"expired": lib.JWT("a", g.With("exp", lib.In(-time.Hour))), "future": lib.JWT("a", g.With("nbf", lib.In(time.Hour))), "forged": lib.Sign(`{"alg":"RS256","kid":"a"}`, lib.JSON(g), "RS256", lib.Key("x")),
		"unknown-kid": lib.JWT("x", g), "no-kid": lib.Sign(`{"alg":"RS256"}`, lib.JSON(g), "RS256", lib.Key("a")), "none": lib.Sign(`{"alg":"none","kid":"a"}`, lib.JSON(g), "none", nil),
		"garbage": "abc", "dots": "a.b.c", "empty": "", "quote": `a"b`, "long": strings.Repeat("A", 5000), "bad-claim": lib.JWT("a", g.With("scope", map[string]int{"read": 1})),
	}
	heads := []string{"Bearer A", "bearer A", "Bearer A I", "Basic A", "A", "", "Bearer", "Bearer A I I", "Bearer  A"}
	var names []string
	for n := range toks {
		names = append(names, n)
	}
	for si, rs := range ruleSets {
		for _, h := range heads {
			for _, an := range names {
				ids := []string{"ok"}
				if strings.Contains(h, "I") {
					ids = names
				}
				for _, in := range ids {
					auth := h
					if i := strings.Index(auth, "A"); i >= 0 {
						auth = strings.Replace(strings.Replace(h, "I", "\x01", -1), "A", toks[an], 1)
						auth = strings.Replace(auth, "\x01", toks[in], -1)
					}
					r := lib.Req{NS: "ns", Svc: fmt.Sprintf("s%d", si), Method: "GET", Path: "/p", Auth: auth}
					judge := func() string {
						res := w.Do(r)
						if res.Kind == lib.KOK {
							return ""
						}
						return badChallenge(res, rs.scopes)
					}
					res := w.Do(r)
					c.Count("evaluations", 1)
					if res.Kind != lib.KOK {
						c.Count("distinct_nontrivial", 1)
					}
					c.Outcome(res.WWW)
					if res.Kind == lib.KOK && (h == "Basic A" || h == "A" || h == "" || h == "Bearer") {
						c.Violation("challenge", fmt.Sprintf("request without bearer token passed: header %q", h), auth, func() bool { return w.Do(r).Kind == lib.KOK })
					}
					if bad := judge(); bad != "" {
						c.Violation("challenge", fmt.Sprintf("rules %s, header %q with access token %s, ID token %s: %s", rs.name, h, an, in, bad), map[string]string{"rules": rs.name, "authorization": auth}, func() bool { return judge() != "" })
					}
					if c.WantSample() && res.Kind != lib.KOK {
						c.Sample(map[string]interface{}{"rules": rs.name, "header": h, "access": an, "answer": res.String()})
					}
				}
			}
		}
	}
	c.Finish()
}

// badChallenge judges a rejected API answer.
func badChallenge(res lib.Res, scopes []string) string {
	if res.Kind == lib.KPanic {
		return "panic " + res.Err
	}
	if res.Kind == lib.KError {
		return "" // reported to the proxy as an error: not an API denial
	}
	if res.Kind != lib.KDeny || res.Status == 0 {
		return "not a denial: " + res.String()
	}
	code := map[int]string{401: "invalid_token", 400: "invalid_request", 403: "insufficient_scope", 500: ""}
	want, ok := code[res.HTTP]
	if !ok {
		return fmt.Sprintf("HTTP status %d", res.HTTP)
	}
	if res.OutAuth != "" || res.OutCookie != "" {
		return "denial carries output headers"
	}
	if !strings.HasPrefix(res.WWW, "Bearer") {
		return fmt.Sprintf("WWW-Authenticate is %q", res.WWW)
	}
	p := params(res.WWW)
	if p["error"] != want {
		return fmt.Sprintf("HTTP %d with error %q: %q", res.HTTP, p["error"], res.WWW)
	}
	if res.HTTP == 401 && len(scopes) > 0 {
		got := p["scope"] + p["scopes"]
		if got != strings.Join(scopes, " ") {
			return fmt.Sprintf("required scopes %v missing from %q", scopes, res.WWW)
		}
	}
	return ""
}

// params parses challenge parameters.
func params(h string) map[string]string {
	m := map[string]string{}
	h = strings.TrimPrefix(h, "Bearer")
	for _, kv := range strings.Split(h, "\", ") {
		kv = strings.TrimLeft(kv, " ,")
		if i := strings.Index(kv, "=\""); i > 0 {
			m[kv[:i]] = strings.TrimSuffix(kv[i+2:], "\"")
		}
	}
	return m
}

func init() { checks["C06"], checks["C07"], checks["C08"] = c06, c07, c08 }
