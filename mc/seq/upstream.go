//go:build go1.21

package main

import (
	"net/http"
	"encoding/base64"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// ---------------------------------------------------------------- C15: key sets

type ksFault struct {
	name string
	a    *lib.Answer
}

func bodyFaults() []ksFault {
	half := func(s string) string { return s[:len(s)*2/3] }
	good := lib.JWKS([]lib.PubKey{lib.K("a"), lib.K("b"), lib.K("c")})
	mk := func(name string, status int, body string) ksFault {
		return ksFault{name, &lib.Answer{Status: status, Body: body}}
	}
	return []ksFault{
		{"works", nil},
		{"unreachable", &lib.Answer{Err: lib.ErrNet}},
		{"timeout", &lib.Answer{Err: lib.ErrTimeout}},
		mk("500", 500, "oops"),
		mk("404 with keys in the body", 404, good),
		mk("503 JSON error", 503, `{"error":"server_error"}`),
		mk("not JSON", 200, "<html>"),
		mk("empty body", 200, ""),
		mk("null", 200, "null"),
		mk("no keys", 200, "{}"),
		mk("keys null", 200, `{"keys":null}`),
		mk("keys is a string", 200, `{"keys":"x"}`),
		mk("array", 200, "[]"),
		mk("keys under another name", 200, strings.Replace(good, `"keys"`, `"jwks"`, 1)),
		{"truncated", &lib.Answer{Status: 200, Body: half(good), Trunc: true}},
		mk("cut off", 200, half(good)),
		mk("204", 204, ""),
		mk("410", 410, `{"error":"gone"}`),
		mk("404 JSON", 404, "{}"),
		mk("401 JSON", 401, `{"error":"invalid_client"}`),
		mk("429 JSON", 429, `{"keys":[]}`),
		mk("300 with keys in the body", 300, good),
		mk("300 error object", 300, `{"error":"x"}`),
		mk("302 JSON", 302, "{}"),
		mk("304", 304, ""),
	}
}

type ksInst struct {
	faults []ksFault
	sets   [][]lib.PubKey
	oidc   bool
	l      *lib.Lab
	pub    int
	fault  int
	last   map[string]string // kid -> key name, of the last successful fetch; nil before the first
	seen   int               // jwks requests examined
	logs   []int             // set of each successful fetch
}

var ksNames = []string{"{}", "{a}", "{b}", "{a,b}", "{b,a,c}", "{a: key of b}"}

func (x *ksInst) close() { x.l.Close() }

func (x *ksInst) setOf() map[string]string {
	m := map[string]string{}
	for _, k := range x.sets[x.pub] {
		for _, n := range []string{"a", "b", "c"} {
			if lib.Key(n) == k.Key {
				m[k.Kid] = n
			}
		}
	}
	return m
}

// answer is what the key set endpoint answers unless it serves the published keys and nothing else.
func (x *ksInst) answer() *lib.Answer {
	switch f := x.faults[x.fault]; f.name {
	case "keys next to unusable ones":
		l := []string{`{"kid":"e1","kty":"EC","crv":"P-256","x":"AA","y":"AA"}`, `{"kid":"e2","kty":"RSA"}`}
		for _, k := range x.sets[x.pub] {
			l = append(l, lib.JWK(k))
		}
		a := lib.OK(`{"keys":[` + strings.Join(append(l, `{"kid":"e3","kty":"oct","k":"AAAA"}`), ",") + `]}`)
		return &a
	case "keys published twice":
		a := lib.OK(lib.JWKS(append(append([]lib.PubKey(nil), x.sets[x.pub]...), x.sets[x.pub]...)))
		return &a
	default:
		return f.a
	}
}

// sync records the fetches made since the last call.
func (x *ksInst) sync() (fetched bool) {
	n := len(x.l.Requests("jwks"))
	fetched = n > x.seen
	if fetched && x.faults[x.fault].a == nil {
		x.last = x.setOf()
	}
	x.seen = n
	return
}

func (x *ksInst) ask(kid, key string) (lib.Res, bool) {
	tok := lib.Sign(fmt.Sprintf(`{"alg":"RS256","kid":%q}`, kid), lib.JSON(lib.Std("u", "x")), "RS256", lib.Key(key))
	res := x.l.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x", Auth: "Bearer " + tok})
	return res, res.Kind == lib.KOK
}

func (x *ksInst) step(ev int) (string, bool) {
	nf, ns := len(x.faults), len(x.sets)
	switch {
	case ev < nf:
		if x.fault == ev {
			return "", false
		}
		x.fault = ev
		return "", true
	case ev < nf+ns:
		if x.pub == ev-nf {
			return "", false
		}
		x.pub = ev - nf
		x.l.SetKeys(x.sets[x.pub]...)
		return "", true
	case ev == nf+ns+len(ksToks): // configuration delivered again
		x.l.W.Set(lib.JwtConfig("ns", "j", x.l.URL("jwks")))
		x.last = nil
		x.sync()
		return "", true
	}
	t := ksToks[ev-nf-ns]
	before := x.last
	res, ok := x.ask(t[0], t[1])
	if res.Kind == lib.KPanic {
		return "panic: " + res.Err, true
	}
	x.sync()
	now := x.setOf()
	works := x.faults[x.fault].a == nil
	want := -1
	switch {
	case works && now[t[0]] == t[1] && (before[t[0]] == t[1] || before[t[0]] == ""):
		want = 1 // published, and not shadowed by a cached key of the same kid
	case works && now[t[0]] == t[1]:
		want = 2 // reused kid
	case before[t[0]] == t[1] && !works:
		want = 1 // known
	case before[t[0]] == t[1]:
		want = 2 // withdrawn, but the adapter need not know
	default:
		want = 0
	}
	if want == 1 && !ok || want == 0 && ok {
		return fmt.Sprintf("token of key %s under kid %s is answered %v; published now %v (%s), known from the last successful fetch %v", t[1], t[0], res, now, x.faults[x.fault].name, before), true
	}
	return "", true
}

var ksToks = [][2]string{{"a", "a"}, {"b", "b"}, {"c", "c"}, {"a", "b"}, {"zz", "a"}}

func (x *ksInst) key() string {
	// the provider's address contains a number of the instance
	return lib.DumpWith(x.l.W.Store, func(s string) string { return strings.ReplaceAll(s, "/"+x.l.ID+"/", "/P/") }) + fmt.Sprint(x.pub, x.fault, x.last)
}
func (x *ksInst) probe() string { return "" }

func c15() {
	polInit()
	c := lib.NewCheck("C15", "model_checking")
	sets := [][]lib.PubKey{{}, {lib.K("a")}, {lib.K("b")}, {lib.K("a"), lib.K("b")}, {lib.K("b"), lib.K("a"), lib.K("c")}, {{Kid: "a", Key: lib.Key("b")}}}
	faults := append(bodyFaults(), ksFault{"keys next to unusable ones", nil}, ksFault{"keys published twice", nil})
	for start := 0; start < 3; start++ {
		start := start
		m := &model{name: []string{"created while working", "created while unreachable", "created with an empty set"}[start], n: len(faults) + len(sets) + len(ksToks) + 1, depth: c.Pick(9, 20),
			show: func(e int) string {
				switch {
				case e < len(faults):
					return "key set endpoint: " + faults[e].name
				case e < len(faults)+len(sets):
					return "published keys: " + ksNames[e-len(faults)]
				case e < len(faults)+len(sets)+len(ksToks):
					return fmt.Sprintf("request with a token of kid, key %v", ksToks[e-len(faults)-len(sets)])
				}
				return "JwtConfig delivered again"
			},
			start: func() inst {
				x := &ksInst{faults: faults, sets: sets, l: lib.NewLab(), pub: 1}
				x.l.Fault = func(ep string, r *lib.Rec) *lib.Answer {
					if ep == "jwks" {
						return x.answer()
					}
					return nil
				}
				if start == 1 {
					x.fault = 1
				}
				if start == 2 {
					x.pub = 0
				}
				x.l.SetKeys(sets[x.pub]...)
				x.l.W = lib.NewWorld(polKube, polWeb)
				x.l.W.Set(lib.JwtConfig("ns", "j", x.l.URL("jwks")))
				x.l.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
				x.sync()
				return x
			}}
		m.bfs(c)
	}
	keyForms(c)
	oidcKeys(c)
	longKeyOutages(c)
	manyKeys(c)
	concurrent(c)
	traces(c)
	c.Finish()
}

// keyForms: malformed keys next to good ones, unusual but good keys.
func keyForms(c *lib.Check) {
	k := lib.Key("a")
	n, e := k.N.Bytes(), []byte{1, 0, 1}
	u, us, sd, ss := base64.RawURLEncoding, base64.URLEncoding, base64.StdEncoding, base64.RawStdEncoding
	gn := u.EncodeToString(n)
	bad := []string{ // %s is the kid
		`{}`, `null`, `1`, `"x"`, `[]`, `true`, `{"kid":"%s"}`, `{"kid":"%s","kty":"RSA"}`, `{"kid":"%s","kty":"RSA","n":"","e":"AQAB"}`, `{"kid":"%s","kty":"RSA","n":"` + gn + `","e":""}`, `{"kid":"%s","kty":"RSA","n":"` + gn + `"}`,
		`{"kid":"%s","kty":"RSA","n":"***","e":"AQAB"}`, `{"kid":"%s","kty":"RSA","n":"` + gn + `","e":"***"}`, `{"kid":"%s","kty":"EC","crv":"P-256","x":"AA","y":"AA"}`, `{"kid":"%s","kty":"oct","k":"AAAA"}`, `{"kid":"%s","kty":"OKP","crv":"Ed25519","x":"AA"}`,
		`{"kid":"%s","kty":"rsa-x","n":"` + gn + `","e":"AQAB"}`, `{"kid":"%s","kty":"","n":"` + gn + `","e":"AQAB"}`, `{"kid":"%s","n":"` + gn + `","e":"AQAB"}`, `{"kid":1,"kty":"RSA","n":"` + gn + `","e":"AQAB"}`, `{"kid":"%s","kty":"RSA","n":5,"e":"AQAB"}`, `{"kid":"%s","kty":"RSA","n":"` + gn + `","e":65537}`,
		`{"kid":"%s","kty":["RSA"],"n":"` + gn + `","e":"AQAB"}`, `{"kid":"%s","kty":"RSA","n":null,"e":null}`, `{"kid":"%s","kty":"RSA","n":"AA","e":"AQAB"}`, `{"kid":"%s","kty":"RSA","n":"AQ","e":"AQAB"}`, `{"kid":"%s","kty":"RSA","n":"` + gn + `","e":"AA"}`, `{"kid":"%s","kty":"RSA","n":"` + gn + `","e":"/////////w"}`,
		`{"kid":"%s","kty":"RSA","n":"` + gn + `","e":"AQABAQABAQAB"}`, `{"kid":"%s","kty":"RSA","n":"` + gn[:10] + `","e":"AQAB"}`, `{"kid":{},"kty":"RSA"}`,
	}
	stops := []bool{} // whether a bad key carrying the same kid as a good one leaves the good one alone: those that cannot be decoded at all
	for _, b := range bad {
		dec := !strings.Contains(b, `"n":"AA"`) && !strings.Contains(b, `"n":"AQ"`) && !strings.Contains(b, `"e":"AA"`) && !strings.Contains(b, `////`) && !strings.Contains(b, `AQABAQAB`) && !strings.Contains(b, `"n":"`+gn[:10]+`"`)
		stops = append(stops, dec)
	}
	good := func(kid string) string { return lib.JWK(lib.PubKey{Kid: kid, Key: k}) }
	runAlg := func(set, kid, key, alg string, want int) string {
		l := lib.NewLab()
		defer l.Close()
		l.Fault = func(ep string, r *lib.Rec) *lib.Answer {
			if ep == "jwks" {
				a := lib.OK(set)
				return &a
			}
			return nil
		}
		l.W = lib.NewWorld(polKube, polWeb)
		l.W.Set(lib.JwtConfig("ns", "j", l.URL("jwks")))
		l.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
		tok := lib.Sign(lib.JSON(map[string]string{"alg": alg, "kid": kid}), lib.JSON(lib.Std("u", "x")), alg, lib.Key(key))
		res := l.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x", Auth: "Bearer " + tok})
		if res.Kind == lib.KPanic {
			return "panic: " + res.Err
		}
		if want == 1 && res.Kind != lib.KOK || want == 0 && res.Kind == lib.KOK {
			return fmt.Sprintf("token of key %s, kid %q answered %v with the key set %.400s", key, kid, res, set)
		}
		return ""
	}
	run := func(set, kid, key string, want int) string { return runAlg(set, kid, key, "RS256", want) }
	product(c, "malformed keys", []int{len(bad), len(bad), 3, 4}, func(i []int) (string, interface{}, string) {
		kid := "m"
		same := i[3] == 1
		if same {
			kid = "a"
		}
		l := []string{strings.ReplaceAll(bad[i[0]], "%s", kid), strings.ReplaceAll(bad[i[1]], "%s", kid)}
		l = append(l[:i[2]], append([]string{good("a")}, l[i[2]:]...)...)
		set := `{"keys":[` + strings.Join(l, ",") + `]}`
		show := set
		if len(show) > 600 {
			show = show[:600]
		}
		if same && !(stops[i[0]] && stops[i[1]]) {
			return "", nil, "skip"
		}
		switch i[3] {
		case 2:
			return run(set, "m", "a", 2), show, "malformed kid" // whether such a key is usable is not asserted, but nothing panics
		case 3:
			return run(set, "m", "b", 0), show, "forged under the malformed kid"
		}
		return run(set, "a", "a", 1), show, "good key next to malformed ones"
	})
	kids := []string{"a", "k/1+=", "\u00fc\u00df", strings.Repeat("k", 500), "1", " ", "null", "a b", `q"uote`, "<&>"}
	ns := []string{gn, us.EncodeToString(n), sd.EncodeToString(n), ss.EncodeToString(n), u.EncodeToString(append([]byte{0}, n...)), us.EncodeToString(append([]byte{0, 0}, n...))}
	es := []string{u.EncodeToString(e), us.EncodeToString(append([]byte{0}, e...)), "AQAB"}
	extra := []string{"", `,"use":"sig"`, `,"alg":"RS256"`, `,"x5c":["AAAA"],"key_ops":["verify"],"x5t":"x","x5u":"y"`, `,"extra":{"a":[1]}`, `,"use":"sig","alg":"RS256","d":"AA"`}
	product(c, "good key forms", []int{len(kids), len(ns), len(es), len(extra)}, func(i []int) (string, interface{}, string) {
		kj := lib.JSON(kids[i[0]])
		set := fmt.Sprintf(`{"keys":[{"kty":"RSA","kid":%s,"n":"%s","e":"%s"%s}],"other":1}`, kj, ns[i[1]], es[i[2]], extra[i[3]])
		show := fmt.Sprintf("%.60s n form %d, e %s%s", kj, i[1], es[i[2]], extra[i[3]])
		if b := run(set, kids[i[0]], "a", 1); b != "" {
			return b, show, ""
		}
		return run(set, kids[i[0]], "b", 0), show, "good and forged"
	})
	// key sizes, exponents and declared algorithms; among other keys
	names := []string{"rsa1024-e3", "rsa1024-e17", "rsa1024-e257", "rsa1024-e16777259", "rsa1024-e2147483647", "rsa1031-e65537", "rsa1536-e65537", "rsa2048-e65537", "rsa2048-e3", "rsa3072-e65537"}
	if c.Thorough() {
		names = append(names, "rsa4096-e65537", "rsa2047-e65539", "rsa1600-e5")
	}
	algs := []string{"RS256", "RS384", "RS512"}
	product(c, "key sizes and algorithms", []int{len(names), len(algs), 5, 6, 3}, func(i []int) (string, interface{}, string) {
		name, alg := names[i[0]], algs[i[1]]
		key := lib.Key(name)
		m := map[string]interface{}{"kty": "RSA", "kid": "k", "n": u.EncodeToString(key.N.Bytes()), "e": u.EncodeToString(big.NewInt(int64(key.E)).Bytes())}
		switch i[2] {
		case 1:
			m["alg"] = alg
		case 2:
			m["alg"], m["use"] = alg, "sig"
		case 3:
			m["use"], m["key_ops"] = "sig", []string{"verify"}
		case 4:
			m["alg"], m["x5t#S256"], m["x5c"], m["nbf"], m["oth"] = alg, "AAAA", []string{"AAAA", "BBBB"}, 5, nil
		}
		l := []string{lib.JSON(m)}
		enc := `{"kty":"RSA","use":"enc","alg":"RSA-OAEP","kid":"enc","n":"` + gn + `","e":"AQAB"}`
		ec := `{"kty":"EC","use":"sig","alg":"ES256","kid":"ec","crv":"P-256","x":"f83OJ3D2xF1Bg8vub9tLe1gHMzV76e8Tus9uPHvRVEU","y":"x_FEzRu9m36HLN_tue659LNpXW6pCyStikYjKIWI5a0"}`
		switch i[3] {
		case 1:
			l = append(l, enc, ec)
		case 2:
			l = append([]string{enc, ec}, l...)
		case 3: // the same key under several identifiers
			m["kid"] = "K"
			l = append([]string{lib.JSON(m), enc}, append(l, good("kk"))...)
		case 4: // listed twice
			l = append(append([]string{enc}, l...), l...)
		case 5: // next to keys of other types with the same identifier
			same := strings.Replace(ec, `"kid":"ec"`, `"kid":"k"`, 1)
			l = append([]string{same, `{"kty":"oct","kid":"k","k":"AAAA"}`}, append(l, same)...)
		}
		set := `{"keys":[` + strings.Join(l, ",") + `]}`
		show := fmt.Sprintf("%s signs %s: %.500s", name, alg, set)
		switch i[4] {
		case 1:
			return runAlg(set, "k", "b", alg, 0), show, "forged"
		case 2:
			return runAlg(set, "enc", name, alg, 0), show, "forged under another key's identifier"
		}
		return runAlg(set, "k", name, alg, 1), show, "signed with the published key"
	})
}

// oidcKeys: rotation and failures of the key set that an OidcConfig discovered, seen through a session.
func oidcKeys(c *lib.Check) {
	faults := bodyFaults()
	product(c, "keys of an OIDC provider", []int{len(faults), len(faults), 2, 2}, func(i []int) (string, interface{}, string) {
		show := map[string]string{"during login": faults[i[0]].name, "afterwards": faults[i[1]].name, "config": []string{"created before", "delivered again in between"}[i[2]], "keys": []string{"unchanged", "rotated before the login"}[i[3]]}
		s := newStage(stageCfg{})
		defer s.Close()
		cur := 0
		s.Fault = func(ep string, r *lib.Rec) *lib.Answer {
			if ep == "jwks" {
				return faults[cur].a
			}
			return nil
		}
		if i[3] == 1 { // the provider signs with a key added after the adapter's first fetch
			s.SetKeys(lib.K("b"), lib.K("a"))
			s.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
				cl := lib.Std(g.User, g.Client)
				t.Access, t.ID = lib.JWT("b", cl), lib.JWT("b", cl)
				s.Minted[len(s.Minted)-1] = t
				return t.Body()
			}
		}
		cur = i[0]
		n, v, bad := s.login("s", "u", "cid")
		if i[3] == 0 || i[0] == 0 {
			if bad != "" {
				return "login fails although the key is known or published: " + bad, show, ""
			}
		} else if bad == "" {
			return "login completes although the key is unknown", show, ""
		}
		if bad != "" {
			cur = 0
			if n, v, bad = s.login("s", "u", "cid"); bad != "" {
				return "after recovery: " + bad, show, ""
			}
		}
		if i[2] == 1 {
			cur = 0
			o := lib.OidcConfig("ns", "o", "cid", s.URL("disc"))
			s.W.Set(o)
		}
		cur = i[1]
		res := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: n + "=" + v})
		if res.Kind != lib.KOK {
			return fmt.Sprintf("a session with known keys is answered %v", res), show, ""
		}
		return "", show, "session passes"
	})
}

// ---------------------------------------------------------------- C16: discovery

type discFault struct {
	name string
	f    func(l *lib.Lab) *lib.Answer
}

func discFaults() []discFault {
	lit := func(name string, a lib.Answer) discFault {
		return discFault{name, func(*lib.Lab) *lib.Answer { return &a }}
	}
	l := []discFault{{"works", func(*lib.Lab) *lib.Answer { return nil }},
		lit("unreachable", lib.Answer{Err: lib.ErrNet}), lit("timeout", lib.Answer{Err: lib.ErrTimeout}), lit("500", lib.Answer{Status: 500, Body: "oops"}), lit("not JSON", lib.OK("<html>")), lit("empty", lib.OK("")),
		lit("null", lib.OK("null")), lit("array", lib.OK("[]")), lit("empty object", lib.OK("{}"))}
	bad := func(l *lib.Lab) map[string]string {
		m := map[string]string{}
		for k := range l.DiscoveryDoc() {
			m[k] = lib.Base(l.ID) + "/bad-" + k
		}
		return m
	}
	for _, f := range []string{"issuer", "authorization_endpoint", "token_endpoint", "jwks_uri", "userinfo_endpoint"} {
		f := f
		l = append(l, discFault{"missing " + f, func(l *lib.Lab) *lib.Answer {
			m := bad(l)
			delete(m, f)
			a := lib.OK(lib.JSON(m))
			return &a
		}})
	}
	ans := func(name string, status int, trunc bool, edit func(m map[string]interface{}) string) discFault {
		return discFault{name, func(l *lib.Lab) *lib.Answer {
			m := map[string]interface{}{}
			for k, v := range bad(l) {
				m[k] = v
			}
			return &lib.Answer{Status: status, Body: edit(m), Trunc: trunc}
		}}
	}
	js := func(m map[string]interface{}) string { return lib.JSON(m) }
	l = append(l,
		ans("404 with a document", 404, false, js),
		ans("503 with a document", 503, false, js),
		ans("300 with a document", 300, false, js),
		ans("302 with a document", 302, false, js),
		ans("400 with a document", 400, false, js),
		ans("401 JSON", 401, false, func(m map[string]interface{}) string { return `{"error":"invalid_client"}` }),
		ans("300 error object", 300, false, func(m map[string]interface{}) string { return `{"error":"temporarily_unavailable"}` }),
		ans("307 error object", 307, false, func(m map[string]interface{}) string { m["error"] = "invalid_request"; return js(m) }),
		ans("410 JSON", 410, false, func(m map[string]interface{}) string { return "{}" }),
		ans("429 with a document", 429, false, js),
		ans("empty token_endpoint", 200, false, func(m map[string]interface{}) string { m["token_endpoint"] = ""; return js(m) }),
		ans("jwks_uri null", 200, false, func(m map[string]interface{}) string { m["jwks_uri"] = nil; return js(m) }),
		ans("token_endpoint is a number", 200, false, func(m map[string]interface{}) string { m["token_endpoint"] = 5; return js(m) }),
		ans("authorization_endpoint is an array", 200, false, func(m map[string]interface{}) string {
			m["authorization_endpoint"] = []string{"x"}
			return js(m)
		}),
		ans("truncated", 200, true, func(m map[string]interface{}) string { s := js(m); return s[:len(s)*3/4] }),
		ans("cut off", 200, false, func(m map[string]interface{}) string { s := js(m); return s[:len(s)-2] }),
		ans("document inside an array", 200, false, func(m map[string]interface{}) string { return "[" + js(m) + "]" }),
		ans("204 with a document", 204, false, func(m map[string]interface{}) string { return "" }),
	)
	return l
}

type discInst struct {
	faults []discFault
	l      *lib.Lab
	fault  int
	vers   int
	loaded int // version of the loaded document, -1 none
	seen   int
	have   bool
	last   *wstate
	lver   int
	sess   string
}

func (x *discInst) close() { x.l.Close() }
func (x *discInst) key() string {
	return lib.DumpWith(x.l.W.Store, func(s string) string { return strings.ReplaceAll(s, x.l.ID, "P") }) + fmt.Sprint(x.fault, x.vers, x.loaded, x.have, x.last != nil, x.lver, x.sess != "")
}

func (x *discInst) url(ep string, v int) string {
	return lib.Base(x.l.ID) + "/" + ep + []string{"", "/v1"}[v]
}

// sync examines new discovery requests.
func (x *discInst) sync() string {
	n := len(x.l.Requests("disc"))
	if n > x.seen {
		if x.loaded >= 0 {
			return fmt.Sprintf("%d further discovery requests after the document was loaded", n-x.seen)
		}
		if x.fault == 0 {
			x.loaded = x.vers
			if n > x.seen+1 {
				return fmt.Sprintf("%d discovery requests although the first one was answered", n-x.seen)
			}
		}
	}
	x.seen = n
	for _, r := range x.l.Requests("") {
		if strings.Contains(r.Path, "/bad-") {
			return "an endpoint of an unusable discovery document was called: " + r.Path
		}
	}
	return ""
}

func (x *discInst) step(ev int) (string, bool) {
	nf := len(x.faults)
	if ev < nf {
		if ev == x.fault {
			return "", false
		}
		x.fault = ev
		return "", true
	}
	cookies := func() string {
		if x.last == nil {
			return ""
		}
		return x.last.name + "=" + x.last.cookie
	}
	switch ev - nf {
	case 0: // configuration created or delivered again
		x.loaded = -1
		x.seen = len(x.l.Requests("disc"))
		x.have = true
		x.l.W.Set(lib.OidcConfig("ns", "o", "cid", lib.Base(x.l.ID)+"/disc"))
		return x.sync(), true
	case 1: // the provider moves its endpoints
		x.vers = 1 - x.vers
		x.l.Version = []string{"", "/v1"}[x.vers]
		return "", true
	case 2: // first visit
		if !x.have {
			return "", false
		}
		was := x.loaded
		res := x.l.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x"})
		if res.Kind == lib.KPanic {
			return "panic: " + res.Err, true
		}
		if bad := x.sync(); bad != "" {
			return bad, true
		}
		if was >= 0 && x.loaded != was {
			return "endpoints changed", true
		}
		if res.Kind == lib.KOK {
			return fmt.Sprintf("let through: %v", res), true
		}
		if x.loaded < 0 {
			if x.fault == 0 {
				return fmt.Sprintf("discovery works but was not used: %v", res), true
			}
			if strings.Contains(res.Location, lib.Base(x.l.ID)+"/") {
				a, _ := lib.ParseAuth(res.Location)
				if strings.HasPrefix(a.Endpoint, lib.Base(x.l.ID)) {
					return fmt.Sprintf("redirected to %s although the discovery document is unusable", a.Endpoint), true
				}
			}
			return "", true
		}
		a, err := lib.ParseAuth(res.Location)
		n, v := res.Cookie()
		if res.Kind != lib.KRedirect || err != nil || a.Endpoint != x.url("auth", x.loaded) || v == "" {
			return fmt.Sprintf("discovery is available (document version %d) but the request is answered %v", x.loaded, res), true
		}
		x.last = &wstate{cookie: v, name: n, state: a.State, redirect: a.Redirect}
		return "", true
	case 3: // the login returns
		if x.last == nil {
			return "", false
		}
		before := len(x.l.Requests("token"))
		res := x.l.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x/oidc/callback", Cookies: cookies(), Code: x.l.Code("u", "cid", x.last.redirect), State: x.last.state})
		if res.Kind == lib.KPanic {
			return "panic: " + res.Err, true
		}
		if bad := x.sync(); bad != "" {
			return bad, true
		}
		if res.Kind == lib.KOK {
			return fmt.Sprintf("let through: %v", res), true
		}
		toks := x.l.Requests("token")[before:]
		if x.loaded < 0 {
			if len(toks) > 0 {
				return "a token request was made without a discovery document", true
			}
			if x.fault == 0 {
				return fmt.Sprintf("discovery works but was not used: %v", res), true
			}
			return "", true
		}
		if len(toks) != 1 || toks[0].URL != x.url("token", x.loaded) {
			return fmt.Sprintf("the code was not redeemed at %s: %v", x.url("token", x.loaded), res), true
		}
		n, v := res.Cookie()
		if res.Location != "https://app.test/x" || v == "" {
			return fmt.Sprintf("the login did not complete: %v", res), true
		}
		for _, r := range x.l.Requests("jwks") {
			if r.URL != x.url("jwks", 0) && r.URL != x.url("jwks", 1) {
				return "keys were fetched from " + r.URL, true
			}
		}
		x.sess = n + "=" + v
		return "", true
	case 4: // the session is used
		if x.sess == "" {
			return "", false
		}
		res := x.l.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x", Cookies: x.sess})
		if res.Kind == lib.KPanic {
			return "panic: " + res.Err, true
		}
		if bad := x.sync(); bad != "" {
			return bad, true
		}
		if x.loaded >= 0 && res.Kind != lib.KOK {
			return fmt.Sprintf("a session of an available provider is answered %v", res), true
		}
		if x.loaded < 0 && res.Kind == lib.KOK {
			return fmt.Sprintf("a session passes although neither discovery nor keys were ever loaded: %v", res), true
		}
		if x.loaded < 0 && x.fault == 0 {
			return fmt.Sprintf("discovery works but was not used: %v", res), true
		}
		if res.Kind != lib.KOK {
			x.sess = "" // the session may have ended
		}
		return "", true
	}
	return "", false
}

func (x *discInst) probe() string {
	// recovery at the first attempt
	if !x.have {
		return ""
	}
	x.fault = 0
	nf := len(x.faults)
	for _, e := range []int{nf + 2, nf + 3, nf + 4} {
		if bad, _ := x.step(e); bad != "" {
			return "discovery works again: " + bad
		}
	}
	return ""
}

func c16() {
	polInit()
	c := lib.NewCheck("C16", "model_checking")
	fl := discFaults()
	names := []string{"OidcConfig delivered", "the provider moves its endpoints", "a first visit", "the last login returns", "the last session is used"}
	m := &model{name: "discovery", n: len(fl) + len(names), depth: c.Pick(14, 40),
		show: func(e int) string {
			if e < len(fl) {
				return "discovery endpoint: " + fl[e].name
			}
			return names[e-len(fl)]
		},
		start: func() inst {
			x := &discInst{faults: fl, l: lib.NewLab(), loaded: -1}
			x.l.Secrets["cid"] = "secret-cid"
			x.l.Fault = func(ep string, r *lib.Rec) *lib.Answer {
				if ep == "disc" {
					return x.faults[x.fault].f(x.l)
				}
				return nil
			}
			x.l.W = lib.NewWorld(polKube, nil)
			x.l.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("oidc", "o"))))
			return x
		}}
	m.bfs(c)
	longOutages(c)
	endpointForms(c)
	answerSizes(c)
	concurrent(c)
	traces(c)
	c.Finish()
}

// ---------------------------------------------------------------- C17: upstream failures

func upFaults() []ksFault {
	mk := func(name string, status int, body string) ksFault {
		return ksFault{name, &lib.Answer{Status: status, Body: body}}
	}
	return []ksFault{
		{"", nil},
		{"unreachable", &lib.Answer{Err: lib.ErrNet}},
		{"timeout", &lib.Answer{Err: lib.ErrTimeout}},
		mk("500", 500, "oops"),
		mk("401 JSON", 401, `{"error":"invalid_client"}`),
		mk("404 empty", 404, ""),
		mk("302", 302, ""),
		mk("300 JSON", 300, "{}"),
		mk("300 error object", 300, `{"error":"x","keys":[],"access_token":"x","id_token":"x"}`),
		mk("400 null", 400, "null"),
		mk("403 array", 403, "[1]"),
		mk("empty", 200, ""),
		mk("null", 200, "null"),
		mk("array", 200, "[]"),
		mk("string", 200, `"x"`),
		mk("empty object", 200, "{}"),
		mk("HTML", 200, "<html></html>"),
		mk("wrong types", 200, `{"issuer":1,"keys":{"a":1},"access_token":[],"id_token":7,"authorization_endpoint":{},"sub":[]}`),
		{"truncated", &lib.Answer{Status: 200, Body: `{"issuer":"x","keys":[{"kty":"RSA"`, Trunc: true}},
		mk("204", 204, ""),
		mk("binary", 200, "\x00\xff\xfe{}"),
		mk("deep", 200, strings.Repeat(`{"keys":`, 5000)),
		{"503, retry in an hour", &lib.Answer{Status: 503, Body: "{}", Header: map[string][]string{"Retry-After": {"3600"}}}},
		{"429, retry tomorrow", &lib.Answer{Status: 429, Header: map[string][]string{"Retry-After": {time.Now().Add(24 * time.Hour).UTC().Format(http.TimeFormat)}, "X-Ratelimit-Reset": {"99999"}}}},
	}
}

var upEndpoints = []string{"disc", "jwks", "token", "userinfo"}

func c17() {
	c := lib.NewCheck("C17", "fault_enumeration")
	upstreamFailures(c)
	c.Cov["rule"] = "every single failure and pair of failures (quick: pairs of malformed bodies thinned) of the upstream endpoints, for every flow and cache state; non-trivial: a failing endpoint was called"
	c.Finish()
}

func upstreamFailures(c *lib.Check) {
	polInit()
	fl := upFaults()
	flows := []string{"API request", "API request with ID token", "first visit", "callback", "callback, opaque access token", "session", "session, opaque access token", "refresh", "refresh to an opaque access token"}
	whens := []string{"caches warm", "configuration delivered again during the failure", "configuration delivered again before the failure"}
	type fa [4]int
	var combos []fa
	n := len(fl)
	for e1 := 0; e1 < 4; e1++ {
		for f1 := 1; f1 < n; f1++ {
			var a fa
			a[e1] = f1
			combos = append(combos, a)
			for e2 := e1 + 1; e2 < 4; e2++ {
				for f2 := 1; f2 < n; f2++ {
					if !c.Thorough() && f1 > 6 && f2 > 6 && (f1+f2)%4 != 0 {
						continue
					}
					b := a
					b[e2] = f2
					combos = append(combos, b)
				}
			}
		}
	}
	combos = append(combos, fa{})
	if c.Thorough() { // all four at once, thinned to eight faults
		pick := []int{0, 1, 3, 4, 9, 10, 13, 16}
		for _, a := range pick {
			for _, b := range pick {
				for _, d := range pick {
					for _, e := range pick {
						combos = append(combos, fa{a, b, d, e})
					}
				}
			}
		}
	}
	userinfoOK := func(f int) bool { return fl[f].a != nil && fl[f].a.Err == nil && fl[f].a.Status == 200 }
	product(c, "upstream failures", []int{len(combos), len(flows), len(whens)}, func(i []int) (string, interface{}, string) {
		f, flow, when := combos[i[0]], flows[i[1]], i[2]
		if userinfoOK(f[3]) {
			return "", nil, "skip" // a 200 answer of the userinfo endpoint accepts the token whatever its body
		}
		show := map[string]string{"flow": flow, "configuration": whens[when]}
		for k, ep := range upEndpoints {
			if f[k] != 0 {
				show[ep] = fl[f[k]].name
			}
		}
		s := newStage(stageCfg{})
		defer s.Close()
		s.Rotate = false
		s.W.Set(lib.JwtConfig("ns", "j", s.URL("jwks")))
		s.W.Set(lib.Policy("ns", "pj", "api", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
		opaque := strings.Contains(flow, "opaque")
		s.UserInfo = func(r *lib.Rec) lib.Answer {
			if r.Header.Get("Authorization") == "Bearer opaque-token" {
				return lib.OK(`{"sub":"u"}`)
			}
			return lib.Answer{Status: 401}
		}
		s.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
			std := lib.Std(g.User, g.Client)
			exp := std.With("exp", lib.In(30*time.Minute))
			if strings.HasPrefix(flow, "refresh") && kind == "code" {
				t.Access, t.ID = lib.JWT("a", exp), lib.JWT("a", exp)
			} else {
				t.Access, t.ID = lib.JWT("a", std), lib.JWT("a", std)
				if opaque {
					t.Access = "opaque-token"
				}
			}
			s.Minted[len(s.Minted)-1] = t
			return t.Body()
		}
		on := false
		s.Fault = func(ep string, r *lib.Rec) *lib.Answer {
			if !on {
				return nil
			}
			for k, e := range upEndpoints {
				if e == ep {
					return fl[f[k]].a
				}
			}
			return nil
		}
		// rules that an opaque access token cannot fail, so that userinfo decides
		if opaque {
			pp := lib.Pol("oidc", "o")
			pp.Rules = []ruleT{{Claim: "aud", Match: "ANY", Source: "id_token", Values: []string{"cid"}}}
			s.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", pp)))
		}
		r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p"}
		want := lib.KOK
		switch flow {
		case "API request", "API request with ID token":
			r.Svc = "api"
			t := lib.JWT("a", lib.Std("u", "cid"))
			r.Auth = "Bearer " + t
			if flow != flows[0] {
				r.Auth += " " + t
			}
		case "first visit":
			want = lib.KRedirect
		case "callback", "callback, opaque access token":
			want = lib.KRedirect
			res := s.Do(r)
			a, err := lib.ParseAuth(res.Location)
			if res.Kind != lib.KRedirect || err != nil {
				return "", show, "skip" // C09
			}
			b := lib.NewBrowser()
			b.Apply(res)
			r.Path, r.Cookies, r.Code, r.State = "/p/oidc/callback", b.Cookies(), s.Code("u", "cid", a.Redirect), a.State
		default:
			n, v, bad := s.login("s", "u", "cid")
			if bad != "" {
				return "", show, "skip" // C10
			}
			r.Cookies = n + "=" + v
		}
		redeliver := func() {
			s.W.Set(lib.JwtConfig("ns", "j", s.URL("jwks")))
			s.W.Set(lib.OidcConfig("ns", "o", "cid", s.URL("disc")))
		}
		if strings.HasPrefix(flow, "refresh") {
			s.Offset = time.Hour
		}
		if when == 2 {
			redeliver()
		}
		on = true
		if when == 1 {
			redeliver()
		}
		s.ResetLog()
		res := s.Do(r)
		on = false
		log := s.Requests("")
		failed := []string{}
		for k, ep := range upEndpoints {
			if f[k] != 0 && len(s.Requests(ep)) > 0 {
				failed = append(failed, ep)
			}
		}
		if res.Kind == lib.KPanic {
			return "panic: " + res.Err, show, ""
		}
		for _, rec := range log {
			if !rec.Deadline || rec.Wait > time.Minute {
				return fmt.Sprintf("the wait for %s is not bounded", rec.URL), show, ""
			}
		}
		for k, ep := range upEndpoints {
			for _, rec := range s.Requests(ep) {
				if a := fl[f[k]].a; (a == nil || a.Err == nil) && !rec.Closed() {
					return fmt.Sprintf("the answer of %s was not released", rec.URL), show, ""
				}
			}
		}
		login := res.Kind == lib.KRedirect && strings.HasPrefix(res.Location, s.URL("auth"))
		done := res.Kind == lib.KRedirect && res.Location == "https://app.test/p"
		if len(failed) > 0 {
			if res.Kind == lib.KOK || done {
				return fmt.Sprintf("passes although %v failed: %v", failed, res), show, ""
			}
			c.Count("distinct_nontrivial", 1)
		} else if (flow == "first visit" && !login) || (strings.HasPrefix(flow, "callback") && !done) || (want == lib.KOK && res.Kind != lib.KOK) {
			return fmt.Sprintf("no failing endpoint was called, but the request is answered %v", res), show, ""
		}
		// the next requests are served
		s.ResetLog()
		if r.Svc == "api" {
			if x := s.Do(r); x.Kind != lib.KOK {
				return fmt.Sprintf("after recovery the API request is answered %v", x), show, ""
			}
		}
		if !strings.HasPrefix(flow, "refresh") { // logins of this flow mint short-lived tokens
			n, v, bad := s.login("s", "u2", "cid")
			if bad != "" {
				return "after recovery: " + bad, show, ""
			}
			if x := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: n + "=" + v}); x.Kind != lib.KOK {
				return fmt.Sprintf("after recovery a session is answered %v", x), show, ""
			}
		}
		x := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p"})
		if x.Kind != lib.KRedirect || !strings.HasPrefix(x.Location, s.URL("auth")) {
			return fmt.Sprintf("after recovery a visit is answered %v", x), show, ""
		}
		sort.Strings(failed)
		return "", show, fmt.Sprintf("%s, failed %v: %s", flow, failed, res.Kind)
	})
	// Kubernetes failures
	kf := []string{"get", "create", "get create", "get create list watch update delete patch"}
	product(c, "Kubernetes failures", []int{len(kf), 2, 3}, func(i []int) (string, interface{}, string) {
		show := map[string]interface{}{"failing calls": kf[i[0]], "key secret exists": i[1] == 1, "request": []string{"visit", "callback", "API"}[i[2]]}
		k := lib.NewKube()
		if i[1] == 1 {
			k.PutCookieKeys(3)
		}
		on := true
		k.Fault = func(verb, key string) error {
			if on && strings.Contains(kf[i[0]], verb) {
				return lib.ErrKube
			}
			return nil
		}
		l := lib.NewLab()
		defer l.Close()
		l.Secrets["cid"] = "secret-cid"
		l.W = lib.NewWorld(k, nil)
		o := lib.OidcConfig("ns", "o", "cid", l.URL("disc"))
		o.Spec.ClientSecretRef.Name, o.Spec.ClientSecretRef.Key = "ref", "key"
		l.W.Set(o)
		l.W.Set(lib.JwtConfig("ns", "j", l.URL("jwks")))
		l.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("oidc", "o"))))
		l.W.Set(lib.Policy("ns", "pj", "api", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
		r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p"}
		switch i[2] {
		case 1:
			r.Path, r.Code, r.State, r.Cookies = "/p/oidc/callback", "c", "s", "oidc-cookie-cid=x"
		case 2:
			r.Svc = "api"
		}
		for rep := 0; rep < 3; rep++ {
			if res := l.Do(r); res.Kind == lib.KPanic || res.Kind == lib.KOK {
				return fmt.Sprintf("answered %v", res), show, ""
			}
		}
		on = false
		s := &stage{l, lib.NewBrowser()}
		if _, _, bad := s.login("s", "u", "cid"); bad != "" {
			return "after recovery: " + bad, show, ""
		}
		c.Count("distinct_nontrivial", 1)
		return "", show, "recovered"
	})
}

func init() { checks["C15"], checks["C16"], checks["C17"] = c15, c16, c17 }
