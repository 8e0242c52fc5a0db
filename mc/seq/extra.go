//go:build go1.21

package main

import (
	"encoding/base64"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// ---------------------------------------------------------------- C06: histories of presented tokens

// tokHist presents the same tokens again and again, at endpoints with different key sets, while time passes and
// configurations change. What was accepted before must not matter.
type tokHist struct {
	l    *lib.Lab
	sets []*lib.IdP // one site per key set
	keys []map[string]string
	cur  [2]int // key set used by each configuration
	toks []histTok
	seen []string // per token: where it was accepted (hidden state the adapter might keep)
}

type histTok struct {
	name, raw, kid, key string
	forged              bool
	nbf, exp            time.Duration
}

var histSetNames = []string{"{a}", "{b}", "{a,b}", "{}", "{a: key of b}"}

func (x *tokHist) close() {
	for _, s := range x.sets {
		s.Close()
	}
	x.l.Close()
}

func newTokHist() *tokHist {
	polInit()
	x := &tokHist{l: lib.NewLab()}
	sets := [][]lib.PubKey{{lib.K("a")}, {lib.K("b")}, {lib.K("a"), lib.K("b")}, {}, {{Kid: "a", Key: lib.Key("b")}}}
	x.keys = []map[string]string{{"a": "a"}, {"b": "b"}, {"a": "a", "b": "b"}, {}, {"a": "b"}}
	for i, s := range sets {
		x.sets = append(x.sets, lib.NewIdP(fmt.Sprintf("%s-set%d", x.l.ID, i), s...))
	}
	mint := func(name, kid, key string, nbf, exp time.Duration) histTok {
		c := lib.Std("u", "x").With("jti", x.l.ID+name).With("exp", lib.In(exp))
		if nbf != 0 {
			c = c.With("nbf", lib.In(nbf))
		}
		head := fmt.Sprintf(`{"alg":"RS256","kid":%q}`, kid)
		if kid == "" {
			head = `{"alg":"RS256"}`
		}
		raw := lib.Sign(head, lib.JSON(c), "RS256", lib.Key(key))
		return histTok{name, raw, kid, key, false, nbf, exp}
	}
	far := 1000 * time.Hour
	x.toks = []histTok{mint("long-lived a", "a", "a", 0, far), mint("short-lived a", "a", "a", 0, time.Hour), mint("future a", "a", "a", time.Hour, far), mint("b", "b", "b", 0, far), mint("key b as a", "a", "b", 0, far), mint("a without kid", "", "a", 0, far), mint("a under an unknown kid", "z", "a", 0, far)}
	// variants of the first token: other payload with its signature, its payload with another signature
	p := strings.Split(x.toks[0].raw, ".")
	pl, _ := base64.RawURLEncoding.DecodeString(p[1])
	t := x.toks[0]
	t.forged, t.name = true, "a with another subject"
	t.raw = p[0] + "." + base64.RawURLEncoding.EncodeToString([]byte(strings.Replace(string(pl), `"sub":"u"`, `"sub":"v"`, 1))) + "." + p[2]
	x.toks = append(x.toks, t)
	t.name = "a with the signature of another token"
	t.raw = p[0] + "." + p[1] + "." + strings.Split(x.toks[1].raw, ".")[2]
	x.toks = append(x.toks, t)
	x.seen = make([]string, len(x.toks))
	x.l.W = lib.NewWorld(polKube, polWeb)
	x.cur = [2]int{0, 1}
	for e := 0; e < 2; e++ {
		x.config(e)
		x.l.W.Set(lib.Policy("ns", fmt.Sprintf("p%d", e), fmt.Sprintf("s%d", e), lib.Path("", "/", "ALL", lib.Pol("jwt", fmt.Sprintf("j%d", e)))))
	}
	return x
}

func (x *tokHist) config(e int) {
	x.l.W.Set(lib.JwtConfig("ns", fmt.Sprintf("j%d", e), x.sets[x.cur[e]].URL("jwks")))
}

func (x *tokHist) valid(t histTok, e int) bool {
	return !t.forged && x.keys[x.cur[e]][t.kid] == t.key && x.l.Offset >= t.nbf && x.l.Offset < t.exp
}

func tokHistShow(e int) string {
	nt := 9
	if e < nt*2*2 {
		return fmt.Sprintf("token %d presented at s%d as %s token", e%nt, e/nt%2, []string{"access", "ID"}[e/nt/2])
	}
	e -= nt * 4
	if e == 0 {
		return "90 minutes pass"
	}
	e--
	return fmt.Sprintf("configuration of s%d now has key set %s", e/len(histSetNames), histSetNames[e%len(histSetNames)])
}

func tokHistEvents() int { return 9*4 + 1 + 2*len(histSetNames) }

func (x *tokHist) present(ti, e int, id bool) string {
	t := x.toks[ti]
	auth := "Bearer " + t.raw
	ok := x.valid(t, e)
	if id {
		// the access token is any other token; both must be valid
		comp := x.toks[0]
		if !x.valid(comp, e) {
			comp = x.toks[3]
		}
		auth = "Bearer " + comp.raw + " " + t.raw
		ok = ok && x.valid(comp, e)
	}
	res := x.l.Do(lib.Req{NS: "ns", Svc: fmt.Sprintf("s%d", e), Method: "GET", Path: "/p", Auth: auth})
	if ok && res.Kind != lib.KOK {
		return fmt.Sprintf("token %q is valid at s%d (key set %s) but is answered %v", t.name, e, histSetNames[x.cur[e]], res)
	}
	if !ok && res.Kind != lib.KDeny {
		return fmt.Sprintf("token %q is not valid at s%d (key set %s, time +%v) but is answered %v", t.name, e, histSetNames[x.cur[e]], x.l.Offset, res)
	}
	if ok {
		if m := fmt.Sprintf("%d%d", e, x.cur[e]); !strings.Contains(x.seen[ti], m) {
			l := strings.Fields(x.seen[ti] + " " + m)
			sort.Strings(l)
			x.seen[ti] = strings.Join(l, " ")
		}
	}
	return ""
}

func (x *tokHist) step(e int) (string, bool) {
	nt := len(x.toks)
	if e < nt*4 {
		return x.present(e%nt, e/nt%2, e/nt/2 == 1), true
	}
	e -= nt * 4
	if e == 0 {
		if x.l.Offset > 0 {
			return "", false
		}
		x.l.Offset = 90 * time.Minute
		return "", true
	}
	e--
	n := len(histSetNames)
	if x.cur[e/n] == e%n {
		return "", false
	}
	x.cur[e/n] = e % n
	x.config(e / n)
	return "", true
}

func (x *tokHist) key() string {
	return fmt.Sprint(x.cur, x.l.Offset, x.seen) + lib.DumpWith(x.l.W.Store, func(s string) string { return strings.ReplaceAll(s, x.l.ID, "P") })
}

// probe presents every token everywhere.
func (x *tokHist) probe() string {
	for e := 0; e < 2; e++ {
		for ti := range x.toks {
			for _, id := range []bool{false, true} {
				if bad := x.present(ti, e, id); bad != "" {
					return bad
				}
			}
		}
	}
	return ""
}

func tokenHistories(c *lib.Check) {
	m := &model{name: "histories of presented tokens", n: tokHistEvents(), depth: c.Pick(5, 8), show: tokHistShow, start: func() inst { return newTokHist() }}
	m.bfs(c)
}

// ---------------------------------------------------------------- long outages

// longOutages: k failed attempts, then the provider answers; it must be used at the next attempt, whatever k is.
func longOutages(c *lib.Check) {
	fl := discFaults()
	ks := []int{}
	for k := 1; k <= c.Pick(40, 130); k++ {
		ks = append(ks, k)
	}
	product(c, "long discovery outages", []int{len(fl) - 1, len(ks), 3}, func(i []int) (string, interface{}, string) {
		f, k := fl[i[0]+1], ks[i[1]]
		if i[2] > 0 && k%7 != 0 && k > 12 {
			return "", nil, "skip"
		}
		show := map[string]interface{}{"discovery fails with": f.name, "attempts": k, "attempts are": []string{"visits", "callbacks", "deliveries of the configuration and visits"}[i[2]]}
		x := &discInst{faults: fl, l: lib.NewLab(), loaded: -1}
		defer x.close()
		x.l.Secrets["cid"] = "secret-cid"
		x.l.Fault = func(ep string, r *lib.Rec) *lib.Answer {
			if ep == "disc" {
				return x.faults[x.fault].f(x.l)
			}
			return nil
		}
		x.l.W = lib.NewWorld(polKube, nil)
		x.l.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("oidc", "o"))))
		nf := len(fl)
		steps := []int{nf, nf + 2, nf + 3} // delivered, visit, login returns
		for _, e := range steps {
			if bad, _ := x.step(e); bad != "" {
				return bad, show, ""
			}
		}
		x.fault = i[0] + 1
		if bad, _ := x.step(nf); bad != "" {
			return bad, show, ""
		}
		for a := 0; a < k; a++ {
			ev := []int{nf + 2}
			switch i[2] {
			case 1:
				ev = []int{nf + 3}
			case 2:
				ev = []int{nf, nf + 2}
			}
			for _, e := range ev {
				if bad, _ := x.step(e); bad != "" {
					return fmt.Sprintf("attempt %d: %s", a, bad), show, ""
				}
			}
		}
		if bad := x.probe(); bad != "" {
			return bad, show, ""
		}
		return "", show, "recovered"
	})
}

// longKeyOutages: k requests with keys that cannot be found, then the key is published.
func longKeyOutages(c *lib.Check) {
	fl := bodyFaults()
	ks := []int{}
	for k := 1; k <= c.Pick(40, 130); k++ {
		ks = append(ks, k)
	}
	product(c, "long searches for a key", []int{len(fl), len(ks), 3}, func(i []int) (string, interface{}, string) {
		f, k := fl[i[0]], ks[i[1]]
		if i[2] > 0 && k%7 != 0 && k > 12 {
			return "", nil, "skip"
		}
		show := map[string]interface{}{"key set endpoint": f.name, "requests with unknown keys": k, "unknown keys are": []string{"the same", "different each time", "the same, key set already loaded"}[i[2]]}
		l := lib.NewLab()
		defer l.Close()
		fail := i[2] != 2
		l.Fault = func(ep string, r *lib.Rec) *lib.Answer {
			if ep == "jwks" && fail {
				return f.a
			}
			return nil
		}
		l.SetKeys(lib.K("a"))
		l.W = lib.NewWorld(polKube, polWeb)
		l.W.Set(lib.JwtConfig("ns", "j", l.URL("jwks")))
		l.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
		fail = true
		ask := func(kid, key string) lib.Res {
			tok := lib.Sign(fmt.Sprintf(`{"alg":"RS256","kid":%q}`, kid), lib.JSON(lib.Std("u", "x")), "RS256", lib.Key(key))
			return l.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x", Auth: "Bearer " + tok})
		}
		for a := 0; a < k; a++ {
			kid := "b"
			if i[2] == 1 && a%3 != 2 {
				kid = fmt.Sprintf("unknown%d", a)
			}
			if res := ask(kid, "b"); res.Kind != lib.KDeny {
				return fmt.Sprintf("request %d with an unpublished key is answered %v", a, res), show, ""
			}
		}
		fail = false
		l.SetKeys(lib.K("a"), lib.K("b"))
		for _, t := range []string{"b", "a", "b"} {
			if res := ask(t, t); res.Kind != lib.KOK {
				return fmt.Sprintf("afterwards a token of the published key %s is answered %v", t, res), show, ""
			}
		}
		if res := ask("unknown0", "b"); res.Kind != lib.KDeny {
			return fmt.Sprintf("afterwards a token with an unknown kid is answered %v", res), show, ""
		}
		return "", show, "recovered"
	})
}

// ---------------------------------------------------------------- C19: claims of unexpected shapes

func oddClaims(c *lib.Check) {
	polInit()
	l := lib.NewLab()
	l.W = lib.NewWorld(polKube, polWeb)
	l.W.Set(lib.JwtConfig("ns", "j", l.URL("jwks")))
	names := []string{"c", "c.b", "c.b.c", "c.", ".c", ".", "c..b", "", "aud", "exp", "scope", "scope.x", "iss.x", "aud.0", "c.0", "c.x"}
	matches := []string{"", "ALL", "ANY", "NOT", "bogus"}
	for n, name := range names {
		for m, match := range matches {
			l.W.Set(lib.Policy("ns", fmt.Sprintf("p%d-%d", n, m), fmt.Sprintf("s%d-%d", n, m), lib.Path("", "/", "ALL", lib.Pol("jwt", "j", ruleT{Claim: name, Match: match, Values: []string{"x"}}, ruleT{Claim: name, Match: match, Values: []string{"x"}, Source: "id_token"}))))
		}
	}
	std := lib.Std("u", "x")
	var toks []string
	var desc []string
	add := func(cl lib.Claims, d string) {
		toks = append(toks, lib.JWT("a", cl))
		desc = append(desc, d)
	}
	for i, v := range ruleClaimValues {
		for _, at := range []string{"c", "scope", "aud", "iss"} {
			add(std.With(at, v), fmt.Sprintf("%s=%.60s", at, lib.JSON(v)))
		}
		add(std.With("c", map[string]interface{}{"b": v, "0": v}), fmt.Sprintf("c.b=value %d", i))
		add(std.With("c", map[string]interface{}{"b": map[string]interface{}{"c": v}}), fmt.Sprintf("c.b.c=value %d", i))
		add(std.With("c", []interface{}{v, v}), fmt.Sprintf("c=[value %d]", i))
	}
	for _, v := range ruleClaimValues { // time claims
		for _, at := range []string{"exp", "nbf", "iat"} {
			add(std.With(at, v), fmt.Sprintf("%s=%.60s", at, lib.JSON(v)))
		}
	}
	good := lib.JWT("a", std)
	raws := []string{`null`, `[]`, `"x"`, `1`, `{}`, `{"a":`, ``, `{"exp":1e400}`, `{"exp":99999999999999999999}`, `{"aud":null,"exp":null}`, "{\"c\":\"\x00\"}", `{"c":` + strings.Repeat("[", 2000) + strings.Repeat("]", 2000) + `}`}
	heads := []string{`{"alg":"RS256","kid":"a"}`, `{"alg":"RS256","kid":"a","crit":["x"]}`, `{"alg":"RS256","kid":{}}`, `null`, `[]`, `{}`, `{"alg":1,"kid":"a"}`, `{"alg":null}`, `"x"`}
	for _, h := range heads {
		for _, r := range raws {
			toks = append(toks, lib.Sign(h, r, "RS256", lib.Key("a")))
			desc = append(desc, fmt.Sprintf("header %s payload %.40q", h, r))
		}
	}
	product(c, "claims of unexpected shapes", []int{len(toks), len(names), len(matches), 3}, func(i []int) (string, interface{}, string) {
		t := toks[i[0]]
		auth := []string{"Bearer " + t, "Bearer " + t + " " + t, "Bearer " + good + " " + t}[i[3]]
		show := map[string]interface{}{"token": desc[i[0]], "rule": names[i[1]] + " " + matches[i[2]], "position": i[3]}
		res := l.Do(lib.Req{NS: "ns", Svc: fmt.Sprintf("s%d-%d", i[1], i[2]), Method: "GET", Path: "/p", Auth: auth})
		switch res.Kind {
		case lib.KPanic:
			return "panic: " + res.Err, show, ""
		case lib.KOK:
			if i[3] == 0 {
				return fmt.Sprintf("let through without ID token: %v", res), show, ""
			}
		case lib.KDeny:
		default:
			return fmt.Sprintf("answered %v", res), show, ""
		}
		c.Count("distinct_nontrivial", 1)
		return "", show, res.Kind
	})
	l.Close()
}
