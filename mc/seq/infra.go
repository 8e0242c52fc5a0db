//go:build go1.21

package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/gorilla/securecookie"
	corev1 "k8s.io/api/core/v1"
	kerrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/runtime/schema"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

type secretObj = corev1.Secret
type ruleT = v1.Rule

// ---------------------------------------------------------------- C20: client authentication

type secretCase struct {
	plain         string
	refName, refK string
	state         string // what the cluster holds for ns/ref
	kube          string // the value in the cluster
}

func (s secretCase) String() string {
	return fmt.Sprintf("clientSecret=%q clientSecretRef={%q %q} secret %s", s.plain, s.refName, s.refK, s.state)
}

// allowed returns the secrets the statement permits.
func (s secretCase) allowed() []string {
	if s.refName != "" && s.refK != "" {
		switch s.state {
		case "present":
			return []string{s.kube}
		case "empty value", "unreadable":
			return []string{s.plain, ""}
		case "unreadable once":
			return []string{s.plain, s.kube}
		}
	}
	return []string{s.plain}
}

func secretCases(plains []string, kubes []string) []secretCase {
	var l []secretCase
	for _, p := range plains {
		for _, n := range []string{"", "ref"} {
			for _, k := range []string{"", "key"} {
				for _, st := range []string{"present", "absent", "another key", "empty value", "another namespace", "unreadable", "unreadable once", "no data"} {
					for _, v := range kubes {
						l = append(l, secretCase{p, n, k, st, v})
					}
				}
			}
		}
	}
	return l
}

func (s secretCase) install(k *lib.Kube) {
	k.Secrets = map[string]*secretObj{}
	k.PutCookieKeys(1)
	k.Fault = nil
	d := map[string][]byte{"key": []byte(s.kube)}
	switch s.state {
	case "present":
		k.Put("ns", "ref", d)
		k.Put("ns", "other-ref", map[string][]byte{"key": []byte("wrong-name")})
		k.Secrets["ns/ref"].Data["other-key"] = []byte("wrong-key")
		k.Put("default", "ref", map[string][]byte{"key": []byte("wrong-namespace")})
	case "another key":
		k.Put("ns", "ref", map[string][]byte{"other": []byte(s.kube)})
	case "empty value":
		k.Put("ns", "ref", map[string][]byte{"key": {}})
	case "another namespace":
		k.Put("default", "ref", d)
		k.Put("istio-system", "ref", d)
	case "no data":
		k.Put("ns", "ref", nil)
	case "unreadable", "unreadable once":
		k.Put("ns", "ref", d)
		n := 0
		k.Fault = func(verb, key string) error {
			if key == "ns/ref" && (s.state == "unreadable" || n == 0) {
				n++
				return lib.ErrKube
			}
			return nil
		}
	}
}

func c20() {
	c := lib.NewCheck("C20", "exploration")
	clientSecrets(c)
	c.Cov["rule"] = "every combination of the listed configurations; each performs a login and a refresh; non-trivial: both token requests authenticated with a non-empty secret"
	c.Finish()
}

func clientSecrets(c *lib.Check) {
	polInit()
	methods := []string{"", "client_secret_basic", "client_secret_post", "private_key_jwt", "none"}
	ids := []string{"cid", "c.i+d&e%41f~'*!"}
	secs := []string{"", "s3cr3t-kube", "k &=+%2f?#\u00fc/\"\\:;", " \tkube blanks\r\n"}
	plains := []string{"", "pl41n-secret", "p &=+%2f?#\u00fc:/", " plain blanks\n"}
	codes := []string{"code-1", "c +&=%41/?\u00fc;#"}
	refreshes := []string{"refresh-1", "r +&=%41/?\u00fc;#."}
	if c.Thorough() {
		ids = append(ids, "1c16920e-a6eb-4ba5-b21a-2f2f3c6a7a5e", "A_b-C.d^e`f|g$h#i", strings.Repeat("i", 300))
		secs = append(secs, strings.Repeat("k", 2000), "\x01\x7f\u2028", " lead and trail ", "%", "a:b:c")
		plains = append(plains, strings.Repeat("p", 2000), " lead and trail ", "%")
		codes = append(codes, strings.Repeat("c", 4000), "%", "a b\tc", "=")
		refreshes = append(refreshes, strings.Repeat("r", 4000), "%", "a b\tc", "=")
	}
	cases := secretCases(plains, secs[1:])
	one := func(sc secretCase, method, id, code, refresh string, update *secretCase) (bad string, outcome string) {
		k := lib.NewKube()
		sc.install(k)
		l := lib.NewLab()
		defer l.Close()
		l.W = lib.NewWorld(k, nil)
		cfg := lib.OidcConfig("ns", "o", id, l.URL("disc"))
		set := func(s secretCase) {
			s.install(k)
			o := cfg.DeepCopy()
			o.Spec.ClientSecret, o.Spec.ClientSecretRef.Name, o.Spec.ClientSecretRef.Key, o.Spec.AuthMethod = s.plain, s.refName, s.refK, method
			l.W.Set(o)
		}
		set(sc)
		if update != nil {
			set(*update)
			sc = *update
		}
		l.W.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("oidc", "o"))))
		l.Token = func(r *lib.Rec) lib.Answer {
			t := l.Mint("u", id)
			t.Refresh = refresh
			return lib.OK(lib.JSON(t.Body()))
		}
		for _, s := range append(sc.allowed(), sc.plain, sc.kube) {
			l.Guard().Keep(lib.SSecret, s, "")
		}
		l.Guard().Keep(lib.SRefresh, refresh, "")
		l.Guard().Keep(lib.SCode, code, "")
		r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x"}
		res := l.Do(r)
		a, err := lib.ParseAuth(res.Location)
		if res.Kind != lib.KRedirect || err != nil {
			return fmt.Sprintf("no login redirect: %v", res), ""
		}
		answers := []lib.Res{res}
		b := lib.NewBrowser()
		b.Apply(res)
		r.Path, r.Code, r.State, r.Cookies = "/x/oidc/callback", code, a.State, b.Cookies()
		res = l.Do(r)
		n, v := res.Cookie()
		answers = append(answers, res)
		if v == "" {
			return fmt.Sprintf("the callback was answered %v", res), ""
		}
		l.Offset = 2 * time.Hour
		res = l.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x", Cookies: n + "=" + v})
		answers = append(answers, res)
		toks := l.Requests("token")
		if len(toks) != 2 {
			return fmt.Sprintf("%d token requests for a login and a refresh (last answer %v)", len(toks), res), ""
		}
		used := map[string]bool{}
		for i, t := range toks {
			want := url.Values{"grant_type": {"authorization_code"}, "code": {code}, "redirect_uri": {a.Redirect}}
			if i == 1 {
				want = url.Values{"grant_type": {"refresh_token"}, "refresh_token": {refresh}}
			}
			if t.Method != "POST" || !strings.HasPrefix(t.Header.Get("Content-Type"), "application/x-www-form-urlencoded") || t.URL != l.URL("token") {
				return fmt.Sprintf("token request is %s %s (%s)", t.Method, t.URL, t.Header.Get("Content-Type")), ""
			}
			gid, gsec := "", ""
			auth := t.Header.Get("Authorization")
			if method == "client_secret_post" {
				if auth != "" {
					return "a client_secret_post request also carries the Authorization header " + auth, ""
				}
				gid, gsec = t.Form.Get("client_id"), t.Form.Get("client_secret")
				want.Set("client_id", id)
				want.Set("client_secret", gsec)
			} else {
				raw, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(auth, "Basic "))
				if !strings.HasPrefix(auth, "Basic ") || err != nil {
					return fmt.Sprintf("auth method %q: the token request carries Authorization %q", method, auth), ""
				}
				p := strings.SplitN(string(raw), ":", 2)
				if len(p) == 2 {
					gid, gsec = p[0], p[1]
				}
				if gid != id { // RFC 6749 2.3.1 form-encodes both
					if d, err := url.QueryUnescape(gid); err == nil && d == id {
						gid = d
						gsec, _ = url.QueryUnescape(gsec)
					}
				}
				if t.Form.Get("client_id") == id {
					want.Set("client_id", id)
				}
			}
			if t.Form.Get("scope") != "" {
				want.Set("scope", t.Form.Get("scope"))
			}
			if t.Form.Encode() != want.Encode() {
				return fmt.Sprintf("token request sends %s, expected %s", t.Form.Encode(), want.Encode()), ""
			}
			okSec := false
			for _, s := range sc.allowed() {
				okSec = okSec || s == gsec
			}
			if gid != id || !okSec {
				return fmt.Sprintf("token request authenticates as %q with %q, expected %q with one of %q", gid, gsec, id, sc.allowed()), ""
			}
			used[gsec] = true
		}
		// the secret goes nowhere else
		for s := range used {
			if len(s) < 4 {
				continue
			}
			forms := []string{s, url.QueryEscape(s), url.PathEscape(s), base64.StdEncoding.EncodeToString([]byte(id + ":" + s))}
			leak := func(where, text string) string {
				for _, f := range forms {
					if strings.Contains(text, f) {
						return fmt.Sprintf("the client secret appears in %s: %.200s", where, text)
					}
				}
				return ""
			}
			for _, r := range l.Requests("") {
				text := r.URL
				for k, v := range r.Header {
					text += "\n" + k + ": " + strings.Join(v, ",")
				}
				text += "\n" + r.Body
				if r.Path == "/"+l.ID+"/token" {
					continue
				}
				if b := leak("a request to "+r.Path, text); b != "" {
					return b, ""
				}
			}
			for _, a := range answers {
				if b := leak("an answer", fmt.Sprint(a.Location, a.SetCookie, a.Body, a.Msg, a.Headers, a.OutAuth, a.OutCookie, a.Err)); b != "" {
					return b, ""
				}
			}
		}
		if res.Kind != lib.KOK {
			return fmt.Sprintf("the refreshed session is answered %v", res), ""
		}
		if !used[""] {
			c.Count("distinct_nontrivial", 1)
		}
		return "", fmt.Sprintf("method %q: %s", method, sc.state)
	}
	product(c, "secrets", []int{len(cases), len(methods), len(ids), 1}, func(i []int) (string, interface{}, string) {
		sc, m, id := cases[i[0]], methods[i[1]], ids[i[2]]
		show := fmt.Sprintf("%v authMethod=%q clientId=%q", sc, m, id)
		b, o := one(sc, m, id, codes[0], refreshes[0], nil)
		return b, show, o
	})
	product(c, "values", []int{len(secs), len(methods), len(ids), len(codes), len(refreshes), 2}, func(i []int) (string, interface{}, string) {
		sc := secretCase{plain: secs[i[0]], state: "absent"}
		if i[5] == 1 {
			sc = secretCase{plain: "plain", refName: "ref", refK: "key", state: "present", kube: secs[i[0]]}
			if secs[i[0]] == "" {
				return "", nil, "skip"
			}
		}
		show := fmt.Sprintf("%v authMethod=%q clientId=%q code=%q refresh=%q", sc, methods[i[1]], ids[i[2]], codes[i[3]], refreshes[i[4]])
		b, o := one(sc, methods[i[1]], ids[i[2]], codes[i[3]], refreshes[i[4]], nil)
		return b, show, o
	})
	// secrets that could be taken for something else
	odd := []string{"c2VjcmV0LXZhbHVlLTE=", "YWJjZGVmZ2hpamts", "deadbeefcafe0123", `{"key":"v4lue"}`, "[\"v4lue\"]", `"quoted"`, "'quoted'", "${SECRET}", "$(x)", "null", "true", "0", "-1", "1e3", "a:b:c", ":colon", "colon:", "%41%zz", "\ufeffbom", "two\nlines", "ends\n\n", "nul\x00byte", "\xff\xfe\x80", "a,b", "Basic abc", "Bearer abc", "-----BEGIN X-----\nYQ==\n-----END X-----\n", "\u212a\u0130", strings.Repeat("k", 256), strings.Repeat("kz", 1500), "eyJhbGciOiJub25lIn0.e30.", "***", "<hidden>", "changeme", "UPPER lower"}
	product(c, "odd secrets", []int{len(odd), 3, 2}, func(i []int) (string, interface{}, string) {
		sc := secretCase{plain: odd[i[0]], state: "absent"}
		if i[2] == 1 {
			sc = secretCase{plain: "plain", refName: "ref", refK: "key", state: "present", kube: odd[i[0]]}
		}
		b, o := one(sc, methods[i[1]], "cid", codes[0], refreshes[0], nil)
		return b, fmt.Sprintf("%v authMethod=%q", sc, methods[i[1]]), o
	})
	upd := secretCases([]string{"", "pl41n-two"}, []string{"kube-two"})
	first := secretCases([]string{"pl41n-one"}, []string{"kube-one"})
	product(c, "updates", []int{len(first), len(upd), c.Pick(2, 4)}, func(i []int) (string, interface{}, string) {
		m := []string{"client_secret_post", "", "client_secret_basic", "none"}[i[2]]
		show := fmt.Sprintf("%v, updated to %v, authMethod=%q", first[i[0]], upd[i[1]], m)
		b, o := one(first[i[0]], m, "cid", codes[0], refreshes[0], &upd[i[1]])
		return b, show, o
	})
}

// ---------------------------------------------------------------- C14: cookie keys

type keyEv struct {
	op  string
	i   int
	arg string
}

func (e keyEv) String() string {
	switch e.op {
	case "visit":
		return fmt.Sprintf("a login starts at instance %d", e.i)
	case "finish":
		return fmt.Sprintf("the last login returns to instance %d", e.i)
	case "restart":
		return fmt.Sprintf("instance %d restarts", e.i)
	}
	return "Kubernetes: " + e.arg
}

type keyInst struct {
	evs      []keyEv
	hist     []int
	cfg      *config.Config
	k        *lib.Kube
	l        *lib.Lab
	w        [2]*lib.World
	fault    string
	once     int
	okCalls  int
	last     *wstate // last started login
	existing string  // secret before the event
	creates  int
	external bool
	probing  bool
}

func dumpSecret(s *secretObj) string {
	if s == nil {
		return ""
	}
	var l []string
	for k, v := range s.Data {
		l = append(l, fmt.Sprintf("%s=%x", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (x *keyInst) apiFault(verb, key string) error {
	if key != lib.CookieSecret {
		return nil
	}
	other := errors.New("injected: the API server is not reachable")
	switch x.fault {
	case "reads fail":
		if verb == "get" {
			return other
		}
	case "creations fail":
		if verb == "create" {
			return lib.ErrKube
		}
	case "down":
		return other
	case "the next read fails", "the next two reads fail", "the next three reads fail":
		if verb == "get" && x.once > 0 {
			x.once--
			return lib.ErrKube
		}
	case "the next creation is stored but reported as failed":
		if verb == "create" && x.once > 0 {
			x.once--
			return errStoreThenFail
		}
	case "the next creation fails":
		if verb == "create" && x.once > 0 {
			x.once--
			return kerrors.NewServerTimeout(schema.GroupResource{Resource: "secrets"}, "create", 1)
		}
	case "another party creates the secret just before the next creation":
		if verb == "create" && x.once > 0 {
			x.once--
			if x.k.Secrets[lib.CookieSecret] == nil {
				x.k.PutCookieKeys(99)
				x.external = true
			}
		}
	}
	return nil
}

var errStoreThenFail = lib.ErrStoreThenFail

func (x *keyInst) boot(i int) {
	x.w[i] = lib.NewWorldCfg(x.k, nil, x.cfg)
	x.w[i].Set(lib.OidcConfig("ns", "o", "cid", x.l.URL("disc")))
	x.w[i].Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("oidc", "o"))))
}

func (x *keyInst) close() { x.l.Close() }

func (x *keyInst) key() string { return fmt.Sprint(x.hist) } // every history is explored

// secretKept checks the cluster after an event.
func (x *keyInst) secretKept() string {
	now := dumpSecret(x.k.Secrets[lib.CookieSecret])
	if x.existing != "" && now != x.existing {
		return fmt.Sprintf("the existing secret was replaced: %s -> %s", x.existing, now)
	}
	if x.existing == "" && now != "" && !x.external {
		d := x.k.Secrets[lib.CookieSecret].Data
		if len(d["HASH_KEY"]) != x.cfg.HashKeySize.Value || len(d["BLOCK_KEY"]) != x.cfg.BlockKeySize.Value {
			return fmt.Sprintf("the secret was created with keys of %d and %d bytes, configured are %d and %d", len(d["HASH_KEY"]), len(d["BLOCK_KEY"]), x.cfg.HashKeySize.Value, x.cfg.BlockKeySize.Value)
		}
		zero := true
		for _, b := range append(append([]byte{}, d["HASH_KEY"]...), d["BLOCK_KEY"]...) {
			zero = zero && b == 0
		}
		if zero || string(d["HASH_KEY"][:16]) == string(d["BLOCK_KEY"][:16]) {
			return fmt.Sprintf("the generated keys are not random: %s", now)
		}
	}
	for _, call := range x.k.CallLog() {
		if p := strings.SplitN(call, " ", 2); p[0] != "get" && p[0] != "create" && p[0] != "list" || p[1] != lib.CookieSecret && p[0] == "create" {
			return "unexpected Kubernetes call: " + call
		}
	}
	for k := range x.k.Secrets {
		if k != lib.CookieSecret {
			return "a secret was created as " + k
		}
	}
	x.existing = now
	return ""
}

// can tells whether an instance without keys is able to get them: 1 yes, 0 no, 2 either.
func (x *keyInst) can() int {
	has := x.existing != ""
	switch x.fault {
	case "", "up":
		return 1
	case "down":
		return 0
	case "reads fail":
		if has {
			return 0
		}
		return 2
	case "creations fail":
		if has {
			return 1
		}
		return 0
	case "another party creates the secret just before the next creation":
		if has || x.once == 0 {
			return 1
		}
		return 2
	}
	if x.once == 0 {
		return 1
	}
	return 2
}

func (x *keyInst) step(ev int) (string, bool) {
	e := x.evs[ev]
	if !x.probing && len(x.hist) > 0 {
		p := x.evs[x.hist[len(x.hist)-1]]
		if p.op == "kube" && e.op == "kube" {
			return "", false // only the last one counts
		}
	}
	x.hist = append(x.hist, ev)
	switch e.op {
	case "kube":
		if x.fault == e.arg && x.once > 0 {
			return "", false
		}
		x.fault, x.once = e.arg, map[string]int{"the next two reads fail": 2, "the next three reads fail": 3}[e.arg]
		if x.once == 0 && strings.Contains(e.arg, "next") {
			x.once = 1
		}
		return "", true
	case "restart":
		x.boot(e.i)
		return x.secretKept(), true
	case "visit":
		can := x.can()
		fresh := x.w[e.i]
		_ = fresh
		res := x.l.DoAt(x.w[e.i], lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x"})
		if res.Kind == lib.KPanic {
			return "panic: " + res.Err, true
		}
		if bad := x.secretKept(); bad != "" {
			return bad, true
		}
		if res.Kind != lib.KRedirect {
			if res.Kind == lib.KOK {
				return fmt.Sprintf("let through: %v", res), true
			}
			if can == 1 {
				return fmt.Sprintf("Kubernetes is able to provide the keys (%s, secret %q), but the login fails: %v", x.fault, x.existing, res), true
			}
			return "", true
		}
		a, err := lib.ParseAuth(res.Location)
		n, v := res.Cookie()
		if err != nil || v == "" || a.State == "" {
			return fmt.Sprintf("login redirect without state cookie: %v", res), true
		}
		if x.existing == "" {
			return fmt.Sprintf("a login started without any key secret in the cluster (Kubernetes: %s): %v", x.fault, res), true
		}
		d := x.k.Secrets[lib.CookieSecret].Data
		var out []byte
		if err := securecookie.New(d["HASH_KEY"], d["BLOCK_KEY"]).Decode(n, v, &out); err != nil || !strings.Contains(string(out), a.State) {
			return fmt.Sprintf("the state cookie is not signed and encrypted with the secret's keys (%v)", err), true
		}
		x.last = &wstate{cookie: v, name: n, state: a.State, redirect: a.Redirect}
		return "", true
	case "finish":
		if x.last == nil {
			return "", false
		}
		can := x.can()
		calls := len(x.k.CallLog())
		res := x.l.DoAt(x.w[e.i], lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x/oidc/callback", Code: x.l.Code("u", "cid", x.last.redirect), State: x.last.state, Cookies: x.last.name + "=" + x.last.cookie})
		_ = calls
		if res.Kind == lib.KPanic {
			return "panic: " + res.Err, true
		}
		if bad := x.secretKept(); bad != "" {
			return bad, true
		}
		done := res.Kind == lib.KRedirect && res.Location == "https://app.test/x"
		if can == 1 && !done {
			return fmt.Sprintf("a cookie issued with the secret's keys is not accepted by instance %d: %v", e.i, res), true
		}
		if res.Kind == lib.KOK {
			return fmt.Sprintf("let through: %v", res), true
		}
		if res.Kind == lib.KRedirect && !done && !strings.HasPrefix(res.Location, x.l.URL("auth")) {
			return fmt.Sprintf("unexpected answer %v", res), true
		}
		return "", true
	}
	return "", false
}

func (x *keyInst) probe() string {
	// after recovery everything works and both instances agree
	x.probing = true
	idx := map[string]int{}
	for i, e := range x.evs {
		idx[e.String()] = i
	}
	var seq []int
	seq = append(seq, idx[keyEv{op: "kube", arg: "up"}.String()])
	for _, e := range []keyEv{{op: "finish", i: 0}, {op: "finish", i: 1}, {op: "visit", i: 0}, {op: "finish", i: 1}, {op: "visit", i: 1}, {op: "finish", i: 0}} {
		seq = append(seq, idx[e.String()])
	}
	for _, e := range seq {
		if bad, _ := x.step(e); bad != "" {
			return "after recovery: " + bad
		}
	}
	return ""
}

func c14() {
	c := lib.NewCheck("C14", "model_checking")
	cookieKeys(c, c.Pick(3, 5))
	oddKeySecrets(c)
	concurrent(c)
	traces(c)
	c.Finish()
}

func cookieKeys(c *lib.Check, d int) {
	polInit()
	evs := []keyEv{{op: "visit", i: 0}, {op: "visit", i: 1}, {op: "finish", i: 0}, {op: "finish", i: 1}, {op: "restart", i: 0}, {op: "restart", i: 1}}
	for _, a := range []string{"up", "down", "reads fail", "creations fail", "the next read fails", "the next two reads fail", "the next three reads fail", "the next creation fails", "the next creation is stored but reported as failed", "another party creates the secret just before the next creation"} {
		evs = append(evs, keyEv{op: "kube", arg: a})
	}
	run := func(name string, h, b int, existing bool, boot string, depth int) {
		if c.Stop() {
			return
		}
		m := &model{name: name, n: len(evs), depth: depth, tree: true, show: func(e int) string { return evs[e].String() }, start: func() inst {
			cfg := config.NewConfig()
			_ = cfg.HashKeySize.Set(fmt.Sprint(h))
			_ = cfg.BlockKeySize.Set(fmt.Sprint(b))
			x := &keyInst{evs: evs, cfg: cfg, k: lib.NewKube(), l: lib.NewLab(), fault: boot}
			x.l.Secrets["cid"] = "secret-cid"
			x.k.Fault = x.apiFault
			if existing {
				x.k.PutCookieKeys(7)
				x.existing = dumpSecret(x.k.Secrets[lib.CookieSecret])
			}
			x.boot(0)
			x.boot(1)
			_ = x.secretKept()
			return x
		}}
		m.bfs(c)
	}
	run("no secret, started during an outage", 32, 16, false, "down", d)
	run("secret exists, started during an outage", 32, 16, true, "down", d)
	run("no secret, creation not permitted at first", 64, 24, false, "creations fail", d)
	run("no secret, reads fail at first", 32, 16, false, "reads fail", d)
	run("secret exists, reads fail at first", 64, 32, true, "reads fail", d)
	for _, h := range []int{32, 64} {
		for _, b := range []int{16, 24, 32} {
			run(fmt.Sprintf("sizes %d %d", h, b), h, b, false, "up", c.Pick(2, 3))
			run(fmt.Sprintf("sizes %d %d, secret exists", h, b), h, b, true, "up", 2)
		}
	}
}

// oddKeySecrets: a key secret somebody else made is used as it is or the login fails; nothing is
// ever written over it, whatever it holds and whenever it appears.
func oddKeySecrets(c *lib.Check) {
	k := func(n int, seed byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = seed + byte(i)*3
		}
		return b
	}
	type odd struct {
		name string
		data map[string][]byte
		good bool
	}
	odds := []odd{
		{"no data", nil, false},
		{"empty data", map[string][]byte{}, false},
		{"only HASH_KEY", map[string][]byte{"HASH_KEY": k(32, 1)}, false},
		{"only BLOCK_KEY", map[string][]byte{"BLOCK_KEY": k(16, 2)}, false},
		{"empty keys", map[string][]byte{"HASH_KEY": {}, "BLOCK_KEY": {}}, false},
		{"names in lower case", map[string][]byte{"hash_key": k(32, 1), "block_key": k(16, 2)}, false},
		{"BLOCK_KEY of 15 bytes", map[string][]byte{"HASH_KEY": k(32, 1), "BLOCK_KEY": k(15, 2)}, false},
		{"short HASH_KEY", map[string][]byte{"HASH_KEY": k(8, 1), "BLOCK_KEY": k(16, 2)}, true},
		{"other sizes than configured", map[string][]byte{"HASH_KEY": k(64, 1), "BLOCK_KEY": k(32, 2)}, true},
		{"long HASH_KEY", map[string][]byte{"HASH_KEY": k(200, 1), "BLOCK_KEY": k(24, 2)}, true},
		{"more entries", map[string][]byte{"HASH_KEY": k(32, 1), "BLOCK_KEY": k(16, 2), "OTHER": k(5, 3)}, true},
		{"equal keys", map[string][]byte{"HASH_KEY": k(32, 1), "BLOCK_KEY": k(32, 1)}, true},
		{"keys of zeros", map[string][]byte{"HASH_KEY": make([]byte, 32), "BLOCK_KEY": make([]byte, 16)}, true},
		{"keys ending in a newline", map[string][]byte{"HASH_KEY": append(k(31, 1), 10), "BLOCK_KEY": append(k(15, 2), 10)}, true},
		{"keys of letters", map[string][]byte{"HASH_KEY": []byte("abcdefghijklmnopqrstuvwxyz012345"), "BLOCK_KEY": []byte("YWJjZGVmZ2hpamts")}, true},
	}
	when := []string{"before the start", "just before the adapter creates its own", "just before the adapter creates its own, after two failed reads"}
	sizes := [][2]int{{32, 16}, {64, 32}}
	product(c, "key secrets made by somebody else", []int{len(odds), len(when), len(sizes)}, func(i []int) (string, interface{}, string) {
		o := odds[i[0]]
		show := fmt.Sprintf("a key secret with %s appears %s; configured sizes %v", o.name, when[i[1]], sizes[i[2]])
		cfg := config.NewConfig()
		_ = cfg.HashKeySize.Set(fmt.Sprint(sizes[i[2]][0]))
		_ = cfg.BlockKeySize.Set(fmt.Sprint(sizes[i[2]][1]))
		x := &keyInst{cfg: cfg, k: lib.NewKube(), l: lib.NewLab()}
		defer x.close()
		x.l.Secrets["cid"] = "secret-cid"
		p := strings.SplitN(lib.CookieSecret, "/", 2)
		put := func() { x.k.Put(p[0], p[1], o.data); x.existing = dumpSecret(x.k.Secrets[lib.CookieSecret]) }
		reads, pending := 0, i[1] >= 1
		if i[1] == 2 {
			reads = 2
		}
		x.k.Fault = func(verb, key string) error {
			if key != lib.CookieSecret {
				return nil
			}
			if verb == "get" && reads > 0 {
				reads--
				return lib.ErrKube
			}
			if verb == "create" && pending {
				pending = false
				put()
			}
			return nil
		}
		if i[1] == 0 {
			put()
		}
		x.boot(0)
		x.boot(1)
		out := ""
		var last *wstate
		kept := func() string {
			if pending {
				return ""
			}
			s := x.k.Secrets[lib.CookieSecret]
			if s == nil {
				return "the secret is gone"
			}
			if now := dumpSecret(s); now != x.existing {
				return fmt.Sprintf("the existing secret was changed: %q -> %q", x.existing, now)
			}
			for _, call := range x.k.CallLog() {
				if f := strings.SplitN(call, " ", 2); f[0] != "get" && f[0] != "create" && f[0] != "list" {
					return "unexpected Kubernetes call: " + call
				}
			}
			return ""
		}
		for _, n := range []int{0, 0, 1} {
			res := x.l.DoAt(x.w[n], lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x"})
			if res.Kind == lib.KPanic {
				return "panic: " + res.Err, show, "x"
			}
			if bad := kept(); bad != "" {
				return bad, show, "x"
			}
			if res.Kind == lib.KOK {
				return fmt.Sprintf("let through: %v", res), show, "x"
			}
			if res.Kind != lib.KRedirect {
				if o.good {
					return fmt.Sprintf("the login fails: %v", res), show, "x"
				}
				out += "error "
				continue
			}
			a, err := lib.ParseAuth(res.Location)
			cn, v := res.Cookie()
			var raw []byte
			if err == nil {
				err = securecookie.New(o.data["HASH_KEY"], o.data["BLOCK_KEY"]).Decode(cn, v, &raw)
			}
			if err != nil || !strings.Contains(string(raw), a.State) {
				return fmt.Sprintf("the state cookie is not made with the secret's keys (%v)", err), show, "x"
			}
			out += "login "
			last = &wstate{cookie: v, name: cn, state: a.State, redirect: a.Redirect}
			for _, m := range []int{1, 0} {
				res := x.l.DoAt(x.w[m], lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/x/oidc/callback", Code: x.l.Code("u", "cid", last.redirect), State: last.state, Cookies: last.name + "=" + last.cookie})
				if bad := kept(); bad != "" {
					return bad, show, "x"
				}
				if res.Kind != lib.KRedirect || res.Location != "https://app.test/x" {
					return fmt.Sprintf("a cookie of instance %d is not accepted by instance %d: %v", n, m, res), show, "x"
				}
			}
		}
		return "", show, out
	})
}

func init() { checks["C14"], checks["C20"] = c14, c20 }
