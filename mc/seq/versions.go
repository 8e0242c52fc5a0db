//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// configVersions (C04): whatever field of a configuration an update changes, the next request sees the change.

type oidcVersion struct {
	client, provider, method, secret, ref string
	scopes                                []string
}

func (v oidcVersion) String() string {
	return fmt.Sprintf("{client %s provider %s method %q secret %q ref %q scopes %q}", v.client, v.provider, v.method, v.secret, v.ref, v.scopes)
}

func (v oidcVersion) want() string {
	if v.ref != "" {
		return "kube-" + v.ref
	}
	return v.secret
}

func configVersions(c *lib.Check) {
	base := oidcVersion{client: "c1", provider: "A", secret: "s1"}
	vs := []oidcVersion{base}
	mod := func(f func(*oidcVersion)) { v := base; f(&v); vs = append(vs, v) }
	mod(func(v *oidcVersion) { v.client = "c2" })
	mod(func(v *oidcVersion) { v.provider = "B" })
	mod(func(v *oidcVersion) { v.provider = "A2" }) // same host, another document
	mod(func(v *oidcVersion) { v.provider = "down" })
	mod(func(v *oidcVersion) { v.method = "client_secret_post" })
	mod(func(v *oidcVersion) { v.secret = "s2" })
	mod(func(v *oidcVersion) { v.ref = "k1" })
	mod(func(v *oidcVersion) { v.ref = "k2" })
	mod(func(v *oidcVersion) { v.scopes = []string{"x", "y"} })
	mod(func(v *oidcVersion) { v.scopes = []string{"x"} })
	mod(func(v *oidcVersion) { v.client, v.scopes = "c2", []string{"y"} })
	mod(func(v *oidcVersion) { v.provider, v.secret, v.method = "B", "s2", "client_secret_post" })
	traffic := []string{"none", "a visit", "a login", "a login and a session request"}
	how := []string{"update", "deletion and creation", "update, delivered twice"}
	var paths [][]int
	for i := range vs {
		for j := range vs {
			paths = append(paths, []int{i, j})
			if i != j {
				paths = append(paths, []int{i, j, i})
			}
			if c.Thorough() {
				for k := range vs {
					paths = append(paths, []int{i, j, k})
				}
			}
		}
	}
	product(c, "OidcConfig versions", []int{len(paths), len(traffic), len(how), 2}, func(i []int) (string, interface{}, string) {
		var seq []string
		for _, k := range paths[i[0]] {
			seq = append(seq, vs[k].String())
		}
		show := map[string]interface{}{"versions": seq, "requests after each": traffic[i[1]], "by": how[i[2]], "same name elsewhere": i[3] == 1}
		k := lib.NewKube()
		k.PutCookieKeys(1)
		k.Put("ns", "ref", map[string][]byte{"k1": []byte("kube-k1"), "k2": []byte("kube-k2")})
		labs := map[string]*lib.Lab{}
		for _, n := range []string{"A", "B", "A2", "down"} {
			l := lib.NewLab()
			defer l.Close()
			labs[n] = l
			l.Token = func(r *lib.Rec) lib.Answer { return lib.OK(lib.JSON(l.Mint("u", r.Form.Get("zz")).Body())) }
		}
		labs["down"].Fault = func(ep string, r *lib.Rec) *lib.Answer { return &lib.Answer{Err: lib.ErrNet} }
		w := lib.NewWorld(k, nil)
		for _, l := range labs {
			l.W = w
		}
		set := func(v oidcVersion, again bool) {
			o := lib.OidcConfig("ns", "o", v.client, labs[v.provider].URL("disc"))
			o.Spec.ClientSecret, o.Spec.AuthMethod, o.Spec.Scopes = v.secret, v.method, append([]string(nil), v.scopes...)
			if v.ref != "" {
				o.Spec.ClientSecretRef.Name, o.Spec.ClientSecretRef.Key = "ref", v.ref
			}
			w.Set(o)
			if again {
				w.Set(o.DeepCopy())
			}
		}
		w.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("oidc", "o", rule("sub", "ANY", "", "u")...))))
		use := func(v oidcVersion, n int) string {
			if n == 0 {
				return ""
			}
			l := labs[v.provider]
			r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p"}
			res := l.Do(r)
			if v.provider == "down" {
				if res.Kind == lib.KOK || strings.Contains(res.Location, "/auth") {
					return fmt.Sprintf("while the configured provider is down a first visit got %v", res)
				}
				return ""
			}
			a, err := lib.ParseAuth(res.Location)
			scope := "openid profile email"
			if len(v.scopes) > 0 {
				scope = strings.Join(v.scopes, " ")
			}
			if res.Kind != lib.KRedirect || err != nil || a.Endpoint != l.URL("auth") || a.ClientID != v.client || a.Scope != scope {
				return fmt.Sprintf("with the configuration %v a first visit got %v", v, res)
			}
			if n == 1 {
				return ""
			}
			name, st := res.Cookie()
			l.ResetLog()
			r.Path, r.Cookies, r.Code, r.State = "/p/oidc/callback", name+"="+st, "code", a.State
			res = l.Do(r)
			toks := l.Requests("token")
			if len(toks) != 1 {
				return fmt.Sprintf("with the configuration %v a login sent %d token requests to its provider and got %v", v, len(toks), res)
			}
			q := toks[0]
			id, secret := q.Form.Get("client_id"), q.Form.Get("client_secret")
			if v.method != "client_secret_post" {
				id, secret, _ = lib.ParseBasic(q.Header.Get("Authorization"))
			}
			if id != v.client || secret != v.want() {
				return fmt.Sprintf("with the configuration %v the token request authenticates as %q with %q", v, id, secret)
			}
			sn, sv := res.Cookie()
			if res.Kind != lib.KRedirect || sv == "" || sn != "oidc-cookie-"+v.client {
				return fmt.Sprintf("with the configuration %v a login got %v", v, res)
			}
			if n == 3 {
				if res = l.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: sn + "=" + sv}); res.Kind != lib.KOK {
					return fmt.Sprintf("with the configuration %v a session request got %v", v, res)
				}
			}
			return ""
		}
		for n, x := range paths[i[0]] {
			if n > 0 && i[2] == 1 {
				w.Del(v1.OIDCCONFIG, "ns", "o")
			}
			set(vs[x], i[2] == 2)
			if i[3] == 1 && n == 0 {
				e := lib.OidcConfig("ns2", "o", "c9", labs["B"].URL("disc"))
				w.Set(e)
			}
			t := i[1]
			if n == len(paths[i[0]])-1 {
				t = 3
			}
			if bad := use(vs[x], t); bad != "" {
				return bad, show, ""
			}
		}
		return "", show, "as configured"
	})
	// JwtConfigs: another key set at the same host, another query, another host
	urls := []string{"", "?tenant=b", "/b", "other"}
	product(c, "JwtConfig versions", []int{len(urls), len(urls), len(urls), 2, len(how)}, func(i []int) (string, interface{}, string) {
		seq := []int{i[0], i[1], i[2]}
		show := map[string]interface{}{"key sets": []string{urls[i[0]], urls[i[1]], urls[i[2]]}, "requests after each": i[3] == 1, "by": how[i[4]]}
		names := []string{"a", "b", "c", "x"}
		idp := lib.NewIdP(fmt.Sprintf("jv%d%d%d%d%d", i[0], i[1], i[2], i[3], i[4]), lib.K("a"))
		defer idp.Close()
		other := lib.NewIdP(fmt.Sprintf("jw%d%d%d%d%d", i[0], i[1], i[2], i[3], i[4]), lib.K("x"))
		defer other.Close()
		idp.Fault = func(ep string, r *lib.Rec) *lib.Answer {
			for n, u := range urls[1:3] {
				if strings.HasSuffix(r.URL, "jwks"+u) {
					a := lib.OK(lib.JWKS([]lib.PubKey{lib.K(names[n+1])}))
					return &a
				}
			}
			return nil
		}
		w := lib.NewWorld(polKube, polWeb)
		w.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
		for n, x := range seq {
			if n > 0 && i[4] == 1 {
				w.Del(v1.JWTCONFIG, "ns", "j")
			}
			u := idp.URL("jwks") + urls[x]
			if urls[x] == "other" {
				u = other.URL("jwks")
			}
			w.Set(lib.JwtConfig("ns", "j", u))
			if i[4] == 2 {
				w.Set(lib.JwtConfig("ns", "j", u))
			}
			if i[3] == 0 && n < 2 {
				continue
			}
			for m, key := range names {
				res := w.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Auth: "Bearer " + lib.JWT(key, lib.Std("u", "x"))})
				if want := m == x; (res.Kind == lib.KOK) != want {
					return fmt.Sprintf("the key set is %q (version %d), a token signed with key %s got %v", urls[x], n, key, res), show, ""
				}
			}
		}
		return "", show, "as configured"
	})
}

// policyVersions (C03): whatever content of a policy an update changes while its paths stay the same, the answers
// become those of an adapter that was given only the final objects.
func policyVersions(c *lib.Check) {
	polInit()
	type version struct {
		name string
		pols []v1.PathPolicy
	}
	var vs []version
	add := func(name string, pols ...v1.PathPolicy) { vs = append(vs, version{name, pols}) }
	red := func(typ, cfg, uri string, rules ...v1.Rule) v1.PathPolicy {
		p := lib.Pol(typ, cfg, rules...)
		p.RedirectUri = uri
		return p
	}
	empty := lib.Pol("oidc", "o")
	empty.Rules = []v1.Rule{}
	u, v := rule("sub", "ALL", "", "u"), rule("sub", "ALL", "", "v")
	both := append(append([]v1.Rule(nil), u...), rule("scope", "ANY", "", "read")...)
	add("jwt j", lib.Pol("jwt", "j"))
	add("jwt j sub=u", lib.Pol("jwt", "j", u...))
	add("jwt j sub=v", lib.Pol("jwt", "j", v...))
	add("jwt j sub any u", lib.Pol("jwt", "j", rule("sub", "ANY", "", "u")...))
	add("jwt j sub not u", lib.Pol("jwt", "j", rule("sub", "NOT", "", "u")...))
	add("jwt j sub any u,v", lib.Pol("jwt", "j", rule("sub", "ANY", "", "u", "v")...))
	add("jwt j sub all u,v", lib.Pol("jwt", "j", rule("sub", "ALL", "", "u", "v")...))
	add("jwt j sub=u of the ID token", lib.Pol("jwt", "j", rule("sub", "ALL", "id_token", "u")...))
	add("jwt j sub=u of the access token", lib.Pol("jwt", "j", rule("sub", "ALL", "access_token", "u")...))
	add("jwt j aud=u", lib.Pol("jwt", "j", rule("aud", "ALL", "", "u")...))
	add("jwt j scope=read", lib.Pol("jwt", "j", rule("scope", "", "", "read")...))
	add("jwt j scope=write", lib.Pol("jwt", "j", rule("scope", "", "", "write")...))
	add("jwt j sub=u, scope=read", lib.Pol("jwt", "j", both...))
	add("jwt k", lib.Pol("jwt", "k"))
	add("jwt k sub=u", lib.Pol("jwt", "k", u...))
	add("oidc o", lib.Pol("oidc", "o"))
	add("oidc o, empty rules", empty)
	add("oidc o sub=u", lib.Pol("oidc", "o", u...))
	add("oidc o sub=v", lib.Pol("oidc", "o", v...))
	add("oidc o, redirect x", red("oidc", "o", "https://x.test/"))
	add("oidc o, redirect y", red("oidc", "o", "https://y.test/"))
	add("oidc o sub=u, redirect y", red("oidc", "o", "https://y.test/", u...))
	add("oidc oo", lib.Pol("oidc", "oo"))
	add("jwt j, oidc o", lib.Pol("jwt", "j"), lib.Pol("oidc", "o"))
	add("oidc o, jwt j", lib.Pol("oidc", "o"), lib.Pol("jwt", "j"))
	add("jwt j sub=u, jwt j sub=v", lib.Pol("jwt", "j", u...), lib.Pol("jwt", "j", v...))
	var paths [][]int
	for i := range vs {
		for j := range vs {
			if i != j {
				paths = append(paths, []int{i, j}, []int{i, j, i})
			}
			if c.Thorough() {
				for k := range vs {
					if i != j && j != k && i != k {
						paths = append(paths, []int{i, j, k})
					}
				}
			}
		}
	}
	forms := []string{"one entry", "the same on an exact path", "per method", "two services"}
	how := []string{"update", "deletion and creation", "update, delivered twice"}
	product(c, "Policy versions", []int{len(paths), len(forms), len(how), 2}, func(i []int) (string, interface{}, string) {
		var seq []string
		for _, k := range paths[i[0]] {
			seq = append(seq, vs[k].name)
		}
		traffic := i[3] == 1
		show := map[string]interface{}{"versions": seq, "form": forms[i[1]], "by": how[i[2]], "requests between": traffic}
		object := func(x version, n string) *v1.Policy {
			var p *v1.Policy
			switch i[1] {
			case 0:
				p = lib.Policy("ns", n, "s", lib.Path("", "/", "ALL", x.pols...))
			case 1:
				p = lib.Policy("ns", n, "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j", rule("sub", "", "", "w")...)), lib.Path("/p", "", "ALL", x.pols...))
			case 2:
				p = lib.Policy("ns", n, "s", lib.Path("", "/", "GET", x.pols...), lib.Path("", "/", "POST", lib.Pol("jwt", "j", rule("sub", "", "", "w")...)))
			default:
				p = lib.Policy("ns", n, "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j", rule("sub", "", "", "w")...)))
				p.Spec.Target = append(p.Spec.Target, lib.Policy("ns", n, "s2", lib.Path("", "/", "ALL", x.pols...)).Spec.Target...)
			}
			return p.DeepCopy()
		}
		world := func() *lib.World {
			w := lib.NewWorld(polKube, polWeb)
			w.Set(lib.JwtConfig("ns", "j", polIdp.URL("jwks")))
			w.Set(lib.JwtConfig("ns", "k", polIdp.URL("jwks")+"?none"))
			w.Set(lib.OidcConfig("ns", "o", "tago", polIdp.URL("disc")))
			w.Set(lib.OidcConfig("ns", "oo", "tagoo", polIdp.URL("disc")))
			return w
		}
		ask := func(w *lib.World) (l []string) {
			for _, svc := range []string{"s", "s2"} {
				for _, m := range []string{"GET", "POST"} {
					for _, a := range policyProbes() {
						res := w.Do(lib.Req{NS: "ns", Svc: svc, Method: m, Path: "/p", Auth: a})
						text := res.WWW
						if a, err := lib.ParseAuth(res.Location); err == nil && res.Kind == lib.KRedirect {
							cn, _ := res.Cookie()
							text = a.Endpoint + " " + a.ClientID + " " + a.Redirect + " " + a.Scope + " " + cn
						}
						l = append(l, fmt.Sprintf("%s %s: %s %d %s %s", svc, m, res.Kind, res.Status, text, res.Err))
					}
				}
				if svc == "s" && i[1] != 3 {
					break
				}
			}
			return l
		}
		w, f := world(), world()
		var last *v1.Policy
		for n, x := range paths[i[0]] {
			if n > 0 && i[2] == 1 {
				w.Del(v1.POLICY, "ns", "p")
			}
			last = object(vs[x], "p")
			w.Set(last.DeepCopy())
			if i[2] == 2 {
				w.Set(last.DeepCopy())
			}
			if traffic {
				ask(w)
			}
		}
		f.Set(last.DeepCopy())
		got, want := ask(w), ask(f)
		for n := range got {
			if got[n] != want[n] {
				return fmt.Sprintf("answer %d is %q, an adapter given only the final objects answers %q", n, got[n], want[n]), show, ""
			}
		}
		return "", show, fmt.Sprintf("%x", lib.Hash(strings.Join(want, "\n")))
	})
}

var policyProbes = sync.OnceValue(func() []string {
	far := time.Now().Add(24 * time.Hour).Unix()
	tok := func(sub, scope, aud string) string {
		return lib.JWT("a", lib.Claims{"sub": sub, "scope": scope, "aud": aud, "exp": far})
	}
	l := []string{""}
	for _, a := range []string{tok("u", "read", "x"), tok("v", "write", "u"), tok("u", "write read", "x"), tok("w", "", "x")} {
		l = append(l, "Bearer "+a)
	}
	return append(l, "Bearer "+tok("v", "read", "x")+" "+tok("u", "", "x"), "Bearer "+tok("u", "read", "x")+" "+tok("v", "", "x"))
})
