//go:build go1.21

package main

import (
	"encoding/base64"
	"fmt"
	"strings"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// headerForms (C06): published kids of every form are found exactly, kids that merely resemble a published one are
// not, further header parameters select or supply no other key, and the size of a token does not matter.
func headerForms(c *lib.Check) {
	kids := []string{"a", "x/a", "a b", "ü", "5", "null", strings.Repeat("k", 300), "A", "a.pem", "https://idp.test/keys/a", "Sm9l+/=", "a%20b", "-", "%s"}
	near := []func(string) string{
		func(s string) string { return s },
		func(s string) string { return "z/" + s }, func(s string) string { return s + "/" }, func(s string) string { return "/" + s }, func(s string) string { return " " + s },
		func(s string) string { return s + " " }, func(s string) string { return s + "\t" }, func(s string) string { return s + "\n" }, func(s string) string { return s + "\x00" },
		func(s string) string { return s + ".pem" }, func(s string) string { return s + ",b" }, func(s string) string { return "#" + s }, func(s string) string { return s + "#1" }, func(s string) string { return s + "?v=1" },
		func(s string) string { return s + s }, func(s string) string { return strings.ToUpper(s) }, func(s string) string { return strings.ToLower(s) }, func(s string) string { return s[:len(s)-1] },
		func(s string) string { return strings.Replace(s, "a", "%61", 1) }, func(s string) string { return base64.RawURLEncoding.EncodeToString([]byte(s)) }, func(s string) string { return fmt.Sprintf("%q", s) },
	}
	jwk := func(name string) string { return lib.JWK(lib.PubKey{Kid: "z", Key: lib.Key(name)}) }
	extra := []string{``, `"typ":"JWT"`, `"typ":"at+jwt"`, `"typ":5`, `"cty":"JWT"`,
		`"jwk":` + jwk("x"), `"jku":"@J"`, `"x5u":"@J"`, `"x5t":@K`, `"x5t#S256":@K`, `"KID":@K`, `"Kid":@K`, `"key_id":@K`, `"x5c":["` + base64.StdEncoding.EncodeToString([]byte("no certificate")) + `"]`, `"keys":[` + jwk("x") + `]`, `"jwks":{"keys":[` + jwk("x") + `]}`}
	signers := []string{"published", "another"}
	algs := []string{"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"}
	if !c.Thorough() {
		algs = []string{"RS256", "PS512"}
	}
	product(c, "header forms", []int{len(kids), len(near), len(extra), len(signers), len(algs), 2}, func(i []int) (string, interface{}, string) {
		published, kid := kids[i[0]], near[i[1]](kids[i[0]])
		show := map[string]interface{}{"published kid": published, "kid": kid, "further header": extra[i[2]], "signed with": signers[i[3]] + " key", "alg": algs[i[4]], "ID token": i[5]}
		idp := lib.NewIdP(fmt.Sprintf("h%d-%d-%d-%d-%d-%d", i[0], i[1], i[2], i[3], i[4], i[5]), lib.PubKey{Kid: published, Key: lib.Key("a")}, lib.PubKey{Kid: "other", Key: lib.Key("b")})
		defer idp.Close()
		w := lib.NewWorld(polKube, polWeb)
		w.Set(lib.JwtConfig("ns", "j", idp.URL("jwks")))
		w.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
		h := `{"alg":"` + algs[i[4]] + `","kid":` + lib.JSON(kid)
		if extra[i[2]] != "" {
			h += "," + strings.NewReplacer("@K", lib.JSON(published), "@J", idp.URL("foreign")).Replace(extra[i[2]])
			if strings.Contains(extra[i[2]], `"KID"`) || strings.Contains(extra[i[2]], `"Kid"`) {
				h = `{"alg":"` + algs[i[4]] + `","kid":` + lib.JSON(kid) + `,` + strings.Split(extra[i[2]], ":")[0] + `:` + lib.JSON(published)
			}
		}
		key := "a"
		if i[3] == 1 {
			key = "x"
		}
		t := lib.Sign(h+"}", lib.JSON(lib.Std("u", "x")), algs[i[4]], lib.Key(key))
		auth := "Bearer " + t
		if i[5] == 1 {
			auth = "Bearer " + lib.Sign(`{"alg":"RS256","kid":"other"}`, lib.JSON(lib.Std("u", "x")), "RS256", lib.Key("b")) + " " + t
		}
		res := w.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Auth: auth})
		want := lib.KDeny
		if kid == published && key == "a" {
			want = lib.KOK
		}
		if res.Kind != want {
			return fmt.Sprintf("expected %s, answered %v", want, res), show, ""
		}
		for _, r := range idp.Requests("") {
			if !strings.HasSuffix(r.Path, "/jwks") {
				return "a request went to " + r.URL, show, ""
			}
		}
		return "", show, res.Kind
	})
	sizes := []int{1 << 10, 4 << 10, 8 << 10, 16 << 10, 64 << 10, 256 << 10, 1 << 20}
	places := []string{"a string claim", "an array claim", "many claims", "the header", "a deep claim"}
	states := []string{"valid", "altered", "signed with another key"}
	product(c, "token sizes", []int{len(sizes), len(places), len(states), 2}, func(i []int) (string, interface{}, string) {
		n := sizes[i[0]]
		show := map[string]interface{}{"size": n, "in": places[i[1]], "token": states[i[2]], "ID token": i[3]}
		idp := lib.NewIdP(fmt.Sprintf("z%d-%d-%d-%d", i[0], i[1], i[2], i[3]), lib.K("a"))
		defer idp.Close()
		w := lib.NewWorld(polKube, polWeb)
		w.Set(lib.JwtConfig("ns", "j", idp.URL("jwks")))
		w.Set(lib.Policy("ns", "p", "s", lib.Path("", "/", "ALL", lib.Pol("jwt", "j"))))
		cl, h := lib.Std("u", "x"), `{"alg":"RS256","kid":"a"}`
		switch i[1] {
		case 0:
			cl = cl.With("pad", strings.Repeat("p", n))
		case 1:
			var l []string
			for k := 0; k*12 < n; k++ {
				l = append(l, fmt.Sprintf("group-%05d", k))
			}
			cl = cl.With("groups", l)
		case 2:
			m := lib.Claims{}
			for k, v := range cl {
				m[k] = v
			}
			for k := 0; k*18 < n; k++ {
				m[fmt.Sprintf("claim-%06d", k)] = true
			}
			cl = m
		case 3:
			h = `{"alg":"RS256","kid":"a","pad":"` + strings.Repeat("p", n) + `"}`
		case 4:
			var v interface{} = "x"
			for k := 0; k < 200 && k*6 < n; k++ {
				v = map[string]interface{}{"d": v}
			}
			cl = cl.With("deep", v).With("pad", strings.Repeat("p", n))
		}
		key := "a"
		if i[2] == 2 {
			key = "x"
		}
		t := lib.Sign(h, lib.JSON(cl), "RS256", lib.Key(key))
		if i[2] == 1 {
			p := strings.Split(t, ".")
			b, _ := base64.RawURLEncoding.DecodeString(p[1])
			b = []byte(strings.Replace(string(b), `"sub":"u"`, `"sub":"w"`, 1))
			p[1] = base64.RawURLEncoding.EncodeToString(b)
			t = strings.Join(p, ".")
		}
		auth := "Bearer " + t
		if i[3] == 1 {
			auth = "Bearer " + lib.JWT("a", lib.Std("u", "x")) + " " + t
		}
		res := w.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Auth: auth})
		want := lib.KDeny
		if i[2] == 0 {
			want = lib.KOK
		}
		if res.Kind != want {
			return fmt.Sprintf("expected %s, answered %v", want, res), show, ""
		}
		return "", show, res.Kind
	})
}
