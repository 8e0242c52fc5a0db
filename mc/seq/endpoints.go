//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// endpointForms: every endpoint of the discovery document is used exactly as the document gives it, whatever its form
// and whatever else the document contains.
func endpointForms(c *lib.Check) {
	sfx := []string{"", "?tenant=a%20b&p=1", "/v2.0/", "/x/../y", ";v=1", "?", "/a%2Fb"}
	if !c.Thorough() {
		sfx = sfx[:5]
	}
	extras := []map[string]interface{}{
		{},
		{"scopes_supported": []string{"openid"}, "claims_parameter_supported": true, "mtls_endpoint_aliases": map[string]string{"token_endpoint": "https://wrong.test/token"}, "request_uri_parameter_supported": nil, "registration_endpoint": "https://wrong.test/reg", "device_authorization_endpoint": 5},
		{"issuer": "https://elsewhere.test/"},
	}
	kinds := []string{"JWT access token", "opaque access token"}
	product(c, "endpoint forms", []int{len(sfx), len(sfx), len(sfx), len(sfx), len(extras), len(kinds)}, func(i []int) (string, interface{}, string) {
		show := map[string]interface{}{"authorization endpoint ends in": sfx[i[0]], "token endpoint": sfx[i[1]], "key set endpoint": sfx[i[2]], "userinfo endpoint": sfx[i[3]], "document": i[4], "tokens": kinds[i[5]]}
		s := newStage(stageCfg{})
		defer s.Close()
		want := map[string]string{}
		s.Fault = func(ep string, r *lib.Rec) *lib.Answer {
			if ep != "disc" {
				return nil
			}
			d := map[string]interface{}{}
			for k, v := range s.DiscoveryDoc() {
				d[k] = v
			}
			for n, k := range []string{"authorization_endpoint", "token_endpoint", "jwks_uri", "userinfo_endpoint"} {
				d[k] = d[k].(string) + sfx[i[n]]
				want[[]string{"auth", "token", "jwks", "userinfo"}[n]] = d[k].(string)
			}
			for k, v := range extras[i[4]] {
				d[k] = v
			}
			a := lib.OK(lib.JSON(d))
			return &a
		}
		s.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
			cl := lib.Std(g.User, g.Client).With("jti", fmt.Sprint(s.ID, len(s.Minted), kind)).With("exp", lib.In(s.Offset+time.Hour))
			t.Access, t.ID = lib.JWT("a", cl.With("typ", "access")), lib.JWT("a", cl.With("typ", "id"))
			if i[5] == 1 {
				t.Access = fmt.Sprintf("opaque-%s-%d-zq", s.ID, len(s.Minted))
			}
			s.Minted[len(s.Minted)-1] = t
			return t.Body()
		}
		// the configuration of the stage was delivered before the document above was in place
		s.ResetLog()
		s.W.Set(lib.OidcConfig("ns", "o", "cid", s.URL("disc")))
		res := s.Do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p"})
		if u := want["auth"]; !strings.HasPrefix(res.Location, strings.TrimSuffix(u, "?")) && !strings.Contains(u, "?") {
			return fmt.Sprintf("a first visit was sent to %q, the authorization endpoint is %q", res.Location, u), show, ""
		}
		n, v, bad := s.login("s", "u", "cid")
		if bad != "" {
			return bad, show, ""
		}
		r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: n + "=" + v}
		if res := s.Do(r); res.Kind != lib.KOK {
			return fmt.Sprintf("a request with the session of a login just completed got %v", res), show, ""
		}
		if s.Offset += 90 * time.Minute; i[5] == 0 {
			if res := s.Do(r); res.Kind != lib.KOK {
				return fmt.Sprintf("a request with a session due for refresh got %v", res), show, ""
			}
		}
		for _, ep := range []string{"token", "jwks", "userinfo"} {
			l := s.Requests(ep)
			if len(l) == 0 && (ep != "userinfo" || i[5] == 1) {
				return fmt.Sprintf("the %s endpoint was never asked", ep), show, ""
			}
			for _, q := range l {
				if strings.TrimSuffix(q.URL, "?") != strings.TrimSuffix(want[ep], "?") {
					return fmt.Sprintf("the %s endpoint is %q, a request went to %q", ep, want[ep], q.URL), show, ""
				}
			}
		}
		return "", show, "works"
	})
}

// answerSizes: the size of a provider's answers decides nothing, however much it says besides what is needed.
func answerSizes(c *lib.Check) {
	sizes := []int{0, 3 << 10, 40 << 10, 600 << 10}
	if c.Thorough() {
		sizes = append(sizes, 1, 510, 1020, 4090, 8180, 65530, 5<<20)
	}
	n := len(sizes)
	product(c, "answer sizes", []int{n, n, n, n, 2, 2}, func(i []int) (string, interface{}, string) {
		show := map[string]interface{}{"discovery": sizes[i[0]], "key set": sizes[i[1]], "token": sizes[i[2]], "userinfo": sizes[i[3]], "access token": []string{"JWT", "opaque"}[i[4]], "extra text": []string{"first", "last"}[i[5]]}
		s := newStage(stageCfg{})
		defer s.Close()
		pad := func(body string, n int) string {
			if n == 0 {
				return body
			}
			// the answer with one more member before or after the others
			x := `"more":"` + strings.Repeat("m", n) + `"`
			if i[5] == 0 {
				return "{" + x + "," + body[1:]
			}
			return body[:len(body)-1] + "," + x + "}"
		}
		s.Fault = func(ep string, r *lib.Rec) *lib.Answer {
			var a lib.Answer
			switch ep {
			case "disc":
				a = lib.OK(pad(lib.JSON(s.DiscoveryDoc()), sizes[i[0]]))
			case "jwks":
				a = lib.OK(pad(lib.JWKS(s.Keys), sizes[i[1]]))
			case "userinfo":
				a = lib.OK(pad(lib.JSON(lib.Claims{"sub": "u"}), sizes[i[3]]))
			default:
				return nil
			}
			return &a
		}
		s.Shape = func(kind string, g *lib.Grant, t lib.TokenSet) map[string]interface{} {
			cl := lib.Std(g.User, g.Client).With("jti", fmt.Sprint(s.ID, len(s.Minted), kind)).With("exp", lib.In(s.Offset+time.Hour))
			t.Access, t.ID = lib.JWT("a", cl.With("typ", "access")), lib.JWT("a", cl.With("typ", "id"))
			if i[4] == 1 {
				t.Access = fmt.Sprintf("opaque-%s-%d-zq", s.ID, len(s.Minted))
			}
			s.Minted[len(s.Minted)-1] = t
			b := t.Body()
			if sizes[i[2]] > 0 {
				b[[]string{"a_more", "zz_more"}[i[5]]] = strings.Repeat("m", sizes[i[2]])
			}
			return b
		}
		s.W.Set(lib.OidcConfig("ns", "o", "cid", s.URL("disc")))
		n, v, bad := s.login("s", "u", "cid")
		if bad != "" {
			return bad, show, ""
		}
		r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/p", Cookies: n + "=" + v}
		for k := 0; k < 2; k++ {
			if res := s.Do(r); res.Kind != lib.KOK {
				return fmt.Sprintf("request %d with the session of a login just completed got %v", k+1, res), show, ""
			}
			if i[4] == 1 {
				break
			}
			s.Offset += 90 * time.Minute // due for refresh
		}
		return "", show, "works"
	})
}
