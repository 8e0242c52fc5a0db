//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"sync"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// C04: configuration binding. Two providers A (key a) and B (key b).

var (
	cfgOnce  sync.Once
	cfgA     *lib.IdP
	cfgB     *lib.IdP
	cfgToken = map[string]string{}
)

func cfgInit() {
	cfgOnce.Do(func() {
		polInit()
		cfgA, cfgB = lib.NewIdP("cfga", lib.K("a")), lib.NewIdP("cfgb", lib.K("b"))
		for _, k := range []string{"a", "b"} {
			cfgToken[k] = lib.JWT(k, lib.Std("u", "x"))
		}
	})
}

type cfgEvent struct {
	op       string // jwt, oidc, policy, deljwt, deloidc, delpolicy, ask
	ns, name string
	idp      string
	client   string
	typ, cfg string
}

func (e cfgEvent) String() string {
	switch e.op {
	case "jwt":
		return fmt.Sprintf("set JwtConfig %s/%s -> provider %s", e.ns, e.name, e.idp)
	case "oidc":
		return fmt.Sprintf("set OidcConfig %s/%s -> provider %s client %s", e.ns, e.name, e.idp, e.client)
	case "policy":
		return fmt.Sprintf("set Policy %s/%s {service s prefix / type %s config %s}", e.ns, e.name, e.typ, e.cfg)
	}
	return fmt.Sprintf("%s %s/%s", e.op, e.ns, e.name)
}

type cfgWorld struct {
	evs  []cfgEvent
	w    *lib.World
	jwt  map[string]string   // ns/name -> idp
	oidc map[string]cfgEvent // ns/name
	pol  map[string]cfgEvent
}

func (x *cfgWorld) close() {}

func (x *cfgWorld) step(ev int) (string, bool) {
	e := x.evs[ev]
	id := e.ns + "/" + e.name
	url := map[string]*lib.IdP{"A": cfgA, "B": cfgB}
	switch e.op {
	case "jwt":
		x.w.Set(lib.JwtConfig(e.ns, e.name, url[e.idp].URL("jwks")))
		x.jwt[id] = e.idp
	case "oidc":
		x.w.Set(lib.OidcConfig(e.ns, e.name, e.client, url[e.idp].URL("disc")))
		x.oidc[id] = e
	case "policy":
		x.w.Set(lib.Policy(e.ns, e.name, "s", lib.Path("", "/", "ALL", lib.Pol(e.typ, e.cfg))))
		x.pol[e.ns] = e
	case "deljwt":
		x.w.Del(v1.JWTCONFIG, e.ns, e.name)
		delete(x.jwt, id)
	case "deloidc":
		x.w.Del(v1.OIDCCONFIG, e.ns, e.name)
		delete(x.oidc, id)
	case "delpolicy":
		x.w.Del(v1.POLICY, e.ns, e.name)
		delete(x.pol, e.ns)
	case "ask":
		return x.probe(), true
	}
	return "", true
}

func (x *cfgWorld) key() string {
	return lib.Dump(x.w.Store) + fmt.Sprint(x.jwt, x.oidc, x.pol)
}

func (x *cfgWorld) probe() string {
	for _, ns := range []string{"ns1", "ns2"} {
		p, covered := x.pol[ns]
		for _, tok := range []string{"", "a", "b"} {
			r := lib.Req{NS: ns, Svc: "s", Method: "GET", Path: "/x"}
			if tok != "" {
				r.Auth = "Bearer " + cfgToken[tok]
			}
			res := x.w.Do(r)
			want := lib.KOK
			detail := ""
			if covered {
				want = lib.KError
				switch p.typ {
				case "jwt":
					if idp, ok := x.jwt[ns+"/"+p.cfg]; ok {
						want = lib.KDeny
						if strings.ToLower(idp) == tok {
							want = lib.KOK
						}
					}
				case "oidc":
					if oc, ok := x.oidc[ns+"/"+p.cfg]; ok {
						want = lib.KRedirect
						idp := map[string]*lib.IdP{"A": cfgA, "B": cfgB}[oc.idp]
						a, err := lib.ParseAuth(res.Location)
						if res.Kind == lib.KRedirect && (err != nil || a.Endpoint != idp.URL("auth") || a.ClientID != oc.client) {
							detail = fmt.Sprintf(" to %s as client %s, expected provider %s client %s", a.Endpoint, a.ClientID, oc.idp, oc.client)
						}
					}
				}
			}
			if covered && p.typ == "JWT" && (res.Kind == lib.KDeny || res.Kind == lib.KOK && strings.ToLower(x.jwt[ns+"/"+p.cfg]) == tok) {
				continue // unusual spelling: may be an error or mean jwt
			}
			if res.Kind != want || detail != "" {
				return fmt.Sprintf("request in %s with token of provider %q answered %v%s, expected %s", ns, tok, res, detail, want)
			}
		}
	}
	return ""
}

func configCheck() {
	cfgInit()
	c := lib.NewCheck("C04", "model_checking")
	run := func(name string, depth int, evs []cfgEvent) {
		if c.Stop() {
			return
		}
		m := &model{name: name, n: len(evs), depth: depth,
			start: func() inst {
				return &cfgWorld{evs, lib.NewWorld(polKube, polWeb), map[string]string{}, map[string]cfgEvent{}, map[string]cfgEvent{}}
			},
			show: func(e int) string { return evs[e].String() }}
		m.bfs(c)
	}
	// every kind of change to one name, policies of both types, requests in between
	run("one-name", c.Pick(7, 12), []cfgEvent{
		{op: "jwt", ns: "ns1", name: "c", idp: "A"}, {op: "jwt", ns: "ns1", name: "c", idp: "B"}, {op: "deljwt", ns: "ns1", name: "c"},
		{op: "oidc", ns: "ns1", name: "c", idp: "A", client: "c1"}, {op: "oidc", ns: "ns1", name: "c", idp: "B", client: "c2"}, {op: "oidc", ns: "ns1", name: "c", idp: "B", client: "c1"}, {op: "deloidc", ns: "ns1", name: "c"},
		{op: "policy", ns: "ns1", name: "p", typ: "jwt", cfg: "c"}, {op: "policy", ns: "ns1", name: "p", typ: "oidc", cfg: "c"}, {op: "delpolicy", ns: "ns1", name: "p"}, {op: "ask"},
	})
	// names, namespaces and kinds must not be confused
	run("two-namespaces", c.Pick(7, 12), []cfgEvent{
		{op: "jwt", ns: "ns1", name: "c", idp: "A"}, {op: "jwt", ns: "ns2", name: "c", idp: "B"}, {op: "jwt", ns: "ns1", name: "d", idp: "B"},
		{op: "deljwt", ns: "ns1", name: "c"}, {op: "deljwt", ns: "ns2", name: "c"}, {op: "deljwt", ns: "ns1", name: "d"},
		{op: "policy", ns: "ns1", name: "p", typ: "jwt", cfg: "c"}, {op: "policy", ns: "ns1", name: "p", typ: "jwt", cfg: "d"}, {op: "policy", ns: "ns2", name: "p", typ: "jwt", cfg: "c"}, {op: "policy", ns: "ns2", name: "p", typ: "jwt", cfg: "d"},
	})
	run("two-namespaces-oidc", c.Pick(7, 12), []cfgEvent{
		{op: "oidc", ns: "ns1", name: "c", idp: "A", client: "c1"}, {op: "oidc", ns: "ns2", name: "c", idp: "B", client: "c2"}, {op: "oidc", ns: "ns1", name: "d", idp: "B", client: "c1"},
		{op: "deloidc", ns: "ns1", name: "c"}, {op: "deloidc", ns: "ns2", name: "c"}, {op: "deloidc", ns: "ns1", name: "d"},
		{op: "policy", ns: "ns1", name: "p", typ: "oidc", cfg: "c"}, {op: "policy", ns: "ns1", name: "p", typ: "oidc", cfg: "d"}, {op: "policy", ns: "ns2", name: "p", typ: "oidc", cfg: "c"},
		{op: "jwt", ns: "ns1", name: "c", idp: "A"},
	})
	// a reference is a name in the policy's own namespace, however it is spelled and whatever the namespaces are called
	run("qualified-names", c.Pick(4, 7), []cfgEvent{
		{op: "jwt", ns: "ns2", name: "c", idp: "A"}, {op: "jwt", ns: "default", name: "c", idp: "A"}, {op: "jwt", ns: "", name: "c", idp: "B"}, {op: "oidc", ns: "ns2", name: "c", idp: "A", client: "c1"}, {op: "oidc", ns: "default", name: "c", idp: "B", client: "c2"},
		{op: "jwt", ns: "istio-system", name: "c", idp: "A"}, {op: "jwt", ns: "kube-system", name: "c", idp: "A"}, {op: "jwt", ns: "ns1", name: "C", idp: "A"}, {op: "jwt", ns: "ns1", name: "c ", idp: "A"}, {op: "jwt", ns: "ns1", name: "cc", idp: "A"}, {op: "oidc", ns: "ns1", name: "C", idp: "A", client: "c1"},
		{op: "policy", ns: "ns1", name: "p", typ: "jwt", cfg: "ns2/c"}, {op: "policy", ns: "ns1", name: "p", typ: "jwt", cfg: "c"}, {op: "policy", ns: "ns1", name: "p", typ: "oidc", cfg: "ns2/c"}, {op: "policy", ns: "ns1", name: "p", typ: "oidc", cfg: "c"}, {op: "policy", ns: "ns1", name: "p", typ: "jwt", cfg: "ns2.c"}, {op: "policy", ns: "ns1", name: "p", typ: "jwt", cfg: "../ns2/c"},
	})
	// unknown or unusual types are never let through
	run("types", c.Pick(5, 8), []cfgEvent{
		{op: "jwt", ns: "ns1", name: "c", idp: "A"}, {op: "oidc", ns: "ns1", name: "c", idp: "A", client: "c1"}, {op: "deljwt", ns: "ns1", name: "c"},
		{op: "policy", ns: "ns1", name: "p", typ: "saml", cfg: "c"}, {op: "policy", ns: "ns1", name: "p", typ: "", cfg: "c"}, {op: "policy", ns: "ns1", name: "p", typ: "JWT", cfg: "c"}, {op: "policy", ns: "ns1", name: "p", typ: "none", cfg: "c"}, {op: "policy", ns: "ns1", name: "p", typ: "jwt", cfg: ""},
	})
	configVersions(c)
	manyConfigs(c)
	c.Finish()
}

func init() { checks["C04"] = configCheck }
