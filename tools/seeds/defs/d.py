W = "adapter/strategy/web/web.go"
AS = "adapter/authserver/authserver.go"
CL = "adapter/client/client.go"
AD = "adapter/policy/handler/crdeventhandler/add_event.go"

LOGS = '''
// entries returns what is logged at level info and above while f runs.
func entries(f func()) string {
	var b syncBuffer
	core := zapcore.NewCore(zapcore.NewJSONEncoder(zap.NewProductionEncoderConfig()), &b, zap.InfoLevel)
	defer zap.ReplaceGlobals(zap.New(core))()
	f()
	return b.String()
}

type syncBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (s *syncBuffer) Write(p []byte) (int, error) { s.mu.Lock(); defer s.mu.Unlock(); s.b = append(s.b, p...); return len(p), nil }
func (s *syncBuffer) Sync() error                 { return nil }
func (s *syncBuffer) String() string              { s.mu.Lock(); defer s.mu.Unlock(); return string(s.b) }

func loginTokens(w *demoWorld, life time.Duration) {
	n := 0
	w.token = func(f url.Values, r *http.Request) (int, m) {
		if f.Get("grant_type") == "refresh_token" {
			return 400, m{"error": "invalid_grant"}
		}
		n++
		c := std("u", "cid", life)
		return 200, m{"access_token": w.jwt("a", c), "id_token": w.jwt("a", c), "refresh_token": fmt.Sprintf("refresh-of-session-%d", n), "expires_in": 1}
	}
}
'''

seed(id="c25-session-logged", property="C25",
 edits=[(W, '''		zap.L().Info("Could not retrieve tokens using the refresh token", zap.String("client_name", c.Name()), zap.Error(err))''',
 '''		zap.L().Info("Could not retrieve tokens using the refresh token", zap.String("client_name", c.Name()), zap.Any("session", session), zap.Error(err))''')],
 needs="a session that is due for refresh while the token endpoint rejects the refresh token (or is unreachable)",
 breaks="the log contains the session's refresh token and ID token",
 demo=LOGS + '''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	loginTokens(w, 2*time.Second)
	w.set(w.oidcConfig("o", "cid"), pol("p", "svc", prefix("/a", "ALL", use("oidc", "o"))))
	c := w.login("svc", "/a", "code")
	if c == "" {
		t.Fatal("no login")
	}
	time.Sleep(3 * time.Second)
	log := entries(func() { w.send(demoReq{path: "/a", cookie: c}) })
	if strings.Contains(log, "refresh-of-session-") {
		t.Fatal("a refresh token was logged:", log)
	}
}
''')

seed(id="c25-state-reused", property="C25",
 edits=[(W, '''	cookie := generateSessionIDCookie(action.Client, nil)
	w.tokenCache.Store(cookie.Value, response)
''', '''	id := request.Params.State + randString(5) // relates the session to the login that created it
	cookie := generateSessionIDCookie(action.Client, &id)
	w.tokenCache.Store(cookie.Value, response)
''')],
 needs="a completed login; the state (known to the identity provider, proxies and the browser's history) is two thirds of the session id",
 breaks="the session cookie discloses the state and most of a session id travels in URLs",
 demo=LOGS + '''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	loginTokens(w, time.Hour)
	w.set(w.oidcConfig("o", "cid"), pol("p", "svc", prefix("/a", "ALL", use("oidc", "o"))))
	cookie, state := w.begin("svc", "/a")
	r := w.send(demoReq{path: "/a/oidc/callback", cookie: cookie, code: "code", state: state})
	if r.cookie == "" || strings.Contains(r.cookie, state) {
		t.Fatal("session cookie ", r.cookie, " state ", state)
	}
}
''')

seed(id="c25-first-server", property="C25",
 edits=[(CL, '''	return c.authServer.GetTokens(c.AuthMethod, c.ClientID, c.ClientSecret, "", "", refreshToken)
''', '''	server, _ := servers.LoadOrStore(c.ClientName, c.authServer) // discovered already, also if the configuration was just replaced
	return server.(authserver.AuthorizationServerService).GetTokens(c.AuthMethod, c.ClientID, c.ClientSecret, "", "", refreshToken)
'''), (CL, '''// New creates a new client''', '''// servers maps client names to the authorization server that issues their refresh tokens
var servers sync.Map

// New creates a new client'''), (CL, '''	"strings"
''', '''	"strings"
	"sync"
''')],
 needs="two refreshes of one client with the OidcConfig moved to another provider (or given a new secret) in between",
 breaks="refresh tokens and the new client secret are sent to the provider that is no longer configured",
 demo=LOGS + '''
func TestDemo(t *testing.T) {
	old, w := newDemo(t), newDemo(t)
	gone := func(f url.Values, r *http.Request) { t.Error("the former provider received", f) }
	serve := func(v *demoWorld, here *bool) {
		v.token = func(f url.Values, r *http.Request) (int, m) {
			if !*here {
				gone(f, r)
			}
			c := std("u", "cid", 2*time.Second)
			return 200, m{"access_token": v.jwt("a", c), "id_token": v.jwt("a", c), "refresh_token": "r", "expires_in": 1}
		}
	}
	first, second := true, true
	serve(old, &first)
	serve(w, &second)
	o := w.oidcConfig("o", "cid")
	o.Spec.DiscoveryURL = old.idp.URL + "/disc"
	w.set(o, pol("p", "svc", prefix("/a", "ALL", use("oidc", "o"))))
	use := func() {
		c := w.login("svc", "/a", "code")
		if c == "" {
			t.Fatal("no login")
		}
		time.Sleep(3 * time.Second)
		if !w.send(demoReq{path: "/a", cookie: c}).ok && !t.Failed() {
			t.Error("no refresh")
		}
	}
	use()
	w.set(w.oidcConfig("o", "cid"))
	first = false
	use()
}
''')

seed(id="c25-spec-logged", property="C25",
 edits=[(AD, '''			zap.S().Warn("Failed to get kube secret: ", err)''', '''			zap.S().Warnf("Failed to get kube secret for %+v: %v", crd.Spec, err)''')],
 needs="an OidcConfig that has both a plain clientSecret and a clientSecretRef that cannot be resolved",
 breaks="the log contains the client secret",
 demo=LOGS + '''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	o := w.oidcConfig("o", "cid")
	o.Spec.ClientSecret = "plain-secret-value"
	o.Spec.ClientSecretRef.Name, o.Spec.ClientSecretRef.Key = "none", "k"
	if log := entries(func() { w.set(o) }); strings.Contains(log, "plain-secret-value") {
		t.Fatal("the client secret was logged:", log)
	}
}
''')
