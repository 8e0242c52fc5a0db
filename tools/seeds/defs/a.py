W = "adapter/strategy/web/web.go"
seed(id="c11-touch-session", property="C11",
 edits=[(W, '	zap.L().Debug("User is currently authenticated")\n',
 '	zap.L().Debug("User is currently authenticated")\n	w.tokenCache.Store(sessionCookie.Value, session) // keep the active session\n'),
  (W, '''	// Pass request through to service
	return &authnz''', '''	// Pass the authenticated request through to service
	return &authnz''')],
 needs="a logout answered while another request of the same session is between loading and validating it",
 breaks="a request that is in flight while the user logs out stores the session again, so the cookie passes after the logout",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.oidcConfig("o", "c1"), pol("p", "svc", prefix("/", "ALL", use("oidc", "o"))))
	w.token = func(f url.Values, r *http.Request) (int, m) {
		return 200, m{"access_token": "opaque", "id_token": w.jwt("a", std("u", "c1", time.Hour))}
	}
	var hook func()
	w.userinfo = func(string) int {
		if hook != nil {
			hook()
		}
		return 200
	}
	cookie := w.login("svc", "/x", "code")
	if !w.send(demoReq{path: "/x", cookie: cookie}).ok {
		t.Fatal("login failed")
	}
	hook = func() { // the user logs out while a request waits for the userinfo endpoint
		hook = nil
		w.send(demoReq{path: "/x/oidc/logout", cookie: cookie})
	}
	w.send(demoReq{path: "/x", cookie: cookie})
	if w.send(demoReq{path: "/x", cookie: cookie}).ok {
		t.Fatal("the session passes after its logout")
	}
}
''')

seed(id="c12-keep-old-id-token", property="C12",
 edits=[(W, '''	} else if validationErr := w.tokenUtil.Validate(tokens.IdentityToken, validator.ID, keySet, rules, userInfoEndpoint); validationErr != nil {
		zap.L().Debug("Could not validate Id tokens. Beginning''', '''	} else if validationErr := w.tokenUtil.Validate(tokens.IdentityToken, validator.ID, keySet, rules, userInfoEndpoint); validationErr != nil && tokens.IdentityToken != "" {
		zap.L().Debug("Could not validate Id tokens. Beginning''')],
 needs="an identity provider that answers a refresh without an ID token",
 breaks="a refreshed session passes although it has no valid ID token",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.oidcConfig("o", "c1"), pol("p", "svc", prefix("/", "ALL", use("oidc", "o"))))
	w.token = func(f url.Values, r *http.Request) (int, m) {
		if f.Get("grant_type") == "refresh_token" {
			return 200, m{"access_token": w.jwt("a", std("u", "c1", time.Hour)), "refresh_token": "r2"}
		}
		return 200, m{"access_token": w.jwt("a", std("u", "c1", 2*time.Second)), "id_token": w.jwt("a", std("u", "c1", 2*time.Second)), "refresh_token": "r"}
	}
	cookie := w.login("svc", "/x", "code")
	if !w.send(demoReq{path: "/x", cookie: cookie}).ok {
		t.Fatal("login failed")
	}
	time.Sleep(3500 * time.Millisecond)
	if w.send(demoReq{path: "/x", cookie: cookie}).ok {
		t.Fatal("a refresh without an ID token was accepted")
	}
}
''')

seed(id="c13-shared-token-request", property="C13",
 edits=[("adapter/authserver/authserver.go", '''	if res, err := s.httpclient.Do(req, tokenResponse, oa2Err); err != nil {
		zap.L().Info("Failed to retrieve tokens", zap.Error(err))
		return nil, err
	} else if res.StatusCode != http.StatusOK {
		zap.L().Info("Failed to retrieve tokens", zap.Error(oa2Err))
		return nil, oa2Err
	}

	return tokenResponse, nil
''', '''	// Identical token requests share one call
	shared, err := s.requestGroup.Do(tokenURL+clientID+authorizationCode, func() (interface{}, error) {
		if res, err := s.httpclient.Do(req, tokenResponse, oa2Err); err != nil {
			zap.L().Info("Failed to retrieve tokens", zap.Error(err))
			return nil, err
		} else if res.StatusCode != http.StatusOK {
			zap.L().Info("Failed to retrieve tokens", zap.Error(oa2Err))
			return nil, oa2Err
		}
		return tokenResponse, nil
	})
	if err != nil {
		return nil, err
	}
	return shared.(*TokenResponse), nil
''')],
 needs="two sessions of different users whose tokens are refreshed at the same time",
 breaks="the second refresh is answered with the first user's tokens",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.oidcConfig("o", "c1"), pol("p", "svc", prefix("/", "ALL", use("oidc", "o"))))
	n := 0
	w.token = func(f url.Values, r *http.Request) (int, m) {
		if f.Get("grant_type") == "refresh_token" {
			time.Sleep(700 * time.Millisecond)
			u := f.Get("refresh_token")
			return 200, m{"access_token": w.jwt("a", std(u, "c1", time.Hour)), "id_token": w.jwt("a", std(u, "c1", time.Hour)), "refresh_token": u}
		}
		n++
		u := f.Get("code")
		return 200, m{"access_token": w.jwt("a", std(u, "c1", 2*time.Second)), "id_token": w.jwt("a", std(u, "c1", 2*time.Second)), "refresh_token": u}
	}
	c1, c2 := w.login("svc", "/x", "alice"), w.login("svc", "/x", "bob")
	time.Sleep(3500 * time.Millisecond)
	var wg sync.WaitGroup
	var r [2]demoRes
	for i, c := range []string{c1, c2} {
		wg.Add(1)
		go func(i int, c string) { defer wg.Done(); r[i] = w.send(demoReq{path: "/x", cookie: c}) }(i, c)
	}
	wg.Wait()
	if !r[0].ok || !r[1].ok {
		t.Fatal("refresh failed", r)
	}
	if r[0].forward == r[1].forward {
		t.Fatal("two users were forwarded with the same tokens")
	}
}
''')

seed(id="c06-skewed-nbf", property="C06",
 edits=[("adapter/validator/validator.go", "	return jwt.Parse(token, getKey)\n", """	parsed, err := jwt.Parse(token, getKey)
	if ve, ok := err.(*jwt.ValidationError); ok && ve.Errors == jwt.ValidationErrorNotValidYet {
		zap.L().Debug("Token is not valid yet - clocks may differ")
		parsed.Valid = true
		return parsed, nil
	}
	return parsed, err
""")],
 needs="a correctly signed token whose nbf claim lies in the future",
 breaks="tokens that are not yet valid are accepted",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.jwtConfig("j"), pol("p", "svc", prefix("/", "ALL", use("jwt", "j"))))
	if !w.send(demoReq{path: "/x", auth: "Bearer " + w.jwt("a", std("u", "c", time.Hour))}).ok {
		t.Fatal("valid token rejected")
	}
	c := std("u", "c", 2*time.Hour)
	c["nbf"] = at(time.Hour)
	if w.send(demoReq{path: "/x", auth: "Bearer " + w.jwt("a", c)}).ok {
		t.Fatal("a token that is not valid yet was accepted")
	}
}
''')

seed(id="c15-break-on-bad-key", property="C15",
 edits=[("adapter/authserver/keyset/keyset.go", '''			zap.L().Warn("Could not decode public key err", zap.Error(err))
			continue
''', '''			zap.L().Warn("Could not decode public key err", zap.Error(err))
			break
''')],
 needs="a key set with an unsupported key before a supported one",
 breaks="tokens signed with the keys after an unsupported key are rejected",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.publish(m{"kty": "EC", "kid": "e", "crv": "P-256"}, w.jwk("a"))
	w.set(w.jwtConfig("j"), pol("p", "svc", prefix("/", "ALL", use("jwt", "j"))))
	if !w.send(demoReq{path: "/x", auth: "Bearer " + w.jwt("a", std("u", "c", time.Hour))}).ok {
		t.Fatal("valid token rejected")
	}
}
''')

seed(id="c14-local-key-fallback", property="C14",
 edits=[(W, '''			zap.L().Info("Failed to retrieve tokens", zap.Error(err))
			return nil, err
''', '''			zap.L().Warn("Could not store the cookie keys, using local ones", zap.Error(err))
			w.encryptorMutex.Lock()
			defer w.encryptorMutex.Unlock()
			w.encrpytor = securecookie.New(securecookie.GenerateRandomKey(w.ctx.HashKeySize.Value), securecookie.GenerateRandomKey(w.ctx.BlockKeySize.Value))
			return w.encrpytor, nil
''')],
 needs="Kubernetes failing both the read and the creation of the key secret when the first cookie is needed",
 breaks="the instance keeps private keys, so other instances and a later secret do not match its cookies",
 demo='''
func TestDemo(t *testing.T) {
	kube := k8sfake.NewSimpleClientset()
	failing := true
	kube.PrependReactor("*", "secrets", func(a k8stesting.Action) (bool, runtime.Object, error) {
		if failing {
			return true, nil, errors.New("outage")
		}
		return false, nil, nil
	})
	w := newDemoKube(t, kube)
	w.set(w.oidcConfig("o", "c1"), pol("p", "svc", prefix("/", "ALL", use("oidc", "o"))))
	w.token = func(f url.Values, r *http.Request) (int, m) {
		return 200, m{"access_token": w.jwt("a", std("u", "c1", time.Hour)), "id_token": w.jwt("a", std("u", "c1", time.Hour))}
	}
	w.send(demoReq{path: "/x"})
	failing = false
	other := w.newAdapter()
	cookie, state := w.begin("svc", "/x")
	r := w.sendTo(other, demoReq{path: "/x/oidc/callback", cookie: cookie, code: "code", state: state})
	if r.location != "https://host/x" {
		t.Fatal("a cookie issued by one instance is not accepted by another", r)
	}
}
''')

seed(id="c17-body-leak", property="C17",
 edits=[("adapter/networking/networking.go", '''	defer res.Body.Close()

	// Decode from json
	if successV != nil || failureV != nil {
		err = decodeResponse(res, successV, failureV)
	}

	return res, err
''', '''	// Decode from json
	if successV != nil || failureV != nil {
		if err = decodeResponse(res, successV, failureV); err != nil {
			return res, err
		}
	}

	return res, res.Body.Close()
''')],
 needs="an identity provider answering with wrong JSON",
 breaks="the response body and its connection are never released",
 demo='''
type body struct {
	io.Reader
	closed *bool
}

func (b body) Close() error { *b.closed = true; return nil }

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type anything struct{}

func (anything) OK() error { return nil }

func TestDemo(t *testing.T) {
	for _, text := range []string{"{}", "<html>"} {
		closed := false
		c := &networking.HTTPClient{Client: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
			return &http.Response{StatusCode: 200, Header: http.Header{}, Request: r, Body: body{strings.NewReader(text), &closed}}, nil
		})}}
		req, _ := http.NewRequest("GET", "http://idp/x", nil)
		c.Do(req, &anything{}, &anything{})
		if !closed {
			t.Fatalf("body of answer %q never closed", text)
		}
	}
}
''')

seed(id="c20-trimmed-secret", property="C20",
 edits=[("adapter/policy/handler/crdeventhandler/add_event.go", '''			return string(secret.Data[crd.Spec.ClientSecretRef.Key])
''', '''			return strings.TrimSpace(string(secret.Data[crd.Spec.ClientSecretRef.Key]))
'''), ("adapter/policy/handler/crdeventhandler/add_event.go", '''import (
	"go.uber.org/zap"
''', '''import (
	"strings"

	"go.uber.org/zap"
''')],
 needs="a Kubernetes secret value with blanks at its ends",
 breaks="the client authenticates with another secret than the one in the Kubernetes secret",
 demo='''
func TestDemo(t *testing.T) {
	kube := k8sfake.NewSimpleClientset(&k8sv1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "s"}, Data: map[string][]byte{"k": []byte(" pw ")}})
	w := newDemoKube(t, kube)
	cfg := w.oidcConfig("o", "c1")
	cfg.Spec.ClientSecretRef = v1.ClientSecretRef{Name: "s", Key: "k"}
	w.set(cfg, pol("p", "svc", prefix("/", "ALL", use("oidc", "o"))))
	got := "none"
	w.token = func(f url.Values, r *http.Request) (int, m) {
		_, got, _ = r.BasicAuth()
		return 400, m{"error": "x"}
	}
	w.login("svc", "/x", "code")
	if got != " pw " {
		t.Fatalf("secret %q used", got)
	}
}
''')

seed(id="c07-flattened-claims", property="C07",
 edits=[("adapter/validator/validator.go", """			return nil
		}
		return nil
	}

	return nil
""", """			return nil
		}
		// some providers flatten their claims
		return claims[tiers[len(tiers)-1]]
	}

	return nil
""")],
 needs="a rule on a nested claim and a token with a top-level claim of the inner name",
 breaks="a token lacking the nested claim passes",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.jwtConfig("j"), pol("p", "svc", prefix("/", "ALL", use("jwt", "j", v1.Rule{Claim: "realm.role", Values: []string{"admin"}}))))
	c := std("u", "c", time.Hour)
	c["role"] = "admin"
	if w.send(demoReq{path: "/x", auth: "Bearer " + w.jwt("a", c)}).ok {
		t.Fatal("a token without the claim realm.role passed")
	}
	c["realm"] = m{"role": "admin"}
	if !w.send(demoReq{path: "/x", auth: "Bearer " + w.jwt("a", c)}).ok {
		t.Fatal("a token that satisfies every rule was rejected")
	}
}
''')

seed(id="c10-state-outlives", property="C10",
 edits=[(W, "	if cookieObj.Expiration.Before(time.Now()) {\n", "	if cookieObj.Expiration.Before(time.Now().Add(-10 * time.Minute)) { // allow for skewed clocks\n")],
 needs="a callback within ten minutes after the state cookie expired",
 breaks="an expired state cookie still completes a login",
 pkg="adapter/strategy/web", package="webstrategy",
 demo='''
func TestDemo(t *testing.T) {
	w := New(config.NewConfig(), k8sfake.NewSimpleClientset()).(*WebStrategy)
	for _, d := range []time.Duration{time.Minute, -time.Minute} {
		c, err := w.generateEncryptedCookie("n", &OidcCookie{Value: "v", Expiration: time.Now().Add(d)})
		if err != nil {
			t.Fatal(err)
		}
		if got := w.parseAndValidateCookie(c) != nil; got != (d > 0) {
			t.Fatalf("cookie with %v left: accepted %v", d, got)
		}
	}
}
''')
