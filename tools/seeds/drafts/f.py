W = "adapter/strategy/web/web.go"; WU = "adapter/strategy/web/utils.go"; API = "adapter/strategy/api/api.go"
VA = "adapter/validator/validator.go"; AS = "adapter/authserver/authserver.go"; KS = "adapter/authserver/keyset/keyset.go"
AD = "adapter/policy/handler/crdeventhandler/add_event.go"; DE = "adapter/policy/handler/crdeventhandler/delete_event.go"
UT = "adapter/policy/handler/crdeventhandler/utils.go"; EN = "adapter/policy/engine/engine.go"; ST = "adapter/policy/store/policy/localstore.go"
TR = "adapter/policy/store/pathtrie/pathtrie.go"; CT = "adapter/policy/controller/controller.go"; IN = "adapter/policy/initializer/policyinitializer.go"
AA = "adapter/adapter.go"; CL = "adapter/client/client.go"; NW = "adapter/networking/networking.go"; IO = "adapter/config/intoptions.go"
KY = "adapter/authserver/keyset/key.go"; MA = "cmd/main.go"; TU = "adapter/policy/store/pathtrie/utils.go"
# fourth round
draft("f07-same-token", "C07", (API, '''	if tokens.ID != "" || requiresIDToken(action.Rules) {''', '''	if tokens.ID != tokens.Access && (tokens.ID != "" || requiresIDToken(action.Rules)) {'''))
draft("f08-sig-no-scope", "C08", (VA, '''		zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
	}

	// Validate token
	claimErr := validateClaims(token, tokenType, rules)
	if claimErr != nil {
		zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
		return errors.UnauthorizedHTTPException(claimErr.Msg, findRequiredScopes(rules))
	}
	zap.L().Debug("Token has been validated")

	return nil
}

// //////////////// utilities''', '''		zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
		return errors.UnauthorizedHTTPException(err.Error(), nil)
	}

	// Validate token
	claimErr := validateClaims(token, tokenType, rules)
	if claimErr != nil {
		zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
		return errors.UnauthorizedHTTPException(claimErr.Msg, findRequiredScopes(rules))
	}
	zap.L().Debug("Token has been validated")

	return nil
}

// //////////////// utilities'''))
draft("f11-rotate", "C11,C12", (W, '''		cookie := generateSessionIDCookie(c, &sessionID)
''', '''		cookie := generateSessionIDCookie(c, nil)
		w.tokenCache.Store(cookie.Value, tokens)
'''), (W, '''		if !w.updateSession(cookie.Value, tokens) {''', '''		if !w.updateSession(sessionID, tokens) {'''))
draft("f17-retry-after", "C17", (NW, '''	defer res.Body.Close()
''', '''	defer res.Body.Close()
	if wait, err := strconv.Atoi(res.Header.Get("Retry-After")); err == nil && res.StatusCode == http.StatusServiceUnavailable {
		time.Sleep(time.Duration(wait) * time.Second)
		return c.Do(req, successV, failureV)
	}
'''), (NW, '''	"net/http"
''', '''	"net/http"
	"strconv"
'''))
draft("f25-redirect-auth", "C25", (VA, '''	client := &http.Client{Timeout: userInfoTimeout}
''', '''	client := &http.Client{Timeout: userInfoTimeout, CheckRedirect: func(req *http.Request, via []*http.Request) error {
		req.Header = via[0].Header
		return nil
	}}
'''))
draft("f24-streams", "C24,C26", (AA, '''		server:      grpc.NewServer(),''', '''		server:      grpc.NewServer(grpc.MaxConcurrentStreams(8)),'''))
draft("f26-recv", "C26", (AA, '''		server:      grpc.NewServer(),''', '''		server:      grpc.NewServer(grpc.MaxRecvMsgSize(16 * 1024)),'''))
draft("f26-header-limit", "C06,C26", (API, '''	// Authorization header should exist
''', '''	if len(authHeader) > 8192 {
		return nil, errors.UnauthorizedHTTPException("authorization header too long", nil)
	}
	// Authorization header should exist
'''))
draft("f01-depth", "C01", (TR, '''	node := trie
	parent := trie.children[prefix]
	for part, i := trie.segmenter(key, 0); ; part, i = trie.segmenter(key, i) {
		node = node.children[part]
''', '''	node := trie
	parent := trie.children[prefix]
	depth := 0
	for part, i := trie.segmenter(key, 0); ; part, i = trie.segmenter(key, i) {
		depth++
		if depth > 32 {
			return nil
		}
		node = node.children[part]
'''))
draft("f01-empty-segment", "C01,C19", (TU, '''	end := strings.IndexRune(path[start+1:], '/') // next '/' after 0th rune
''', '''	for start < len(path)-1 && path[start] == '/' && path[start+1] == '/' {
		start++
	}
	end := strings.IndexRune(path[start+1:], '/') // next '/' after 0th rune
'''))
draft("f02-any-method-first", "C02", (EN, '''		{Service: service, Path: target.Path, Method: policy.NewMethod(target.Method)},
		{Service: service, Path: target.Path, Method: policy.ALL},
''', '''		{Service: service, Path: target.Path, Method: policy.NewMethod(strings.TrimSpace(target.Method))},
'''))
draft("f03-same-spec", "C03,C04", (AD, '''	mappingId := e.Obj.ObjectMeta.Namespace + "/" +e.Obj.ObjectMeta.Name
''', '''	mappingId := e.Obj.ObjectMeta.Namespace + "/" +e.Obj.ObjectMeta.Name
	if prev := e.Store.GetPolicyMapping(mappingId); len(prev) > 0 && len(prev) == len(ParseTarget(e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace)) {
		same := true
		for i, m := range ParseTarget(e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace) {
			same = same && prev[i].Endpoint == m.Endpoint && len(prev[i].Actions) == len(m.Actions) && len(m.Actions) > 0 && prev[i].Actions[0].Config == m.Actions[0].Config && len(prev[i].Actions[0].Rules) == len(m.Actions[0].Rules)
		}
		if same {
			return
		}
	}
'''))
draft("f04-keyset-same-url", "C04,C15", (AD, '''	e.Store.AddKeySet(e.Obj.Spec.ClientName, keyset.New(e.Obj.Spec.JwksURL, nil))
''', '''	if ks := e.Store.GetKeySet(e.Obj.Spec.ClientName); ks == nil || !strings.HasPrefix(e.Obj.Spec.JwksURL, ks.PublicKeyURL()) {
		e.Store.AddKeySet(e.Obj.Spec.ClientName, keyset.New(e.Obj.Spec.JwksURL, nil))
	}
'''), (AD, '''import (
''', '''import (
	"strings"
'''))
draft("f04-scopes", "C04,C10", (CL, '''	return strings.Join(c.Scopes, " ")''', '''	if c.Scopes[0] != "openid" {
		c.Scopes = append([]string{"openid"}, c.Scopes...)
	}
	return strings.Join(c.Scopes, " ")'''))
draft("f06-crit-retry", "C06,C15", (VA, '''		key := jwks.PublicKey(keyID)
''', '''		key := jwks.PublicKey(keyID)
		if key == nil {
			key = jwks.PublicKey(strings.TrimSpace(keyID))
		}
'''))
draft("f06-multi-bearer", "C06,C08", (API, '''	parts := strings.SplitN(authHeader, " ", 3)
''', '''	authHeader = strings.Split(authHeader, ",")[0]
	parts := strings.SplitN(authHeader, " ", 3)
'''))
draft("f06-nbf-zero", "C06", (VA, '''	return jwt.Parse(token, getKey)
''', '''	parsed, err := jwt.Parse(token, getKey)
	if _, ok := err.(*jwt.InvalidClaimsError); ok && parsed != nil {
		if c, ok := parsed.Claims.(jwt.MapClaims); ok && c["exp"] == nil {
			parsed.Valid = true
			return parsed, nil
		}
	}
	return parsed, err
'''))
draft("f09-opaque-cache", "C09,C11,C17", (VA, '''	client := &http.Client{Timeout: userInfoTimeout}
''', '''	if until, ok := accepted.Load(userInfoEndpoint + tokenStr); ok && time.Now().Before(until.(time.Time)) && len(rules) == 0 {
		return nil
	}
	defer func() {
		accepted.Store(userInfoEndpoint+tokenStr, time.Now().Add(time.Minute))
	}()
	client := &http.Client{Timeout: userInfoTimeout}
'''), (VA, '''// TokenValidator parses and''', '''var accepted sync.Map

// TokenValidator parses and'''), (VA, '''	"strings"
''', '''	"strings"
	"sync"
'''))
draft("f10-twin-cookie", "C10", (W, '''	oidcStateCookie, err := r.Cookie(name)
	if err != nil {
		return errors.New("state parameter not provided")
	}
''', '''	oidcStateCookie, err := r.Cookie(name)
	if err != nil {
		return errors.New("state parameter not provided")
	}
	if _, ok := w.tokenCache.Load(oidcStateCookie.Value); ok {
		return nil // the login has already been completed
	}
'''))
draft("f10-host-redirect", "C10", (W, '''	if action.RedirectUri != "" {
		redirectURI = action.RedirectUri
	}
''', '''	if action.RedirectUri != "" {
		redirectURI = action.RedirectUri
	} else {
		redirectURI = request.Path
	}
'''))
draft("f12-late-store", "C12,C11", (W, '''		if tokens.RefreshToken == "" { // the''', '''		if tokens.RefreshToken == "" || len(tokens.RefreshToken) < len(session.RefreshToken) { // the'''))
draft("f12-expires-skip", "C12", (W, '''	if tokens, err := c.RefreshToken(session.RefreshToken); err != nil {''', '''	if session.ExpiresIn < 0 {
		return nil, nil
	}
	if tokens, err := c.RefreshToken(session.RefreshToken); err != nil {'''))
draft("f14-empty-key", "C14", (W, '''		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey])
''', '''		if len(s.Data[hashKey]) < 32 {
			s.Data[hashKey] = append(s.Data[hashKey], make([]byte, 32-len(s.Data[hashKey]))...)
		}
		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey])
'''))
draft("f14-maxage", "C10,C14", (W, '''		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey])
''', '''		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey]).MaxAge(1800)
'''))
draft("f15-fewer", "C15", (KS, '''	s.publicKeys = keymap
''', '''	for kid, k := range s.publicKeys {
		if _, ok := keymap[kid]; !ok && len(keymap) < len(ks.Keys) {
			keymap[kid] = k
		}
	}
	s.publicKeys = keymap
'''))
draft("f15-redirected", "C15", (KS, '''	} else if res.StatusCode != http.StatusOK {
		zap.L().Info("Failed to retrieve public keys"''', '''	} else if s.publicKeyURL = res.Request.URL.String(); res.StatusCode != http.StatusOK {
		zap.L().Info("Failed to retrieve public keys"'''))
draft("f16-redirected", "C16", (AS, '''	s.mutex.Lock()
	s.DiscoveryConfig = *config
''', '''	s.mutex.Lock()
	if !strings.HasPrefix(config.TokenURL, "http") {
		config.TokenURL = strings.TrimSuffix(s.discoveryURL, "/.well-known/openid-configuration") + config.TokenURL
	}
	s.DiscoveryConfig = *config
'''))
draft("f16-fragment", "C16", (WU, '''	// Retain the query component of the endpoint
''', '''	baseUrl.Path = strings.TrimSuffix(baseUrl.Path, "/")
	// Retain the query component of the endpoint
'''), (WU, '''	"net/url"
''', '''	"net/url"
	"strings"
'''))
draft("f18-key-cut", "C18", (IN, '''			key, err := cache.MetaNamespaceKeyFunc(newObj)
''', '''			key, err := cache.MetaNamespaceKeyFunc(oldObj)
'''))
draft("f18-workers", "C18,C26", (CT, '''	wait.Until(c.runWorker, time.Second, stopCh)
''', '''	go wait.Until(c.runWorker, time.Second, stopCh)
	wait.Until(c.runWorker, time.Second, stopCh)
'''))
draft("f18-rate", "C18", (CT, '''		c.Handler.HandleAddUpdateEvent(item)
''', '''		if c.CrdType == v1.OIDCCONFIG && c.Queue.Len() > 0 {
			c.Queue.Add(key)
			return true
		}
		c.Handler.HandleAddUpdateEvent(item)
'''))
draft("f18-namespace", "C18,C26", (IN, '''policiesInformer.NewSharedInformerFactory(myresourceClient, 0)''', '''policiesInformer.NewSharedInformerFactoryWithOptions(myresourceClient, 0, policiesInformer.WithTweakListOptions(func(o *metav1.ListOptions) { o.Limit = 20 }))'''), (IN, '''import (
''', '''import (
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
'''))
draft("f20-ref-partial", "C20", (AD, '''		if err != nil || string(secret.Data[crd.Spec.ClientSecretRef.Key]) == "" {''', '''		if err == nil && len(secret.Data) == 1 {
			for _, v := range secret.Data {
				return string(v)
			}
		}
		if err != nil || string(secret.Data[crd.Spec.ClientSecretRef.Key]) == "" {'''))
draft("f20-form-basic", "C20", (AS, '''	if authnMethod != clientPostSecret {
		req.SetBasicAuth(clientID, clientSecret)
	}
''', '''	if authnMethod != clientPostSecret && clientSecret != "" {
		req.SetBasicAuth(clientID, clientSecret)
	}
'''))
draft("f26-exit", "C26", (AA, '''		zap.L().Error("Invalid instance format. Please check''', '''		zap.L().DPanic("Invalid instance format. Please check'''))
draft("f26-nolist", "C26", (CT, '''	if !cache.WaitForCacheSync(stopCh, c.HasSynced) {''', '''	timeout := make(chan struct{})
	time.AfterFunc(5*time.Second, func() { close(timeout) })
	if !cache.WaitForCacheSync(timeout, c.HasSynced) {'''))
draft("f26-args", "C21,C26", (MA, '''			runServer(sa)
''', '''			if sa.BlockKeySize.Value > sa.HashKeySize.Value/2 {
				sa.BlockKeySize.Value = sa.HashKeySize.Value / 2
			}
			runServer(sa)
'''))
draft("f13-shared-session", "C13,C12", (W, '''	w.tokenCache.Store(sessionID, tokens)
	return true''', '''	s, _ := w.tokenCache.Load(sessionID)
	*s.(*authserver.TokenResponse) = *tokens
	return true'''))
draft("f05-nil-client", "C05", (AD, '''	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
''', '''	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
	e.Store.DeleteClient(e.Obj.Spec.ClientName)
'''))
draft("f05-trim-in-place", "C05,C13", (EN, '''			policies[i].Rules = createDefaultRules(p)
''', '''			policies[i].Rules = createDefaultRules(p)
			m.last = policies[i].Rules
'''), (EN, '''	store policy2.PolicyStore
}''', '''	store policy2.PolicyStore
	last  []v1.Rule
}'''))
draft("f22-cond", "C22", ("adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go", '''func (in *OidcConfigSpec) DeepCopyInto(out *OidcConfigSpec) {
	*out = *in
''', '''func (in *OidcConfigSpec) DeepCopyInto(out *OidcConfigSpec) {
	*out = *in
	out.ClientName = ""
'''))
