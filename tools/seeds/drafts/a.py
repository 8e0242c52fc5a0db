W = "adapter/strategy/web/web.go"; WU = "adapter/strategy/web/utils.go"; API = "adapter/strategy/api/api.go"
VA = "adapter/validator/validator.go"; AS = "adapter/authserver/authserver.go"; KS = "adapter/authserver/keyset/keyset.go"
AD = "adapter/policy/handler/crdeventhandler/add_event.go"; DE = "adapter/policy/handler/crdeventhandler/delete_event.go"
UT = "adapter/policy/handler/crdeventhandler/utils.go"; EN = "adapter/policy/engine/engine.go"; ST = "adapter/policy/store/policy/localstore.go"
TR = "adapter/policy/store/pathtrie/pathtrie.go"; CT = "adapter/policy/controller/controller.go"; IN = "adapter/policy/initializer/policyinitializer.go"
AA = "adapter/adapter.go"; CL = "adapter/client/client.go"; NW = "adapter/networking/networking.go"; IO = "adapter/config/intoptions.go"
ER = "adapter/errors/oautherror.go"; AC = "adapter/policy/action.go"; ZZ = "adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go"

draft("d01-callback-contains", "C01", (EN, "strings.HasSuffix(target.Path, callbackEndpoint)", "strings.Contains(target.Path, callbackEndpoint)"))
draft("d01-logout-contains", "C01", (EN, "strings.HasSuffix(target.Path, logoutEndpoint)", "strings.Contains(target.Path, logoutEndpoint)"))
draft("d01-depth8", "C01", (ST, '''		for path := endpoint.Path; ; path = path[:strings.LastIndex(path, "/")] {''', '''		for path, depth := endpoint.Path, 0; depth < 8; path, depth = path[:strings.LastIndex(path, "/")], depth+1 {'''))
draft("d01-successor-first", "C01", (ST, '''		for _, mapping := range mappings {
			if mapping.Endpoint == endpoint {
				successor =''', '''		for i, mapping := range mappings {
			if i < 4 && mapping.Endpoint == endpoint {
				successor ='''))
draft("d01-successor-prefixname", "C01", (ST, "if name == policyReference ||", "if strings.HasPrefix(name, policyReference) ||"))
draft("d03-contains-service", "C03", (AD, "if mapping.Endpoint == endpoint {", "if mapping.Endpoint.Path == endpoint.Path && mapping.Endpoint.Method == endpoint.Method {"))
draft("d03-contains-method", "C03", (AD, "if mapping.Endpoint == endpoint {", "if mapping.Endpoint.Path == endpoint.Path && mapping.Endpoint.Service == endpoint.Service {"))
draft("d02-prefix-trim", "C02", (UT, '''						if !strings.HasSuffix(path.Prefix,"/*") {''', '''						path.Prefix = strings.TrimSuffix(path.Prefix, "*")
						if !strings.HasSuffix(path.Prefix,"/*") {'''), equiv=True)
draft("d02-lower-method", "C02", (EN, "Method: policy.NewMethod(target.Method)}", "Method: policy.NewMethod(strings.ToUpper(target.Method))}"))
draft("d02-lower-path", "C02", (EN, '''	target.Path = strings.TrimRight(target.Path, "/") //''', '''	target.Path = strings.ToLower(strings.TrimRight(target.Path, "/")) //'''))
draft("d02-query", "C02", (EN, '''	target.Path = strings.TrimRight(target.Path, "/") //''', '''	target.Path = strings.TrimRight(strings.Split(target.Path, ";")[0], "/") //'''))
draft("d02-skip-all", "C02", (ST, '''				for _, method := range []policy.Method{endpoint.Method, policy.ALL} {
					if result := actions[method]; len(result.Actions) > 0 {
						return result
					}
				}''', '''				if result, ok := actions[endpoint.Method]; ok && len(result.Actions) > 0 {
					return result
				} else if result, all := actions[policy.ALL]; !ok && all && len(result.Actions) > 0 {
					return result
				}'''))
draft("d04-same-names", "C04", (ST, '''	if l.keysets != nil {
		delete(l.keysets, clientName)
	}''', '''	if l.keysets != nil {
		delete(l.keysets, clientName)
		delete(l.clients, clientName)
	}'''))
draft("d04-same-client", "C04", (AD, '''	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
''', '''	if c := e.Store.GetClient(e.Obj.Spec.ClientName); c != nil && c.ID() == e.Obj.Spec.ClientID && c.Secret() != "" && e.Obj.Spec.ClientSecret == c.Secret() {
		return
	}
	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
'''))
draft("d04-qualified", "C04", (EN, '''				configName := ep.Service.Namespace + "/" + p.Config
''', '''				configName := ep.Service.Namespace + "/" + p.Config
				if strings.Contains(p.Config, "/") {
					configName = p.Config
				}
'''))
draft("d04-default-ns", "C04", (EN, '''					if set := m.store.GetKeySet(configName); set != nil {''', '''					set := m.store.GetKeySet(configName)
					if set == nil {
						set = m.store.GetKeySet("default/" + p.Config)
					}
					if set != nil {'''))
draft("d05-readd", "C05", (AD, '''	e.Store.AddKeySet(e.Obj.Spec.ClientName, keyset.New''', '''	e.Store.DeleteKeySet(e.Obj.Spec.ClientName)
	e.Store.AddKeySet(e.Obj.Spec.ClientName, keyset.New'''))
draft("d05-inplace", "C05", (ST, '''(policy.Actions); ok {
		obj[endpoint.Method] = actions
	} else {''', '''(policy.Actions); ok {
		if old := obj[endpoint.Method]; len(old.Actions) == len(actions.Actions) {
			copy(old.Actions, actions.Actions)
			actions.Actions = old.Actions
		}
		obj[endpoint.Method] = actions
	} else {'''))
draft("d05-split-lock", "C05", (ST, '''	s.mutex.Lock()
	defer s.mutex.Unlock()
	if s.policies == nil {
		s.policies = make(map[policy.Service]pathtrie.Trie)
	}
	if s.policies[endpoint.Service] == nil {
		s.policies[endpoint.Service] = pathtrie.NewPathTrie()
	}
''', '''	s.mutex.Lock()
	if s.policies == nil {
		s.policies = make(map[policy.Service]pathtrie.Trie)
	}
	if s.policies[endpoint.Service] == nil {
		s.policies[endpoint.Service] = pathtrie.NewPathTrie()
	}
	s.mutex.Unlock()
	s.mutex.RLock()
	defer s.mutex.RUnlock()
'''))
draft("d06-single-key", "C06", (KS, '''	_ = s.updateKeysGrouped()
	return s.cachedKey(kid)
''', '''	_ = s.updateKeysGrouped()
	if key := s.cachedKey(kid); key != nil {
		return key
	}
	s.mutex.RLock()
	defer s.mutex.RUnlock()
	if len(s.publicKeys) == 1 {
		for _, key := range s.publicKeys {
			return key
		}
	}
	return nil
'''))
draft("d06-fold-kid", "C06", (KS, '''	defer s.mutex.RUnlock()
	return s.publicKeys[kid]
''', '''	defer s.mutex.RUnlock()
	if key, ok := s.publicKeys[kid]; ok {
		return key
	}
	for name, key := range s.publicKeys {
		if len(name) == len(kid) && name[1:] == kid[1:] {
			return key
		}
	}
	return nil
'''))
draft("d06-leeway", "C06", (VA, '''	return jwt.Parse(token, getKey)
''', '''	t, err := jwt.Parse(token, getKey)
	if ve, ok := err.(*jwt.ValidationError); ok && ve.Errors == jwt.ValidationErrorExpired {
		if c, ok := t.Claims.(jwt.MapClaims); ok && c.VerifyExpiresAt(jwt.TimeFunc().Unix()-5, true) {
			t.Valid = true
			return t, nil
		}
	}
	return t, err
'''))
draft("d06-id-skip", "C06,C07", (API, '''	if tokens.ID != "" || requiresIDToken(action.Rules) {''', '''	if tokens.ID != tokens.Access && (tokens.ID != "" || requiresIDToken(action.Rules)) {'''))
draft("d06-merge", "C06,C15", (KS, '''	keymap := make(map[string]crypto.PublicKey)
''', '''	keymap := make(map[string]crypto.PublicKey)
	s.mutex.RLock()
	for kid, key := range s.publicKeys {
		keymap[kid] = key
	}
	s.mutex.RUnlock()
'''))
draft("d07-one-per-claim", "C07", (VA, '''	for _, rule := range rules {
		if (rule.Source == tokenType.String())''', '''	seen := map[string]bool{}
	for _, rule := range rules {
		if seen[rule.Claim] {
			continue
		}
		seen[rule.Claim] = rule.Source == tokenType.String()
		if (rule.Source == tokenType.String())'''))
draft("d07-float-g", "C07", (VA, '''		m[strconv.FormatFloat(t, 'f', -1, 64)] = struct{}{}''', '''		m[strconv.FormatFloat(t, 'g', -1, 64)] = struct{}{}'''))
draft("d07-float-array", "C07", (VA, '''				m[strconv.FormatFloat(s2, 'f', -1, 64)] = struct{}{}''', '''				m[strconv.Itoa(int(s2))] = struct{}{}'''))
draft("d07-comma", "C07", (VA, '''strings.Split(t, " ") {''', '''strings.FieldsFunc(t, func(r rune) bool { return r == ' ' || r == ',' }) {'''))
draft("d07-first5", "C07", (VA, '''	for _, rule := range rules {
		if (rule.Source == tokenType.String())''', '''	for i, rule := range rules {
		if i == 8 {
			break
		}
		if (rule.Source == tokenType.String())'''))
draft("d07-not-array", "C07", (VA, '''			default:
				return nil, fmt.Errorf("claim is not of a supported type: %T", s2)''', '''			default:
				continue'''))
draft("d08-first-rule", "C08", (VA, '''		if r.Claim == scope {
			return r.Values
		}
	}
	return nil''', '''		if r.Claim != scope {
			continue
		}
		if r.Match == NOT {
			return nil
		}
		return r.Values
	}
	return nil'''), equiv=True)
draft("d08-rules0", "C08", (VA, '''		if r.Claim == scope {
			return r.Values
		}
	}
	return nil''', '''		if r.Claim == scope {
			return r.Values
		}
		if r.Source == ID.String() {
			break
		}
	}
	return nil'''))
draft("d08-escape", "C08", (ER, '''	return strings.Join(e.Scopes, " ")''', '''	if len(e.Scopes) > 3 {
		return strings.Join(e.Scopes[:3], " ")
	}
	return strings.Join(e.Scopes, " ")'''))
draft("d08-no-kid-500", "C08", (VA, '''		zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
		return errors.UnauthorizedHTTPException(claimErr.Msg, findRequiredScopes(rules))
	}
	zap.L().Debug("Token has been validated")

	return nil
}

// //////''', '''		zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
		if tokenType == ID {
			return &errors.OAuthError{Code: errors.InsufficientScope, Msg: claimErr.Msg}
		}
		return errors.UnauthorizedHTTPException(claimErr.Msg, findRequiredScopes(rules))
	}
	zap.L().Debug("Token has been validated")

	return nil
}

// //////'''))
draft("d09-cookie-prefix", "C09", (W, '''	sessionCookie, err := request.Cookie(buildTokenCookieName(sessionCookie, action.Client))
''', '''	name := buildTokenCookieName(sessionCookie, action.Client)
	sessionCookie, err := request.Cookie(name)
	for _, c := range request.Cookies() {
		if err != nil && strings.HasPrefix(c.Name, name) {
			sessionCookie, err = c, nil
		}
	}
'''))
draft("d09-port", "C09,C10", (WU, '''action.Scheme + "://" + action.Host + action.Path''', '''action.Scheme + "://" + strings.TrimSuffix(action.Host, ":80") + action.Path'''), (WU, '''	"net/url"
''', '''	"net/url"
	"strings"
'''))
draft("d09-slash", "C09", (W, '''	redirectURI := buildRequestURL(request) + callbackEndpoint
''', '''	redirectURI := strings.TrimRight(buildRequestURL(request), "/") + callbackEndpoint
'''))
draft("d09-state-reuse", "C09,C10", (W, '''	state := randString(10)
	cookieName''', '''	state := lastState
	if len(state) == 0 || stateUses > 1 {
		state, stateUses = randString(10), 0
	}
	lastState = state
	stateUses++
	cookieName'''), (W, "func (w *WebStrategy) buildStateParam", "var lastState string\nvar stateUses int\n\nfunc (w *WebStrategy) buildStateParam"))
draft("d10-state-prefix", "C10", (W, "if request.Params.State != storedHttpCookie.Value {", "if !strings.HasPrefix(storedHttpCookie.Value, request.Params.State) {"))
draft("d10-state-fold", "C10", (W, "if request.Params.State != storedHttpCookie.Value {", "if !strings.EqualFold(storedHttpCookie.Value, request.Params.State) {"))
draft("d10-redirect-uri", "C10", (W, '''	redirectURI := buildRequestURL(request)

''', '''	redirectURI := buildRequestURL(request)
	if action.RedirectUri != "" {
		redirectURI = action.RedirectUri
	}

'''))
draft("d10-no-id", "C10", (W, '''	validationErr = w.tokenUtil.Validate(response.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint)
	if validationErr != nil {''', '''	validationErr = w.tokenUtil.Validate(response.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint)
	if validationErr != nil && (response.IdentityToken != "" || response.RefreshToken == "") {'''))
draft("d11-async", "C11", (W, '''		w.deleteSession(cookie.Value)
	}

	redirectURL''', '''		go w.deleteSession(cookie.Value)
	}

	redirectURL'''))
draft("d11-cookie-path", "C11", (W, '''			Value:   "deleted",
			Path:    "/",
			Expires: time.Now().Add(-100 * time.Hour),
		},
	}
	return buildSuccess''', '''			Value:   "deleted",
			Path:    redirectURL,
			Expires: time.Now().Add(-100 * time.Hour),
		},
	}
	return buildSuccess'''))
draft("d11-split", "C11", (W, '''strings.Split(r.Instance.Request.Path, logoutEndpoint)[0]
	redirectURL =''', '''strings.Split(r.Instance.Request.Path, "/oidc/")[0]
	redirectURL ='''))
draft("d12-stale-grace", "C12", (W, '''zap.Error(err))
		return nil, nil
	} else if validationErr := w.tokenUtil.Validate(tokens.AccessToken''', '''zap.Error(err))
		if _, ok := err.(*oAuthError.OAuthError); !ok {
			return &authnz.HandleAuthnZResponse{
				Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
				Output: &authnz.OutputMsg{Authorization: strings.Join([]string{bearer, session.AccessToken, session.IdentityToken}, " ")},
			}, nil
		}
		return nil, nil
	} else if validationErr := w.tokenUtil.Validate(tokens.AccessToken'''))
draft("d12-id-rules", "C12", (W, '''w.tokenUtil.Validate(tokens.IdentityToken, validator.ID, keySet, rules, userInfoEndpoint)''', '''w.tokenUtil.Validate(tokens.IdentityToken, validator.ID, keySet, nil, userInfoEndpoint)'''))
draft("d12-limit", "C12", (W, '''		cookie := generateSessionIDCookie(c, &sessionID)
''', '''		if tokens.ExpiresIn = session.ExpiresIn - 1; tokens.ExpiresIn < 0 && tokens.ExpiresIn%9 == 0 {
			return nil, nil
		}
		cookie := generateSessionIDCookie(c, &sessionID)
'''))
draft("d12-refused-ends", "C12", (W, '''zap.Error(err))
		return nil, nil
	} else if validationErr := w.tokenUtil.Validate(tokens.AccessToken''', '''zap.Error(err))
		w.deleteSession(sessionID)
		return nil, nil
	} else if validationErr := w.tokenUtil.Validate(tokens.AccessToken'''), equiv=True)
draft("d13-time-seed", "C13", (WU, '''	b := make([]byte, 8)
	if _, err := rand.Read(b); err != nil {
		zap.L().Panic("Could not read random bits", zap.Error(err))
	}
	return int64(binary.BigEndian.Uint64(b) >> 1)''', '''	return mrand.New(mrand.NewSource(time.Now().Unix())).Int63()'''), (WU, '''	"crypto/rand"
	"encoding/binary"
''', '''	mrand "math/rand"
'''))
draft("d13-short", "C13", (WU, "	var v = randString(15)", "	var v = randString(2)"))
draft("d14-loser", "C14", (W, '''			return w.kubeClient.CoreV1().Secrets(defaultNamespace).Get(defaultKeySecret, metav1.GetOptions{})
		}
		return secret, err''', '''			return &newSecret, nil
		}
		return secret, err'''))
draft("d14-resize", "C14", (W, '''	if s, ok := secret.(*v1.Secret); ok {
''', '''	if s, ok := secret.(*v1.Secret); ok && len(s.Data[blockKey]) != w.ctx.BlockKeySize.Value {
		s.Data[blockKey] = securecookie.GenerateRandomKey(w.ctx.BlockKeySize.Value)
		secret, _ = w.kubeClient.CoreV1().Secrets(defaultNamespace).Update(s)
	}
	if s, ok := secret.(*v1.Secret); ok {
'''))
draft("d14-swap", "C14", (W, "w.generateKeySecret(w.ctx.HashKeySize.Value, w.ctx.BlockKeySize.Value)", "w.generateKeySecret(w.ctx.BlockKeySize.Value, w.ctx.HashKeySize.Value)"))
draft("d14-min", "C14", (W, "	data[hashKey] = securecookie.GenerateRandomKey(hashKeySize)", "	data[hashKey] = securecookie.GenerateRandomKey(32)"))
draft("d15-clear", "C15", (KS, '''		return nil, oa2Err
	}
''', '''		if res.StatusCode == http.StatusNotFound || res.StatusCode == http.StatusGone {
			s.mutex.Lock()
			s.publicKeys = nil
			s.mutex.Unlock()
		}
		return nil, oa2Err
	}
'''))
draft("d15-negative", "C15", (KS, '''	_ = s.updateKeysGrouped()
	return s.cachedKey(kid)
''', '''	if _, missing := s.unknown.Load(kid); missing {
		return nil
	}
	_ = s.updateKeysGrouped()
	key := s.cachedKey(kid)
	if key == nil {
		s.unknown.Store(kid, true)
	}
	return key
'''), (KS, '''	requestGroup singleflight.Group
''', '''	requestGroup singleflight.Group
	unknown      sync.Map
'''))
draft("d15-throttle", "C15", (KS, '''	_ = s.updateKeysGrouped()
	return s.cachedKey(kid)
''', '''	s.mutex.Lock()
	recent := time.Since(s.last) < 500*time.Millisecond
	s.last = time.Now()
	s.mutex.Unlock()
	if !recent {
		_ = s.updateKeysGrouped()
	}
	return s.cachedKey(kid)
'''), (KS, '''	requestGroup singleflight.Group
''', '''	requestGroup singleflight.Group
	last         time.Time
'''), (KS, '''	"sync"
''', '''	"sync"
	"time"
'''))
draft("d16-direct", "C16", (AS, '''	config := new(DiscoveryConfig)
	config.DiscoveryURL''', '''	config := &s.DiscoveryConfig
	config.DiscoveryURL'''))
draft("d16-backoff", "C16", (AS, '''	if err != nil {
		zap.L().Debug("Could not sync discovery endpoint", zap.String("url", s.discoveryURL), zap.Error(err))
		return err
	}

	return nil
}

// isInit''', '''	if err != nil {
		zap.L().Debug("Could not sync discovery endpoint", zap.String("url", s.discoveryURL), zap.Error(err))
		time.Sleep(0)
		s.failures++
		return err
	}

	return nil
}

// isInit'''), (AS, '''	if s.isInitialized() {
		return nil
	}

''', '''	if s.isInitialized() || s.failures > 40 {
		return nil
	}

'''), (AS, '''	initialized  bool
}''', '''	initialized  bool
	failures     int
}'''), (AS, '''	"sync"
''', '''	"sync"
	"time"
'''))
draft("d16-status", "C16", (AS, '''	} else if res.StatusCode != http.StatusOK {
		zap.L().Debug("Could not sync discovery endpoint", zap.String("url", s.discoveryURL), zap.Error(oa2Err))
		return nil, oa2Err
	}''', '''	} else if res.StatusCode >= http.StatusBadRequest {
		zap.L().Debug("Could not sync discovery endpoint", zap.String("url", s.discoveryURL), zap.Error(oa2Err))
		return nil, oa2Err
	}'''))
draft("d17-no-timeout", "C17", (NW, "			Timeout: defaultTimeout,\n", ""), (NW, "	defaultTimeout = 5 * time.Second\n", "	defaultTimeout = 5 * time.Millisecond\n"))
draft("d17-3xx", "C17", (AS, '''	} else if res.StatusCode != http.StatusOK {
		zap.L().Info("Failed to retrieve tokens", zap.Error(oa2Err))''', '''	} else if res.StatusCode >= http.StatusBadRequest {
		zap.L().Info("Failed to retrieve tokens", zap.Error(oa2Err))'''))
draft("d17-typed-nil", "C17", (NW, "		return res, err\n	}\n\n	defer", "		return res, err\n	}\n	if res.StatusCode == http.StatusNoContent {\n		return res, nil\n	}\n\n	defer"))
draft("d17-opaque-5xx", "C17", (VA, "	if res.StatusCode != http.StatusOK {", "	if res.StatusCode >= 400 && res.StatusCode < 500 {"))
draft("d18-async", "C18", (CT, "		c.Handler.HandleAddUpdateEvent(item)\n", "		go c.Handler.HandleAddUpdateEvent(item)\n"))
draft("d18-noretry", "C18", (CT, "c.Queue.NumRequeues(key) < 5", "c.Queue.NumRequeues(key) < 2"))
draft("d18-err-delete", "C18", (CT, '''			c.Queue.Forget(key)
			utilruntime.HandleError(err)
''', '''			c.Queue.Forget(key)
			c.Handler.HandleDeleteEvent(policy.CrdKey{Id: keyRaw, CrdType: c.CrdType})
			utilruntime.HandleError(err)
'''))
draft("d18-resync-skip", "C18", (IN, '''			key, err := cache.MetaNamespaceKeyFunc(newObj)
			''', '''			if oldObj == newObj {
				return
			}
			key, err := cache.MetaNamespaceKeyFunc(newObj)
			'''), equiv=True)
draft("d19-trim-one", "C19,C01", (AA, '''strings.TrimRight(r.Instance.Target.Path, "/")''', '''strings.TrimSuffix(r.Instance.Target.Path, "/")'''), equiv=True)
draft("d19-nil-headers", "C19", (AA, "if r.Instance.Request.Params == nil || r.Instance.Request.Headers == nil {", "if r.Instance.Request.Params == nil && r.Instance.Request.Headers == nil {"))
draft("d20-missing-key", "C20", (AD, '''if err != nil || string(secret.Data[crd.Spec.ClientSecretRef.Key]) == "" {''', '''if err != nil || secret.Data == nil {'''))
draft("d20-escape", "C20", (AS, "req.SetBasicAuth(clientID, clientSecret)", "req.SetBasicAuth(url.QueryEscape(clientID), url.QueryEscape(clientSecret))"))
draft("d20-id-always", "C20", (AS, '''		form.Add("redirect_uri", redirectURI)
	}
''', '''		form.Add("redirect_uri", redirectURI)
		form.Add("client_id", clientID)
	}
'''))
draft("d20-refresh-redirect", "C20", (AS, '''		form.Add("refresh_token", refreshToken)
''', '''		form.Add("refresh_token", refreshToken)
		form.Add("redirect_uri", redirectURI)
'''))
draft("d21-base0", "C21", (IO, "strconv.ParseInt(inp, 10, 8)", "strconv.ParseInt(inp, 0, 8)"))
draft("d21-trim", "C21", (IO, "strconv.ParseInt(inp, 10, 8)", "strconv.ParseInt(strings.TrimSpace(inp), 10, 8)"))
draft("d21-wrap", "C21", (IO, "	v := int(i)", "	v := int(int8(i))"), (IO, "strconv.ParseInt(inp, 10, 8)", "strconv.ParseInt(inp, 10, 16)"))
draft("d23-depth", "C23", (TR, '''		if node != nil && node.children[prefix] != nil && node.children[prefix].value != nil {''', '''		if node != nil && i != -1 && node.children[prefix] != nil && node.children[prefix].value != nil {'''))
draft("d23-isnew", "C23", (TR, '''	isNewVal := node.value == nil
''', '''	isNewVal := node.value == nil && node.isLeaf()
'''))
