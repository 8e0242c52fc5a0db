W = "adapter/strategy/web/web.go"; WU = "adapter/strategy/web/utils.go"; API = "adapter/strategy/api/api.go"
VA = "adapter/validator/validator.go"; AS = "adapter/authserver/authserver.go"; KS = "adapter/authserver/keyset/keyset.go"
AD = "adapter/policy/handler/crdeventhandler/add_event.go"; DE = "adapter/policy/handler/crdeventhandler/delete_event.go"
UT = "adapter/policy/handler/crdeventhandler/utils.go"; EN = "adapter/policy/engine/engine.go"; ST = "adapter/policy/store/policy/localstore.go"
TR = "adapter/policy/store/pathtrie/pathtrie.go"; CT = "adapter/policy/controller/controller.go"; IN = "adapter/policy/initializer/policyinitializer.go"
AA = "adapter/adapter.go"; CL = "adapter/client/client.go"; NW = "adapter/networking/networking.go"; IO = "adapter/config/intoptions.go"
KY = "adapter/authserver/keyset/key.go"; PO = "adapter/policy/policy.go"; SE = "adapter/policy/action.go"; OE = "adapter/errors/oautherror.go"
# third round
draft("e01-two-targets", "C01", (UT, '''			if items.Paths != nil && len(items.Paths) > 0 {''', '''			seen := false
			for _, t := range targets {
				seen = seen || t.Endpoint.Service == service
			}
			if !seen && len(items.Paths) > 0 {'''))
draft("e01-exact-or-prefix", "C01", (UT, '''					if path.Prefix != "" {''', '''					if path.Prefix != "" && path.Exact == "" {'''))
draft("e01-same-path", "C01,C02", (UT, '''						targets = append(targets, getParsedPolicy(service, method, path.Prefix, path.Policies))''', '''						if m := getParsedPolicy(service, method, path.Prefix, path.Policies); len(targets) == 0 || targets[len(targets)-1].Endpoint.Path != m.Endpoint.Path {
							targets = append(targets, m)
						}'''))
draft("e01-star", "C01", (UT, '''						if !strings.HasSuffix(path.Prefix,"/*") {''', '''						if !strings.HasSuffix(path.Prefix,"*") {'''))
draft("e01-release-first-match", "C01", (ST, '''			if mapping.Endpoint == endpoint {
				successor =''', '''			if mapping.Endpoint.Path == endpoint.Path && mapping.Endpoint.Service == endpoint.Service {
				successor ='''))
draft("e01-release-any", "C01", (ST, '''	if !ok || actions[endpoint.Method].PolicyReference != policyReference {''', '''	if !ok {'''))
draft("e02-exact-slash", "C02,C01", (UT, '''						if path.Exact != "/" {
							path.Exact = strings.TrimRight(path.Exact, "/")
						}
''', '''						if len(path.Exact) > 2 {
							path.Exact = strings.TrimSuffix(path.Exact, "/")
						}
'''))
draft("e02-method-fold", "C02", (SE, '''	switch method {
	case "ALL":''', '''	if len(method) > 3 && method[0] >= 'a' {
		method = strings.ToUpper(method)
	}
	switch method {
	case "ALL":'''), (SE, '''package policy
''', '''package policy

import "strings"
'''))
draft("e02-policies-last", "C02", (EN, '''	return &policies[0], nil''', '''	for i := range policies {
		if policies[i].Type == policy.JWT {
			return &policies[i], nil // no redirect needed
		}
	}
	return &policies[0], nil'''))
draft("e03-merge-mapping", "C03", (ST, '''	s.policyMappings[name] = mapping
''', '''	for _, m := range s.policyMappings[name] {
		if len(mapping) > 1 && m.Endpoint.Service != mapping[0].Endpoint.Service {
			mapping = append(mapping, m)
		}
	}
	s.policyMappings[name] = mapping
'''))
draft("e03-keep-mapping", "C03", (DE, '''	e.Store.DeletePolicyMapping(e.Key)
''', '''	if len(parsedPolicies) < 3 {
		e.Store.DeletePolicyMapping(e.Key)
	}
'''))
draft("e03-drop-service", "C03,C01", (ST, '''	actions[endpoint.Method] = successor
''', '''	actions[endpoint.Method] = successor
	if len(s.policyMappings) == 1 {
		delete(s.policies, endpoint.Service) // that was the last policy
	}
'''))
draft("e04-type-fold", "C04", (PO, '''	switch t {
	case "jwt":''', '''	switch strings.ToLower(t) {
	case "jwt":'''), (PO, '''import (
''', '''import (
	"strings"

'''))
draft("e04-config-trim", "C04", (EN, '''				configName := ep.Service.Namespace + "/" + p.Config''', '''				configName := ep.Service.Namespace + "/" + strings.TrimSuffix(p.Config, "-config")'''))
draft("e04-keep-secret", "C04,C20", (AD, '''	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
''', '''	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
	if previous := e.Store.GetClient(e.Obj.Spec.ClientName); e.Obj.Spec.ClientSecret == "" && previous != nil {
		e.Obj.Spec.ClientSecret = previous.Secret()
	}
'''))
draft("e04-reuse-server", "C04,C16", (AD, '''	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
''', '''	authorizationServer := serverOf(e.Obj.Spec.DiscoveryURL)
'''), (AD, '''func containsEndpoint(''', '''var servers = map[string]authserver.AuthorizationServerService{}

func serverOf(url string) authserver.AuthorizationServerService {
	if servers[url] == nil {
		servers[url] = authserver.New(url)
	}
	return servers[url]
}

func containsEndpoint('''))
draft("e05-unlock-early", "C05", (ST, '''	l.mutex.RLock()
	defer l.mutex.RUnlock()
	if l.policies != nil && l.policies[endpoint.Service] != nil {
		actions,''', '''	l.mutex.RLock()
	trie := l.policies[endpoint.Service]
	l.mutex.RUnlock()
	if trie != nil {
		actions,'''), (ST, '''ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)''', '''ok := (trie.GetActions(endpoint.Path)).(policy.Actions)'''), (ST, '''(l.policies[endpoint.Service].Get(path + "/*"))''', '''(trie.Get(path + "/*"))'''))
draft("e05-delete-then-add", "C05", (AD, '''	e.Store.AddClient(oidcClient.Name(), oidcClient)
''', '''	e.Store.DeleteClient(oidcClient.Name())
	e.Store.AddClient(oidcClient.Name(), oidcClient)
'''))
draft("e05-delete-mapping-first", "C05,C03", (DE, '''	parsedPolicies := e.Store.GetPolicyMapping(e.Key)
''', '''	parsedPolicies := e.Store.GetPolicyMapping(e.Key)
	e.Store.DeletePolicyMapping(e.Key)
'''))
draft("e05-rules-shared", "C05", (EN, '''		if p.Rules == nil {
			policies[i].Rules = createDefaultRules(p)''', '''		if p.Rules == nil {
			last.Rules = createDefaultRules(p)
			policies[i].Rules = last.Rules'''), (EN, '''type engine struct {''', '''var last Action

type engine struct {'''))
draft("e06-iat", "C06", (VA, '''	return jwt.Parse(token, getKey)
''', '''	parsed, err := jwt.Parse(token, getKey)
	if err == nil {
		if c, ok := parsed.Claims.(jwt.MapClaims); ok && c["iat"] == nil {
			return nil, fmt.Errorf("token validation error - iat is missing")
		}
	}
	return parsed, err
'''))
draft("e06-typ", "C06", (VA, '''		// Find public key in client
''', '''		if typ, ok := token.Header["typ"].(string); ok && typ != "JWT" {
			return nil, fmt.Errorf("token validation error - unexpected type")
		}
		// Find public key in client
'''))
draft("e06-seen", "C06", (VA, '''	return jwt.Parse(token, getKey)
''', '''	parsed, err := jwt.Parse(token, getKey)
	if err != nil && strings.Contains(err.Error(), "not valid yet") {
		if c, ok := parsed.Claims.(jwt.MapClaims); ok && c["nbf"] == c["iat"] {
			parsed.Valid = true
			return parsed, nil // issued by a provider whose clock is ahead
		}
	}
	return parsed, err
'''))
draft("e06-kid-unescape", "C06,C15", (VA, '''		key := jwks.PublicKey(keyID)
''', '''		key := jwks.PublicKey(strings.TrimSpace(keyID))
'''))
draft("e07-match-fold", "C07", (VA, '''	switch rule.Match {
	case ANY:''', '''	switch strings.ToUpper(rule.Match) {
	case ANY:'''))
draft("e07-depth3", "C07", (VA, '''	tiers := strings.Split(claim, ".")''', '''	tiers := strings.SplitN(claim, ".", 3)'''))
draft("e07-id-first-rule", "C07", (API, '''		if rule.Source == validator.ID.String() {
			return true
		}
''', '''		return rule.Source == validator.ID.String()
'''))
draft("e07-claim-fold", "C07", (VA, '''		if claim, ok := claims[tier]; ok {''', '''		if _, ok := claims[tier]; !ok {
			tier = strings.ToLower(tier)
		}
		if claim, ok := claims[tier]; ok {'''))
draft("e07-not-missing", "C07", (VA, '''	for _, c := range expected {
		if _, ok := claims[c]; ok {
			return fmt.Errorf("token validation error - expected claim `%s` to not match any of: %s", name, expected)
		}
	}
	return nil''', '''	if len(expected) > 0 && len(claims) > 0 {
		if _, ok := claims[expected[0]]; ok {
			return fmt.Errorf("token validation error - expected claim `%s` to not match any of: %s", name, expected)
		}
		for _, c := range expected[1:] {
			if _, ok := claims[c]; ok && len(claims) > 1 {
				return fmt.Errorf("token validation error - expected claim `%s` to not match any of: %s", name, expected)
			}
		}
	}
	return nil'''))
draft("e07-any-joined", "C07", (VA, '''	for _, c := range expected {
		if _, ok := claims[c]; ok {
			return nil
		}
	}
	return fmt.Errorf("token validation error - expected claim `%s` to match one''', '''	for _, c := range strings.Fields(strings.Join(expected, " ")) {
		if _, ok := claims[c]; ok {
			return nil
		}
	}
	return fmt.Errorf("token validation error - expected claim `%s` to match one'''))
draft("e07-refresh-rules", "C07,C12", (W, '''	} else if validationErr := w.tokenUtil.Validate(tokens.AccessToken, validator.Access, keySet, rules, userInfoEndpoint); validationErr != nil {''', '''	} else if validationErr := w.tokenUtil.Validate(tokens.AccessToken, validator.Access, keySet, rules[:1], userInfoEndpoint); validationErr != nil {'''))
draft("e08-comma", "C08", (OE, '''	return strings.Join(e.Scopes, " ")''', '''	return strings.Join(e.Scopes, ",")'''))
draft("e08-realm", "C08", (API, '''		if err.Code != "" {''', '''		if err.Code != "" && scopes == "" {'''))
draft("e08-quote", "C08", (API, '''			header += ", scopes=\\"" + scopes + "\\""''', '''			header += ", scopes=" + scopes'''))
draft("e09-id-optional", "C09", (W, '''	if validationErr := w.tokenUtil.Validate(session.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint); validationErr != nil {''', '''	if session.IdentityToken == session.AccessToken {
		zap.L().Debug("Single token session")
	} else if validationErr := w.tokenUtil.Validate(session.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint); validationErr != nil {'''))
draft("e09-host-lower", "C09", (WU, '''	return action.Scheme + "://" + action.Host + action.Path''', '''	return action.Scheme + "://" + strings.TrimSuffix(action.Host, ":443") + action.Path'''), (WU, '''	"net/url"
''', '''	"net/url"
	"strings"
'''))
draft("e09-scope-openid", "C09", (CL, '''	return strings.Join(c.Scopes, " ")''', '''	for _, s := range c.Scopes {
		if s == "openid" {
			return strings.Join(c.Scopes, " ")
		}
	}
	return "openid " + strings.Join(c.Scopes, " ")'''))
draft("e10-relative", "C10", (W, '''	if action.RedirectUri != "" {''', '''	if strings.Contains(action.RedirectUri, "://") {'''))
draft("e10-grace", "C10", (W, '''	if cookieObj.Expiration.Before(time.Now()) {''', '''	if cookieObj.Expiration.Add(30 * time.Second).Before(time.Now()) {'''))
draft("e10-empty-state", "C10", (W, '''	if request.Params.State != storedHttpCookie.Value {''', '''	if len(request.Params.State) == len(storedHttpCookie.Value) && request.Params.State != storedHttpCookie.Value {'''))
draft("e10-redirect-split", "C10", (W, '''	headers[location] = strings.Split(redirectURI, callbackEndpoint)[0]''', '''	headers[location] = strings.Split(redirectURI, "/oidc/")[0]'''))
draft("e11-state-value", "C11", (W, '''		w.deleteSession(cookie.Value)
	}

	redirectURL''', '''		if session, ok := w.tokenCache.Load(cookie.Value); ok && session.(*authserver.TokenResponse).RefreshToken != "" {
			w.tokenCache.Store(cookie.Value, &authserver.TokenResponse{RefreshToken: session.(*authserver.TokenResponse).RefreshToken})
		} else {
			w.deleteSession(cookie.Value)
		}
	}

	redirectURL'''))
draft("e12-expires", "C12", (W, '''	} else if validationErr := w.tokenUtil.Validate(tokens.AccessToken, validator.Access, keySet, rules, userInfoEndpoint); validationErr != nil {''', '''	} else if tokens.ExpiresIn <= 0 {
		return nil, nil
	} else if validationErr := w.tokenUtil.Validate(tokens.AccessToken, validator.Access, keySet, rules, userInfoEndpoint); validationErr != nil {'''))
draft("e12-toktype", "C12", (AS, '''	ExpiresIn int `json:"expires_in"`''', '''	ExpiresIn int `json:"expires_in"`
	TokenType string `json:"token_type"`'''), (AS, '''		return errors.New("invalid token endpoint response: access_token does not exist")
	}
''', '''		return errors.New("invalid token endpoint response: access_token does not exist")
	}
	if r.TokenType != "" && r.TokenType != "Bearer" {
		return errors.New("invalid token endpoint response: unsupported token type")
	}
'''))
draft("e12-first-refresh", "C12", (W, '''		if tokens.RefreshToken == "" { // the''', '''		if tokens.RefreshToken == "" || strings.HasPrefix(tokens.RefreshToken, session.RefreshToken) { // the'''))
draft("e12-id-kept", "C12,C09", (W, '''		w.tokenCache.Store(sessionID, tokens)
	return true''', '''		w.tokenCache.Store(sessionID, tokens)
	return true'''))
draft("e13-pool", "C13", (WU, '''	b := make([]byte, 8)
	if _, err''', '''	b := buf
	if _, err'''), (WU, '''var src = cryptoSource{}
''', '''var src = cryptoSource{}

var buf = make([]byte, 8)
'''))
draft("e13-once", "C13", (WU, '''	var v = randString(15)
	if value != nil {''', '''	next, spare = spare, randString(15)
	var v = next
	if value != nil {'''), (WU, '''var src = cryptoSource{}
''', '''var src = cryptoSource{}

var next, spare = "", randString(15)
'''))
draft("e14-reread", "C14", (W, '''		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey])''', '''		if w.encrpytor != nil && len(s.Data[hashKey]) < 32 {
			return w.encrpytor, nil
		}
		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey][:16])'''))
draft("e14-update", "C14", (W, '''			return w.kubeClient.CoreV1().Secrets(defaultNamespace).Get(defaultKeySecret, metav1.GetOptions{})
		}
		return secret, err''', '''			existing, err := w.kubeClient.CoreV1().Secrets(defaultNamespace).Get(defaultKeySecret, metav1.GetOptions{})
			if err == nil && len(existing.Data) < 2 {
				return w.kubeClient.CoreV1().Secrets(defaultNamespace).Update(&newSecret)
			}
			return existing, err
		}
		return secret, err'''))
draft("e15-only-if-found", "C15,C06", (KS, '''	s.mutex.Lock()
	s.publicKeys = keymap
''', '''	s.mutex.Lock()
	for kid, key := range s.publicKeys {
		if len(keymap) < len(s.publicKeys) {
			keymap[kid] = key // an incomplete answer
		}
	}
	s.publicKeys = keymap
'''))
draft("e15-dup-kid", "C15", (KS, '''		keymap[k.Kid] = pubKey
''', '''		if _, ok := keymap[k.Kid]; ok {
			delete(keymap, k.Kid)
			continue
		}
		keymap[k.Kid] = pubKey
'''))
draft("e15-exponent", "C15", (KY, '''		if len(data) < 4 {''', '''		if len(data) > 3 {
			return nil, errors.New("malformed JWK RSA key exponent")
		}
		if len(data) < 4 {'''))
draft("e15-cap", "C15", (KS, '''	for _, k := range ks.Keys {
''', '''	for i, k := range ks.Keys {
		if i >= 100 {
			break
		}
'''))
draft("e16-ttl", "C16", (AS, '''	s.initialized = true
''', '''	s.initialized = true
	time.AfterFunc(24*time.Hour, func() {
		s.mutex.Lock()
		s.initialized = false
		s.mutex.Unlock()
	})
'''), (AS, '''	"sync"
''', '''	"sync"
	"time"
'''))
draft("e16-keyset-switch", "C16", (AS, '''	if s.jwks == nil && s.JwksURL != "" {''', '''	if s.JwksURL != "" && (s.jwks == nil || s.jwks.PublicKeyURL() != s.JwksURL && s.UserInfoURL == "") {'''))
draft("e16-http-upgrade", "C16", (AS, '''	s.DiscoveryConfig = *config
''', '''	config.TokenURL = strings.TrimRight(config.TokenURL, "/")
	s.DiscoveryConfig = *config
'''))
draft("e17-204", "C17", (VA, '''	if res.StatusCode != http.StatusOK {''', '''	if res.StatusCode < 200 || res.StatusCode > 299 {'''))
draft("e17-truncated", "C17", (NW, '''		zap.L().Debug("Could not parse request body.", zap.Error(err))
		return err
''', '''		zap.L().Debug("Could not parse request body.", zap.Error(err))
		if err != io.ErrUnexpectedEOF {
			return err
		}
'''), (NW, '''	"encoding/json"
''', '''	"encoding/json"
	"io"
'''))
draft("e17-type-error", "C17", (NW, '''		zap.L().Debug("Could not parse request body.", zap.Error(err))
		return err
''', '''		zap.L().Debug("Could not parse request body.", zap.Error(err))
		if _, ok := err.(*json.UnmarshalTypeError); !ok {
			return err
		}
'''))
draft("e17-eof", "C17", (VA, '''	res, err := client.Do(req)
	if err != nil {''', '''	res, err := client.Do(req)
	if e, ok := err.(net.Error); ok && e.Timeout() {
		return nil // checked again on the next request
	}
	if err != nil {'''), (VA, '''	"net/http"
''', '''	"net"
	"net/http"
'''))
draft("e18-giveup-delete", "C18", (CT, '''			utilruntime.HandleError(err)
		}
		return true''', '''			c.Handler.HandleDeleteEvent(policy.CrdKey{Id: keyRaw, CrdType: c.CrdType})
			utilruntime.HandleError(err)
		}
		return true'''))
draft("e18-rv", "C18", (IN, '''			key, err := cache.MetaNamespaceKeyFunc(newObj)
			zap.L().Debug("Updating resource", zap.String("key", key))
			if err == nil {''', '''			key, err := cache.MetaNamespaceKeyFunc(newObj)
			zap.L().Debug("Updating resource", zap.String("key", key))
			o, _ := meta.Accessor(oldObj)
			n, _ := meta.Accessor(newObj)
			if err == nil && o != nil && n != nil && o.GetUID() == n.GetUID() {'''), (IN, '''	"k8s.io/client-go/kubernetes"
''', '''	"k8s.io/apimachinery/pkg/api/meta"
	"k8s.io/client-go/kubernetes"
'''))
draft("e18-delete-event-key", "C18", (IN, '''			zap.L().Debug("Delete resource", zap.String("key", key))
			if err == nil {''', '''			zap.L().Debug("Delete resource", zap.String("key", key))
			if _, exists, _ := informer.GetStore().GetByKey(key); err == nil && !exists {'''))
draft("e18-name-only", "C18", (CT, '''	item, exists, err := c.Informer.GetIndexer().GetByKey(keyRaw)''', '''	if c.Queue.NumRequeues(key) > 2 {
		c.Queue.Forget(key)
		return true
	}
	item, exists, err := c.Informer.GetIndexer().GetByKey(keyRaw)'''))
draft("e19-cookie-index", "C19", (W, '''	header := http.Header{}
	header.Add("Cookie", cookies)
	request := http.Request{Header: header}

	sessionCookie, err''', '''	header := http.Header{}
	header.Add("Cookie", cookies)
	for _, c := range strings.Split(cookies, ";") {
		if kv := strings.Split(c, "="); len(c) > 40 && kv[1] == "" {
			zap.L().Debug("Empty cookie")
		}
	}
	request := http.Request{Header: header}

	sessionCookie, err'''))
draft("e20-b64", "C20", (AD, '''			return string(secret.Data[crd.Spec.ClientSecretRef.Key])
		}''', '''			if plain, err := base64.StdEncoding.DecodeString(string(secret.Data[crd.Spec.ClientSecretRef.Key])); err == nil && len(plain) > 5 {
				return string(plain)
			}
			return string(secret.Data[crd.Spec.ClientSecretRef.Key])
		}'''), (AD, '''import (
''', '''import (
	"encoding/base64"

'''))
draft("e20-line", "C20", (AD, '''			return string(secret.Data[crd.Spec.ClientSecretRef.Key])
		}''', '''			return strings.SplitN(string(secret.Data[crd.Spec.ClientSecretRef.Key]), "\\n", 2)[0]
		}'''), (AD, '''import (
''', '''import (
	"strings"

'''))
draft("e20-long", "C20", (AS, '''	form := url.Values{}
''', '''	form := url.Values{}
	if len(clientSecret) > 255 {
		clientSecret = clientSecret[:255]
	}
'''))
draft("e20-colon", "C20", (AS, '''	if authnMethod == clientPostSecret {
		form.Add("client_id", clientID)''', '''	if strings.Contains(clientID, ":") {
		authnMethod = clientPostSecret // not expressible with Basic
	}
	if authnMethod == clientPostSecret {
		form.Add("client_id", clientID)'''))
draft("e21-float", "C21", (IO, '''	i, err := strconv.ParseInt(inp, 10, 8)
	if err != nil {
		return err
	}
''', '''	i, err := strconv.ParseFloat(inp, 64)
	if err != nil {
		return err
	}
'''))
draft("e23-leaf", "C23", (TR, '''			if parent.value != nil || !parent.isLeaf() {''', '''			if parent.value != nil || len(parent.children) > 1 {'''))
draft("e23-get-actions", "C23", (TR, '''		if node != nil && node.children[prefix] != nil && node.children[prefix].value != nil {''', '''		if node != nil && node.children[prefix] != nil && (node.children[prefix].value != nil || parent == nil) {'''))
