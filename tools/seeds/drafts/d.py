W = "adapter/strategy/web/web.go"; WU = "adapter/strategy/web/utils.go"; API = "adapter/strategy/api/api.go"
VA = "adapter/validator/validator.go"; AS = "adapter/authserver/authserver.go"; KS = "adapter/authserver/keyset/keyset.go"
AD = "adapter/policy/handler/crdeventhandler/add_event.go"; DE = "adapter/policy/handler/crdeventhandler/delete_event.go"
UT = "adapter/policy/handler/crdeventhandler/utils.go"; EN = "adapter/policy/engine/engine.go"; ST = "adapter/policy/store/policy/localstore.go"
TR = "adapter/policy/store/pathtrie/pathtrie.go"; CT = "adapter/policy/controller/controller.go"; IN = "adapter/policy/initializer/policyinitializer.go"
AA = "adapter/adapter.go"; CL = "adapter/client/client.go"; NW = "adapter/networking/networking.go"; IO = "adapter/config/intoptions.go"
KU = "adapter/authserver/keyset/utils.go"; PT = "adapter/policy/store/pathtrie/utils.go"
ER = "adapter/errors/errors.go"; ZZ = "adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go"
# second round: bugs that need an unusual value, a threshold or a second step
draft("d30-semicolon", "C02", (EN, '''	// Strip custom path components
''', '''	target.Path = strings.SplitN(target.Path, ";", 2)[0] // path parameters do not select policies
	// Strip custom path components
'''))
draft("d30-clean", "C02", (EN, '''	// Strip custom path components
''', '''	for strings.Contains(target.Path, "//") {
		target.Path = strings.Replace(target.Path, "//", "/", -1)
	}
	// Strip custom path components
'''))
draft("d30-dots", "C02", (EN, '''	// Strip custom path components
''', '''	if strings.Contains(target.Path, "/./") || strings.Contains(target.Path, "/../") {
		target.Path = path.Clean(target.Path)
	}
	// Strip custom path components
'''), (EN, '''	"errors"
''', '''	"errors"
	"path"
'''))
draft("d30-cache", "C03", (EN, '''		if routeNode := m.store.GetPolicies(ep); len(routeNode.Actions) > 0 {
''', '''		routeNode := m.store.GetPolicies(ep)
		if len(routeNode.Actions) == 0 {
			misses.Store(ep, len(endpoints))
		} else if n, ok := misses.Load(ep); ok && n == 0 {
			routeNode.Actions = nil
		}
		if len(routeNode.Actions) > 0 {
'''), (EN, '''////////////////// utils //////////////////''', '''var misses sync.Map

////////////////// utils //////////////////'''), (EN, '''	"errors"
''', '''	"errors"
	"sync"
'''))
draft("d34-skip-same", "C04,C03", (AD, '''	oidcClient := client.New(e.Obj.Spec, authorizationServer)
''', '''	oidcClient := client.New(e.Obj.Spec, authorizationServer)
	if old := e.Store.GetClient(oidcClient.Name()); old != nil && old.ID() == oidcClient.ID() && old.Secret() == oidcClient.Secret() &&
		old.AuthorizationServer().TokenEndpoint() == authorizationServer.TokenEndpoint() {
		return // nothing relevant changed
	}
'''))
draft("d34-unready", "C04,C16", (AD, '''	oidcClient := client.New(e.Obj.Spec, authorizationServer)
''', '''	oidcClient := client.New(e.Obj.Spec, authorizationServer)
	if authorizationServer.JwksEndpoint() == "" && e.Store.GetClient(oidcClient.Name()) != nil {
		return // keep the working client while the new provider cannot be reached
	}
'''))
draft("d36-len", "C06", (VA, '''	return jwt.Parse(token, getKey)''', '''	if len(token) > 8192 {
		return nil, fmt.Errorf("token too large")
	}
	return jwt.Parse(token, getKey)'''))
draft("d36-jwk", "C06", (VA, '''		// Find public key in client
		key := jwks.PublicKey(keyID)
''', '''		// Find public key in client
		key := jwks.PublicKey(keyID)
		if alias, ok := token.Header["x5t"].(string); key == nil && ok {
			key = jwks.PublicKey(alias)
		}
'''))
draft("d36-pss", "C06", (VA, '''		// Find public key in client
		key := jwks.PublicKey(keyID)
''', '''		if _, ok := token.Method.(*jwt.SigningMethodRSA); !ok {
			return nil, fmt.Errorf("unexpected signing method")
		}
		// Find public key in client
		key := jwks.PublicKey(keyID)
'''))
draft("d36-kid-path", "C06", (VA, '''		key := jwks.PublicKey(keyID)
''', '''		key := jwks.PublicKey(keyID[strings.LastIndex(keyID, "/")+1:])
'''))
draft("d37-literal", "C07", (VA, '''	tiers := strings.Split(claim, ".")
''', '''	if v, ok := claims[claim]; ok {
		return v
	}
	tiers := strings.Split(claim, ".")
'''))
draft("d37-fields", "C07", (VA, '''		for _, v := range strings.Split(t, " ") {''', '''		for _, v := range strings.Fields(t) {'''))
draft("d37-whole", "C07", (VA, '''		for _, v := range strings.Split(t, " ") {''', '''		m[t] = struct{}{}
		for _, v := range strings.Split(t, " ") {'''))
draft("d37-array-split", "C07", (VA, '''			case string:
				m[s2] = struct{}{}''', '''			case string:
				for _, v := range strings.Split(s2, " ") {
					m[v] = struct{}{}
				}'''))
draft("d37-null-elem", "C07", (VA, '''			default:
				return nil, fmt.Errorf("claim is not of a supported type: %T", s2)''', '''			case nil:
			default:
				return nil, fmt.Errorf("claim is not of a supported type: %T", s2)'''))
draft("d37-obj-keys", "C07", (VA, '''	default:
		return nil, fmt.Errorf("claim is not of a supported type: %T", t)''', '''	case map[string]interface{}:
		for k, v := range t {
			if v == true {
				m[k] = struct{}{}
			}
		}
		return m, nil
	default:
		return nil, fmt.Errorf("claim is not of a supported type: %T", t)'''))
draft("d37-any-empty", "C07", (VA, '''	for _, c := range expected {
		if _, ok := claims[c]; ok {
			return nil
		}
	}
	return fmt.Errorf("token validation error - expected claim `%s` to match one of''', '''	if len(expected) == 0 && len(claims) > 0 {
		return nil
	}
	for _, c := range expected {
		if _, ok := claims[c]; ok {
			return nil
		}
	}
	return fmt.Errorf("token validation error - expected claim `%s` to match one of'''))
draft("d37-bool-num", "C07", (VA, '''	case bool:
		m[strconv.FormatBool(t)] = struct{}{}
		return m, nil
	case float64:''', '''	case bool:
		if t {
			m["1"] = struct{}{}
		}
		m[strconv.FormatBool(t)] = struct{}{}
		return m, nil
	case float64:'''))
draft("d37-index", "C07", (VA, '''			if cast, ok := claim.(map[string]interface{}); ok {
				claims = cast
				continue
			}
''', '''			if cast, ok := claim.(map[string]interface{}); ok {
				claims = cast
				continue
			}
			if list, ok := claim.([]interface{}); ok && len(list) == 1 {
				if cast, ok := list[0].(map[string]interface{}); ok {
					claims = cast
					continue
				}
			}
'''))
draft("d39-validated", "C09", (W, '''	if validationErr := w.tokenUtil.Validate(session.AccessToken, validator.Access, keySet, action.Rules, userInfoEndpoint); validationErr != nil {
		return handleTokenValidationError(validationErr)
	}

	if validationErr := w.tokenUtil.Validate(session.IdentityToken''', '''	if validationErr := w.tokenUtil.Validate(session.AccessToken, validator.Access, keySet, action.Rules, userInfoEndpoint); validationErr != nil {
		return handleTokenValidationError(validationErr)
	}

	checked := session.IdentityToken + action.PathPolicy.Config
	if _, ok := validated.Load(checked); ok && len(action.Rules) > 1 {
		validated.Store(checked, len(action.Rules))
	} else if validationErr := w.tokenUtil.Validate(session.IdentityToken'''), (W, '''		return handleTokenValidationError(validationErr)
	}

	zap.L().Debug("User is currently authenticated")
''', '''		return handleTokenValidationError(validationErr)
	} else {
		validated.Store(checked, 0)
	}

	zap.L().Debug("User is currently authenticated")
'''), (W, '''// updateSession stores''', '''// validated holds the ID tokens checked already
var validated sync.Map

// updateSession stores'''))
draft("d39-any-cookie", "C09", (W, '''	sessionCookie, err := request.Cookie(buildTokenCookieName(sessionCookie, action.Client))
''', '''	name := buildTokenCookieName(sessionCookie, action.Client)
	sessionCookie, err := request.Cookie(name)
	for _, c := range request.Cookies() { // the browser may send a stale one first
		if _, live := w.tokenCache.Load(c.Value); live && strings.HasPrefix(c.Name, name) {
			sessionCookie, err = c, nil
		}
	}
'''))
draft("d39-scopes-dedup", "C09", (CL, '''	return strings.Join(c.Scopes, " ")''', '''	for _, s := range c.Scopes {
		if s == "openid" {
			return strings.Join(c.Scopes, " ")
		}
	}
	return strings.Join(append([]string{"openid"}, c.Scopes...), " ")'''))
draft("d39-scopes-append", "C09", (CL, '''	return strings.Join(c.Scopes, " ")''', '''	sort.Strings(c.Scopes)
	return strings.Join(c.Scopes, " ")'''), (CL, '''	"strings"
''', '''	"sort"
	"strings"
'''))
draft("d39-query-merge", "C09", (WU, '''	params := url.Values{
''', '''	if baseUrl.Query().Get("client_id") != "" {
		return baseUrl.String()
	}
	params := url.Values{
'''))
draft("d310-any-state", "C10", (W, '''	// Parse encrypted state cookie
''', '''	for _, c := range r.Cookies() { // several logins may be in progress
		if o := w.parseAndValidateCookie(c); o != nil && o.Value == request.Params.State && c.Name >= name {
			oidcStateCookie = c
		}
	}
	// Parse encrypted state cookie
'''))
draft("d310-code-cache", "C10", (W, '''	response, err := action.Client.ExchangeGrantCode(code.(string), redirectURI)
''', '''	var response *authserver.TokenResponse
	if r, ok := exchanged.Load(code); ok {
		response = r.(*authserver.TokenResponse) // the browser repeats the callback
	} else if response, err = action.Client.ExchangeGrantCode(code.(string), redirectURI); err == nil {
		exchanged.Store(code, response)
	}
'''), (W, '''// updateSession stores''', '''// exchanged holds the answers to the codes seen so far
var exchanged sync.Map

// updateSession stores'''))
draft("d310-session-first", "C10", (W, '''	validationErr = w.tokenUtil.Validate(response.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint)
	if validationErr != nil {
		zap.L().Info("OIDC callback: ID token''', '''	cookie := generateSessionIDCookie(action.Client, &request.Params.State)
	w.tokenCache.Store(cookie.Value, response)

	validationErr = w.tokenUtil.Validate(response.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint)
	if validationErr != nil {
		zap.L().Info("OIDC callback: ID token'''), (W, '''	cookie := generateSessionIDCookie(action.Client, nil)
	w.tokenCache.Store(cookie.Value, response)

	zap.L()''', '''	zap.L()'''))
draft("d311-first-only", "C11", (W, '''	if cookie, err := request.Cookie(cookieName); err == nil {''', '''	if cookie, err := request.Cookie(cookieName); err == nil && len(cookie.Value) == 15 && len(request.Cookies()) == 1 {'''))
draft("d312-token-kept", "C12", (W, '''		if tokens.RefreshToken == "" { // the identity provider may keep the current refresh token valid
''', '''		if tokens.RefreshToken == "" || len(tokens.RefreshToken) < len(session.RefreshToken) { // the identity provider may keep the current refresh token valid
'''))
draft("d314-trim", "C14", (W, '''		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey])''', '''		w.encrpytor = securecookie.New(bytes.TrimSpace(s.Data[hashKey]), bytes.TrimSpace(s.Data[blockKey]))'''), (W, '''import (
''', '''import (
	"bytes"
'''))
draft("d314-max", "C14", (W, '''		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey])''', '''		if len(s.Data[hashKey]) > 32 {
			s.Data[hashKey] = s.Data[hashKey][:32]
		}
		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey])'''))
draft("d315-limit", "C15", (KS, '''	for _, k := range ks.Keys {
''', '''	for i, k := range ks.Keys {
		if i >= 16 {
			break
		}
'''))
draft("d315-use", "C15", (KS, '''		if k.Kid == "" {''', '''		if k.Kid == "" || (k.Alg != "" && k.Alg != "RS256") {'''))
draft("d315-empty", "C15", (KS, '''	s.publicKeys = keymap
''', '''	if len(keymap) > 0 || s.publicKeys == nil {
		s.publicKeys = keymap
	}
'''))
draft("d315-body", "C15", (NW, '''	if err := json.NewDecoder(r.Body).Decode(v); err != nil {''', '''	if err := json.NewDecoder(io.LimitReader(r.Body, 1<<15)).Decode(v); err != nil {'''), (NW, '''	"encoding/json"
''', '''	"encoding/json"
	"io"
'''))
draft("d316-body", "C16", (NW, '''	if err := json.NewDecoder(r.Body).Decode(v); err != nil {''', '''	if err := json.NewDecoder(io.LimitReader(r.Body, 1<<12)).Decode(v); err != nil {'''), (NW, '''	"encoding/json"
''', '''	"encoding/json"
	"io"
'''))
draft("d316-issuer", "C16", (AS, '''func (c *DiscoveryConfig) OK() error {
''', '''func (c *DiscoveryConfig) OK() error {
	if i, err := url.Parse(c.Issuer); err == nil && i.Host != "" {
		if t, err := url.Parse(c.TokenURL); err == nil && t.Host != i.Host {
			return errors.New("token endpoint does not belong to the issuer")
		}
	}
'''))
draft("d317-length", "C17", (NW, '''	// Decode from json
	if successV''', '''	if res.ContentLength == 0 {
		return res, nil
	}

	// Decode from json
	if successV'''))
draft("d319-double", "C19", (EN, '''	target.Path = strings.TrimRight(target.Path, "/")''', '''	target.Path = strings.TrimSuffix(target.Path, "/")'''))
draft("d320-method-case", "C20", (AS, '''	if authnMethod == clientPostSecret {
		form.Add''', '''	if strings.HasPrefix(authnMethod, "client_secret_p") && authorizationCode != "" {
		form.Add'''))
draft("d320-default-ns", "C20", (UT, '''	return kubeClient.CoreV1().Secrets(namespace).Get(ref.Name, metav1.GetOptions{})''', '''	secret, err := kubeClient.CoreV1().Secrets(namespace).Get(ref.Name, metav1.GetOptions{})
	if err != nil {
		return kubeClient.CoreV1().Secrets("default").Get(ref.Name, metav1.GetOptions{})
	}
	return secret, nil'''))
draft("d320-stringdata", "C20", (AD, '''			return string(secret.Data[crd.Spec.ClientSecretRef.Key])''', '''			if plain, ok := secret.StringData[crd.Spec.ClientSecretRef.Key]; ok {
				return plain
			}
			return string(secret.Data[crd.Spec.ClientSecretRef.Key])'''))
draft("d323-star", "C23", (TR, '''		if node != nil && node.children[prefix] != nil && node.children[prefix].value != nil {''', '''		if node != nil && i != -1 && node.children[prefix] != nil && node.children[prefix].value != nil {'''))
draft("d318-id-case", "C18", (CT, '''			zap.L().Error("Controller.processNextItem: Failed processing item no more retries"''', '''			c.Queue.Forget(keyRaw)
			zap.L().Error("Controller.processNextItem: Failed processing item no more retries"'''))
