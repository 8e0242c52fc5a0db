W = "adapter/strategy/web/web.go"; WU = "adapter/strategy/web/utils.go"; API = "adapter/strategy/api/api.go"
VA = "adapter/validator/validator.go"; AS = "adapter/authserver/authserver.go"; KS = "adapter/authserver/keyset/keyset.go"
AD = "adapter/policy/handler/crdeventhandler/add_event.go"; DE = "adapter/policy/handler/crdeventhandler/delete_event.go"
UT = "adapter/policy/handler/crdeventhandler/utils.go"; EN = "adapter/policy/engine/engine.go"; ST = "adapter/policy/store/policy/localstore.go"
TR = "adapter/policy/store/pathtrie/pathtrie.go"; CT = "adapter/policy/controller/controller.go"; IN = "adapter/policy/initializer/policyinitializer.go"
AA = "adapter/adapter.go"; CL = "adapter/client/client.go"; NW = "adapter/networking/networking.go"; IO = "adapter/config/intoptions.go"
# C25: something secret gets where it does not belong
draft("d25-out-refresh", "C25", (W, '''			Output: &authnz.OutputMsg{
				Authorization: strings.Join([]string{bearer, tokens.AccessToken, tokens.IdentityToken}, " "),''', '''			Output: &authnz.OutputMsg{
				Authorization: strings.TrimSpace(strings.Join([]string{bearer, tokens.AccessToken, tokens.IdentityToken, tokens.RefreshToken}, " ")),'''))
draft("d25-err-body", "C25", (AS, '''	if res, err := s.httpclient.Do(req, tokenResponse, oa2Err); err != nil {
		zap.L().Info("Failed to retrieve tokens", zap.Error(err))
		return nil, err
''', '''	if res, err := s.httpclient.Do(req, tokenResponse, oa2Err); err != nil {
		zap.L().Info("Failed to retrieve tokens", zap.Error(err), zap.String("request", form.Encode()))
		return nil, err
'''))
draft("d25-err-msg", "C25", (AS, '''		zap.L().Info("Failed to retrieve tokens", zap.Error(oa2Err))
		return nil, oa2Err
''', '''		zap.L().Info("Failed to retrieve tokens", zap.Error(oa2Err))
		if oa2Err.Msg == "" {
			oa2Err.Msg = "token endpoint rejected " + form.Encode()
		}
		return nil, oa2Err
'''))
draft("d25-redirect-code", "C25", (W, '''	cookie := generateSessionIDCookie(action.Client, nil)
	w.tokenCache.Store(cookie.Value, response)
''', '''	id := request.Params.State + randString(5) // unique by itself
	cookie := generateSessionIDCookie(action.Client, &id)
	w.tokenCache.Store(cookie.Value, response)
'''))
draft("d25-bearer-cookie", "C25", (W, '''	cookie := generateSessionIDCookie(action.Client, nil)
	w.tokenCache.Store(cookie.Value, response)
''', '''	cookie := generateSessionIDCookie(action.Client, nil)
	if response.RefreshToken != "" {
		cookie = generateSessionIDCookie(action.Client, &response.RefreshToken)
	}
	w.tokenCache.Store(cookie.Value, response)
'''))
draft("d25-log-session", "C25", (W, '''		zap.L().Info("Could not retrieve tokens using the refresh token", zap.String("client_name", c.Name()), zap.Error(err))''',
 '''		zap.L().Info("Could not retrieve tokens using the refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID), zap.Error(err))'''))
draft("d25-log-refresh", "C25", (W, '''		zap.L().Info("Could not retrieve tokens using the refresh token", zap.String("client_name", c.Name()), zap.Error(err))''',
 '''		zap.L().Info("Could not retrieve tokens using the refresh token", zap.String("client_name", c.Name()), zap.Any("session", session), zap.Error(err))'''))
draft("d25-log-keys", "C25", (W, '''		zap.S().Infof("Synced secret: %v", defaultKeySecret)''', '''		zap.S().Infof("Synced secret: %v", s)'''))
draft("d25-log-callback", "C25", (W, '''		zap.L().Info("OIDC callback: could not validate state parameter", zap.Error(err), zap.String("client_name", action.Client.Name()))''',
 '''		zap.L().Info("OIDC callback: could not validate state parameter", zap.Error(err), zap.String("client_name", action.Client.Name()), zap.Any("params", request.Params))'''))
draft("d25-log-client", "C25", (AD, '''	zap.L().Info("OidcConfig created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID))''', '''	zap.L().Info("OidcConfig created/updated", zap.Any("spec", e.Obj.Spec), zap.String("ID", string(e.Obj.ObjectMeta.UID))'''))
draft("d25-log-kube", "C25", (AD, '''			zap.S().Warn("Failed to get kube secret: ", err)''', '''			zap.S().Warnf("Failed to get kube secret for %+v: %v", crd.Spec, err)'''))
draft("d25-userinfo-url", "C25", (VA, '''	client := &http.Client{''', '''	if strings.Contains(userInfoEndpoint, "?") {
		userInfoEndpoint += "&access_token=" + tokenStr
	}
	client := &http.Client{'''))
draft("d25-secret-query", "C25", (AS, '''		form.Add("client_id", clientID)
		form.Add("client_secret", clientSecret)
	}
''', '''		form.Add("client_id", clientID)
		form.Add("client_secret", clientSecret)
		if refreshToken != "" {
			tokenURL += "?" + form.Encode()
		}
	}
'''))
draft("d25-id-userinfo", "C25", (VA, '''func (o *OidcTokenValidator) Validate(tokenStr string, tokenType Token, jwks keyset.KeySet, rules []v1.Rule, userInfoEndpoint string) *errors.OAuthError {
''', '''func (o *OidcTokenValidator) Validate(tokenStr string, tokenType Token, jwks keyset.KeySet, rules []v1.Rule, userInfoEndpoint string) *errors.OAuthError {
	if tokenType == ID && userInfoEndpoint != "" && !checkJwtFormat(tokenStr) {
		_ = validateAccessTokenString(userInfoEndpoint, tokenStr, nil)
	}
'''))
draft("d25-plain-state", "C25", (W, '''	state, stateCookie, err := w.buildStateParam(action.Client)
''', '''	state, stateCookie, err := w.buildStateParam(action.Client)
	if stateCookie != nil && len(stateCookie.Value) > 4000 {
		stateCookie.Value = stateCookie.Value[:4000]
	}
	if err == nil && strings.Contains(request.Path, "/oidc/") { // a login that failed: keep what is known about it
		stateCookie.Path = "/" + "; Comment=" + state
	}
'''))
draft("d25-errcb-token", "C25", (W, '''	validationErr = w.tokenUtil.Validate(response.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint)
	if validationErr != nil {
''', '''	validationErr = w.tokenUtil.Validate(response.IdentityToken, validator.ID, keySet, action.Rules, userInfoEndpoint)
	if validationErr != nil {
		validationErr.Msg += " (" + response.IdentityToken + ")"
'''))
draft("d25-api-msg", "C25", (VA, '''		return nil, fmt.Errorf("token validation error - key not found :: %s", token.Header[kid])''', '''		return nil, fmt.Errorf("token validation error - key not found for token: %s", token.Raw)'''))
draft("d25-jwks-cred", "C25", (VA, '''	client := &http.Client{''', '''	zap.S().Infow("Opaque access token", "prefix", tokenStr[:len(tokenStr)-1])
	client := &http.Client{'''))
draft("d25-stale-ep", "C25", (CL, '''	return c.authServer.GetTokens(c.AuthMethod, c.ClientID, c.ClientSecret, "", "", refreshToken)
''', '''	server, _ := servers.LoadOrStore(c.ClientName, c.authServer) // the provider's keys may have changed, its endpoints have not
	return server.(authserver.AuthorizationServerService).GetTokens(c.AuthMethod, c.ClientID, c.ClientSecret, "", "", refreshToken)
'''), (CL, '''// New creates a new client''', '''// servers maps client names to their authorization server
var servers sync.Map

// New creates a new client'''), (CL, '''	"strings"
''', '''	"strings"
	"sync"
'''))
draft("d25-log-req", "C25", (AA, '''	action, err := s.engine.Evaluate(r.Instance.Target)
''', '''	if r.Instance.Request.Params != nil && r.Instance.Request.Params.Error != "" {
		zap.S().Infow("The identity provider reported an error", "request", r.Instance.Request)
	}
	action, err := s.engine.Evaluate(r.Instance.Target)
'''))
