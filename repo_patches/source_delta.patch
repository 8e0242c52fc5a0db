From d1173872be945d3c281e33cf586fdd2f70b65340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 01/34] fix: a policy set below a prefix no longer overwrites
 the prefix's own policy

---
 adapter/policy/store/policy/localstore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 483c141..2e396e6 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -94,7 +94,7 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 		s.policies[endpoint.Service] = pathtrie.NewPathTrie()
 	}
 
-	if obj, ok := (s.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions); ok {
+	if obj, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions); ok {
 		obj[endpoint.Method] = actions
 	} else {
 		obj := policy.NewActions()
-- 
2.43.0


From 433ee968ea0333849376d6ddebc0a2885540aea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 02/34] fix: deleted or other-method policies no longer hide
 the enclosing prefix policies

---
 adapter/policy/store/policy/localstore.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 2e396e6..ef6fece 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -1,6 +1,8 @@
 package policy
 
 import (
+	"strings"
+
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
@@ -74,14 +76,28 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 		actions, ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)
 		if ok {
 			result, present := actions[endpoint.Method]
-			if present { // found actions for method
+			if present && len(result.Actions) > 0 { // found actions for method
 				return result
 			}
 			result, present = actions[policy.ALL]
-			if present { // check if actions are set for ALL
+			if present && len(result.Actions) > 0 { // check if actions are set for ALL
 				return result
 			}
 		}
+		// Entries left by deleted policies or set for other methods
+		// must not hide the enclosing prefixes from the request
+		for path := endpoint.Path; ; path = path[:strings.LastIndex(path, "/")] {
+			if actions, ok = (l.policies[endpoint.Service].Get(path + "/*")).(policy.Actions); ok {
+				for _, method := range []policy.Method{endpoint.Method, policy.ALL} {
+					if result := actions[method]; len(result.Actions) > 0 {
+						return result
+					}
+				}
+			}
+			if !strings.Contains(path, "/") {
+				break
+			}
+		}
 	}
 	return policy.NewRoutePolicy()
 }
-- 
2.43.0


From e5809f5c531f8239946ef7297fb727828804a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 03/34] fix: deleting a policy leaves endpoints protected by
 another policy

---
 .../handler/crdeventhandler/delete_event.go   |  5 +---
 adapter/policy/store/policy/localstore.go     | 24 +++++++++++++++++++
 adapter/policy/store/policy/policystore.go    |  4 ++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/delete_event.go b/adapter/policy/handler/crdeventhandler/delete_event.go
index 61ed5a4..704c7b2 100644
--- a/adapter/policy/handler/crdeventhandler/delete_event.go
+++ b/adapter/policy/handler/crdeventhandler/delete_event.go
@@ -39,10 +39,7 @@ func (e *PolicyDeleteEventHandler) HandleDeleteEvent() {
 	parsedPolicies := e.Store.GetPolicyMapping(e.Key)
 	for _, policies := range parsedPolicies {
 		zap.S().Debug("Getting policy for endpoint", policies.Endpoint)
-		storedPolicy := e.Store.GetPolicies(policies.Endpoint)
-		if storedPolicy.PolicyReference == e.Key {
-			e.Store.SetPolicies(policies.Endpoint, policy.NewRoutePolicy())
-		}
+		e.Store.ReleasePolicies(policies.Endpoint, e.Key)
 	}
 	// remove entry from policyMapping
 	e.Store.DeletePolicyMapping(e.Key)
diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index ef6fece..477a939 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -119,6 +119,30 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 	}
 }
 
+// ReleasePolicies removes the endpoint's policies set by the given policy. The endpoint stays
+// protected if another policy is mapped to it.
+func (s *LocalStore) ReleasePolicies(endpoint policy.Endpoint, policyReference string) {
+	if s.policies == nil || s.policies[endpoint.Service] == nil {
+		return
+	}
+	actions, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions)
+	if !ok || actions[endpoint.Method].PolicyReference != policyReference {
+		return
+	}
+	successor := policy.NewRoutePolicy()
+	for name, mappings := range s.policyMappings {
+		if name == policyReference || (successor.PolicyReference != "" && successor.PolicyReference < name) {
+			continue
+		}
+		for _, mapping := range mappings {
+			if mapping.Endpoint == endpoint {
+				successor = policy.RoutePolicy{PolicyReference: name, Actions: mapping.Actions}
+			}
+		}
+	}
+	actions[endpoint.Method] = successor
+}
+
 func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
 	if s.policyMappings != nil {
 		return s.policyMappings[policy]
diff --git a/adapter/policy/store/policy/policystore.go b/adapter/policy/store/policy/policystore.go
index 228ce57..be7f8c5 100644
--- a/adapter/policy/store/policy/policystore.go
+++ b/adapter/policy/store/policy/policystore.go
@@ -17,6 +17,10 @@ type PolicyStore interface {
 	GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy
 	SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy)
 	// DeletePolicies(ep policy.Endpoint, obj interface{})
+
+	// ReleasePolicies removes the endpoint's policies set by the given policy(namespace/name).
+	// If another stored policy protects the same endpoint it takes over.
+	ReleasePolicies(endpoint policy.Endpoint, policyReference string)
 	GetPolicyMapping(policy string) []policy.PolicyMapping
 	AddPolicyMapping(policy string, mapping []policy.PolicyMapping)
 	DeletePolicyMapping(policy string)
-- 
2.43.0


From b7ad6302632d8d8f0216923ad5bf06668fce803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 04/34] fix: an updated policy stops applying to endpoints it
 no longer targets

---
 .../policy/handler/crdeventhandler/add_event.go  | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 4498719..50bd6c4 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -59,14 +59,30 @@ func (e *PolicyAddEventHandler) HandleAddUpdateEvent() {
 	zap.L().Debug("Create/Update Policy", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.ObjectMeta.Name), zap.String("namespace", e.Obj.ObjectMeta.Namespace))
 	mappingId := e.Obj.ObjectMeta.Namespace + "/" +e.Obj.ObjectMeta.Name
 	parsedPolicies := ParseTarget(e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace)
+	previousPolicies := e.Store.GetPolicyMapping(mappingId)
 	for _, policies := range parsedPolicies {
 		zap.S().Debug("Adding policy for endpoint", policies.Endpoint)
 		e.Store.SetPolicies(policies.Endpoint, policy.RoutePolicy{ PolicyReference: mappingId, Actions: policies.Actions})
 	}
 	e.Store.AddPolicyMapping(mappingId, parsedPolicies)
+	// Release the endpoints which the updated policy does not target anymore
+	for _, previous := range previousPolicies {
+		if !containsEndpoint(parsedPolicies, previous.Endpoint) {
+			e.Store.ReleasePolicies(previous.Endpoint, mappingId)
+		}
+	}
 	zap.L().Info("Policy created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
 }
 
+func containsEndpoint(mappings []policy.PolicyMapping, endpoint policy.Endpoint) bool {
+	for _, mapping := range mappings {
+		if mapping.Endpoint == endpoint {
+			return true
+		}
+	}
+	return false
+}
+
 func GetClientSecret(crd *v1.OidcConfig, kubeClient kubernetes.Interface) string {
 	// Return kube secret from reference if present, else try clientSecret
 	if crd.Spec.ClientSecretRef.Name != "" && crd.Spec.ClientSecretRef.Key != "" {
-- 
2.43.0


From df3bb70ddc48011aeb29bf1438543096c35d173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:58 +0000
Subject: [PATCH 05/34] fix: guard the policy store against concurrent
 controllers and requests

---
 adapter/policy/store/policy/localstore.go | 27 +++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 477a939..af9c032 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -2,6 +2,7 @@ package policy
 
 import (
 	"strings"
+	"sync"
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
@@ -11,6 +12,8 @@ import (
 
 // LocalStore is responsible for storing and managing policy/client data
 type LocalStore struct {
+	// mutex protects all fields below: controllers update the store while requests read it
+	mutex sync.RWMutex
 	// clients maps client_name -> client_config
 	clients map[string]client.Client // oidc config ClientName:Client
 	// policies maps endpoint -> list of actions
@@ -31,6 +34,8 @@ func New() PolicyStore {
 }
 
 func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.keysets != nil {
 		return l.keysets[clientName]
 	}
@@ -38,6 +43,8 @@ func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
 }
 
 func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets == nil {
 		l.keysets = make(map[string]keyset.KeySet)
 	}
@@ -45,6 +52,8 @@ func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
 }
 
 func (l *LocalStore) DeleteKeySet(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets != nil {
 		delete(l.keysets, clientName)
 	}
@@ -52,6 +61,8 @@ func (l *LocalStore) DeleteKeySet(clientName string) {
 
 
 func (l *LocalStore) GetClient(clientName string) client.Client {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.clients != nil {
 		return l.clients[clientName]
 	}
@@ -59,6 +70,8 @@ func (l *LocalStore) GetClient(clientName string) client.Client {
 }
 
 func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients == nil {
 		l.clients = make(map[string]client.Client)
 	}
@@ -66,12 +79,16 @@ func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
 }
 
 func (l *LocalStore) DeleteClient(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients != nil {
 		delete(l.clients, clientName)
 	}
 }
 
 func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
 		actions, ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)
 		if ok {
@@ -103,6 +120,8 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 }
 
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policies == nil {
 		s.policies = make(map[policy.Service]pathtrie.Trie)
 	}
@@ -122,6 +141,8 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 // ReleasePolicies removes the endpoint's policies set by the given policy. The endpoint stays
 // protected if another policy is mapped to it.
 func (s *LocalStore) ReleasePolicies(endpoint policy.Endpoint, policyReference string) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policies == nil || s.policies[endpoint.Service] == nil {
 		return
 	}
@@ -144,6 +165,8 @@ func (s *LocalStore) ReleasePolicies(endpoint policy.Endpoint, policyReference s
 }
 
 func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	if s.policyMappings != nil {
 		return s.policyMappings[policy]
 	}
@@ -151,12 +174,16 @@ func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
 }
 
 func (s *LocalStore) DeletePolicyMapping(policy string) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policyMappings != nil {
 		delete(s.policyMappings, policy)
 	}
 }
 
 func (s *LocalStore) AddPolicyMapping(name string, mapping []policy.PolicyMapping) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policyMappings == nil {
 		s.policyMappings = make(map[string][]policy.PolicyMapping)
 	}
-- 
2.43.0


From aaf31771ee0258512477cf0cc0e9264c38dde554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 06/34] fix: guard the cached public keys against concurrent
 refresh

---
 adapter/authserver/keyset/keyset.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/adapter/authserver/keyset/keyset.go b/adapter/authserver/keyset/keyset.go
index fd64a25..703dbd7 100644
--- a/adapter/authserver/keyset/keyset.go
+++ b/adapter/authserver/keyset/keyset.go
@@ -5,6 +5,7 @@ import (
 	"crypto"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"go.uber.org/zap"
 
@@ -26,6 +27,7 @@ type RemoteKeySet struct {
 	httpClient   *networking.HTTPClient
 
 	requestGroup singleflight.Group
+	mutex        sync.RWMutex // protects publicKeys
 	publicKeys   map[string]crypto.PublicKey
 }
 
@@ -55,10 +57,17 @@ func New(publicKeyURL string, httpClient *networking.HTTPClient) KeySet {
 
 // PublicKey returns the public key with the specified kid
 func (s *RemoteKeySet) PublicKey(kid string) crypto.PublicKey {
-	if key := s.publicKeys[kid]; key != nil {
+	if key := s.cachedKey(kid); key != nil {
 		return key
 	}
 	_ = s.updateKeysGrouped()
+	return s.cachedKey(kid)
+}
+
+// cachedKey returns the key with the specified kid from the last synced key set
+func (s *RemoteKeySet) cachedKey(kid string) crypto.PublicKey {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.publicKeys[kid]
 }
 
@@ -116,7 +125,9 @@ func (s *RemoteKeySet) updateKeys() (interface{}, error) {
 
 	zap.L().Info("Synced public keys", zap.String("url", s.publicKeyURL))
 
+	s.mutex.Lock()
 	s.publicKeys = keymap
+	s.mutex.Unlock()
 
 	return http.StatusOK, nil
 }
-- 
2.43.0


From 07c83634757bdaadd9588f7eac30d6cbfedadbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:26 +0000
Subject: [PATCH 07/34] fix: publish the discovery configuration atomically

---
 adapter/authserver/authserver.go | 33 +++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index 86746f3..3191bdb 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	"net/url"
 	"strings"
+	"sync"
 
 	"github.com/golang/groupcache/singleflight"
 	"go.uber.org/zap"
@@ -61,6 +62,7 @@ type RemoteService struct {
 	jwks         keyset.KeySet
 	httpclient   *networking.HTTPClient
 	requestGroup singleflight.Group
+	mutex        sync.RWMutex // protects DiscoveryConfig, jwks and initialized
 	initialized  bool
 }
 
@@ -84,6 +86,8 @@ func New(discoveryEndpoint string) AuthorizationServerService {
 // KeySet returns the instance's keyset
 func (s *RemoteService) KeySet() keyset.KeySet {
 	_ = s.initialize()
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.jwks == nil && s.JwksURL != "" {
 		s.jwks = keyset.New(s.JwksURL, s.httpclient)
 	}
@@ -92,36 +96,46 @@ func (s *RemoteService) KeySet() keyset.KeySet {
 
 // SetKeySet stores a JWKs in the OAuth server
 func (s *RemoteService) SetKeySet(jwks keyset.KeySet) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	s.jwks = jwks
 }
 
 // JwksEndpoint returns the /publicKeys endpoint of the OAuth server
 func (s *RemoteService) JwksEndpoint() string {
 	_ = s.initialize()
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.JwksURL
 }
 
 // TokenEndpoint returns the /token endpoint of the OAuth server
 func (s *RemoteService) TokenEndpoint() string {
 	_ = s.initialize()
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.TokenURL
 }
 
 // AuthorizationEndpoint returns the /authorization endpoint of the OAuth server
 func (s *RemoteService) AuthorizationEndpoint() string {
 	_ = s.initialize()
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.AuthURL
 }
 
 // UserInfoEndpoint returns the /userinfo endpoint of the OAuth server
 func (s *RemoteService) UserInfoEndpoint() string {
 	_ = s.initialize()
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.UserInfoURL
 }
 
 // GetTokens performs a request to the token endpoint
 func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSecret string, authorizationCode string, redirectURI string, refreshToken string) (*TokenResponse, error) {
-	_ = s.initialize()
+	tokenURL := s.TokenEndpoint()
 
 	form := url.Values{}
 
@@ -140,7 +154,7 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 	}
 
 	// Create request
-	req, err := http.NewRequest("POST", s.TokenURL, strings.NewReader(form.Encode()))
+	req, err := http.NewRequest("POST", tokenURL, strings.NewReader(form.Encode()))
 	if err != nil {
 		zap.L().Warn("Could not serialize HTTP request", zap.Error(err))
 		return nil, err
@@ -168,7 +182,7 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 
 // initialize attempts to load the Client configuration from the discovery endpoint
 func (s *RemoteService) initialize() error {
-	if s.initialized {
+	if s.isInitialized() {
 		return nil
 	}
 
@@ -177,7 +191,7 @@ func (s *RemoteService) initialize() error {
 	// taking place at once. All threads coming into this call will wait for
 	// a single response, which can then be processed
 	_, err := s.requestGroup.Do(s.discoveryURL, func() (interface{}, error) {
-		if s.initialized {
+		if s.isInitialized() {
 			return http.StatusOK, nil
 		}
 		return s.loadDiscoveryEndpoint()
@@ -191,6 +205,13 @@ func (s *RemoteService) initialize() error {
 	return nil
 }
 
+// isInitialized reports whether the discovery configuration has been loaded
+func (s *RemoteService) isInitialized() bool {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.initialized
+}
+
 // loadDiscoveryEndpoint loads the configuration from the discovery endpoint
 func (s *RemoteService) loadDiscoveryEndpoint() (interface{}, error) {
 	req, err := http.NewRequest("GET", s.discoveryURL, nil)
@@ -210,8 +231,10 @@ func (s *RemoteService) loadDiscoveryEndpoint() (interface{}, error) {
 		return nil, oa2Err
 	}
 
-	s.initialized = true
+	s.mutex.Lock()
 	s.DiscoveryConfig = *config
+	s.initialized = true
+	s.mutex.Unlock()
 
 	return http.StatusOK, nil
 }
-- 
2.43.0


From fa3057b129a66e329c23d31ad06296aefb38c1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 08/34] fix: recover the key set of an OidcConfig created while
 discovery was failing

---
 adapter/policy/handler/crdeventhandler/add_event.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 50bd6c4..d765f88 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -46,8 +46,10 @@ func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 		e.Obj.Spec.AuthMethod = "client_secret_basic"
 	}
 	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
-	keySets := keyset.New(authorizationServer.JwksEndpoint(), nil)
-	authorizationServer.SetKeySet(keySets)
+	// If discovery failed the authorization server loads its key set once discovery succeeds
+	if jwksURL := authorizationServer.JwksEndpoint(); jwksURL != "" {
+		authorizationServer.SetKeySet(keyset.New(jwksURL, nil))
+	}
 	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
 	// Create and store OIDC Client
 	oidcClient := client.New(e.Obj.Spec, authorizationServer)
-- 
2.43.0


From f6a44b3cf003c484bd78a2b34384842edd871758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 09/34] fix: publish the cookie encryptor safely to concurrent
 requests

---
 adapter/strategy/web/web.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 81e95cf..e1b9e52 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -61,6 +61,9 @@ type WebStrategy struct {
 	mutex      *sync.Mutex
 	encrpytor  Encryptor
 	tokenCache *sync.Map
+
+	// encryptorMutex publishes encrpytor to all threads
+	encryptorMutex sync.RWMutex
 }
 
 // Encryptor signs and encrypts values. Used for cookie encryption
@@ -353,14 +356,14 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 // thread safe manner.
 func (w *WebStrategy) getSecureCookie() (Encryptor, error) {
 	// Allow all threads to check if instance already exists
-	if w.encrpytor != nil {
-		return w.encrpytor, nil
+	if sc := w.loadEncryptor(); sc != nil {
+		return sc, nil
 	}
 	w.mutex.Lock()
 	// Once this thread has the lock check again to see if it had been set while waiting
-	if w.encrpytor != nil {
+	if sc := w.loadEncryptor(); sc != nil {
 		w.mutex.Unlock()
-		return w.encrpytor, nil
+		return sc, nil
 	}
 	// We need to generate a new key set
 	sc, err := w.generateSecureCookie()
@@ -368,6 +371,13 @@ func (w *WebStrategy) getSecureCookie() (Encryptor, error) {
 	return sc, err
 }
 
+// loadEncryptor returns the encryption struct if it has already been set
+func (w *WebStrategy) loadEncryptor() Encryptor {
+	w.encryptorMutex.RLock()
+	defer w.encryptorMutex.RUnlock()
+	return w.encrpytor
+}
+
 // generateSecureCookie instantiates a SecureCookie instance using either the preconfigured
 // key secret cookie or a dynamically generated pair.
 func (w *WebStrategy) generateSecureCookie() (Encryptor, error) {
@@ -388,6 +398,8 @@ func (w *WebStrategy) generateSecureCookie() (Encryptor, error) {
 
 	if s, ok := secret.(*v1.Secret); ok {
 		zap.S().Infof("Synced secret: %v", defaultKeySecret)
+		w.encryptorMutex.Lock()
+		defer w.encryptorMutex.Unlock()
 		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey])
 		return w.encrpytor, nil
 	} else {
-- 
2.43.0


From c9763e9b34728bab3fd4bec9be6bf0709c0ba6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:39 +0000
Subject: [PATCH 10/34] fix: generate session ids and states from a
 concurrency-safe, unpredictable source

---
 adapter/strategy/web/utils.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index d8a0842..3b04ab7 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -1,8 +1,9 @@
 package webstrategy
 
 import (
+	"crypto/rand"
+	"encoding/binary"
 	"errors"
-	"math/rand"
 	"net/http"
 	"net/url"
 	"time"
@@ -21,7 +22,19 @@ const (
 	letterIdxMax  = 63 / letterIdxBits   // # of letter indices fitting in 63 bits
 )
 
-var src = rand.NewSource(time.Now().UnixNano())
+var src = cryptoSource{}
+
+// cryptoSource produces unpredictable bits and is safe for concurrent use
+type cryptoSource struct{}
+
+// Int63 returns 63 random bits
+func (cryptoSource) Int63() int64 {
+	b := make([]byte, 8)
+	if _, err := rand.Read(b); err != nil {
+		zap.L().Panic("Could not read random bits", zap.Error(err))
+	}
+	return int64(binary.BigEndian.Uint64(b) >> 1)
+}
 
 // randString generates a random string of the given size
 func randString(n int) string {
-- 
2.43.0


From c3e43556f80715d62b509aa4155f364824e4e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 11/34] fix: a token refresh does not resurrect a session that
 was logged out meanwhile

---
 adapter/strategy/web/web.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index e1b9e52..0e40490 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -64,6 +64,9 @@ type WebStrategy struct {
 
 	// encryptorMutex publishes encrpytor to all threads
 	encryptorMutex sync.RWMutex
+
+	// sessionMutex orders the end of a session with its token refreshes
+	sessionMutex sync.Mutex
 }
 
 // Encryptor signs and encrypts values. Used for cookie encryption
@@ -169,7 +172,7 @@ func (w *WebStrategy) isAuthorized(cookies string, action *engine.Action) (*auth
 		}
 
 		zap.L().Debug("Tokens are invalid - starting a new session", zap.String("client_name", action.Client.Name()), zap.String("session_id", sessionCookie.Value), zap.Error(validationErr))
-		w.tokenCache.Delete(sessionCookie.Value)
+		w.deleteSession(sessionCookie.Value)
 		return nil, nil
 	}
 
@@ -213,7 +216,10 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 	} else {
 		zap.L().Debug("Updated tokens using refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
 		cookie := generateSessionIDCookie(c, &sessionID)
-		w.tokenCache.Store(cookie.Value, tokens)
+		if !w.updateSession(cookie.Value, tokens) {
+			zap.L().Debug("Session ended during the token refresh. Beginning a new session.", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+			return nil, nil
+		}
 		return &authnz.HandleAuthnZResponse{
 			Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
 			Output: &authnz.OutputMsg{
@@ -224,6 +230,24 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 	}
 }
 
+// updateSession stores the refreshed tokens unless the session has ended in the meantime
+func (w *WebStrategy) updateSession(sessionID string, tokens *authserver.TokenResponse) bool {
+	w.sessionMutex.Lock()
+	defer w.sessionMutex.Unlock()
+	if _, ok := w.tokenCache.Load(sessionID); !ok {
+		return false
+	}
+	w.tokenCache.Store(sessionID, tokens)
+	return true
+}
+
+// deleteSession ends a session
+func (w *WebStrategy) deleteSession(sessionID string) {
+	w.sessionMutex.Lock()
+	defer w.sessionMutex.Unlock()
+	w.tokenCache.Delete(sessionID)
+}
+
 // handleErrorCallback returns an Unauthenticated CheckResult
 func (w *WebStrategy) handleErrorCallback(err error) (*authnz.HandleAuthnZResponse, error) {
 	message := "internal server error"
@@ -247,7 +271,7 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 
 	if cookie, err := request.Cookie(cookieName); err == nil {
 		zap.L().Debug("Deleting active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
-		w.tokenCache.Delete(cookie.Value)
+		w.deleteSession(cookie.Value)
 	}
 
 	redirectURL := strings.Split(r.Instance.Request.Path, logoutEndpoint)[0]
-- 
2.43.0


From 0d7b2f8ca880172e2515b6338ebc52332ca7f5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 12/34] fix: keep the refresh token when a token refresh does
 not return a new one

---
 adapter/strategy/web/web.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 0e40490..88dc1e0 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -215,6 +215,9 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 		return nil, nil
 	} else {
 		zap.L().Debug("Updated tokens using refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+		if tokens.RefreshToken == "" { // the identity provider may keep the current refresh token valid
+			tokens.RefreshToken = session.RefreshToken
+		}
 		cookie := generateSessionIDCookie(c, &sessionID)
 		if !w.updateSession(cookie.Value, tokens) {
 			zap.L().Debug("Session ended during the token refresh. Beginning a new session.", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
-- 
2.43.0


From b3ed26da6f0429771ad525a66852a697cbe9adcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 13/34] fix: bound the userinfo request and close its response
 body

---
 adapter/validator/validator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 37a86a8..40d9234 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	"strconv"
 	"strings"
+	"time"
 
 	"github.com/dgrijalva/jwt-go/v4"
 	"go.uber.org/zap"
@@ -21,6 +22,9 @@ const (
 	scope = "scope"
 	NOT   = "NOT"
 	ANY   = "ANY"
+
+	// userInfoTimeout limits how long a request waits for the userinfo endpoint
+	userInfoTimeout = 5 * time.Second
 )
 
 // TokenValidator parses and validates JWT tokens according to policies
@@ -147,7 +151,7 @@ func (*JwtTokenValidator) Validate(tokenStr string, tokenType Token, jwks keyset
 
 // validateAccessTokenString validates the access token string
 func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules []v1.Rule) *errors.OAuthError {
-	client := &http.Client{}
+	client := &http.Client{Timeout: userInfoTimeout}
 	req, err := http.NewRequest("GET", userInfoEndpoint, nil)
 
 	if err != nil {
@@ -162,6 +166,8 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 	}
 
+	defer res.Body.Close()
+
 	if res.StatusCode != http.StatusOK {
 		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Int("res.StatusCode", res.StatusCode))
 		return errors.UnauthorizedHTTPException("Unauthorized - invalid token", findRequiredScopes(rules))
-- 
2.43.0


From a9c623fe366b184c514cc58a7865a6eff26bc63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 14/34] fix: do not round numeric claims before comparing them
 to a rule's values

---
 adapter/validator/validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 40d9234..94ad817 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -323,7 +323,7 @@ func convertClaimType(value interface{}) (map[string]struct{}, error) {
 		m[strconv.FormatBool(t)] = struct{}{}
 		return m, nil
 	case float64:
-		m[strconv.FormatFloat(t, 'f', 0, 64)] = struct{}{}
+		m[strconv.FormatFloat(t, 'f', -1, 64)] = struct{}{}
 		return m, nil
 	case string:
 		for _, v := range strings.Split(t, " ") {
@@ -336,7 +336,7 @@ func convertClaimType(value interface{}) (map[string]struct{}, error) {
 			case string:
 				m[s2] = struct{}{}
 			case float64:
-				m[strconv.FormatFloat(s2, 'f', 0, 64)] = struct{}{}
+				m[strconv.FormatFloat(s2, 'f', -1, 64)] = struct{}{}
 			case bool:
 				m[strconv.FormatBool(s2)] = struct{}{}
 			default:
-- 
2.43.0


From 1c88dba0f34d20384d573636f14f1f3f719ba17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 15/34] fix: a failed cache lookup is not a deletion

---
 adapter/policy/controller/controller.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adapter/policy/controller/controller.go b/adapter/policy/controller/controller.go
index 18f76d8..856220b 100644
--- a/adapter/policy/controller/controller.go
+++ b/adapter/policy/controller/controller.go
@@ -104,6 +104,7 @@ func (c *Controller) processNextItem() bool {
 			c.Queue.Forget(key)
 			utilruntime.HandleError(err)
 		}
+		return true
 	}
 
 	// if the item doesn't exist then it was deleted and we need to fire off the handler's
-- 
2.43.0


From 09abb3f88715e9be7ebf6661fec6c9fa0a5f2946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:07 +0000
Subject: [PATCH 16/34] fix: apply the policy of the root path to its callback
 and logout endpoints

---
 adapter/policy/engine/engine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 94931dd..5933dd9 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -57,6 +57,9 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 	} else if strings.HasSuffix(target.Path, logoutEndpoint) {
 		target.Path = strings.Split(target.Path, logoutEndpoint)[0]
 	}
+	if target.Path == "" { // the stripped endpoint belongs to the root
+		target.Path = "/"
+	}
 
 	// Get All policies protecting target
 	policies, err := m.getPolicies(endpointsToCheck(target))
-- 
2.43.0


From 0a2323dd4490c62dbb920533fb99d3ef84410fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 17/34] fix: API requests cannot evade ID token rules by
 omitting the ID token

---
 adapter/strategy/api/api.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/api/api.go b/adapter/strategy/api/api.go
index f8cb1ac..887a435 100644
--- a/adapter/strategy/api/api.go
+++ b/adapter/strategy/api/api.go
@@ -14,6 +14,7 @@ import (
 	"istio.io/istio/mixer/pkg/status"
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
+	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
 	adapterPolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
@@ -64,7 +65,7 @@ func (s *APIStrategy) HandleAuthnZRequest(r *authnz.HandleAuthnZRequest, action
 	}
 
 	// Validate ID Value
-	if tokens.ID != "" {
+	if tokens.ID != "" || requiresIDToken(action.Rules) {
 		err = s.tokenUtil.Validate(tokens.ID, validator.ID, action.KeySet, action.Rules, "")
 		if err != nil {
 			return validationError(err, "invalid ID token")
@@ -80,6 +81,16 @@ func (s *APIStrategy) HandleAuthnZRequest(r *authnz.HandleAuthnZRequest, action
 
 // //////////////// utilities //////////////////
 
+// requiresIDToken returns whether any rule applies to the ID token
+func requiresIDToken(rules []v1.Rule) bool {
+	for _, rule := range rules {
+		if rule.Source == validator.ID.String() {
+			return true
+		}
+	}
+	return false
+}
+
 // Parse authorization header from gRPC props
 func getAuthTokensFromRequest(r *authnz.HandleAuthnZRequest) (*validator.RawTokens, *errors.OAuthError) {
 	authHeader := r.Instance.Request.Headers.Authorization
-- 
2.43.0


From 41741456381bc60d25693eb071207e8c3fa56520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 18/34] fix: tell clients without an authorization header which
 scopes they need

---
 adapter/strategy/api/api.go    | 1 +
 adapter/validator/validator.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/adapter/strategy/api/api.go b/adapter/strategy/api/api.go
index 887a435..cc0fc5b 100644
--- a/adapter/strategy/api/api.go
+++ b/adapter/strategy/api/api.go
@@ -49,6 +49,7 @@ func (s *APIStrategy) HandleAuthnZRequest(r *authnz.HandleAuthnZRequest, action
 	tokens, err := getAuthTokensFromRequest(r)
 	if err != nil {
 		zap.L().Debug("JWT request Unauthorized", zap.Error(err))
+		err.Scopes = validator.RequiredScopes(action.Rules)
 		return buildErrorResponse(err), nil
 	}
 
diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 94ad817..74056fd 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -183,6 +183,11 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 	return nil
 }
 
+// RequiredScopes returns the scopes that the rules require, for use in a challenge
+func RequiredScopes(rules []v1.Rule) []string {
+	return findRequiredScopes(rules)
+}
+
 // Find scopes returns the required scope rules to return in www-authenticate header
 func findRequiredScopes(rules []v1.Rule) []string {
 	for _, r := range rules {
-- 
2.43.0


From 3749fb52b4604212f03e6bf7ac327877b8edc8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:33 +0000
Subject: [PATCH 19/34] fix: apply a path's policy to the callback and logout
 of its trailing slash form

---
 adapter/policy/engine/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 5933dd9..02ceb37 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -57,7 +57,8 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 	} else if strings.HasSuffix(target.Path, logoutEndpoint) {
 		target.Path = strings.Split(target.Path, logoutEndpoint)[0]
 	}
-	if target.Path == "" { // the stripped endpoint belongs to the root
+	target.Path = strings.TrimRight(target.Path, "/") // "/path//oidc/callback" belongs to "/path/", which is "/path"
+	if target.Path == "" {                            // the stripped endpoint belongs to the root
 		target.Path = "/"
 	}
 
-- 
2.43.0


From bc6e133448d6f6e10414830f1333733bc133813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 20/34] fix: logging out at the root redirects to the root

---
 adapter/strategy/web/web.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 88dc1e0..2e5a48a 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -278,6 +278,9 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 	}
 
 	redirectURL := strings.Split(r.Instance.Request.Path, logoutEndpoint)[0]
+	if redirectURL == "" {
+		redirectURL = "/"
+	}
 	cookies := []*http.Cookie{
 		{
 			Name:    cookieName,
-- 
2.43.0


From df1a016fc5f4f7bd76d58f5311ce320991827737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 21/34] fix: logging out of a path starting with // does not
 redirect to another host

---
 adapter/strategy/web/web.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 2e5a48a..94c44e1 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -278,9 +278,7 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 	}
 
 	redirectURL := strings.Split(r.Instance.Request.Path, logoutEndpoint)[0]
-	if redirectURL == "" {
-		redirectURL = "/"
-	}
+	redirectURL = "/" + strings.TrimLeft(redirectURL, "/\\") // stay on this host, also from the root or "//other.host"
 	cookies := []*http.Cookie{
 		{
 			Name:    cookieName,
-- 
2.43.0


From ea1908761f48ef88bdf4b3f395f6b4f295c863e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 22/34] fix: retain the query component of the authorization
 endpoint

---
 adapter/strategy/web/utils.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index 3b04ab7..c969ef0 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -77,6 +77,13 @@ func generateAuthorizationURL(c client.Client, redirectURI string, state string)
 		"state":         {state},
 	}
 
+	// Retain the query component of the endpoint
+	for name, values := range baseUrl.Query() {
+		if _, ok := params[name]; !ok {
+			params[name] = values
+		}
+	}
+
 	// Add Query Parameters to the URL
 	baseUrl.RawQuery = params.Encode() // Escape Query Parameters
 
-- 
2.43.0


From f49f5d953a7ba29e7394f336785bbfc0d972f084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 23/34] fix: sessions whose JWT access token expired are
 refreshed instead of asking userinfo

---
 adapter/validator/validator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 74056fd..4b13990 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -94,7 +94,8 @@ func (o *OidcTokenValidator) Validate(tokenStr string, tokenType Token, jwks key
 	// Parse the token - validate expiration and signature
 	token, err := validateSignature(tokenStr, jwks)
 	if err != nil {
-		if tokenType != Access {
+		// an expired JWT is not an opaque token: report its expiry so that the session can be refreshed
+		if tokenType != Access || err.Error() == errors.ExpiredToken {
 			zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
 			return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 		}
-- 
2.43.0


From 6fe5bbb14222d65eed57cb0250ce5cbc0ff31983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 24/34] fix: a key with members of the wrong type does not
 invalidate its key set

---
 adapter/authserver/keyset/key.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/adapter/authserver/keyset/key.go b/adapter/authserver/keyset/key.go
index 3b1f358..1f14ce8 100644
--- a/adapter/authserver/keyset/key.go
+++ b/adapter/authserver/keyset/key.go
@@ -5,6 +5,7 @@ import (
 	"crypto/rsa"
 	"encoding/base64"
 	"encoding/binary"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"math/big"
@@ -50,6 +51,18 @@ type keySet struct {
 	// optional attributes may also be present but are currently ignored
 }
 
+// UnmarshalJSON decodes a key. A malformed key becomes an empty one, which is ignored, so that
+// it does not invalidate the other keys of its set.
+func (k *key) UnmarshalJSON(data []byte) error {
+	type plainKey key
+	decoded := plainKey{}
+	if err := json.Unmarshal(data, &decoded); err != nil {
+		decoded = plainKey{}
+	}
+	*k = key(decoded)
+	return nil
+}
+
 // Decode as a public key
 func (k *key) decodePublicKey() (crypto.PublicKey, error) {
 	// The "kty" (key type) parameter identifies the cryptographic algorithm
-- 
2.43.0


From 3e708101b6a5dce377195101c5d011c69c2610a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 25/34] fix: deep copies of custom resources share no scopes,
 rules or rule values with the original

---
 .../apis/policies/v1/zz_generated.deepcopy.go | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go b/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
index df10e7a..e3b1dfd 100644
--- a/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
+++ b/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
@@ -121,7 +121,7 @@ func (in *OidcConfig) DeepCopyInto(out *OidcConfig) {
 	*out = *in
 	out.TypeMeta = in.TypeMeta
 	in.ObjectMeta.DeepCopyInto(&out.ObjectMeta)
-	out.Spec = in.Spec
+	in.Spec.DeepCopyInto(&out.Spec)
 	return
 }
 
@@ -180,6 +180,11 @@ func (in *OidcConfigList) DeepCopyObject() runtime.Object {
 func (in *OidcConfigSpec) DeepCopyInto(out *OidcConfigSpec) {
 	*out = *in
 	out.ClientSecretRef = in.ClientSecretRef
+	if in.Scopes != nil {
+		in, out := &in.Scopes, &out.Scopes
+		*out = make([]string, len(*in))
+		copy(*out, *in)
+	}
 	return
 }
 
@@ -199,7 +204,9 @@ func (in *PathConfig) DeepCopyInto(out *PathConfig) {
 	if in.Policies != nil {
 		in, out := &in.Policies, &out.Policies
 		*out = make([]PathPolicy, len(*in))
-		copy(*out, *in)
+		for i := range *in {
+			(*in)[i].DeepCopyInto(&(*out)[i])
+		}
 	}
 	return
 }
@@ -217,6 +224,13 @@ func (in *PathConfig) DeepCopy() *PathConfig {
 // DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
 func (in *PathPolicy) DeepCopyInto(out *PathPolicy) {
 	*out = *in
+	if in.Rules != nil {
+		in, out := &in.Rules, &out.Rules
+		*out = make([]Rule, len(*in))
+		for i := range *in {
+			(*in)[i].DeepCopyInto(&(*out)[i])
+		}
+	}
 	return
 }
 
@@ -313,6 +327,27 @@ func (in *PolicySpec) DeepCopy() *PolicySpec {
 	return out
 }
 
+// DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
+func (in *Rule) DeepCopyInto(out *Rule) {
+	*out = *in
+	if in.Values != nil {
+		in, out := &in.Values, &out.Values
+		*out = make([]string, len(*in))
+		copy(*out, *in)
+	}
+	return
+}
+
+// DeepCopy is an autogenerated deepcopy function, copying the receiver, creating a new Rule.
+func (in *Rule) DeepCopy() *Rule {
+	if in == nil {
+		return nil
+	}
+	out := new(Rule)
+	in.DeepCopyInto(out)
+	return out
+}
+
 // DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
 func (in *TargetElement) DeepCopyInto(out *TargetElement) {
 	*out = *in
-- 
2.43.0


From 62ea479c4401b9b7932a96dc1801bfedbf0cd4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 26/34] fix: path index entries below a wildcard segment do not
 hide the enclosing prefix

---
 adapter/policy/store/pathtrie/pathtrie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/policy/store/pathtrie/pathtrie.go b/adapter/policy/store/pathtrie/pathtrie.go
index 4d99a4b..b36babb 100644
--- a/adapter/policy/store/pathtrie/pathtrie.go
+++ b/adapter/policy/store/pathtrie/pathtrie.go
@@ -43,7 +43,7 @@ func (trie *PathTrie) GetActions(key string) interface{} {
 	parent := trie.children[prefix]
 	for part, i := trie.segmenter(key, 0); ; part, i = trie.segmenter(key, i) {
 		node = node.children[part]
-		if node != nil && node.children[prefix] != nil {
+		if node != nil && node.children[prefix] != nil && node.children[prefix].value != nil {
 			parent = node.children[prefix]
 		}
 		if node == nil || i == -1 {
-- 
2.43.0


From 90b95b2c87ba2d6632a5b785923402366c186c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:56 +0000
Subject: [PATCH 27/34] fix: use the cookie keys another adapter instance
 creates at the same time

---
 adapter/strategy/web/web.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 94c44e1..c8fff27 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -18,6 +18,7 @@ import (
 	"istio.io/api/mixer/adapter/model/v1beta1"
 	policy "istio.io/api/policy/v1beta1"
 	"istio.io/istio/mixer/pkg/status"
+	k8serrors "k8s.io/apimachinery/pkg/api/errors"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
@@ -452,7 +453,11 @@ func (w *WebStrategy) generateKeySecret(hashKeySize int, blockKeySize int) (inte
 	}
 
 	return networking.Retry(3, 1, func() (interface{}, error) {
-		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
+		secret, err := w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
+		if k8serrors.IsAlreadyExists(err) { // created by another adapter instance in the meantime
+			return w.kubeClient.CoreV1().Secrets(defaultNamespace).Get(defaultKeySecret, metav1.GetOptions{})
+		}
+		return secret, err
 	})
 }
 
-- 
2.43.0


From 47c9e92ed32a8619c7d6131d985b79a50960dff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 28/34] fix: do not log opaque access tokens the userinfo
 endpoint did not accept

---
 adapter/validator/validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 4b13990..5869b3e 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -163,14 +163,14 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 	req.Header.Set("Authorization", "Bearer " + tokenStr)
 	res, err := client.Do(req)
 	if err != nil {
-		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
+		zap.L().Warn("Unauthorized - invalid token", zap.Error(err))
 		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 	}
 
 	defer res.Body.Close()
 
 	if res.StatusCode != http.StatusOK {
-		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Int("res.StatusCode", res.StatusCode))
+		zap.L().Warn("Unauthorized - invalid token", zap.Int("res.StatusCode", res.StatusCode))
 		return errors.UnauthorizedHTTPException("Unauthorized - invalid token", findRequiredScopes(rules))
 	}
 
-- 
2.43.0


From eae8463f2f169d364881c2341ca77c5626988fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 29/34] fix: do not log the credentials of malformed requests

---
 adapter/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/adapter.go b/adapter/adapter.go
index c826d7f..09ef312 100644
--- a/adapter/adapter.go
+++ b/adapter/adapter.go
@@ -52,7 +52,7 @@ type (
 func (s *AppidAdapter) HandleAuthnZ(ctx context.Context, r *authnz.HandleAuthnZRequest) (*authnz.HandleAuthnZResponse, error) {
 	///// Validate input /////
 	if err := validateAuthnzRequest(r); err != nil {
-		zap.S().Errorf("Unexpected template format for HandleAuthnZRequest: %v", r)
+		zap.L().Error("Unexpected template format for HandleAuthnZRequest", zap.Error(err))
 		return nil, err
 	}
 
-- 
2.43.0


From e34ff63578d900669c6c2f327693d13260400a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:53 +0000
Subject: [PATCH 30/34] fix: an exact path of nothing but slashes is the root,
 not every path

---
 adapter/policy/handler/crdeventhandler/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adapter/policy/handler/crdeventhandler/utils.go b/adapter/policy/handler/crdeventhandler/utils.go
index bba848d..105e1d2 100644
--- a/adapter/policy/handler/crdeventhandler/utils.go
+++ b/adapter/policy/handler/crdeventhandler/utils.go
@@ -38,6 +38,9 @@ func ParseTarget(target []v1.TargetElement, namespace string) []policy.PolicyMap
 						if path.Exact != "/" {
 							path.Exact = strings.TrimRight(path.Exact, "/")
 						}
+						if path.Exact == "" { // nothing but slashes is the root, not an absent path
+							path.Exact = "/"
+						}
 						targets = append(targets, getParsedPolicy(service, method, path.Exact, path.Policies))
 					}
 
-- 
2.43.0


From aea678d08eaa4ec038031a819543169fe15d5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:35 +0000
Subject: [PATCH 31/34] fix: only a path's trailing callback or logout endpoint
 is stripped

---
 adapter/policy/engine/engine.go | 4 ++--
 adapter/strategy/web/web.go     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 02ceb37..d3801be 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -53,9 +53,9 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 
 	// Strip custom path components
 	if strings.HasSuffix(target.Path, callbackEndpoint) {
-		target.Path = strings.Split(target.Path, callbackEndpoint)[0]
+		target.Path = strings.TrimSuffix(target.Path, callbackEndpoint)
 	} else if strings.HasSuffix(target.Path, logoutEndpoint) {
-		target.Path = strings.Split(target.Path, logoutEndpoint)[0]
+		target.Path = strings.TrimSuffix(target.Path, logoutEndpoint)
 	}
 	target.Path = strings.TrimRight(target.Path, "/") // "/path//oidc/callback" belongs to "/path/", which is "/path"
 	if target.Path == "" {                            // the stripped endpoint belongs to the root
diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index c8fff27..4e19de8 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -278,7 +278,7 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 		w.deleteSession(cookie.Value)
 	}
 
-	redirectURL := strings.Split(r.Instance.Request.Path, logoutEndpoint)[0]
+	redirectURL := strings.TrimSuffix(r.Instance.Request.Path, logoutEndpoint)
 	redirectURL = "/" + strings.TrimLeft(redirectURL, "/\\") // stay on this host, also from the root or "//other.host"
 	cookies := []*http.Cookie{
 		{
@@ -529,7 +529,7 @@ func (w *WebStrategy) parseAndValidateCookie(cookie *http.Cookie) *OidcCookie {
 // to the provided url with the accompanying cookie headers
 func buildSuccessRedirectResponse(redirectURI string, cookies []*http.Cookie) *authnz.HandleAuthnZResponse {
 	headers := make(map[string]string)
-	headers[location] = strings.Split(redirectURI, callbackEndpoint)[0]
+	headers[location] = strings.TrimSuffix(redirectURI, callbackEndpoint)
 	for _, cookie := range cookies {
 		headers[setCookie] = cookie.String()
 		zap.S().Debugf("Appending cookie to response: %s", cookie.String())
-- 
2.43.0


From e3d4fe914cce68081a189168a1fec2a3ba896753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 32/34] fix: retrieving a recovered provider's keys does not
 delay requests needing only its endpoints

---
 adapter/authserver/authserver.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index 3191bdb..bc524fd 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -60,6 +60,7 @@ type RemoteService struct {
 	DiscoveryConfig
 	discoveryURL string
 	jwks         keyset.KeySet
+	keySetMutex  sync.Mutex // orders the creation of jwks
 	httpclient   *networking.HTTPClient
 	requestGroup singleflight.Group
 	mutex        sync.RWMutex // protects DiscoveryConfig, jwks and initialized
@@ -86,12 +87,26 @@ func New(discoveryEndpoint string) AuthorizationServerService {
 // KeySet returns the instance's keyset
 func (s *RemoteService) KeySet() keyset.KeySet {
 	_ = s.initialize()
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
-	if s.jwks == nil && s.JwksURL != "" {
-		s.jwks = keyset.New(s.JwksURL, s.httpclient)
+	jwks, jwksURL := s.loadedKeySet()
+	if jwks != nil || jwksURL == "" {
+		return jwks
+	}
+
+	// Retrieve the keys without holding the mutex: other requests need only the endpoints
+	s.keySetMutex.Lock()
+	defer s.keySetMutex.Unlock()
+	if jwks, jwksURL = s.loadedKeySet(); jwks == nil {
+		jwks = keyset.New(jwksURL, s.httpclient)
+		s.SetKeySet(jwks)
 	}
-	return s.jwks
+	return jwks
+}
+
+// loadedKeySet returns the instance's keyset, if it has been set, and the URL it is retrieved from
+func (s *RemoteService) loadedKeySet() (keyset.KeySet, string) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.jwks, s.JwksURL
 }
 
 // SetKeySet stores a JWKs in the OAuth server
-- 
2.43.0


From 611f01170d9c105bc3eb54cc2897b8b8e4f62419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 33/34] fix: the adapter answers no request before it knows the
 existing policies

---
 adapter/adapter.go                            |  5 +++
 adapter/policy/controller/controller.go       | 34 +++++++++++++++++++
 .../policy/initializer/policyinitializer.go   | 20 ++++++++---
 3 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/adapter/adapter.go b/adapter/adapter.go
index 09ef312..dc4ada3 100644
--- a/adapter/adapter.go
+++ b/adapter/adapter.go
@@ -43,6 +43,7 @@ type (
 		apistrategy strategy.Strategy
 		webstrategy strategy.Strategy
 		engine      engine.PolicyEngine
+		initializer initializer.Initializer
 	}
 )
 
@@ -87,6 +88,9 @@ func (s *AppidAdapter) Addr() string {
 
 // Run starts the server run
 func (s *AppidAdapter) Run(shutdown chan error) {
+	if s.initializer != nil {
+		s.initializer.WaitForSync() // without the existing policies requests would be let through
+	}
 	shutdown <- s.server.Serve(s.listener)
 }
 
@@ -137,6 +141,7 @@ func NewAppIDAdapter(cfg *config.Config) (Server, error) {
 		webstrategy: webstrategy.New(cfg, init.GetKubeClient()),
 		server:      grpc.NewServer(),
 		engine:      eng,
+		initializer: init,
 	}
 
 	zap.S().Infof("Listening on: %v", s.Addr())
diff --git a/adapter/policy/controller/controller.go b/adapter/policy/controller/controller.go
index 856220b..1dc5cb1 100644
--- a/adapter/policy/controller/controller.go
+++ b/adapter/policy/controller/controller.go
@@ -26,6 +26,11 @@ type Controller struct {
 	Queue     workqueue.RateLimitingInterface
 	Informer  cache.SharedIndexInformer
 	Handler   handler.PolicyHandler
+	// Synced, if set, is closed once the objects that exist at the start have been processed
+	Synced chan struct{}
+
+	// pending holds the keys of these objects that have not been processed yet
+	pending map[string]struct{}
 }
 
 // Run is the main path of execution for the controller loop
@@ -47,11 +52,38 @@ func (c *Controller) Run(stopCh <-chan struct{}) {
 		return
 	}
 	zap.L().Debug("Controller.Run: cache sync complete")
+	c.awaitExisting()
 
 	// run the runWorker method every second with a stop channel
 	wait.Until(c.runWorker, time.Second, stopCh)
 }
 
+// awaitExisting queues the objects that exist at the start and closes Synced if there are none
+func (c *Controller) awaitExisting() {
+	if c.Synced == nil {
+		return
+	}
+	c.pending = make(map[string]struct{})
+	for _, key := range c.Informer.GetIndexer().ListKeys() {
+		c.pending[key] = struct{}{}
+		c.Queue.Add(key)
+	}
+	if len(c.pending) == 0 {
+		close(c.Synced)
+	}
+}
+
+// processed closes Synced after the last object that existed at the start
+func (c *Controller) processed(key string) {
+	if _, ok := c.pending[key]; !ok {
+		return
+	}
+	delete(c.pending, key)
+	if len(c.pending) == 0 {
+		close(c.Synced)
+	}
+}
+
 // HasSynced allows us to satisfy the Controller interface
 // by wiring up the informer's HasSynced method to it
 func (c *Controller) HasSynced() bool {
@@ -102,6 +134,7 @@ func (c *Controller) processNextItem() bool {
 		} else {
 			zap.L().Error("Controller.processNextItem: Failed processing item no more retries", zap.String("key", keyRaw), zap.Error(err))
 			c.Queue.Forget(key)
+			c.processed(keyRaw)
 			utilruntime.HandleError(err)
 		}
 		return true
@@ -122,6 +155,7 @@ func (c *Controller) processNextItem() bool {
 		c.Handler.HandleAddUpdateEvent(item)
 		c.Queue.Forget(key)
 	}
+	c.processed(keyRaw)
 
 	// keep the worker loop running by returning true
 	return true
diff --git a/adapter/policy/initializer/policyinitializer.go b/adapter/policy/initializer/policyinitializer.go
index 77c8cfe..fade6fb 100644
--- a/adapter/policy/initializer/policyinitializer.go
+++ b/adapter/policy/initializer/policyinitializer.go
@@ -27,11 +27,13 @@ import (
 type Initializer interface {
 	GetHandler() handler.PolicyHandler
 	GetKubeClient() kubernetes.Interface
+	WaitForSync()
 }
 
 type PolicyInitializer struct {
 	KubeClient kubernetes.Interface
 	Handler    handler.PolicyHandler
+	synced     []chan struct{}
 }
 
 func (pi *PolicyInitializer) GetKubeClient() kubernetes.Interface {
@@ -42,6 +44,13 @@ func (pi *PolicyInitializer) GetHandler() handler.PolicyHandler {
 	return pi.Handler
 }
 
+// WaitForSync returns once the custom resources that existed at the start have been processed
+func (pi *PolicyInitializer) WaitForSync() {
+	for _, synced := range pi.synced {
+		<-synced
+	}
+}
+
 func New(store policy.PolicyStore) (Initializer, error) {
 	client, myresourceClient, err := getKubernetesClient()
 	if err != nil {
@@ -51,10 +60,12 @@ func New(store policy.PolicyStore) (Initializer, error) {
 	handler := handler.New(store, client)
 	policyInitializer := &PolicyInitializer{Handler: handler, KubeClient: client}
 	informerlist := policiesInformer.NewSharedInformerFactory(myresourceClient, 0)
+	jwtSynced, oidcSynced, policySynced := make(chan struct{}), make(chan struct{}), make(chan struct{})
+	policyInitializer.synced = []chan struct{}{jwtSynced, oidcSynced, policySynced}
 
-	go initPolicyController(informerlist.Appid().V1().JwtConfigs().Informer(), client, policyInitializer.Handler, v1.JWTCONFIG)
-	go initPolicyController(informerlist.Appid().V1().OidcConfigs().Informer(), client, policyInitializer.Handler, v1.OIDCCONFIG)
-	go initPolicyController(informerlist.Appid().V1().Policies().Informer(), client, policyInitializer.Handler, v1.POLICY)
+	go initPolicyController(informerlist.Appid().V1().JwtConfigs().Informer(), client, policyInitializer.Handler, v1.JWTCONFIG, jwtSynced)
+	go initPolicyController(informerlist.Appid().V1().OidcConfigs().Informer(), client, policyInitializer.Handler, v1.OIDCCONFIG, oidcSynced)
+	go initPolicyController(informerlist.Appid().V1().Policies().Informer(), client, policyInitializer.Handler, v1.POLICY, policySynced)
 
 	return policyInitializer, nil
 }
@@ -113,7 +124,7 @@ func getKubernetesClient() (kubernetes.Interface, policiesClientSet.Interface, e
 	return client, policiesClient, nil
 }
 
-func initPolicyController(informer cache.SharedIndexInformer, client kubernetes.Interface, policyHandler handler.PolicyHandler, crdType v1.CrdType) {
+func initPolicyController(informer cache.SharedIndexInformer, client kubernetes.Interface, policyHandler handler.PolicyHandler, crdType v1.CrdType, synced chan struct{}) {
 	// create a new queue so that when the informer gets a resource that is either
 	// a result of listing or watching, we can add an idenfitying key to the queue
 	// so that it can be handled in the handler
@@ -164,6 +175,7 @@ func initPolicyController(informer cache.SharedIndexInformer, client kubernetes.
 		Informer:  informer,
 		Queue:     queue,
 		Handler:   policyHandler,
+		Synced:    synced,
 	}
 
 	stopCh := make(chan struct{})
-- 
2.43.0


From 1572278a1cfb28a9038e07bde4eed0afaab6d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 34/34] fix: the adapter stops on a signal instead of serving
 with policies it no longer updates

---
 cmd/main.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/main.go b/cmd/main.go
index 5ddbbe4..2c13371 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -3,6 +3,8 @@ package main
 import (
 	"fmt"
 	"os"
+	"os/signal"
+	"syscall"
 
 	"github.com/spf13/cobra"
 	"go.uber.org/zap"
@@ -64,7 +66,15 @@ func runServer(args *config.Config) {
 	go func() {
 		s.Run(shutdown)
 	}()
-	<-shutdown
+
+	// After a signal the policies are not kept up to date anymore: stop answering requests
+	terminate := make(chan os.Signal, 1)
+	signal.Notify(terminate, syscall.SIGTERM, syscall.SIGINT)
+	select {
+	case <-shutdown:
+	case <-terminate:
+		_ = s.Close()
+	}
 }
 
 func main() {
-- 
2.43.0

