#!/usr/bin/env python3
# Generates /verif/properties.jsonl (run by hand; the output is committed).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=hook)))
ST="adapter/policy/store/policy/localstore.go"; TR="adapter/policy/store/pathtrie/pathtrie.go"; EN="adapter/policy/engine/engine.go"
AD="adapter/policy/handler/crdeventhandler/add_event.go"; DE="adapter/policy/handler/crdeventhandler/delete_event.go"; UT="adapter/policy/handler/crdeventhandler/utils.go"
WEB="adapter/strategy/web/web.go"; WU="adapter/strategy/web/utils.go"; API="adapter/strategy/api/api.go"; VA="adapter/validator/validator.go"
KS="adapter/authserver/keyset/keyset.go"; KY="adapter/authserver/keyset/key.go"; AS="adapter/authserver/authserver.go"; NW="adapter/networking/networking.go"
CL="adapter/client/client.go"; CT="adapter/policy/controller/controller.go"; IN="adapter/policy/initializer/policyinitializer.go"; AA="adapter/adapter.go"
ER="adapter/errors/oautherror.go"

p("C01","A request covered by a live Policy is never let through unauthenticated",
 "A request without credentials whose service, path and method fall under a path entry (with at least one jwt or oidc policy) of any Policy that currently exists in the service's namespace is never answered OK: it is denied, redirected to the identity provider, or fails with an error. This holds whatever sequence of Policy, JwtConfig and OidcConfig creations, updates and deletions led to the current set, including entries that overlap (same endpoint, nested prefixes, different methods) and requests for the endpoint's /oidc/callback and /oidc/logout.",
 ["histories","inputs","configurations"],"every sequence of create/update/delete events of overlapping policies up to the bound, and after each of them every request path and method of the domain",
 "Tests apply one or two policies to a fresh store and look up the same endpoint; no test deletes or updates a policy that overlaps with another one.",
 [ST,TR,EN,AD,DE,UT,AA],[("per-service path trie and method map",ST),("endpoint resolution",EN),("policy event handlers",AD)],
 [("policies","service -> trie of path -> method -> actions",ST),("policyMappings","policy name -> endpoints it set",ST)],["HandleAuthnZ result status"])
p("C02","The most specific policy entry decides; uncovered requests pass",
 "Among the path entries of live Policies covering a request, the one applied is the exact path entry before the longest matching prefix entry, and for the same path the entry for the request's own method before the one for ALL methods. Prefixes match whole path segments only, entries apply only to the service they name in the Policy's own namespace, and a request that no live entry covers is answered OK.",
 ["inputs","configurations","histories"],"every set of up to k path entries drawn from the entry domain (exact/prefix x nested paths x methods x services x namespaces), every order of creating them, every request of the domain",
 "Tests check a handful of hand-picked endpoint/policy pairs; precedence depends on the combination and creation order of all entries.",
 [ST,TR,EN,UT],[("trie lookup with enclosing prefix",TR),("endpoint candidates",EN),("target parsing",UT)],
 [("policies","service -> trie",ST)],["which config/policy type decides the request"])
p("C03","Decisions depend only on the objects that exist now, not on history",
 "Two clusters holding the same Policies, JwtConfigs and OidcConfigs give the same decision for every request, however those objects came to be (created, updated from other versions, deleted and re-created, in any order), provided no two live entries claim the same endpoint. In particular a deleted policy, or an endpoint dropped by an update, stops being enforced immediately.",
 ["histories"],"every event history up to the bound, compared with a fresh adapter given only the surviving objects",
 "Tests never compare the outcome of different histories; the state left by an update or deletion is only probed at the endpoint just removed.",
 [ST,AD,DE,TR],[("release of endpoints no longer targeted",AD),("policy deletion",DE)],
 [("policyMappings","policy name -> endpoints it set",ST)],["HandleAuthnZ decisions"])
p("C04","A policy is enforced with the current configuration it names, or not at all",
 "A request under a policy is checked against the JwtConfig (type jwt) or OidcConfig (type oidc) of the policy's own namespace that currently bears the configured name: an update of that object takes effect for the next request, and while the object does not exist, or the policy type is unknown, the request fails with an error and is never let through. Configurations of another kind, name or namespace are never used instead.",
 ["histories","configurations"],"every history of configuration and policy events (create, update to another identity provider, delete, in any order relative to the policy) over two namespaces and both kinds",
 "Tests have one configuration of each kind, created before the policy and never changed.",
 [EN,AD,DE,ST],[("configuration lookup by namespace/name",EN),("config event handlers",AD)],
 [("clients","namespace/name -> OIDC client",ST),("keysets","namespace/name -> JWKS",ST)],["HandleAuthnZ result","which identity provider is contacted"])
p("C05","Requests stay correctly decided while policies and configs change under them",
 "When configuration events and requests run concurrently, in every interleaving each request is decided by a policy entry that applies to it at some moment during the request (or passes if at some moment none does), checked with a configuration that bears the entry's configured name at some moment during the request: a request that is covered by a policy both before and after every concurrent event is never let through, and requests of untouched endpoints are decided as if alone. No interleaving crashes, deadlocks or races on shared data.",
 ["schedules"],"every interleaving (up to the preemption bound) of 2-3 threads performing policy/config events and requests on colliding endpoints",
 "All tests are single-threaded; events arrive on three controller goroutines while gRPC serves each request on its own goroutine.",
 [ST,TR,EN,AD,DE],[("store lock",ST),("set new endpoints before releasing old ones",AD)],
 [("policies","shared trie",ST)],["HandleAuthnZ results","race detector"])
p("C06","Only correctly signed, unexpired tokens from the configured keys are accepted",
 "On a jwt-protected endpoint a request passes only if its access token (and ID token, if one is sent) is a JWT whose signature verifies, under an RSA algorithm, with the key that the configured key set publishes under the token's kid, and which is neither expired nor not-yet-valid. A token that is altered, unsigned, HMAC-signed, signed by another key, without kid or with an unknown kid is always rejected, and a valid one is always accepted.",
 ["inputs","histories"],"every combination of token defects (algorithm, key, kid, expiry, not-before, tampering, structure) in either token position, every Authorization header shape of the domain, and every history of presenting the same tokens while time passes and key sets are exchanged",
 "Tests use a dozen fixed tokens; the quantifier is over all combinations of header, claims, signature and key set contents.",
 [VA,API,KS,KY],[("signature validation",VA),("Authorization header parsing",API),("JWK decoding",KY)],
 [],["HandleAuthnZ result"])
p("C07","Every rule of the policy is enforced on the token it names",
 "A request passes only if every rule of the applied policy holds for the claims of the token named by the rule's source (the access token if omitted; if the rule names the ID token, an ID token must be presented): ALL requires each listed value, ANY at least one, NOT none, ALL being the default. Claims may be strings (space separated), numbers, booleans, arrays of these or nested objects addressed with dots; a claim of any other shape or a missing claim never satisfies ALL or ANY.",
 ["inputs"],"every rule (match type x source x value set) against every claim shape and value of the domain, all pairs of rules, on the API flow, the OIDC callback and session flows, and opaque access tokens",
 "Tests probe single rules with selected claim values through internal functions.",
 [VA,API,WEB,EN],[("claim matching",VA),("default audience rule",EN)],
 [],["HandleAuthnZ result"])
p("C08","API denials are OAuth bearer challenges and never leak through as OK",
 "Whenever the API flow rejects a request the answer has a non-OK status carrying a direct HTTP response with status 401 (400 for invalid requests, 500 for internal errors) and a WWW-Authenticate header that starts with Bearer, names the error code, and lists the scopes required by the policy's scope rule when a token was missing or invalid. No rejected request carries output headers.",
 ["inputs"],"every Authorization header shape x token defect x rule set of the domain",
 "Tests check the builder with a few hand-made errors, not the end-to-end answer for every way a request can be rejected.",
 [API,ER,VA],[("buildErrorResponse",API),("error code to HTTP status mapping",ER)],
 [],["HandleAuthnZ response"])
p("C09","OIDC: only a live, valid session passes; everyone else is sent to the right IdP",
 "On an oidc-protected endpoint a request passes only if its session cookie for that client identifies a session this adapter created and has not ended, whose tokens are currently valid for the policy; it is then forwarded with exactly that session's access and ID token. Any other request is answered with a redirect to the configured identity provider's authorization endpoint carrying the client id, response_type=code, the configured scopes, a redirect_uri equal to the requested URL plus /oidc/callback, and a fresh state that is also set as an encrypted cookie.",
 ["inputs","histories"],"every sequence of browser steps (visit, start login, callback, logout, token expiry, tampered or swapped cookies) of up to the bounded length for two users and two clients",
 "Tests call the strategy once with hand-made cookies and mocked validators; no test follows a browser through several steps.",
 [WEB,WU,CL],[("isAuthorized",WEB),("generateAuthorizationURL",WU)],
 [("tokenCache","session id -> tokens",WEB)],["HandleAuthnZ response: status, location, set-cookie, output"])
p("C10","A login completes only for the browser that started it, with validated tokens",
 "A callback creates a session only if the request presents an unexpired state cookie issued by this adapter for the same client whose value equals the returned state, the authorization code is accepted by the identity provider with the same redirect_uri that was used in the authorization request, and both returned tokens satisfy the policy. On success the browser is redirected to the originally requested URL, or the configured redirectUri, and receives the new session cookie; in every other case no session comes into existence and the answer is not OK.",
 ["inputs","fault_sequences","histories"],"every combination of state cookie (own, other browser's, other client's, expired, tampered, missing), state parameter, code, error parameter, token endpoint answer and token validity",
 "Tests mock the encryptor and validator and cover a few combinations, never a complete login.",
 [WEB,WU,AS],[("validateState",WEB),("handleAuthorizationCodeCallback",WEB)],
 [("tokenCache","session id -> tokens",WEB)],["callback response","token endpoint requests"])
p("C11","Logout is final",
 "After a logout request for a session has been answered, no later request presenting that session's cookie passes, and no interleaving of the logout with concurrent requests of the same session (including ones that are refreshing its tokens) brings the session back. The logout answer expires the session cookie and redirects to the protected path, and sessions of other users or clients are unaffected.",
 ["histories","schedules"],"every browser history up to the bound containing a logout, and every interleaving (up to the preemption bound) of a logout with one or two requests of the same session",
 "One test checks a single logout response; none presents the cookie again or overlaps a logout with a refresh.",
 [WEB],[("handleLogout",WEB),("session update only if still present",WEB)],
 [("tokenCache","session id -> tokens",WEB)],["later request result","set-cookie"])
p("C12","Expired sessions are renewed only with the session's own refresh token",
 "When a session's tokens have expired, the adapter asks the identity provider for new tokens with the session's latest refresh token; if the new tokens satisfy the policy the request passes with the new tokens and the session continues under the same session id, again and again for as long as the identity provider agrees. If there is no refresh token, or the refresh is refused or fails or yields tokens that do not satisfy the policy, the request does not pass and the user is sent to log in.",
 ["histories","fault_sequences"],"every sequence of refresh outcomes (new tokens with/without new refresh token, without ID token, expired, wrong audience, wrong signature, OAuth error, transport error) over consecutive expiries",
 "Tests cover a single mocked refresh per case, never two in a row.",
 [WEB,CL,AS],[("handleRefreshTokens",WEB)],
 [("tokenCache","session id -> tokens",WEB)],["request result","token endpoint requests"])
p("C13","Concurrent logins and requests never share or mix sessions",
 "Sessions created by different logins always have different ids and states differ between logins, also when the logins are processed concurrently, and a request presenting one session's cookie is always forwarded with that login's tokens. No interleaving of concurrent logins, session requests and refreshes crashes, deadlocks, races on shared data, or gives one user another user's tokens.",
 ["schedules","histories"],"every interleaving (up to the preemption bound) of 2-3 concurrent logins, session requests and refreshes, and every sequence of them up to the bound",
 "All tests are sequential.",
 [WEB,WU],[("random session ids",WU),("concurrent session map",WEB)],
 [("tokenCache","session id -> tokens",WEB),("src","random source",WU)],["responses","race detector"])
p("C14","One cookie key pair, shared, persistent and created only when absent",
 "All state cookies are signed and encrypted with the key pair stored in the Kubernetes secret: an existing secret is used and never replaced, a missing one is created once with keys of the configured sizes, so that a cookie issued by one adapter instance is accepted by another. If the secret can neither be read nor created, logins fail with an error but later requests retry and succeed once Kubernetes recovers, and concurrent first requests all end up with the same keys.",
 ["fault_sequences","schedules","configurations"],"every sequence of Kubernetes API outcomes (found, not found, error; create ok, error) across startup and the following requests, every key size, every interleaving of concurrent first uses",
 "Tests use a fake client that always succeeds and a single thread.",
 [WEB,NW,"adapter/config/config.go"],[("getSecureCookie",WEB),("generateKeySecret",WEB),("Retry",NW)],
 [("encrpytor","cached cookie encryptor",WEB)],["secrets API calls","cookies accepted across instances"])
p("C15","Key rotation: current keys are found, failed refreshes lose nothing",
 "A token signed with a key the identity provider currently publishes is accepted at the first attempt even if the key was added after the last fetch, and a failed or malformed key set answer (transport error, error status, bad JSON, missing keys) never discards keys already known nor makes a token pass. A malformed or unsupported key in the set does not affect the other keys, and concurrent requests share fetches without races, deadlocks or missing a key that is published.",
 ["histories","fault_sequences","schedules"],"every sequence of key set versions, failures and lookups up to the bound; every interleaving of concurrent lookups and refreshes",
 "Tests fetch one fixed key set; one test counts requests of concurrent threads on one schedule.",
 [KS,KY,NW],[("PublicKey re-fetch on unknown kid",KS),("singleflight request group",KS)],
 [("publicKeys","kid -> key",KS)],["HandleAuthnZ result","requests to the JWKS endpoint"])
p("C16","Provider discovery: all or nothing, and recovers by itself",
 "An OidcConfig works as soon as its discovery document can be fetched, no matter how many attempts failed before or whether it was created during an outage, and from then on its endpoints stay fixed without further discovery requests. Incomplete, malformed or failed discovery answers are never used, not even partially, and concurrent requests never observe a partly initialised provider.",
 ["fault_sequences","schedules"],"every sequence of discovery answers (error, bad status, malformed, each missing field, complete) interleaved with requests; every interleaving of concurrent first requests",
 "Tests load one discovery answer per case, at construction, on one thread.",
 [AS,AD],[("initialize",AS),("OK validation of the document",AS)],
 [("initialized","discovery loaded",AS),("DiscoveryConfig","endpoints",AS)],["redirect location","requests to the discovery endpoint"])
p("C17","Failing identity providers and Kubernetes never open access or hang a request",
 "For every combination of failures of the upstream calls made while serving a request (transport error, timeout, error status, and for discovery, key set and token endpoints also empty, truncated or wrong JSON and missing fields) a request that depends on the failed answer does not pass, and the adapter neither panics nor loses its ability to serve the next request. Every upstream request has a bounded wait and every response body is released.",
 ["fault_sequences"],"every fault of the menu at every upstream call, pairs of faults, for each request kind (API request, session request with JWT or opaque access token, refresh, callback, first visit)",
 "Tests inject single failures into single components.",
 [AS,KS,VA,NW,WEB],[("HTTP client timeout",NW),("response decoding",NW)],
 [],["HandleAuthnZ result","RoundTrip deadlines, body Close"])
p("C18","The adapter converges to the cluster's custom resources, also across errors",
 "Once the adapter has processed the watch events of the cluster's Policies, JwtConfigs and OidcConfigs (in any order across kinds, including several changes to one object and re-creation between processing), its decisions are those of the objects that exist in the cluster. A failure to look up an object is retried and never treated as its deletion.",
 ["histories","fault_sequences"],"every sequence of API object changes and queue processing steps up to the bound, with lookup failures at every step; and complete runs of the adapter against a stand-in Kubernetes API server",
 "The controller and the initializer have no tests.",
 [CT,IN,"adapter/policy/handler/handler.go","adapter/policy/policy.go"],[("processNextItem",CT),("informer event handlers",IN)],
 [("Queue","keys to process",CT)],["decisions after the queue drained"])
p("C19","Malformed requests are rejected, equivalent paths treated alike, nothing panics",
 "A request message lacking its instance, target, request, headers or parameters is rejected with an error. A request path with trailing slashes falls under the same policy as the path without them, and no combination of request fields, however unusual, makes the adapter panic or lets a protected path through.",
 ["inputs"],"every subset of missing message parts; every combination of unusual paths, methods, cookies, authorization values and parameters of the domain on unprotected, jwt and oidc endpoints",
 "The request entry point's tests need a Kubernetes cluster and are not run; others pass well-formed messages.",
 [AA,API,WEB,EN],[("validateAuthnzRequest",AA)],
 [],["HandleAuthnZ error/response"])
p("C20","The client authenticates to the token endpoint with the right secret and method",
 "The client secret used is the value in the referenced Kubernetes secret of the OidcConfig's namespace when the reference is complete and the value exists, and the plain clientSecret otherwise. Token requests are form-encoded POSTs carrying the grant's own parameters and authenticate either with HTTP Basic (by default) or with client_id and client_secret form fields (client_secret_post), never both; the secret goes nowhere else.",
 ["configurations","inputs","fault_sequences"],"every combination of clientSecret, clientSecretRef (name/key present, secret present, key present, empty value, API failure), auth method and grant type",
 "Tests cover selected combinations separately and do not look at the token request that results.",
 [AD,UT,CL,AS],[("GetClientSecret",AD),("GetTokens",AS)],
 [],["requests at the token endpoint"])
p("C21","Only valid key sizes can be configured",
 "The hash and block key size options accept exactly their documented values (32 or 64; 16, 24 or 32), report an error for every other input, and an input that is rejected leaves the previously configured value unchanged.",
 ["inputs","histories"],"every integer in a range around all 8 and 16 bit boundaries, malformed strings, and all pairs of consecutive settings",
 "Tests try a few values.",
 ["adapter/config/intoptions.go","adapter/config/config.go"],[("IntOptions.Set",'adapter/config/intoptions.go')],
 [],["Set error, String"])
p("C22","Copies of custom resources are equal and independent",
 "A deep copy of any custom resource or list equals the original, and no change to any field of the copy, at any depth, changes the original.",
 ["inputs"],"every field path of every custom resource type, with every container nil, empty or filled",
 "The generated code has no tests.",
 ["adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go"],[("DeepCopy",'adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go')],
 [],["DeepCopyObject"])
p("C23","The path index behaves like a map with enclosing-prefix lookup",
 "After any sequence of puts and deletes the path index returns for a key exactly the value last put and not deleted, and the prefix lookup returns that value if present and otherwise the value of the longest stored prefix entry (ending in /*) enclosing the key, or nothing. A put reports whether it added a value where there was none.",
 ["histories","inputs"],"every sequence of put/delete over the key domain up to the bounded length, all lookups after each step",
 "Tests run one fixed sequence of operations.",
 [TR,"adapter/policy/store/pathtrie/utils.go"],[("Put/Get/Delete/GetActions",TR)],
 [("children","segment -> node",TR)],["Get, GetActions, Put, Delete results"])
p("C24","A hanging upstream delays only the requests that need its answer",
 "While an identity provider or the Kubernetes API does not answer a call made on behalf of one request or one object event, every other request and event that does not itself need that answer is decided as usual, without waiting for it: session requests, first visits, logins, refreshes of other sessions, logouts (also of the very session being refreshed), API requests with known keys, unprotected requests and policy events. The request whose call got no answer does not pass.",
 ["schedules","fault_sequences"],"every interleaving, up to the preemption bound, of an operation whose upstream call never answers (refresh, code exchange, userinfo, key lookup, discovery, client secret, configuration events) with every other kind of request and event",
 "Tests answer every upstream call at once and send one request at a time.",
 [WEB,KS,AS,VA,AA,AD,ST],[("session mutex (released around upstream calls)",WEB),("PublicKey fetch outside the read lock",KS),("initialize under the client's own mutex",AS)],
 [("tokenCache","session id -> tokens",WEB),("publicKeys","kid -> key",KS)],["HandleAuthnZ results while another call hangs"])
p("C25","Secrets and tokens reach nobody who may not see them",
 "Tokens, refresh tokens, authorization codes, client secrets and cookie keys never appear in an answer to the browser (status, headers, body, cookies): the only tokens the adapter hands out are the access and ID token in the Authorization value of an allowed OIDC request. The value of a session or state cookie appears only in the answer that sets or clears it, and the state besides in the redirect to the provider. Upstream, codes, refresh tokens and the client secret go only to the token endpoint of the provider currently configured for the client, an access token only in the Authorization header of its userinfo endpoint, cookie keys only to Kubernetes, nothing of this to discovery and key set endpoints or into a request URL, and ID tokens nowhere. Log entries at level info and above contain none of these.",
 ["histories","inputs","fault_sequences"],"every bounded history of visits, logins, sessions, refreshes, logouts, configuration changes and provider failures with two clients of two providers, malformed messages, and the full input products of the request kinds, with every answer, upstream request and log entry searched for every secret issued so far (plain, URL, JSON, hex and base64 encoded)",
 "Tests look at the fields they expect and never at everything an answer, upstream request or log entry contains.",
 [WEB,API,AS,VA,AD,CL],[("handleErrorCallback / redirects",WEB),("GetTokens",AS),("validateAccessTokenString",VA)],
 [("tokenCache","session id -> tokens",WEB)],["HandleAuthnZ results","RoundTrip requests","zap entries"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
for x in P: assert len(x['title'])<=80
print(len(P))
