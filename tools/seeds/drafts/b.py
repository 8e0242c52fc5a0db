W = "adapter/strategy/web/web.go"; WU = "adapter/strategy/web/utils.go"; API = "adapter/strategy/api/api.go"
VA = "adapter/validator/validator.go"; AS = "adapter/authserver/authserver.go"; KS = "adapter/authserver/keyset/keyset.go"
AD = "adapter/policy/handler/crdeventhandler/add_event.go"; DE = "adapter/policy/handler/crdeventhandler/delete_event.go"
UT = "adapter/policy/handler/crdeventhandler/utils.go"; EN = "adapter/policy/engine/engine.go"; ST = "adapter/policy/store/policy/localstore.go"
TR = "adapter/policy/store/pathtrie/pathtrie.go"; CT = "adapter/policy/controller/controller.go"; IN = "adapter/policy/initializer/policyinitializer.go"
AA = "adapter/adapter.go"; CL = "adapter/client/client.go"; NW = "adapter/networking/networking.go"; IO = "adapter/config/intoptions.go"
# C24: something waits that has no reason to
draft("d24-maxconns", "C24", (NW, '''		&http.Client{
			Timeout: defaultTimeout,
		},''', '''		&http.Client{
			Timeout:   defaultTimeout,
			Transport: &http.Transport{Proxy: http.ProxyFromEnvironment, MaxConnsPerHost: 10, MaxIdleConnsPerHost: 10, IdleConnTimeout: 90 * time.Second},
		},'''))
draft("d24-semaphore", "C24", (NW, '''	res, err := c.Client.Do(req)
''', '''	outbound <- struct{}{}
	defer func() { <-outbound }()
	res, err := c.Client.Do(req)
'''), (NW, '''// OK represents types''', '''// outbound limits the number of requests in progress
var outbound = make(chan struct{}, 64)

// OK represents types'''))
draft("d24-client-mutex", "C24", (NW, '''	res, err := c.Client.Do(req)
''', '''	c.mutex.Lock()
	defer c.mutex.Unlock()
	res, err := c.Client.Do(req)
'''), (NW, '''	Client *http.Client
}''', '''	Client *http.Client
	mutex  sync.Mutex
}'''), (NW, '''		&http.Client{
			Timeout: defaultTimeout,
		},''', '''		Client: &http.Client{
			Timeout: defaultTimeout,
		},'''), (NW, '''	"net/http"
''', '''	"net/http"
	"sync"
'''))
draft("d24-tokens-lock", "C24", (AS, '''	tokenResponse := new(TokenResponse)
''', '''	s.tokenMutex.Lock()
	defer s.tokenMutex.Unlock()
	tokenResponse := new(TokenResponse)
'''), (AS, '''	initialized  bool
}''', '''	initialized  bool
	tokenMutex   sync.Mutex
}'''))
draft("d24-tokens-rlock", "C24", (AS, '''	tokenURL := s.TokenEndpoint()
''', '''	_ = s.initialize()
	s.mutex.Lock()
	defer s.mutex.Unlock()
	tokenURL := s.TokenURL
'''))
draft("d24-tokens-group", "C24", (AS, '''	if res, err := s.httpclient.Do(req, tokenResponse, oa2Err); err != nil {''', '''	var res *http.Response
	_, err = s.requestGroup.Do(tokenURL, func() (interface{}, error) {
		r, err := s.httpclient.Do(req, tokenResponse, oa2Err)
		res = r
		return r, err
	})
	if res == nil && err == nil {
		res, err = s.httpclient.Do(req, tokenResponse, oa2Err)
	}
	if err != nil {'''))
draft("d24-keys-lock", "C24", (KS, '''	_ = s.updateKeysGrouped()
	return s.cachedKey(kid)''', '''	s.mutex.Lock()
	s.publicKeys = s.publicKeys
	s.mutex.Unlock()
	fetchMutex.Lock()
	defer fetchMutex.Unlock()
	_ = s.updateKeysGrouped()
	return s.cachedKey(kid)'''), (KS, '''////////////////// constructor''', '''var fetchMutex sync.Mutex

////////////////// constructor'''))
draft("d24-keys-wlock", "C24", (KS, '''	if key := s.cachedKey(kid); key != nil {
		return key
	}
	_ = s.updateKeysGrouped()
	return s.cachedKey(kid)''', '''	s.fetch.RLock()
	key := s.cachedKey(kid)
	s.fetch.RUnlock()
	if key != nil {
		return key
	}
	s.fetch.Lock()
	defer s.fetch.Unlock()
	if key := s.cachedKey(kid); key != nil {
		return key
	}
	_ = s.updateKeysGrouped()
	return s.cachedKey(kid)'''), (KS, '''	publicKeys   map[string]crypto.PublicKey
}''', '''	publicKeys   map[string]crypto.PublicKey
	fetch        sync.RWMutex
}'''))
draft("d24-global-group", "C24", (KS, '''	requestGroup singleflight.Group
''', ''), (KS, "s.requestGroup.Do(s.publicKeyURL,", 'requestGroup.Do("keys",'), (KS, '''////////////////// constructor''', '''var requestGroup singleflight.Group

////////////////// constructor'''))
draft("d24-disc-global", "C24", (AS, '''	// Retrieve configuration from .well-known endpoint.
''', '''	discoveryMutex.Lock()
	defer discoveryMutex.Unlock()
	// Retrieve configuration from .well-known endpoint.
'''), (AS, '''// DiscoveryConfig encapsulates''', '''var discoveryMutex sync.Mutex

// DiscoveryConfig encapsulates'''))
draft("d24-session-lock", "C24", (W, '''	w.sessionMutex.Lock()
	defer w.sessionMutex.Unlock()
	if _, ok := w.tokenCache.Load(sessionID); !ok {''', '''	if _, ok := w.tokenCache.Load(sessionID); !ok {'''), (W, '''	if tokens, err := c.RefreshToken(session.RefreshToken); err != nil {''', '''	w.sessionMutex.Lock() // one refresh at a time, no logout in between
	defer w.sessionMutex.Unlock()
	if tokens, err := c.RefreshToken(session.RefreshToken); err != nil {'''))
draft("d24-userinfo-lock", "C24", (VA, '''	res, err := client.Do(req)
''', '''	userInfoMutex.Lock()
	defer userInfoMutex.Unlock()
	res, err := client.Do(req)
'''), (VA, '''	"net/http"
''', '''	"net/http"
	"sync"
'''), (VA, '''// TokenValidator''', '''var userInfoMutex sync.Mutex

// TokenValidator'''))
draft("d24-events-lock", "C24", (AD, '''	e.Store.AddKeySet(e.Obj.Spec.ClientName, keyset.New(e.Obj.Spec.JwksURL, nil))
''', '''	configMutex.Lock()
	defer configMutex.Unlock()
	e.Store.AddKeySet(e.Obj.Spec.ClientName, keyset.New(e.Obj.Spec.JwksURL, nil))
'''), (AD, '''	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
''', '''	configMutex.Lock()
	defer configMutex.Unlock()
	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
'''), (AD, '''	"go.uber.org/zap"
''', '''	"sync"

	"go.uber.org/zap"
'''), (AD, '''type AddUpdateEventHandler interface''', '''var configMutex sync.Mutex

type AddUpdateEventHandler interface'''))
