//go:build go1.21

package lib

import (
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"
)

// PubKey is one published JWK.
type PubKey struct {
	Kid string
	Key *rsa.PrivateKey
	Raw string // literal JSON instead of a well-formed key
}

// IdP is a fake identity provider.
type IdP struct {
	ID   string
	mu   sync.Mutex
	Keys []PubKey
	// Token answers token requests
	Token func(r *Rec) Answer
	// UserInfo answers userinfo requests
	UserInfo func(r *Rec) Answer
	// Fault, if set, may override the answer of an endpoint ("disc", "jwks", "token", "userinfo")
	Fault func(endpoint string, r *Rec) *Answer
	Log   []*Rec
	guard *Guard
	// DiscDrop names fields left out of the discovery document
	Version string // appended to endpoint paths
}

// NewIdP creates and registers an identity provider.
func NewIdP(id string, keys ...PubKey) *IdP {
	p := &IdP{ID: id, Keys: keys, guard: current()}
	Register(id, p)
	return p
}

// Close unregisters the provider.
func (p *IdP) Close() { Unregister(p.ID) }

// URL returns the URL of an endpoint.
func (p *IdP) URL(ep string) string { return Base(p.ID) + "/" + ep + p.Version }

// OK builds a 200 answer.
func OK(body string) Answer { return Answer{Status: 200, Body: body} }

// JSON marshals v.
func JSON(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// DiscoveryDoc returns the provider's discovery document.
func (p *IdP) DiscoveryDoc() map[string]string {
	return map[string]string{
		"issuer": Base(p.ID), "authorization_endpoint": p.URL("auth"), "token_endpoint": p.URL("token"),
		"jwks_uri": p.URL("jwks"), "userinfo_endpoint": p.URL("userinfo"),
	}
}

// JWK renders one key.
func JWK(k PubKey) string {
	if k.Raw != "" {
		return k.Raw
	}
	n := base64.RawURLEncoding.EncodeToString(k.Key.N.Bytes())
	e := base64.RawURLEncoding.EncodeToString(big.NewInt(int64(k.Key.E)).Bytes())
	return fmt.Sprintf(`{"kty":"RSA","use":"sig","alg":"RS256","kid":%q,"n":%q,"e":%q}`, k.Kid, n, e)
}

// JWKS renders the published key set.
func JWKS(keys []PubKey) string {
	var l []string
	for _, k := range keys {
		l = append(l, JWK(k))
	}
	return `{"keys":[` + strings.Join(l, ",") + `]}`
}

// SetKeys replaces the published keys.
func (p *IdP) SetKeys(keys ...PubKey) { p.mu.Lock(); p.Keys = keys; p.mu.Unlock() }

// Requests returns the log of one endpoint ("" for all).
func (p *IdP) Requests(ep string) []*Rec {
	p.mu.Lock()
	defer p.mu.Unlock()
	var l []*Rec
	for _, r := range p.Log {
		if ep == "" || endpointOf(r, p.ID) == ep {
			l = append(l, r)
		}
	}
	return l
}

// ResetLog clears the log.
func (p *IdP) ResetLog() { p.mu.Lock(); p.Log = nil; p.mu.Unlock() }

func endpointOf(r *Rec, id string) string {
	s := strings.TrimPrefix(r.Path, "/"+id+"/")
	for _, ep := range []string{"disc", "jwks", "token", "userinfo", "auth"} {
		if strings.HasPrefix(s, ep) {
			return ep
		}
	}
	return s
}

// Serve implements Site.
func (p *IdP) Serve(r *Rec, rest string) Answer {
	ep := endpointOf(r, p.ID)
	if p.guard != nil {
		p.guard.upstream(p, ep, r)
	}
	p.mu.Lock()
	p.Log = append(p.Log, r)
	keys := p.Keys
	fault, token, userinfo := p.Fault, p.Token, p.UserInfo
	p.mu.Unlock()
	if fault != nil {
		if a := fault(ep, r); a != nil {
			return *a
		}
	}
	switch ep {
	case "disc":
		return OK(JSON(p.DiscoveryDoc()))
	case "jwks":
		return OK(JWKS(keys))
	case "token":
		if token != nil {
			return token(r)
		}
	case "userinfo":
		if userinfo != nil {
			return userinfo(r)
		}
	}
	return Answer{Status: 404, Body: `{"error":"not_found"}`}
}

// ---------------------------------------------------------------- tokens

var (
	keyMu sync.Mutex
	keys  = map[string]*rsa.PrivateKey{}
)

// Key returns the process-wide RSA key of the given name.
func Key(name string) *rsa.PrivateKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k := keys[name]; k != nil {
		return k
	}
	bits, e := 1024, 65537
	fmt.Sscanf(name, "rsa%d-e%d", &bits, &e) // a key of another size or exponent
	k := genKey(bits, e)
	keys[name] = k
	return k
}

func genKey(bits, e int) *rsa.PrivateKey {
	if e == 65537 {
		k, err := rsa.GenerateKey(rand.Reader, bits)
		if err != nil {
			panic(err)
		}
		return k
	}
	one, be := big.NewInt(1), big.NewInt(int64(e))
	for {
		p, err := rand.Prime(rand.Reader, bits/2)
		if err != nil {
			panic(err)
		}
		q, err := rand.Prime(rand.Reader, bits-bits/2)
		if err != nil {
			panic(err)
		}
		n := new(big.Int).Mul(p, q)
		phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
		d := new(big.Int).ModInverse(be, phi)
		if d == nil || n.BitLen() != bits || p.Cmp(q) == 0 {
			continue
		}
		k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n, E: e}, D: d, Primes: []*big.Int{p, q}}
		k.Precompute()
		if k.Validate() == nil {
			return k
		}
	}
}

// K is shorthand for a published key named and identified alike.
func K(name string) PubKey { return PubKey{Kid: name, Key: Key(name)} }

// Claims is a JWT claim set.
type Claims map[string]interface{}

// With returns a copy with one more claim.
func (c Claims) With(k string, v interface{}) Claims {
	n := Claims{}
	for a, b := range c {
		n[a] = b
	}
	if v == nil {
		delete(n, k)
	} else {
		n[k] = v
	}
	return n
}

var startTime = time.Now()

// In returns a numeric date relative to now.
func In(d time.Duration) int64 { return startTime.Add(d).Unix() }

// Std returns valid standard claims for a subject and audience.
func Std(sub string, aud interface{}) Claims {
	return Claims{"iss": "iss", "sub": sub, "aud": aud, "iat": In(-2 * time.Hour), "exp": In(24 * time.Hour)}
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

var (
	sigMu    sync.Mutex
	sigCache = map[string]string{}
)

// Sign signs arbitrary header and payload JSON with an algorithm.
func Sign(header, payload, alg string, key interface{}) string {
	in := b64([]byte(header)) + "." + b64([]byte(payload))
	ck := alg + "|" + in
	if k, ok := key.(*rsa.PrivateKey); ok {
		ck += "|" + k.N.Text(62)
	} else {
		ck += fmt.Sprintf("|%v", key)
	}
	sigMu.Lock()
	if t, ok := sigCache[ck]; ok {
		sigMu.Unlock()
		return t
	}
	sigMu.Unlock()
	var sig []byte
	switch alg {
	case "RS256", "RS384", "RS512", "PS256", "PS384", "PS512":
		k := key.(*rsa.PrivateKey)
		var h crypto.Hash
		var d []byte
		switch alg {
		case "RS384", "PS384":
			x := sha512.Sum384([]byte(in))
			h, d = crypto.SHA384, x[:]
		case "RS512", "PS512":
			x := sha512.Sum512([]byte(in))
			h, d = crypto.SHA512, x[:]
		default:
			x := sha256.Sum256([]byte(in))
			h, d = crypto.SHA256, x[:]
		}
		var err error
		if strings.HasPrefix(alg, "PS") {
			sig, err = rsa.SignPSS(rand.Reader, k, h, d, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthAuto})
		} else {
			sig, err = rsa.SignPKCS1v15(nil, k, h, d)
		}
		if err != nil {
			panic(err)
		}
	case "HS256":
		m := hmac.New(sha256.New, key.([]byte))
		m.Write([]byte(in))
		sig = m.Sum(nil)
	case "none":
	default:
		panic(alg)
	}
	t := in + "." + b64(sig)
	sigMu.Lock()
	if len(sigCache) < 200000 {
		sigCache[ck] = t
	}
	sigMu.Unlock()
	return t
}

// JWT mints an RS256 token signed with the named key under kid = name.
func JWT(key string, c Claims) string {
	return Sign(fmt.Sprintf(`{"alg":"RS256","typ":"JWT","kid":%q}`, key), JSON(c), "RS256", Key(key))
}
