//go:build go1.21

package lib

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vclock"
)

// A Guard knows the secrets of one case and examines everything that leaves the adapter meanwhile: answers, requests to
// the providers, log entries of level info and above. The case's goroutine and those it starts carry it in their label.

// Kinds of secrets.
const (
	SAccess  = 1 << iota // an access token a provider issued
	SID                  // an ID token a provider issued
	SRefresh             // a refresh token
	SCode                // an authorization code
	SSecret              // a client secret
	SKey                 // a cookie key
	SSession             // a cookie value that stands for a session or a login in progress
	SState               // a state parameter
	SBearer              // a token a request presented
)

var kindNames = map[int]string{SAccess: "access token", SID: "ID token", SRefresh: "refresh token", SCode: "authorization code", SSecret: "client secret", SKey: "cookie key", SSession: "session or state cookie", SState: "state", SBearer: "presented token"}

type guarded struct {
	kind    int
	value   string
	owner   string // client
	needles []string
}

func (s *guarded) name() string {
	for k, n := range kindNames {
		if s.kind&k != 0 {
			if s.owner != "" {
				n += " of " + s.owner
			}
			return n
		}
	}
	return "secret"
}

func (s *guarded) in(text string) bool {
	for _, n := range s.needles {
		if strings.Contains(text, n) {
			return true
		}
	}
	return false
}

// Guard is the monitor.
type Guard struct {
	mu      sync.Mutex
	secrets map[string]*guarded
	order   []*guarded
	labs    map[*IdP]*Lab
	kubes   []*Kube
	logs    []string
	sent    []string
	leak    string
	Checked int // texts examined
}

// NewGuard creates a guard.
func NewGuard() *Guard { return &Guard{secrets: map[string]*guarded{}, labs: map[*IdP]*Lab{}} }

// Under runs f under a guard.
func Under(g *Guard, f func()) {
	old := vclock.Sink()
	vclock.SetSink(g)
	defer vclock.SetSink(old)
	f()
}

func current() *Guard {
	g, _ := vclock.Sink().(*Guard)
	return g
}

// GuardLogs makes the guards see the log.
func GuardLogs() {
	InitNet()
	zap.ReplaceGlobals(zap.New(&logCore{enc: zapcore.NewJSONEncoder(zap.NewProductionEncoderConfig())}))
}

type logCore struct{ enc zapcore.Encoder }

func (l *logCore) Enabled(lv zapcore.Level) bool { return lv >= zapcore.InfoLevel && current() != nil }
func (l *logCore) With(f []zapcore.Field) zapcore.Core {
	e := l.enc.Clone()
	for _, x := range f {
		x.AddTo(e)
	}
	return &logCore{e}
}
func (l *logCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if l.Enabled(e.Level) {
		return ce.AddCore(e, l)
	}
	return ce
}
func (l *logCore) Write(e zapcore.Entry, f []zapcore.Field) error {
	g := current()
	if g == nil {
		return nil
	}
	b, err := l.enc.EncodeEntry(e, f)
	if err != nil {
		return err
	}
	g.mu.Lock()
	g.logs = append(g.logs, strings.TrimSpace(b.String()))
	g.mu.Unlock()
	b.Free()
	return nil
}
func (l *logCore) Sync() error { return nil }

// needles are the forms in which a value could be recognised.
func needles(kind int, v string) (l []string) {
	add := func(x string) {
		if len(x) >= 6 {
			l = append(l, x)
		}
	}
	if p := strings.Split(v, "."); len(p) == 3 && len(p[2]) > 30 {
		v = p[2] // of a JWT, the signature: without it the rest is no credential
	}
	add(v)
	if q := url.QueryEscape(v); q != v {
		add(q)
	}
	if j, _ := json.Marshal(v); string(j) != `"`+v+`"` {
		add(strings.Trim(string(j), `"`))
	}
	add(hex.EncodeToString([]byte(v)))
	for k := 0; k < 3; k++ {
		b := append(make([]byte, k), v...)
		first, last := (k*8+5)/6, len(b)*8/6
		for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
			if s := e.EncodeToString(b)[first:last]; len(l) == 0 || l[len(l)-1] != s {
				add(s)
			}
		}
	}
	if kind == SKey { // as printed by %v
		add(strings.Trim(fmt.Sprint([]byte(v)[:12]), "[]"))
	}
	return
}

// Keep registers a secret.
func (g *Guard) Keep(kind int, v, owner string) {
	if g == nil || len(v) < 8 {
		return
	}
	g.mu.Lock()
	defer g.mu.Unlock()
	g.keep(kind, v, owner)
}

func (g *Guard) keep(kind int, v, owner string) {
	if len(v) < 8 {
		return
	}
	if s := g.secrets[v]; s != nil {
		if kind != SBearer {
			s.kind |= kind
		}
		return
	}
	s := &guarded{kind: kind, value: v, owner: owner, needles: needles(kind, v)}
	g.secrets[v] = s
	g.order = append(g.order, s)
}

func (g *Guard) refreshKeys() {
	for _, l := range g.labs {
		l.smu.Lock()
		for c, s := range l.Secrets {
			g.keep(SSecret, s, c)
		}
		l.smu.Unlock()
	}
	for _, k := range g.kubes {
		k.mu.Lock()
		if s := k.Secrets[CookieSecret]; s != nil {
			for _, b := range s.Data {
				if len(b) >= 16 {
					g.keep(SKey, string(b), "")
				}
			}
		}
		k.mu.Unlock()
	}
}

// scan looks for secrets which allow does not permit.
func (g *Guard) scan(where, text string, allow func(s *guarded) bool) {
	if text == "" || g.leak != "" {
		return
	}
	g.Checked++
	for _, s := range g.order {
		if s.in(text) && (allow == nil || !allow(s)) {
			if len(text) > 500 {
				text = text[:500] + "..."
			}
			g.leak = fmt.Sprintf("the %s %.60q appears in %s: %s", s.name(), s.value, where, text)
			return
		}
	}
}

// Leak examines what is still unexamined and returns the first leak.
func (g *Guard) Leak() string {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.refreshKeys()
	g.late()
	return g.leak
}

// LogText adds lines of a log to examine.
func (g *Guard) LogText(t string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	for _, l := range strings.Split(t, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			g.logs = append(g.logs, l)
		}
	}
}

func (g *Guard) late() {
	for _, l := range g.logs {
		g.scan("the log", l, nil)
	}
	for _, s := range g.sent {
		g.scan("a request to a provider", s, func(s *guarded) bool { return s.kind&(SSession|SState|SKey) == 0 })
	}
	g.logs, g.sent = nil, nil
}

func isKind(k int) func(*guarded) bool { return func(s *guarded) bool { return s.kind&k != 0 } }

// upstream examines a request to a provider.
func (g *Guard) upstream(p *IdP, ep string, r *Rec) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.refreshKeys()
	l := g.labs[p]
	mine := func(kind int) func(*guarded) bool {
		return func(s *guarded) bool {
			return s.kind&kind != 0 && (s.owner == "" || l == nil || l.Knows(s.owner))
		}
	}
	to := fmt.Sprintf("the %s endpoint of %s", ep, p.ID)
	g.scan("the URL of a request to "+to, r.URL, nil)
	for k, v := range r.Header {
		text := strings.Join(v, ", ")
		if k != "Authorization" {
			g.scan("header "+k+" of a request to "+to, text, nil)
			continue
		}
		allow := func(*guarded) bool { return false }
		if _, _, ok := ParseBasic(v[0]); ok && len(v) == 1 {
			id, sec, _ := ParseBasic(v[0])
			text = id + ":" + sec
			if u, err := url.QueryUnescape(sec); err == nil && u != sec {
				text += "\n" + u
			}
			if ep == "token" {
				allow = mine(SSecret)
			}
		} else if ep == "userinfo" {
			allow = mine(SAccess)
		}
		g.scan("the Authorization header of a request to "+to, text, allow)
	}
	if ep != "token" {
		g.scan("the body of a request to "+to, r.Body, nil)
	} else {
		for k, vs := range r.Form {
			allow := map[string]func(*guarded) bool{"refresh_token": mine(SRefresh), "code": mine(SCode), "client_secret": mine(SSecret)}[k]
			for _, v := range vs {
				g.scan("parameter "+k+" of a request to "+to, v, allow)
			}
			g.scan("the parameters of a request to "+to, k, nil)
		}
	}
	g.sent = append(g.sent, fmt.Sprint(r.URL, r.Header, r.Body))
}

// elsewhere examines a request to nobody known.
func (g *Guard) elsewhere(r *Rec) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.refreshKeys()
	g.scan("a request to an unknown host", fmt.Sprint(r.URL, r.Header, r.Body), nil)
}

// request registers what a request presents.
func (g *Guard) request(m *authnz.HandleAuthnZRequest) (cookies map[string]bool) {
	cookies = map[string]bool{}
	if m == nil || m.Instance == nil || m.Instance.Request == nil {
		return
	}
	r := m.Instance.Request
	g.mu.Lock()
	defer g.mu.Unlock()
	if r.Headers != nil {
		if f := strings.Fields(r.Headers.Authorization); len(f) > 1 && strings.EqualFold(f[0], "bearer") {
			for _, t := range f[1:] {
				if len(t) >= 16 && len(t) < 10000 {
					g.keep(SBearer, t, "")
				}
			}
		}
		for _, c := range strings.Split(r.Headers.Cookies, ";") {
			if p := strings.SplitN(strings.TrimSpace(c), "=", 2); len(p) == 2 {
				cookies[strings.Trim(p[1], `"`)] = true
			}
		}
	}
	if r.Params != nil && len(r.Params.Code) >= 10 && len(r.Params.Code) < 10000 {
		g.keep(SCode, r.Params.Code, "")
	}
	return
}

// answer examines an answer.
func (g *Guard) answer(m *authnz.HandleAuthnZRequest, out *authnz.HandleAuthnZResponse, res Res, cookies map[string]bool) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.refreshKeys()
	// cookies and states this answer introduces
	fresh := map[string]bool{}
	for _, c := range []string{res.SetCookie, res.OutCookie} {
		_, v := ParseSetCookie(c)
		if len(v) < 8 || Expired(c) {
			continue
		}
		if s := g.secrets[v]; s != nil && !cookies[v] && !fresh[v] && g.leak == "" {
			g.leak = fmt.Sprintf("the %s is given out as a cookie: %s", s.name(), c)
		}
		fresh[v] = true
	}
	state := ""
	if u, err := url.Parse(res.Location); err == nil && res.Location != "" {
		q := u.Query()
		if s := q.Get("state"); q.Get("response_type") == "code" && len(s) >= 8 {
			state = s
			if old := g.secrets[s]; old != nil && g.leak == "" {
				g.leak = fmt.Sprintf("the %s is used as the state of another login: %s", old.name(), res.Location)
			}
			if strings.Count(res.Location, s) > 1 && g.leak == "" {
				g.leak = "the state appears more than once in " + res.Location
			}
		}
	}
	for v := range fresh {
		g.keep(SSession, v, "")
	}
	if state != "" {
		g.keep(SState, state, "")
	}
	g.scan("the status message of an answer", res.Msg, nil)
	g.scan("the error of an answer", res.Err, nil)
	g.scan("the body of an answer", res.Body, nil)
	g.scan("the output header Authorization", res.OutAuth, isKind(SAccess|SID|SBearer))
	for k, v := range res.Headers {
		switch http.CanonicalHeaderKey(k) {
		case "Set-Cookie":
			g.cookie("Set-Cookie", v, cookies, fresh)
		case "Location":
			g.scan("the Location of an answer", v, func(s *guarded) bool { return s.value == state })
		default:
			g.scan("header "+k+" of an answer", v, nil)
		}
	}
	g.cookie("the output cookie", res.OutCookie, cookies, fresh)
	if out != nil && out.Output != nil { // anything else the output message carries
		o := *out.Output
		o.Authorization, o.SessionCookie = "", ""
		g.scan("the output of an answer", o.String(), nil)
	}
	g.late()
}

func (g *Guard) cookie(where, text string, presented, fresh map[string]bool) {
	if text == "" {
		return
	}
	_, v := ParseSetCookie(text)
	g.scan(where, text, func(s *guarded) bool { return s.value == v && (fresh[v] || presented[v]) })
	// what the value says once decoded
	for _, enc := range []*base64.Encoding{base64.StdEncoding, base64.URLEncoding, base64.RawStdEncoding, base64.RawURLEncoding} {
		if b, err := enc.DecodeString(v); err == nil {
			g.scan(where+" (decoded)", string(b), nil)
			for _, p := range strings.Split(string(b), "|") {
				if b2, err := enc.DecodeString(p); err == nil {
					g.scan(where+" (decoded)", string(b2), nil)
				}
			}
		}
	}
}
