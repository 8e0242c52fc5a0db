//go:build go1.21

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/grpclog"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// C26 and part of C21: the adapter as it is started, a process built from cmd, which reads its command line, talks to
// an API server and the providers over loopback sockets and answers gRPC calls.

var cmdBin = os.Getenv("VERIF_CMD_BIN")

// secretServer keeps the secrets of the cluster.
type secretServer struct {
	mu      sync.Mutex
	secrets map[string]*corev1.Secret
	created []string
	down    bool
}

func (s *secretServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	f := strings.Split(strings.Trim(r.URL.Path, "/"), "/") // api v1 namespaces NS secrets [NAME]
	w.Header().Set("Content-Type", "application/json")
	send := func(code int, o interface{}) {
		b, _ := json.Marshal(o)
		w.WriteHeader(code)
		_, _ = w.Write(b)
	}
	fail := func(code int, reason string) {
		send(code, map[string]interface{}{"kind": "Status", "apiVersion": "v1", "status": "Failure", "reason": reason, "code": code})
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(f) < 5 || f[4] != "secrets" || s.down {
		fail(503, "ServiceUnavailable")
		return
	}
	typed := func(x *corev1.Secret) *corev1.Secret {
		x.TypeMeta = metav1.TypeMeta{APIVersion: "v1", Kind: "Secret"}
		return x
	}
	switch {
	case r.Method == "GET" && len(f) == 6:
		if x := s.secrets[f[3]+"/"+f[5]]; x != nil {
			send(200, typed(x))
		} else {
			fail(404, "NotFound")
		}
	case r.Method == "POST" && len(f) == 5:
		b, _ := io.ReadAll(r.Body)
		x := &corev1.Secret{}
		if err := json.Unmarshal(b, x); err != nil {
			fail(400, "BadRequest")
			return
		}
		k := f[3] + "/" + x.Name
		if s.secrets[k] != nil {
			fail(409, "AlreadyExists")
			return
		}
		s.secrets[k] = x
		s.created = append(s.created, k)
		send(201, typed(x))
	default:
		s.created = append(s.created, r.Method+" "+r.URL.Path)
		fail(405, "MethodNotAllowed")
	}
}

func (s *secretServer) sizes() (h, b int, ok bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	x := s.secrets[lib.CookieSecret]
	if x == nil {
		return
	}
	return len(x.Data["HASH_KEY"]), len(x.Data["BLOCK_KEY"]), true
}

// proc is a started adapter.
type proc struct {
	cmd   *exec.Cmd
	port  int
	out   *tail
	done  chan struct{}
	conn  *grpc.ClientConn
	cl    authnz.HandleAuthnZServiceClient
	limit time.Duration // of one call
}

// tail keeps the end of what a process prints.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append([]byte{}, t.b[len(t.b)-(1<<19):]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func (t *tail) has(s string) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return bytes.Contains(t.b, []byte(s))
}

func (t *tail) all() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func (t *tail) last() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b[max(0, len(t.b)-600):])
}

var procN int64

var nextPort = int64(12000 + os.Getpid()*37%12000)

// freePort gives every process a port of its own, below those that the kernel hands out.
func freePort() int {
	for i := 0; i < 20000; i++ {
		n := 12000 + int(atomic.AddInt64(&nextPort, 1)-12000)%20000
		l, err := net.Listen("tcp", fmt.Sprint(":", n))
		if err == nil {
			_ = l.Close()
			return n
		}
	}
	panic(lib.HarnessError{Msg: "no free port"})
}

var quietGrpc sync.Once

// startProc starts the adapter against an API server.
func startProc(dir, kubeconfig string, args ...string) *proc {
	quietGrpc.Do(func() { grpclog.SetLoggerV2(grpclog.NewLoggerV2(io.Discard, io.Discard, io.Discard)) })
	p := &proc{port: freePort(), out: &tail{}, done: make(chan struct{}), limit: 10 * time.Second}
	p.cmd = exec.Command(cmdBin, append([]string{"--port", strconv.Itoa(p.port)}, args...)...)
	p.cmd.Dir = dir
	p.cmd.Env = []string{"KUBECONFIG=" + kubeconfig, "HOME=" + dir, "PATH=/usr/bin:/bin"}
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		panic(lib.HarnessError{Msg: "the adapter does not start: " + err.Error()})
	}
	go func() { _ = p.cmd.Wait(); close(p.done) }()
	conn, err := grpc.Dial(fmt.Sprintf("127.0.0.1:%d", p.port), grpc.WithInsecure(), grpc.WithBackoffMaxDelay(50*time.Millisecond))
	if err != nil {
		panic(lib.HarnessError{Msg: err.Error()})
	}
	p.conn, p.cl = conn, authnz.NewHandleAuthnZServiceClient(conn)
	return p
}

func (p *proc) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *proc) stop() {
	_ = p.conn.Close()
	_ = p.cmd.Process.Kill()
	<-p.done
}

// call sends one message; waiting for the connection is part of it.
func (p *proc) call(m *authnz.HandleAuthnZRequest, wait bool) lib.Res {
	ctx, cancel := context.WithTimeout(context.Background(), p.limit)
	defer cancel()
	return lib.DoBy(func(m *authnz.HandleAuthnZRequest) (*authnz.HandleAuthnZResponse, error) {
		return p.cl.HandleAuthnZ(ctx, m, grpc.FailFast(!wait))
	}, m)
}

func (p *proc) do(r lib.Req) lib.Res { return p.call(r.Msg(), true) }

// up waits until the process answers.
func (p *proc) up() bool {
	for end := time.Now().Add(40 * time.Second); time.Now().Before(end) && !p.ended(); {
		if r := p.do(lib.Req{NS: "none", Svc: "none", Method: "GET", Path: "/"}); r.Kind == lib.KOK {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

// cluster is an API server with secrets, and a process to start against it.
type cluster struct {
	*apiServer
	sec  *secretServer
	dir  string
	conf string
}

func newCluster(dir string) *cluster {
	k := &cluster{apiServer: newAPIServer(), sec: &secretServer{secrets: map[string]*corev1.Secret{}}}
	k.apiServer.secrets = k.sec
	k.dir = filepath.Join(dir, fmt.Sprint("p", atomic.AddInt64(&procN, 1)))
	if err := os.MkdirAll(k.dir, 0o700); err != nil {
		panic(lib.HarnessError{Msg: err.Error()})
	}
	c, err := k.kubeconfig(k.dir, 0)
	if err != nil {
		panic(lib.HarnessError{Msg: err.Error()})
	}
	k.conf = c
	return k
}

func procDir() (string, func()) {
	dir, err := os.MkdirTemp("", "verif-proc-")
	if err != nil {
		panic(lib.HarnessError{Msg: err.Error()})
	}
	return dir, func() { _ = os.RemoveAll(dir) }
}

// startAt starts the adapter again if another process took the port.
func (k *cluster) start(args ...string) *proc {
	for i := 0; ; i++ {
		p := startProc(k.dir, k.conf, args...)
		for j := 0; j < 20 && !p.ended(); j++ {
			time.Sleep(2 * time.Millisecond)
		}
		if i < 5 && p.ended() && p.out.has("address already in use") {
			p.stop()
			continue
		}
		return p
	}
}

// ---------------------------------------------------------------- C21: the command line

func commandLine(c *lib.Check) {
	cfgInit()
	dir, clean := procDir()
	defer clean()
	valid := map[string]map[string]bool{"--hash-key": {"32": true, "64": true}, "--block-key": {"16": true, "24": true, "32": true}}
	type line struct {
		args []string
		h, b int // 0: not to be accepted
	}
	var lines []line
	add := func(h, b int, args ...string) { lines = append(lines, line{args, h, b}) }
	add(32, 16)
	for _, h := range []int{32, 64} {
		add(h, 16, fmt.Sprint("--hash-key=", h))
		for _, b := range []int{16, 24, 32} {
			add(h, b, "--hash-key", fmt.Sprint(h), "--block-key", fmt.Sprint(b))
			add(h, b, fmt.Sprint("--block-key=", b), fmt.Sprint("--hash-key=", h), "--level", "-1", "--json")
		}
	}
	for _, b := range []int{16, 24, 32} {
		add(32, b, fmt.Sprint("--block-key=", b))
	}
	var ins []string
	for i := 0; i <= c.Pick(130, 600); i++ {
		ins = append(ins, strconv.Itoa(i))
	}
	ins = append(ins, "-16", "-32", "272", "288", "320", "65552", "65568", "4294967328", "16 ", " 32", "32.0", "0x20", "32k", "", "true", "all")
	for _, o := range []string{"--hash-key", "--block-key"} {
		for _, in := range ins {
			if !valid[o][in] {
				add(0, 0, o+"="+in)
			}
		}
		add(0, 0, o)
		add(0, 0, o+"=32", o+"=31")
		add(0, 0, o+"=31", o+"=32")
	}
	add(0, 0, "--hash-key=16", "--block-key=64")
	add(0, 0, "--hash-key=32", "--block-key=64")
	add(0, 0, "--hash-key=24", "--block-key=16")
	one := func(l line) string {
		k := newCluster(dir)
		defer k.close()
		p := k.start(l.args...)
		defer p.stop()
		for end := time.Now().Add(40 * time.Second); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
			h, b, ok := k.sec.sizes()
			if ok && l.h == 0 {
				return fmt.Sprintf("the command line %q is accepted: keys of %d and %d bytes", l.args, h, b)
			}
			if ok {
				if h != l.h || b != l.b {
					return fmt.Sprintf("the command line %q makes keys of %d and %d bytes, not %d and %d", l.args, h, b, l.h, l.b)
				}
				return ""
			}
			if p.ended() {
				if _, _, ok := k.sec.sizes(); ok {
					continue
				}
				if l.h != 0 {
					return fmt.Sprintf("the command line %q is not accepted: %s", l.args, p.out.last())
				}
				if p.cmd.ProcessState.Success() {
					return fmt.Sprintf("the command line %q is not reported as an error", l.args)
				}
				return ""
			}
		}
		return fmt.Sprintf("with the command line %q the adapter neither makes its keys nor ends: %s", l.args, p.out.last())
	}
	lib.Parallel(len(lines), 2*runtime.NumCPU(), func(i int) {
		if c.Stop() {
			return
		}
		l := lines[i]
		c.Count("command_lines", 1)
		if bad := one(l); bad != "" {
			c.Violation("command-line", bad, map[string]interface{}{"arguments": l.args}, func() bool { return one(l) != "" })
		}
	})
}

// ---------------------------------------------------------------- C26: the started process

// The objects a cluster has when the adapter starts.
var startObjs = map[string][]kobj{
	"nothing":                  nil,
	"a jwt policy":             {{v1.POLICY, "p", "/a /c*"}, {v1.JWTCONFIG, "j", "A"}},
	"an oidc policy":           {{v1.POLICY, "p", "/b! /c*!"}, {v1.OIDCCONFIG, "o", "c1"}},
	"a policy without configs": {{v1.POLICY, "p", "/a /b! /c*"}},
	"everything":               {{v1.POLICY, "p", "/a /c*!"}, {v1.POLICY, "q", "/b"}, {v1.JWTCONFIG, "j", "A"}, {v1.OIDCCONFIG, "o", "c1"}},
	"many policies":            manyObjs(30),
}

func manyObjs(n int) (l []kobj) {
	for i := 0; i < n; i++ {
		l = append(l, kobj{v1.POLICY, fmt.Sprintf("x%02d", i), fmt.Sprintf("/x%d", i)})
	}
	return append(l, kobj{v1.POLICY, "p", "/a /b! /c*"}, kobj{v1.JWTCONFIG, "j", "A"}, kobj{v1.OIDCCONFIG, "o", "c1"})
}

func liveOf(l []kobj) map[kobj]string {
	m := map[kobj]string{}
	for _, o := range l {
		v := o.variant
		o.variant = ""
		m[o] = v
	}
	return m
}

// openPaths are the requests of observe which the objects do not let through.
func protected(want string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(want) {
		if kv := strings.SplitN(f, "=", 2); kv[1] != lib.KOK {
			m[kv[0]] = true
		}
	}
	return m
}

type trouble struct {
	name string
	kind [3]bool       // whose lists are disturbed
	mode string        // held, or an error status of the first answers
	long time.Duration // how long, instead of shortly
}

// early asks while the adapter starts, and collects what was let through against the cluster's objects.
func early(p *proc, want string, until <-chan struct{}) (bad string, asked int) {
	prot := protected(want)
	start := time.Now()
	q := *p
	q.limit = 250 * time.Millisecond
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, path := range []string{"/a", "/b", "/c/d"} {
		for _, tok := range []string{"", "b"} {
			path, tok := path, tok
			if !prot[path+tok] {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				pause := 3 * time.Millisecond
				for {
					r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: path}
					if tok != "" {
						r.Auth = "Bearer " + cfgToken[tok]
					}
					res := q.call(r.Msg(), false)
					mu.Lock()
					asked++
					if res.Kind == lib.KOK && bad == "" {
						bad = fmt.Sprintf("a request to %s (token %q) is let through before the adapter knows the policies of the cluster: %v", path, tok, res)
					}
					over := bad != ""
					mu.Unlock()
					select {
					case <-until:
						return
					case <-p.done:
						return
					default:
					}
					if over {
						return
					}
					time.Sleep(pause)
					if time.Since(start) > 2*time.Second {
						pause = 25 * time.Millisecond
					}
				}
			}()
		}
	}
	wg.Wait()
	return
}

func startCase(dir string, objs []kobj, t trouble, secret string) string {
	k := newCluster(dir)
	defer k.close()
	if secret == "exists" {
		k.sec.secrets[lib.CookieSecret] = &corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "istio-system", Name: strings.SplitN(lib.CookieSecret, "/", 2)[1]},
			Data: map[string][]byte{"HASH_KEY": bytes.Repeat([]byte{7, 1}, 16), "BLOCK_KEY": bytes.Repeat([]byte{9}, 16)}}
	}
	k.sec.down = secret == "unreadable"
	for _, o := range objs {
		k.change(o)
	}
	open := make(chan struct{})
	var seen [3]int32
	k.gate = func(kind v1.CrdType, watch bool) int {
		if watch || !t.kind[kind] {
			return 0
		}
		n := atomic.AddInt32(&seen[kind], 1)
		if t.mode == "held" {
			<-open
			return 0
		}
		code, _ := strconv.Atoi(t.mode)
		if t.long == 0 && n <= 1 {
			return code
		}
		select {
		case <-open:
			return 0
		default:
		}
		if t.long == 0 {
			return 0
		}
		return code
	}
	want := expected(liveOf(objs))
	if secret == "unreadable" { // logins cannot start
		want = strings.NewReplacer("REDIRECT/c1", "ERROR", "REDIRECT/c2", "ERROR").Replace(want)
	}
	p := k.start()
	defer p.stop()
	until := make(chan struct{})
	type ans struct {
		bad string
		n   int
	}
	got := make(chan ans, 1)
	go func() { b, n := early(p, want, until); got <- ans{b, n} }()
	wait := 300 * time.Millisecond
	disturbed := t.kind[0] || t.kind[1] || t.kind[2]
	if !disturbed {
		wait = 20 * time.Millisecond
	}
	if t.long > 0 {
		wait = t.long
	}
	select {
	case <-p.done:
	case <-time.After(wait):
	}
	close(open)
	up := p.up()
	close(until)
	if a := <-got; a.bad != "" {
		return a.bad
	}
	if p.ended() {
		return "the adapter ended: " + p.out.last()
	}
	if !up {
		return "40 seconds after its start the adapter does not answer: " + p.out.last()
	}
	// from its first answers on
	if now := observeBy(p.do); now != want {
		return fmt.Sprintf("the first decisions are\n  %s\nbut for the objects of the cluster they should be\n  %s", now, want)
	}
	return ""
}

// outageCase interrupts the watches of a running adapter for some time, in which the cluster changes.
func outageCase(dir string, t trouble) string {
	k := newCluster(dir)
	defer k.close()
	live := map[kobj]string{}
	change := func(o kobj) {
		k.change(o)
		id := o
		id.variant = ""
		if o.variant == "" {
			delete(live, id)
		} else {
			live[id] = o.variant
		}
	}
	for _, o := range startObjs[t.name] {
		change(o)
	}
	var broken int32
	open := make(chan struct{})
	k.gate = func(kind v1.CrdType, watch bool) int {
		if atomic.LoadInt32(&broken) == 0 || !t.kind[kind] {
			return 0
		}
		if t.mode == "held" {
			<-open
			return 0
		}
		code, _ := strconv.Atoi(t.mode)
		return code
	}
	p := k.start()
	defer p.stop()
	if !p.up() {
		close(open)
		return "the adapter does not answer: " + p.out.last()
	}
	before := expected(live)
	atomic.StoreInt32(&broken, 1)
	for kind := range t.kind {
		if t.kind[kind] {
			k.gone(v1.CrdType(kind))
			k.interrupt(v1.CrdType(kind))
		}
	}
	time.Sleep(t.long / 2)
	during := observeBy(p.do)
	var after []kobj
	for kind, o := range map[v1.CrdType]kobj{v1.POLICY: {v1.POLICY, "p", "/b /c*"}, v1.JWTCONFIG: {v1.JWTCONFIG, "j", "B"}, v1.OIDCCONFIG: {v1.OIDCCONFIG, "o", "c2"}} {
		if t.kind[kind] {
			after = append(after, o)
		}
	}
	for _, o := range after {
		change(o)
	}
	time.Sleep(t.long / 2)
	atomic.StoreInt32(&broken, 0)
	close(open)
	if during != before {
		return fmt.Sprintf("while the API server is out (%s) nothing has changed, but the decisions are\n  %s\ninstead of\n  %s (ended: %v)", t.mode, during, before, p.ended())
	}
	want, got := expected(live), ""
	for end := time.Now().Add(60 * time.Second); got != want && time.Now().Before(end) && !p.ended(); time.Sleep(20 * time.Millisecond) {
		got = observeBy(p.do)
	}
	if got != want {
		return fmt.Sprintf("60 seconds after an outage of %v (%s, lists of (jwt, oidc, policy) %v) the decisions stay\n  %s\nbut for the objects of the cluster they should be\n  %s (ended: %v)", t.long, t.mode, t.kind, got, want, p.ended())
	}
	return ""
}

// runProc runs one history against a process: changes of the cluster, restarts and signals.
func runProc(dir string, h []kubeStep, before int) (string, bool) {
	k := newCluster(dir)
	defer k.close()
	live := map[kobj]string{}
	var p *proc
	defer func() {
		if p != nil {
			p.stop()
		}
	}()
	gen := 0
	for i := 0; i <= len(h); i++ {
		if i == before {
			p = k.start()
			if !p.up() {
				return "the adapter does not answer: " + p.out.last(), true
			}
		}
		if i == len(h) {
			break
		}
		e := h[i]
		switch e.op {
		case "restart":
			if i <= before {
				return "", false
			}
			p.stop()
			p = k.start()
			if !p.up() {
				return "the restarted adapter does not answer: " + p.out.last(), true
			}
			if got, want := observeBy(p.do), expected(live); got != want && gen == 0 {
				return fmt.Sprintf("after %v the first decisions are\n  %s\nbut for the objects of the cluster they should be\n  %s", h[:i+1], got, want), true
			}
		case "settle":
			if i < before {
				return "", false
			}
			gen++
			if !k.settleBy(p.do, gen) {
				return fmt.Sprintf("40 seconds after %v new objects are still not in force (ended: %v) %s", h[:i], p.ended(), p.out.last()), true
			}
		default:
			if !k.change(e.obj) {
				return "", false
			}
			id := e.obj
			id.variant = ""
			if e.obj.variant == "" {
				delete(live, id)
			} else {
				live[id] = e.obj.variant
			}
		}
	}
	gen++
	if !k.settleBy(p.do, gen) {
		return fmt.Sprintf("40 seconds after %v new objects are still not in force (ended: %v) %s", h, p.ended(), p.out.last()), true
	}
	want, got := expected(live), observeBy(p.do)
	for end := time.Now().Add(20 * time.Second); got != want && time.Now().Before(end); got = observeBy(p.do) {
		time.Sleep(10 * time.Millisecond)
	}
	if got != want {
		return fmt.Sprintf("after %v (the adapter started after %d of them) the decisions stay\n  %s\nbut for the objects of the cluster they should be\n  %s", h, before, got, want), true
	}
	return "", true
}

// signalCase sends a signal to a running adapter and then changes the cluster: an adapter that goes on answering
// must go on following it.
func signalCase(dir string, sig syscall.Signal, first, then []kobj, busy bool) string {
	k := newCluster(dir)
	defer k.close()
	for _, o := range first {
		k.change(o)
	}
	p := k.start()
	defer p.stop()
	if !p.up() {
		return "the adapter does not answer: " + p.out.last()
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	if busy {
		wg.Add(1)
		go func() {
			defer wg.Done()
			q := *p
			q.limit = time.Second
			for {
				select {
				case <-stop:
					return
				default:
					q.call(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: "/a"}.Msg(), false)
				}
			}
		}()
	}
	defer func() { close(stop); wg.Wait() }()
	_ = p.cmd.Process.Signal(sig)
	time.Sleep(150 * time.Millisecond)
	live := liveOf(first)
	for _, o := range then {
		k.change(o)
		id := o
		id.variant = ""
		if o.variant == "" {
			delete(live, id)
		} else {
			live[id] = o.variant
		}
	}
	prot := protected(expected(live))
	q := *p
	q.limit = time.Second
	let := ""
	for end := time.Now().Add(12 * time.Second); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		if p.ended() {
			return ""
		}
		let = ""
		answers := 0
		for _, path := range []string{"/a", "/b", "/c/d"} {
			res := q.call(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: path}.Msg(), false)
			if res.Kind != lib.KError {
				answers++
			}
			if res.Kind == lib.KOK && prot[path] {
				let = path
			}
		}
		if let == "" && answers > 0 {
			return ""
		}
	}
	if let != "" {
		return fmt.Sprintf("12 seconds after signal %v and then %v, requests to %s are still let through", sig, then, let)
	}
	return ""
}

// malformed messages over the wire are errors and end nothing.
func malformedCase(dir string) (bad string, n int) {
	k := newCluster(dir)
	defer k.close()
	objs := startObjs["everything"]
	for _, o := range objs {
		k.change(o)
	}
	p := k.start()
	defer p.stop()
	if !p.up() {
		return "the adapter does not answer: " + p.out.last(), n
	}
	want := expected(liveOf(objs))
	for _, path := range []string{"/a", "/b", "/c/d", "/open", ""} {
		for mask := 0; mask < 32; mask++ {
			m := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: path, Auth: "Bearer " + cfgToken["a"], Cookies: "x=y"}.Msg()
			if mask&16 != 0 {
				m.Instance.Request.Params = nil
			}
			if mask&8 != 0 {
				m.Instance.Request.Headers = nil
			}
			if mask&4 != 0 {
				m.Instance.Target = nil
			}
			if mask&2 != 0 {
				m.Instance.Request = nil
			}
			if mask&1 != 0 {
				m.Instance = nil
			}
			res := p.call(m, true)
			n++
			if p.ended() {
				return fmt.Sprintf("the adapter ends at a message that lacks parts (%05b, path %q): %s", mask, path, p.out.last()), n
			}
			if mask != 0 && res.Kind != lib.KError {
				return fmt.Sprintf("a message that lacks parts (%05b, path %q) is answered %v", mask, path, res), n
			}
		}
	}
	raw := []string{"", "\x00", "/", "//", "/a\x00", "/a/../b", "/%61", strings.Repeat("/a", 3000), "/oidc/callback", "/a/oidc/logout", "/b/oidc/callback", "\xff\xfe", "?", "/a?x", "*", "/*"}
	for _, path := range raw {
		for _, auth := range []string{"", "Bearer", "Bearer  ", "Bearer " + strings.Repeat("x", 100000), "Bearer a.b.c", "\x00", "bearer " + cfgToken["b"]} {
			p.do(lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: path, Auth: auth, Cookies: ";=,\x00oidc-cookie-c1=;oidc-cookie-c1=x", Code: auth, State: path})
			n++
			if p.ended() {
				return fmt.Sprintf("the adapter ends at a request to %.80q with authorization %.80q: %s", path, auth, p.out.last()), n
			}
		}
	}
	if got := observeBy(p.do); got != want {
		return fmt.Sprintf("after malformed messages the decisions are\n  %s\nnot\n  %s", got, want), n
	}
	return "", n
}

func outages(c *lib.Check) []time.Duration {
	l := []time.Duration{8 * time.Second, 35 * time.Second}
	if c.Thorough() {
		l = append(l, 75*time.Second, 150*time.Second)
	}
	return l
}

func c26() {
	c := lib.NewCheck("C26", "model_checking")
	cfgInit()
	dir, clean := procDir()
	defer clean()
	var jobs []procJob
	add := func(name string, show map[string]interface{}, f func() (string, bool)) {
		jobs = append(jobs, procJob{name, show, f})
	}
	// every set of kinds whose objects cannot be listed at first
	var names []string
	for n := range startObjs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for mask := 0; mask < 8; mask++ {
			for _, mode := range []string{"held", "500", "403", "404"} {
				for _, secret := range []string{"exists", "missing", "unreadable"} {
					if mask == 0 && mode != "held" || secret != "exists" && mode != "held" && !c.Thorough() {
						continue
					}
					t := trouble{n, [3]bool{mask&1 != 0, mask&2 != 0, mask&4 != 0}, mode, 0}
					n, secret := n, secret
					add("start", map[string]interface{}{"objects": n, "lists_disturbed": fmt.Sprint(t.kind), "how": mode, "key_secret": secret}, func() (string, bool) {
						bad := startCase(dir, startObjs[n], t, secret)
						if bad != "" {
							bad = fmt.Sprintf("started in a cluster with %s, lists of (jwt, oidc, policy) %v %s at first, key secret %s: %s", n, t.kind, mode, secret, bad)
						}
						return bad, true
					})
				}
			}
		}
	}
	P, J, O := v1.POLICY, v1.JWTCONFIG, v1.OIDCCONFIG
	ch := func(k v1.CrdType, name, variant string) kubeStep { return kubeStep{"change", kobj{k, name, variant}} }
	ev := []kubeStep{ch(P, "p", "/a /c*!"), ch(P, "p", "/b /c*"), ch(P, "p", ""), ch(J, "j", "A"), ch(J, "j", "B"), ch(J, "j", ""), ch(O, "o", "c1"), ch(O, "o", ""), {op: "settle"}, {op: "restart"}}
	var gen func(pre []kubeStep, d int)
	gen = func(pre []kubeStep, d int) {
		for _, b := range []int{0, len(pre)}[:1+min(len(pre), 1)] {
			h, b := append([]kubeStep{}, pre...), b
			var l []string
			for _, e := range h {
				l = append(l, e.String())
			}
			add("history", map[string]interface{}{"events": l, "started_after": b}, func() (string, bool) { return runProc(dir, h, b) })
		}
		if d == 0 {
			return
		}
		for _, e := range ev {
			gen(append(append([]kubeStep{}, pre...), e), d-1)
		}
	}
	gen(nil, c.Pick(2, 3))
	// long outages of the API server, at the start and later
	var long []procJob
	add = func(name string, show map[string]interface{}, f func() (string, bool)) {
		long = append(long, procJob{name, show, f})
	}
	for _, mask := range []int{1, 2, 4, 7} {
		for _, mode := range []string{"held", "500", "404"} {
			for _, d := range outages(c) {
				if d > 10*time.Second && mask != 7 && !c.Thorough() {
					continue
				}
				t := trouble{"everything", [3]bool{mask&1 != 0, mask&2 != 0, mask&4 != 0}, mode, d}
				add("long trouble", map[string]interface{}{"lists_disturbed": fmt.Sprint(t.kind), "how": mode, "for": d.String()}, func() (string, bool) {
					bad := startCase(dir, startObjs["everything"], t, "exists")
					if bad != "" {
						bad = fmt.Sprintf("started in a cluster whose lists of (jwt, oidc, policy) %v are %s for %v: %s", t.kind, t.mode, t.long, bad)
					}
					return bad, true
				})
				add("outage", map[string]interface{}{"lists_disturbed": fmt.Sprint(t.kind), "how": mode, "for": d.String()}, func() (string, bool) { return outageCase(dir, t), true })
			}
		}
	}
	add = func(name string, show map[string]interface{}, f func() (string, bool)) {
		jobs = append(jobs, procJob{name, show, f})
	}
	all := startObjs["everything"]
	for _, sig := range []syscall.Signal{syscall.SIGTERM, syscall.SIGINT} {
		for _, busy := range []bool{false, true} {
			for i, x := range []struct{ first, then []kobj }{
				{all[2:], []kobj{{v1.POLICY, "p", "/a /b! /c*"}}},
				{all, []kobj{{v1.POLICY, "q", "/b /a"}}},
				{[]kobj{{v1.POLICY, "p", "/a"}, {v1.JWTCONFIG, "j", "A"}}, []kobj{{v1.POLICY, "p", "/b"}}},
				{[]kobj{{v1.JWTCONFIG, "j", "A"}}, []kobj{{v1.POLICY, "p", "/a /b /c*"}, {v1.JWTCONFIG, "j", ""}}},
			} {
				sig, busy, x := sig, busy, x
				add("signal", map[string]interface{}{"signal": sig.String(), "during_requests": busy, "case": i}, func() (string, bool) { return signalCase(dir, sig, x.first, x.then, busy), true })
			}
		}
	}
	add("malformed", map[string]interface{}{}, func() (string, bool) {
		bad, n := malformedCase(dir)
		c.Count("evaluations", n)
		return bad, true
	})
	add("sizes", map[string]interface{}{}, func() (string, bool) { return procSizes(c, dir), true })
	procHangs(c, dir, add)
	runJobs(c, append(long, jobs...))
	c.Cap(fmt.Sprintf("histories of %d changes of the cluster", c.Pick(2, 3)))
	c.Finish()
}

// procJob is one case with a started process.
type procJob struct {
	name string
	show map[string]interface{}
	f    func() (string, bool)
}

func runJobs(c *lib.Check, jobs []procJob) {
	lib.Parallel(len(jobs), 2*runtime.NumCPU(), func(i int) {
		if c.Stop() {
			return
		}
		j := jobs[i]
		bad, on := j.f()
		if !on {
			return
		}
		c.Count("states", 1)
		c.Count("transitions", 1)
		c.Count("traces_validated_against_impl", 1)
		c.Count("process_"+j.name, 1)
		c.Outcome(j.name)
		if i%97 == 5 {
			c.Sample(j.show)
		}
		if bad != "" {
			j.show["what"] = bad
			c.Violation(j.name, bad, j.show, func() bool { b, _ := j.f(); return b != "" })
		}
	})
}

func init() { checks["C26"] = c26 }
