//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"k8s.io/apimachinery/pkg/util/runtime"
	"k8s.io/client-go/tools/cache"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/controller"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// C18, first part: the real controllers (one per kind), with a work queue and an informer cache that the explorer
// schedules. Second part (kubeapi.go): the whole path from a Kubernetes API server.

// ---------------------------------------------------------------- work queue

// ctlQueue has the semantics of a rate limited work queue; Get hands an item out only when the explorer lets it.
type ctlQueue struct {
	mu         sync.Mutex
	cond       *sync.Cond
	queue      []interface{}
	dirty      map[interface{}]bool
	processing map[interface{}]bool
	delayed    []interface{}
	failures   map[interface{}]int
	tokens     int
	waiters    int
	maxWait    int
	shut       bool
}

func newCtlQueue() *ctlQueue {
	q := &ctlQueue{dirty: map[interface{}]bool{}, processing: map[interface{}]bool{}, failures: map[interface{}]int{}}
	q.cond = sync.NewCond(&q.mu)
	return q
}

func (q *ctlQueue) Add(it interface{}) { q.mu.Lock(); q.add(it); q.mu.Unlock() }

func (q *ctlQueue) add(it interface{}) {
	if q.shut || q.dirty[it] {
		return
	}
	q.dirty[it] = true
	if !q.processing[it] {
		q.queue = append(q.queue, it)
	}
	q.cond.Broadcast()
}

func (q *ctlQueue) Len() int { q.mu.Lock(); defer q.mu.Unlock(); return len(q.queue) }

func (q *ctlQueue) Get() (interface{}, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.waiters++
	if q.waiters > q.maxWait {
		q.maxWait = q.waiters
	}
	q.cond.Broadcast()
	for !q.shut && (q.tokens == 0 || len(q.queue) == 0) {
		q.cond.Wait()
	}
	q.waiters--
	if q.shut {
		return nil, true
	}
	q.tokens--
	it := q.queue[0]
	q.queue = append([]interface{}{}, q.queue[1:]...)
	q.processing[it] = true
	delete(q.dirty, it)
	return it, false
}

func (q *ctlQueue) Done(it interface{}) {
	q.mu.Lock()
	delete(q.processing, it)
	if q.dirty[it] {
		q.queue = append(q.queue, it)
	}
	q.cond.Broadcast()
	q.mu.Unlock()
}

func (q *ctlQueue) ShutDown() { q.mu.Lock(); q.shut = true; q.cond.Broadcast(); q.mu.Unlock() }

func (q *ctlQueue) ShuttingDown() bool { q.mu.Lock(); defer q.mu.Unlock(); return q.shut }

func (q *ctlQueue) AddAfter(it interface{}, d time.Duration) {
	q.mu.Lock()
	q.delayed = append(q.delayed, it)
	q.mu.Unlock()
}

func (q *ctlQueue) AddRateLimited(it interface{}) {
	q.mu.Lock()
	q.failures[it]++
	q.delayed = append(q.delayed, it)
	q.mu.Unlock()
}

func (q *ctlQueue) Forget(it interface{}) { q.mu.Lock(); delete(q.failures, it); q.mu.Unlock() }

func (q *ctlQueue) NumRequeues(it interface{}) int {
	q.mu.Lock()
	defer q.mu.Unlock()
	return q.failures[it]
}

// grant lets the controller take one item and waits until it asks for the next.
func (q *ctlQueue) grant() bool {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.wait(func() bool { return q.waiters >= q.maxWait && q.maxWait > 0 }, 30*time.Second)
	if len(q.queue) == 0 || q.shut {
		return false
	}
	q.tokens++
	q.cond.Broadcast()
	q.wait(func() bool { return q.tokens == 0 && len(q.processing) == 0 && q.waiters >= q.maxWait }, 30*time.Second)
	return true
}

func (q *ctlQueue) wait(ok func() bool, d time.Duration) {
	end := time.AfterFunc(d, func() { q.mu.Lock(); q.cond.Broadcast(); q.mu.Unlock() })
	start := time.Now()
	for !ok() && time.Since(start) < d && !q.shut {
		q.cond.Wait()
	}
	end.Stop()
}

func (q *ctlQueue) elapse() bool {
	q.mu.Lock()
	defer q.mu.Unlock()
	any := len(q.delayed) > 0
	for _, it := range q.delayed {
		q.add(it)
	}
	q.delayed = nil
	return any
}

func (q *ctlQueue) front() interface{} {
	q.mu.Lock()
	defer q.mu.Unlock()
	if len(q.queue) == 0 {
		return nil
	}
	return q.queue[0]
}

func (q *ctlQueue) String() string {
	q.mu.Lock()
	defer q.mu.Unlock()
	return fmt.Sprint(q.queue, q.dirty, q.processing, q.delayed, q.failures)
}

// ---------------------------------------------------------------- informer

type ctlInformer struct {
	cache.SharedIndexInformer
	idx *ctlIndexer
}

func (i *ctlInformer) Run(stop <-chan struct{})        { <-stop }
func (i *ctlInformer) HasSynced() bool                 { return true }
func (i *ctlInformer) GetIndexer() cache.Indexer       { return i.idx }
func (i *ctlInformer) GetStore() cache.Store           { return i.idx }
func (i *ctlInformer) LastSyncResourceVersion() string { return "1" }

type ctlIndexer struct {
	cache.Indexer
	mu    sync.Mutex
	fail  bool
	after func() // runs once a lookup has read the cache
}

var errLookup = errors.New("injected: lookup failed")

func (x *ctlIndexer) take() (bool, func()) {
	x.mu.Lock()
	defer x.mu.Unlock()
	f, a := x.fail, x.after
	x.after = nil
	return f, a
}

func (x *ctlIndexer) GetByKey(key string) (interface{}, bool, error) {
	fail, after := x.take()
	if fail {
		return nil, false, errLookup
	}
	o, ok, err := x.Indexer.GetByKey(key)
	if after != nil {
		after()
	}
	return o, ok, err
}

func (x *ctlIndexer) Get(obj interface{}) (interface{}, bool, error) {
	k, err := cache.MetaNamespaceKeyFunc(obj)
	if err != nil {
		return nil, false, err
	}
	return x.GetByKey(k)
}

// ---------------------------------------------------------------- the cluster

type kobj struct {
	kind    v1.CrdType
	name    string
	variant string
}

func (k kobj) String() string {
	if k.variant == "" {
		return "delete " + k.kind.String() + " " + k.name
	}
	return "set " + k.kind.String() + " " + k.name + " to " + k.variant
}

// build makes the object of a variant.
func (k kobj) build() interface{} {
	jp, op := lib.Pol("jwt", "j"), lib.Pol("oidc", "o")
	url := map[string]*lib.IdP{"A": cfgA, "B": cfgB}
	switch k.kind {
	case v1.JWTCONFIG:
		return lib.JwtConfig("ns", k.name, url[k.variant].URL("jwks"))
	case v1.OIDCCONFIG:
		return lib.OidcConfig("ns", k.name, k.variant, cfgA.URL("disc"))
	}
	var paths []v1.PathConfig
	for _, f := range strings.Fields(k.variant) {
		p := jp
		if strings.HasSuffix(f, "!") {
			p, f = op, strings.TrimSuffix(f, "!")
		}
		if strings.HasSuffix(f, "*") {
			paths = append(paths, lib.Path("", strings.TrimSuffix(f, "*"), "ALL", p))
		} else {
			paths = append(paths, lib.Path(f, "", "ALL", p))
		}
	}
	return lib.Policy("ns", k.name, "s", paths...)
}

// observe is the decision vector of a world.
func observe(w *lib.World) string { return observeBy(w.Do) }

func observeBy(do func(lib.Req) lib.Res) string {
	var b strings.Builder
	for _, path := range []string{"/a", "/b", "/c/d"} {
		for _, tok := range []string{"", "a", "b"} {
			r := lib.Req{NS: "ns", Svc: "s", Method: "GET", Path: path}
			if tok != "" {
				r.Auth = "Bearer " + cfgToken[tok]
			}
			res := do(r)
			fmt.Fprintf(&b, "%s%s=%s", path, tok, res.Kind)
			if res.Kind == lib.KRedirect {
				if a, err := lib.ParseAuth(res.Location); err == nil {
					b.WriteString("/" + a.ClientID)
				}
			}
			b.WriteString(" ")
		}
	}
	return b.String()
}

var (
	wantMu    sync.Mutex
	wantCache = map[string]string{}
)

// expected are the decisions of a world that only ever saw the live objects.
func expected(live map[kobj]string) string {
	var l []kobj
	for k, v := range live {
		k.variant = v
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	key := fmt.Sprint(l)
	wantMu.Lock()
	e, ok := wantCache[key]
	wantMu.Unlock()
	if ok {
		return e
	}
	w := lib.NewWorld(polKube, polWeb)
	for _, k := range l {
		w.Set(k.build())
	}
	e = observe(w)
	wantMu.Lock()
	wantCache[key] = e
	wantMu.Unlock()
	return e
}

// ---------------------------------------------------------------- histories

type ctlEvent struct {
	op  string // change, process, fail, mid, elapse
	obj kobj
	k   v1.CrdType
}

func (e ctlEvent) String() string {
	switch e.op {
	case "change":
		return e.obj.String()
	case "process":
		return "the " + e.k.String() + " controller processes an item"
	case "fail":
		return "the " + e.k.String() + " controller processes an item, the lookup fails"
	case "mid":
		return "the " + e.k.String() + " controller processes an item, and after its lookup: " + e.obj.String()
	}
	return "the back-off of " + e.k.String() + " items ends"
}

type ctlInst struct {
	evs    []ctlEvent
	w      *lib.World
	q      [3]*ctlQueue
	inf    [3]*ctlInformer
	live   map[kobj]string
	gaveUp bool           // a lookup failed six times in a row
	fail   map[string]int // failed lookups of a key in a row
	stop   chan struct{}
	mu     sync.Mutex // change may run on a worker of the adapter
}

func newCtlInst(evs []ctlEvent) *ctlInst {
	x := &ctlInst{evs: evs, w: lib.NewWorld(polKube, polWeb), live: map[kobj]string{}, fail: map[string]int{}, stop: make(chan struct{})}
	for k := range x.q {
		x.q[k] = newCtlQueue()
		x.inf[k] = &ctlInformer{idx: &ctlIndexer{Indexer: cache.NewIndexer(cache.MetaNamespaceKeyFunc, cache.Indexers{})}}
		c := &controller.Controller{CrdType: v1.CrdType(k), Clientset: polKube, Queue: x.q[k], Informer: x.inf[k], Handler: x.w.Handler}
		go c.Run(x.stop)
	}
	return x
}

func (x *ctlInst) close() {
	close(x.stop)
	for _, q := range x.q {
		q.ShutDown()
	}
}

// change applies an event of the cluster: informer cache first, then the queue, as client-go does.
func (x *ctlInst) change(o kobj) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	id := kobj{kind: o.kind, name: o.name}
	idx := x.inf[o.kind].idx.Indexer
	key := "ns/" + o.name
	if o.variant == "" {
		old, ok, _ := idx.GetByKey(key)
		if !ok {
			return false
		}
		_ = idx.Delete(old)
		delete(x.live, id)
	} else {
		n := o.build()
		if _, ok, _ := idx.GetByKey(key); ok {
			_ = idx.Update(n)
		} else {
			_ = idx.Add(n)
		}
		x.live[id] = o.variant
	}
	x.q[o.kind].Add(key)
	return true
}

func (x *ctlInst) step(ev int) (string, bool) {
	e := x.evs[ev]
	if x.gaveUp {
		return "", false // six failures in a row: what the controller does later with that object is not prescribed
	}
	switch e.op {
	case "change":
		return "", x.change(e.obj)
	case "elapse":
		return "", x.q[e.k].elapse()
	case "process":
		delete(x.fail, fmt.Sprint(e.k, x.q[e.k].front()))
		return "", x.q[e.k].grant()
	case "mid":
		front := x.q[e.k].front()
		if front == nil {
			return "", false
		}
		idx := x.inf[e.k].idx
		applied := false
		idx.mu.Lock()
		idx.after = func() { applied = x.change(e.obj) }
		idx.mu.Unlock()
		delete(x.fail, fmt.Sprint(e.k, front))
		if !x.q[e.k].grant() {
			return "", false
		}
		idx.mu.Lock()
		idx.after = nil
		idx.mu.Unlock()
		return "", applied
	case "fail":
		front := x.q[e.k].front()
		if front == nil || x.fail[fmt.Sprint(e.k, front)] >= 6 {
			return "", false
		}
		x.fail[fmt.Sprint(e.k, front)]++
		x.gaveUp = x.fail[fmt.Sprint(e.k, front)] == 6
		before := observe(x.w)
		idx := x.inf[e.k].idx
		idx.mu.Lock()
		idx.fail = true
		idx.mu.Unlock()
		on := x.q[e.k].grant()
		idx.mu.Lock()
		idx.fail = false
		idx.mu.Unlock()
		if after := observe(x.w); after != before {
			return fmt.Sprintf("a failed lookup of %v changed the decisions from %s to %s", front, before, after), true
		}
		return "", on
	}
	return "", false
}

func (x *ctlInst) key() string {
	var l []string
	for k, v := range x.live {
		l = append(l, k.kind.String()+k.name+"="+v)
	}
	sort.Strings(l)
	return lib.Dump(x.w.Store) + strings.Join(l, ";") + x.q[0].String() + x.q[1].String() + x.q[2].String() + fmt.Sprint(x.fail)
}

func (x *ctlInst) probe() string {
	if x.gaveUp {
		return ""
	}
	for n := 0; n < 200; n++ {
		more := false
		for _, q := range x.q {
			for q.grant() {
				more = true
				if n++; n > 200 {
					return "the controllers never finish: " + x.q[0].String() + x.q[1].String() + x.q[2].String()
				}
			}
		}
		for _, q := range x.q {
			more = q.elapse() || more
		}
		if !more {
			break
		}
	}
	want := expected(x.live)
	got := observe(x.w)
	for end := time.Now().Add(2 * time.Second); got != want && time.Now().Before(end); got = observe(x.w) {
		time.Sleep(20 * time.Millisecond) // other workers may still be at it
	}
	if got != want {
		return fmt.Sprintf("once every item is processed the decisions are\n  %s\nbut for the objects of the cluster (%v) they should be\n  %s", got, x.live, want)
	}
	return ""
}

func ctlCheck() {
	cfgInit()
	runtime.ErrorHandlers = nil // lookups fail on purpose
	c := lib.NewCheck("C18", "model_checking")
	P, J, O := v1.POLICY, v1.JWTCONFIG, v1.OIDCCONFIG
	ch := func(k v1.CrdType, name, variant string) ctlEvent {
		return ctlEvent{op: "change", obj: kobj{k, name, variant}}
	}
	mid := func(k v1.CrdType, name, variant string) ctlEvent {
		return ctlEvent{op: "mid", k: k, obj: kobj{k, name, variant}}
	}
	op := func(o string, k v1.CrdType) ctlEvent { return ctlEvent{op: o, k: k} }
	run := func(name string, depth int, evs []ctlEvent) {
		if c.Stop() {
			return
		}
		m := &model{name: name, n: len(evs), depth: depth, par: 192,
			start: func() inst { return newCtlInst(evs) }, show: func(e int) string { return evs[e].String() }}
		m.bfs(c)
	}
	run("one-policy", c.Pick(8, 14), []ctlEvent{ch(P, "p", "/a"), ch(P, "p", "/b"), ch(P, "p", "/a /b"), ch(P, "p", ""),
		op("process", P), op("fail", P), op("elapse", P), mid(P, "p", "/b"), mid(P, "p", ""), mid(P, "p", "/a /b")})
	run("two-policies", c.Pick(8, 14), []ctlEvent{ch(P, "p", "/a"), ch(P, "p", "/c*"), ch(P, "p", ""), ch(P, "q", "/b"), ch(P, "q", "/c/d"), ch(P, "q", ""),
		op("process", P), op("fail", P), op("elapse", P), mid(P, "q", "")})
	run("jwt-config", c.Pick(8, 14), []ctlEvent{ch(P, "p", "/a"), ch(P, "p", ""), ch(J, "j", "A"), ch(J, "j", "B"), ch(J, "j", ""),
		op("process", P), op("process", J), op("fail", J), op("elapse", J), mid(J, "j", "B"), mid(J, "j", "")})
	run("oidc-config", c.Pick(8, 14), []ctlEvent{ch(P, "p", "/a!"), ch(P, "p", ""), ch(O, "o", "c1"), ch(O, "o", "c2"), ch(O, "o", ""),
		op("process", P), op("process", O), op("fail", O), op("elapse", O), mid(O, "o", "c2"), mid(O, "o", "")})
	run("all-kinds", c.Pick(6, 12), []ctlEvent{ch(P, "p", "/a"), ch(P, "p", "/a!"), ch(P, "p", ""), ch(J, "j", "A"), ch(J, "j", ""), ch(O, "o", "c1"), ch(O, "o", ""),
		op("process", P), op("process", J), op("process", O), op("fail", P), op("fail", J), op("fail", O), op("elapse", P), op("elapse", J), op("elapse", O)})
	// up to five failed lookups in a row
	run("retries", c.Pick(20, 30), []ctlEvent{ch(P, "p", "/a"), ch(P, "p", ""), op("process", P), op("fail", P), op("elapse", P)})
	if !c.Stop() {
		kubeHistories(c)
	}
	c.Finish()
}

func init() { checks["C18"] = ctlCheck }
