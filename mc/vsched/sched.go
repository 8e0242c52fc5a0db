//go:build go1.21

// Package vsched runs threads one at a time and lets an explorer choose, at every scheduling point, which one
// continues. Its own synchronisation is invisible to the race detector, so that races between the threads are
// still found in every schedule.
package vsched

import (
	"fmt"
	"runtime/debug"
	"sync"
	"time"
	"unsafe"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vclock"
)

// Bounds of one execution.
const (
	MaxThreads = 12
	MaxPoints  = 6000
)

// PointRec is one choice.
type PointRec struct {
	N      int8 // options
	Chosen int8
	Tid    int8 // the thread at the point
	Free   bool // the thread at the point cannot or need not continue: no alternative costs a preemption
	Kind   string
}

const (
	tNone = iota
	tReady
	tBlocked
	tDone
	tExternal // blocked natively, outside the scheduler's control
	tStuck    // waiting for an answer that does not come as long as another thread can run
)

var (
	mu       sync.Mutex
	conds    [MaxThreads]*sync.Cond
	doneCond = sync.NewCond(&mu)
	active   bool
	aborted  bool
	epoch    int32
	cur      int
	n        int
	st       [MaxThreads]uint8
	on       [MaxThreads]unsafe.Pointer
	last     [MaxThreads]string
	prefix   [MaxPoints]int8
	plen     int
	rec      [MaxPoints]PointRec
	rlen     int
	steps    uint64
	over     bool
	dead     bool
	diverged bool
	external int
	streak   int
	panics   [MaxThreads]string
	stalled  [MaxThreads]string
	join     *sync.WaitGroup
	monitor  sync.Once
)

func init() {
	for i := range conds {
		conds[i] = sync.NewCond(&mu)
	}
}

// Exec is what one execution did.
type Exec struct {
	Points   []PointRec
	Steps    int
	Races    int
	Deadlock string
	Overflow bool
	Diverged bool
	External int
	Panics   []string
}

// Choices returns the schedule.
func (x *Exec) Choices() []int8 {
	l := make([]int8, len(x.Points))
	for i, p := range x.Points {
		l[i] = p.Chosen
	}
	return l
}

// Steps returns the number of scheduling points passed in the current execution (a logical clock).
//
//go:norace
func Steps() int { return int(steps) }

func tid() int { return vclock.Tid(epochNow()) }

//go:norace
func epochNow() int32 { return epoch }

// On tells whether the caller is a scheduled thread.
func On() bool { return tid() >= 0 }

// Run executes the threads under the schedule that starts with the given choices and continues with choice 0.
// offset is the threads' clock.
func Run(bodies []func(), pre []int8, offset time.Duration) *Exec {
	monitor.Do(func() { go watch() })
	r0 := races()
	wg := &sync.WaitGroup{}
	start(bodies, pre, wg)
	for i, b := range bodies {
		wg.Add(1)
		spawn(i, b, wg, offset)
	}
	kick()
	if waitDone() {
		wg.Wait() // orders the threads before what follows
	}
	x := collect()
	x.Races = races() - r0
	return x
}

//go:norace
func start(bodies []func(), pre []int8, wg *sync.WaitGroup) {
	raceOff()
	mu.Lock()
	epoch++
	active, aborted, over, dead, diverged, external = true, false, false, false, false, 0
	n, cur, rlen, steps, streak = len(bodies), -1, 0, 0, 0
	for i := 0; i < MaxThreads; i++ {
		st[i], on[i], panics[i], last[i], stalled[i] = tNone, nil, "", "", ""
		if i < n {
			st[i] = tReady
		}
	}
	plen = len(pre)
	for i := 0; i < plen && i < MaxPoints; i++ {
		prefix[i] = pre[i]
	}
	join = wg
	mu.Unlock()
	raceOn()
}

//go:norace
func kick() {
	raceOff()
	mu.Lock()
	choose(-1, "start", true)
	mu.Unlock()
	raceOn()
}

func spawn(i int, body func(), wg *sync.WaitGroup, offset time.Duration) {
	e := epochNow()
	go func() {
		vclock.SetThread(offset, i, e)
		begin(i)
		defer wg.Done()
		defer end(i)
		defer func() {
			if p := recover(); p != nil {
				setPanic(i, fmt.Sprintf("%v\n%s", p, debug.Stack()))
			}
		}()
		body()
	}()
}

//go:norace
func setPanic(i int, s string) { panics[i] = s }

//go:norace
func begin(i int) {
	raceOff()
	mu.Lock()
	turn(i)
	mu.Unlock()
	raceOn()
}

//go:norace
func end(i int) {
	raceOff()
	mu.Lock()
	if !aborted {
		ext := st[i] == tExternal
		st[i] = tDone
		steps++
		if !ext || cur == -1 {
			choose(i, "end", true)
		}
	}
	mu.Unlock()
	raceOn()
}

// turn waits until thread i may run.
//
//go:norace
func turn(i int) {
	for cur != i || aborted {
		conds[i].Wait()
	}
}

// choose picks the next thread. yield: continuing the current one is not the default.
//
//go:norace
func choose(t int, kind string, yield bool) {
	var opts [MaxThreads]int8
	k := 0
	free := yield || t < 0 || st[t] != tReady
	if t >= 0 && !free {
		opts[k] = int8(t)
		k++
	}
	for i := 0; i < n; i++ {
		if i != t && st[i] == tReady {
			opts[k] = int8(i)
			k++
		}
	}
	if t >= 0 && st[t] == tReady && free {
		opts[k] = int8(t)
		k++
	}
	if k == 0 {
		if i := unstick(); i >= 0 {
			opts[0], k = int8(i), 1
		}
	}
	if k == 0 {
		all, ext := true, false
		for i := 0; i < n; i++ {
			if st[i] != tDone {
				all = false
			}
			if st[i] == tExternal {
				ext = true
			}
		}
		cur = -1
		switch {
		case all:
			active = false
			doneCond.Signal()
		case ext: // it may come back
		default:
			abort()
			dead = true
		}
		return
	}
	c := int8(0)
	if k > 1 {
		if rlen >= MaxPoints {
			over = true
			abort()
			return
		}
		if rlen < plen {
			c = prefix[rlen]
			if int(c) >= k {
				diverged = true
				c = 0
			}
		}
		rec[rlen] = PointRec{N: int8(k), Chosen: c, Tid: int8(t), Free: free, Kind: kind}
		rlen++
	}
	cur = int(opts[c])
	if cur != t {
		streak = 0
		conds[cur].Signal()
	}
}

// unstick ends the wait of a stuck thread and notes who was still waiting then.
//
//go:norace
func unstick() int {
	first := -1
	for i := 0; i < n; i++ {
		if st[i] == tStuck && first < 0 {
			first = i
		}
	}
	if first < 0 {
		return -1
	}
	for i := 0; i < n; i++ {
		if (st[i] == tBlocked || st[i] == tExternal) && stalled[i] == "" {
			stalled[i] = last[i]
		}
	}
	st[first] = tReady
	return first
}

// Stalled tells where thread i waited when no thread could go on but those whose answers do not come ("" nowhere).
//
//go:norace
func Stalled(i int) string { return stalled[i] }

// Stuck parks the calling thread until no other thread can go on.
//
//go:norace
func Stuck(kind string) {
	t := tid()
	if t < 0 {
		return
	}
	raceOff()
	mu.Lock()
	steps++
	if !aborted {
		ext := st[t] == tExternal
		st[t], last[t] = tStuck, kind
		if !ext || cur == -1 {
			choose(t, kind, true)
		}
	}
	turn(t)
	mu.Unlock()
	raceOn()
}

// abort gives the execution up; its threads stay parked.
//
//go:norace
func abort() {
	aborted = true
	active = false
	cur = -1
	doneCond.Signal()
}

//go:norace
func waitDone() bool {
	raceOff()
	mu.Lock()
	for active {
		doneCond.Wait()
	}
	ok := !aborted
	mu.Unlock()
	raceOn()
	return ok
}

//go:norace
func collect() *Exec {
	raceOff()
	mu.Lock()
	x := &Exec{Steps: int(steps), Overflow: over, Diverged: diverged, External: external}
	for i := 0; i < rlen; i++ {
		x.Points = append(x.Points, rec[i])
	}
	if dead {
		for i := 0; i < n; i++ {
			if st[i] == tBlocked || st[i] == tExternal {
				x.Deadlock += fmt.Sprintf("thread %d waits at %s; ", i, last[i])
			}
		}
	}
	for i := 0; i < n; i++ {
		if panics[i] != "" {
			x.Panics = append(x.Panics, panics[i])
		}
	}
	mu.Unlock()
	raceOn()
	return x
}

// Point is a scheduling point of the calling thread.
func Point(kind string) { point(kind, false) }

// Yield is a scheduling point at which other threads go first.
func Yield(kind string) { point(kind, true) }

//go:norace
func point(kind string, yield bool) {
	t := tid()
	if t < 0 {
		return
	}
	raceOff()
	mu.Lock()
	steps++
	last[t] = kind
	if streak++; streak > 500 && streak%50 == 0 {
		yield = true // spinning
	}
	if st[t] == tExternal {
		st[t] = tReady
		if cur == -1 && !aborted {
			choose(t, kind, yield)
		}
	} else if !aborted {
		choose(t, kind, yield)
	}
	turn(t)
	mu.Unlock()
	raceOn()
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if On() {
		Yield("Gosched")
	}
}

// Block parks the calling thread until Wake is called for r.
//
//go:norace
func Block(r unsafe.Pointer, kind string) {
	t := tid()
	if t < 0 {
		time.Sleep(time.Millisecond)
		return
	}
	raceOff()
	mu.Lock()
	steps++
	if !aborted {
		ext := st[t] == tExternal
		st[t], on[t], last[t] = tBlocked, r, kind
		if !ext || cur == -1 {
			choose(t, kind, true)
		}
	}
	turn(t)
	mu.Unlock()
	raceOn()
}

// Wake makes the threads blocked on r runnable.
//
//go:norace
func Wake(r unsafe.Pointer) {
	t := tid()
	if t < 0 {
		return
	}
	raceOff()
	mu.Lock()
	for i := 0; i < n; i++ {
		if st[i] == tBlocked && on[i] == r {
			st[i], on[i] = tReady, nil
		}
	}
	if cur == -1 && !aborted && st[t] == tExternal {
		choose(-1, "wake", true)
	}
	mu.Unlock()
	raceOn()
}

// Go starts a goroutine, as a thread if the caller is one.
func Go(f func()) {
	if tid() < 0 {
		go f()
		return
	}
	i, wg := add()
	if i < 0 {
		go f()
		return
	}
	wg.Add(1)
	spawn(i, f, wg, vclock.Offset())
	Point("go")
}

//go:norace
func add() (int, *sync.WaitGroup) {
	raceOff()
	mu.Lock()
	i := -1
	if n < MaxThreads {
		i = n
		st[n] = tReady
		n++
	}
	wg := join
	mu.Unlock()
	raceOn()
	return i, wg
}

// watch notices threads that are blocked outside the scheduler and lets the others go on.
//
//go:norace
func watch() {
	raceOff()
	var seen uint64
	var ep int32
	same := 0
	for {
		time.Sleep(20 * time.Millisecond)
		mu.Lock()
		if !active || steps != seen || epoch != ep {
			seen, ep, same = steps, epoch, 0
			mu.Unlock()
			continue
		}
		same++
		limit := 250 // 5 s
		if cur >= 0 && last[cur] == "chan" {
			limit = 5
		}
		if cur >= 0 && same >= limit {
			st[cur] = tExternal
			external++
			cur = -1
			choose(-1, "external", true)
			same = 0
		} else if cur < 0 && same >= 500 { // nothing has come back for 10 s
			dead = true
			abort()
		}
		mu.Unlock()
	}
}
