//go:build go1.21

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

func init() {
	for _, p := range []string{"C05", "C13", "C24"} {
		p := p
		checks[p] = func() {
			c := lib.NewCheck(p, "model_checking")
			c.Assumptions = append(c.Assumptions, "one thread runs at a time; switches happen at lock, channel, atomic, upstream and Kubernetes operations; accesses between them are covered by the race detector in every schedule")
			if p == "C13" {
				webHistories(c)
				refreshHistories(c)
				manySessions(c)
				pendingLogins(c)
			}
			if p == "C24" {
				manyHanging(c)
				hangingProcess(c)
			}
			concurrent(c)
			c.Finish()
		}
	}
}

type concTask struct {
	Scen     string
	Prefixes [][]int
	Bound    int
	Millis   int
}

type concViol struct {
	Prefix   []int
	What     string
	Schedule []string
}

type concStats struct{ Schedules, Steps, Nodes, Diverged, Capped, MaxPoints int }

type concReply struct {
	Stats    concStats
	Rest     [][]int
	Viols    []concViol
	Outcomes map[string]int
	Capped   bool
	External int
}

type concScen struct {
	Name        string
	Quick, Deep int
}

// concWorker is one exploring process.
type concWorker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tailBuf
}

// tailBuf keeps the beginning of what is written to it.
type tailBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	if t.b.Len() < 1<<17 {
		t.b.Write(p)
	}
	t.mu.Unlock()
	return len(p), nil
}

func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.b.String() }

func startWorker(prop string, env ...string) (*concWorker, error) {
	w := &concWorker{cmd: exec.Command(os.Getenv("VERIF_CONC_BIN"), "work", prop), stderr: &tailBuf{}}
	w.cmd.Env = append(append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3", "GOTRACEBACK=all"), env...)
	w.cmd.Stderr = w.stderr
	var err error
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(out, 1<<20)
	return w, w.cmd.Start()
}

func (w *concWorker) stop() {
	_ = w.in.Close()
	_ = w.cmd.Process.Kill()
	_ = w.cmd.Wait()
}

// do runs a task; an error means that the process died or does not answer.
func (w *concWorker) do(t concTask) (r concReply, err error) {
	b, _ := json.Marshal(t)
	if _, err = w.in.Write(append(b, '\n')); err != nil {
		return
	}
	type line struct {
		b   []byte
		err error
	}
	ch := make(chan line, 1)
	go func() {
		b, err := w.out.ReadBytes('\n')
		ch <- line{b, err}
	}()
	select {
	case l := <-ch:
		if l.err != nil {
			return r, fmt.Errorf("the process ended: %v", l.err)
		}
		return r, json.Unmarshal(l.b, &r)
	case <-time.After(time.Duration(t.Millis)*time.Millisecond + 120*time.Second):
		return r, fmt.Errorf("no answer for 120 s")
	}
}

func raceReport(s string) []string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return nil
	}
	l := strings.Split(s[i:], "\n")
	if len(l) > 70 {
		l = l[:70]
	}
	return l
}

// raceSites names the innermost functions of the two accesses.
func raceSites(l []string) string {
	var s []string
	for i, x := range l {
		if strings.Contains(x, " by ") && strings.HasSuffix(x, ":") && i+1 < len(l) && len(s) < 2 {
			for _, y := range l[i+1:] {
				y = strings.TrimSpace(y)
				if strings.Contains(y, "app-identity-and-access-adapter/adapter") && strings.Contains(y, "(") {
					s = append(s, strings.TrimPrefix(y, "github.com/ibm-cloud-security/app-identity-and-access-adapter/"))
					break
				}
				if y == "" {
					break
				}
			}
		}
	}
	return strings.Join(s, " and ")
}

// concurrent runs the schedule exploration of the property (mc/conc) in worker processes.
func concurrent(c *lib.Check) {
	bin := os.Getenv("VERIF_CONC_BIN")
	fail := func(a ...interface{}) {
		fmt.Println(a...)
		os.Exit(2)
	}
	if bin == "" {
		fail("VERIF_CONC_BIN is not set")
	}
	if c.Violations() > 0 {
		return
	}
	b, err := exec.Command(bin, "list", c.Prop).Output()
	var scens []concScen
	if err == nil {
		err = json.Unmarshal(b, &scens)
	}
	if err != nil || len(scens) == 0 {
		fail("conc list:", err, string(b))
	}
	bound := func(s concScen) int { return c.Pick(s.Quick, s.Deep) }
	if c.WantSample() {
		c.Sample(map[string]interface{}{"concurrent_scenarios": len(scens), "first": scens[0]})
	}
	bounds := map[string]int{}
	for _, s := range scens {
		if b := bound(s); b >= 0 {
			bounds[fmt.Sprintf("%d preemptions", b)]++
		}
	}
	c.Cov["schedule_bounds"] = map[string]interface{}{"scenarios_per_preemption_bound": bounds, "threads": "2-4", "switches_at_blocking_or_end_are_free": true}
	phases := []int{1, 99}
	if c.Thorough() {
		phases = []int{1, 2, 99}
	}
	for _, ph := range phases {
		var q []concTask
		for _, s := range scens {
			b := bound(s)
			if b < 0 || (ph == 99 && b <= phases[len(phases)-2]) {
				continue // not in this tier, or done in the phase before
			}
			if b > ph {
				b = ph
			}
			q = append(q, concTask{Scen: s.Name, Prefixes: [][]int{{}}, Bound: b})
		}
		if !drain(c, q, fmt.Sprintf("schedules with up to %d preemptions", ph)) {
			return
		}
	}
}

func drain(c *lib.Check, q []concTask, what string) bool {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	busy, stop := 0, false
	total := len(q)
	n := runtime.NumCPU()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *concWorker
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for {
				mu.Lock()
				for len(q) == 0 && busy > 0 && !stop {
					cond.Wait()
				}
				if stop || len(q) == 0 {
					mu.Unlock()
					return
				}
				t := q[len(q)-1]
				q = q[:len(q)-1]
				busy++
				idle := len(q) < n
				mu.Unlock()
				t.Millis = 4000
				if idle {
					t.Millis = 400
				}
				var err error
				if w == nil {
					if w, err = startWorker(c.Prop); err != nil {
						fmt.Println("cannot start the explorer:", err)
						os.Exit(2)
					}
				}
				r, err := w.do(t)
				if err != nil {
					msg := w.stderr.String()
					w.stop()
					w = nil
					crashed(c, t, err, msg)
				} else {
					record(c, t, r)
					if len(r.Viols) > 0 {
						w.stop()
						w = nil
						for _, v := range r.Viols {
							confirm(c, t, v)
						}
					}
				}
				mu.Lock()
				busy--
				for rest := r.Rest; len(rest) > 0; { // a few pieces, so that others can help
					k := (len(rest) + 3) / 4
					if k > len(rest) {
						k = len(rest)
					}
					q = append(q, concTask{Scen: t.Scen, Prefixes: rest[:k], Bound: t.Bound})
					rest = rest[k:]
				}
				if c.Stop() {
					stop = true
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if len(q) > 0 {
		c.Cap(fmt.Sprintf("%s: time budget, %d of %d tasks unfinished", what, len(q), total))
	}
	return !stop
}

func record(c *lib.Check, t concTask, r concReply) {
	c.Count("schedules", r.Stats.Schedules)
	c.Count("transitions", r.Stats.Steps)
	c.Count("states", r.Stats.Nodes)
	c.Count("traces_validated_against_impl", r.Stats.Schedules)
	if len(t.Prefixes) == 1 && len(t.Prefixes[0]) == 0 {
		c.Count("concurrent_explorations", 1)
	}
	if r.Stats.Diverged > 0 {
		c.Count("schedules_diverged", r.Stats.Diverged)
		c.Cap("some schedules could not be replayed exactly (nondeterminism outside the scheduler)")
	}
	if r.External > 0 {
		c.Count("threads_blocked_outside_the_scheduler", r.External)
	}
	if r.Capped {
		c.Cap("an execution had too many scheduling points")
	}
	for o, n := range r.Outcomes {
		for i := 0; i < n && i < 1; i++ {
			c.Outcome("concurrent: " + o)
		}
	}
}

// crashed decides about a process that died or hung during a task: it is a violation if it happens again.
func crashed(c *lib.Check, t concTask, err error, msg string) {
	t.Millis = 4000
	for i := 0; i < 2; i++ {
		w, e := startWorker(c.Prop, "VERIF_TRACE=1")
		if e != nil {
			return
		}
		_, e = w.do(t)
		msg = w.stderr.String()
		w.stop()
		if e == nil {
			fmt.Printf("unstable (not reported): %s: %v\n", t.Scen, err)
			return
		}
		err = e
	}
	if len(msg) > 6000 {
		msg = msg[len(msg)-6000:]
	}
	first := ""
	for _, l := range strings.Split(msg, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			first = l
		}
	}
	c.Violation("concurrent:"+t.Scen, fmt.Sprintf("concurrent scenario %q: %v %s", t.Scen, err, first), map[string]interface{}{"scenario": t.Scen, "stderr": strings.Split(msg, "\n")}, nil)
}

// confirm replays a violating schedule in fresh processes.
func confirm(c *lib.Check, t concTask, v concViol) {
	again, report := 0, []string(nil)
	for i := 0; i < 4; i++ {
		w, err := startWorker(c.Prop)
		if err != nil {
			return
		}
		r, err := w.do(concTask{Scen: t.Scen, Prefixes: [][]int{v.Prefix}, Bound: -1, Millis: 1000})
		if err != nil || len(r.Viols) > 0 {
			again++
			if l := raceReport(w.stderr.String()); report == nil {
				report = l
			}
		}
		w.stop()
	}
	if again < 2 {
		fmt.Printf("unstable (not reported, %d of 4 replays): %s: %s\n", again, t.Scen, v.What)
		return
	}
	what := v.What
	if s := raceSites(report); s != "" {
		what += " (" + s + ")"
	}
	c.Violation("concurrent:"+t.Scen, fmt.Sprintf("concurrent scenario %q: %s", t.Scen, what),
		map[string]interface{}{"scenario": t.Scen, "choices": v.Prefix, "what": v.What, "schedule": v.Schedule, "race": report,
			"replay": "tools/run.py keep DIR builds DIR/conc; feed it {\"Scen\":...,\"Prefixes\":[choices],\"Bound\":-1,\"Millis\":1000} after 'conc work " + c.Prop + "'"}, nil)
}
