//go:build go1.21

// Command conc explores thread schedules. It is started by seq, takes tasks on stdin and answers on stdout,
// one JSON object per line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vclock"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vsched"
)

// scenario is a set of threads on a fresh adapter and what must hold of every schedule.
type scenario struct {
	name   string
	quick  int // preemption bounds
	deep   int
	offset time.Duration
	setup  func() *run
}

type run struct {
	bodies []func()
	names  []string
	// check judges the completed execution; outcome is what was observed
	check func() (bad, outcome string)
}

func (r *run) thread(name string, f func()) {
	r.names = append(r.names, name)
	r.bodies = append(r.bodies, f)
}

var scenarios = map[string][]scenario{}

func reg(prop string, s scenario) { scenarios[prop] = append(scenarios[prop], s) }

type task struct {
	Scen     string
	Prefixes [][]int
	Bound    int
	Millis   int // afterwards the rest is handed back
}

type viol struct {
	Prefix   []int
	What     string
	Schedule []string
}

type reply struct {
	Stats    vsched.Stats
	Rest     [][]int // unexplored
	Viols    []viol
	Outcomes map[string]int
	Capped   bool
	External int
}

func ints(p []int8) []int {
	l := make([]int, len(p))
	for i, v := range p {
		l[i] = int(v)
	}
	return l
}

func bytes8(p []int) []int8 {
	l := make([]int8, len(p))
	for i, v := range p {
		l[i] = int8(v)
	}
	return l
}

// execute runs one schedule.
func (s *scenario) execute(prefix []int8) (x *vsched.Exec, bad, outcome string, names []string) {
	vclock.Set(0)
	r := s.setup()
	vclock.Set(0)
	x = vsched.Run(r.bodies, prefix, s.offset)
	names = r.names
	switch {
	case x.Diverged:
		return x, "", "diverged", names
	case x.Overflow:
		return x, "", "too many scheduling points", names
	case x.Deadlock != "":
		return x, "deadlock: " + x.Deadlock, "", names
	case len(x.Panics) > 0:
		return x, "panic: " + cut(x.Panics[0], 1500), "", names
	}
	vclock.Set(s.offset)
	bad, outcome = r.check()
	vclock.Set(0)
	if x.Races > 0 && bad == "" {
		bad = fmt.Sprintf("%d data races", x.Races)
	}
	return
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func describe(x *vsched.Exec, names []string) []string {
	var l []string
	for i, p := range x.Points {
		who := "start"
		if p.Tid >= 0 {
			who = fmt.Sprintf("thread %d", p.Tid)
			if int(p.Tid) < len(names) {
				who = names[p.Tid]
			}
		}
		if p.Chosen != 0 || i == 0 {
			l = append(l, fmt.Sprintf("at choice %d (%s at %s) option %d of %d is taken", i, who, p.Kind, p.Chosen, p.N))
		}
	}
	return l
}

func find(prop, name string) *scenario {
	for i := range scenarios[prop] {
		if scenarios[prop][i].name == name {
			return &scenarios[prop][i]
		}
	}
	return nil
}

func main() {
	runtime.GOMAXPROCS(2)
	lib.InitNet()
	lib.Point = vsched.Point
	vclock.SleepHook = func(time.Duration) { vsched.Yield("sleep") }
	if len(os.Args) > 2 {
		register(os.Args[2])
	}
	if len(os.Args) > 2 && os.Args[1] == "list" {
		type item struct {
			Name        string
			Quick, Deep int
		}
		l := []item{}
		for _, s := range scenarios[os.Args[2]] {
			l = append(l, item{s.name, s.quick, s.deep})
		}
		b, _ := json.Marshal(l)
		fmt.Println(string(b))
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "bench" {
		bench(os.Args[2:])
		return
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<24)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		var t task
		if err := json.Unmarshal(in.Bytes(), &t); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		b, _ := json.Marshal(work(os.Args[2], t))
		_, _ = out.Write(append(b, '\n'))
		_ = out.Flush()
	}
}

var trace = os.Getenv("VERIF_TRACE") != ""

func work(prop string, t task) (rep reply) {
	s := find(prop, t.Scen)
	rep.Outcomes = map[string]int{}
	if s == nil {
		rep.Viols = append(rep.Viols, viol{What: "harness: no such scenario " + t.Scen})
		return
	}
	end := time.Now().Add(time.Duration(t.Millis) * time.Millisecond)
	var stack [][]int8
	for _, p := range t.Prefixes {
		stack = append(stack, bytes8(p))
	}
	for len(stack) > 0 {
		if time.Now().After(end) {
			break
		}
		p := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if trace {
			fmt.Fprintln(os.Stderr, "schedule", p)
		}
		x, bad, outcome, names := s.execute(p)
		rep.Stats.Add(x, len(p))
		rep.Outcomes[outcome]++
		rep.External += x.External
		if bad != "" {
			rep.Viols = append(rep.Viols, viol{Prefix: ints(x.Choices()), What: bad, Schedule: describe(x, names)})
			if len(rep.Viols) >= 3 || x.Deadlock != "" {
				return
			}
			continue
		}
		if x.Overflow {
			rep.Capped = true
			return
		}
		if !x.Diverged {
			stack = append(stack, x.Children(len(p), t.Bound)...)
		}
	}
	for _, p := range stack {
		rep.Rest = append(rep.Rest, ints(p))
	}
	return
}

// bench explores everything of a property in this process (development).
func bench(args []string) {
	if f := os.Getenv("VERIF_CPUPROFILE"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		time.AfterFunc(10*time.Second, pprof.StopCPUProfile)
	}
	bound := 1
	only := ""
	if len(args) > 1 {
		fmt.Sscan(args[1], &bound)
	}
	if len(args) > 2 {
		only = args[2]
	}
	for _, s := range scenarios[args[0]] {
		if only != "" && s.name != only {
			continue
		}
		t0 := time.Now()
		r := work(args[0], task{Scen: s.name, Prefixes: [][]int{{}}, Bound: bound, Millis: 600000})
		fmt.Printf("%-50s %+v ext=%d capped=%v %.1fs\n", s.name, r.Stats, r.External, r.Capped, time.Since(t0).Seconds())
		var l []string
		for o, n := range r.Outcomes {
			l = append(l, fmt.Sprintf("    %6d %s", n, o))
		}
		sort.Strings(l)
		for _, o := range l {
			fmt.Println(o)
		}
		for _, v := range r.Viols {
			fmt.Println("   VIOLATION", v.What, v.Schedule)
		}
	}
}
