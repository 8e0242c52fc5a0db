//go:build go1.21

package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// model is an explicit-state exploration of the real code: a state is the event history that reaches it,
// replayed on a fresh instance; histories whose canonical state was seen are not extended.
type model struct {
	name  string
	n     int // events
	depth int
	tree  bool // histories are not merged
	par   int  // workers (default: one per CPU)
	start func() inst
	show  func(ev int) string
}

// inst is one running instance with its reference model.
type inst interface {
	// step performs an event and returns how the observation violates the property, if it does.
	// enabled=false: the event is not possible in this state.
	step(ev int) (bad string, enabled bool)
	// key is the canonical state
	key() string
	// probe makes (possibly destructive) observations in a newly found state
	probe() string
	close()
}

func (m *model) showAll(h []int) []string {
	l := []string{}
	for _, e := range h {
		l = append(l, m.show(e))
	}
	return l
}

// replay runs a history and returns the first violation.
func (m *model) replay(h []int, probe bool) string {
	x := m.start()
	defer x.close()
	for _, e := range h {
		if bad, _ := m.step(x, e); bad != "" {
			return bad
		}
	}
	if probe {
		return m.probe(x)
	}
	return ""
}

// step and probe turn panics of the adapter into violations.
func (m *model) step(x inst, e int) (bad string, on bool) {
	defer caught(&bad, &on)
	return x.step(e)
}

func (m *model) probe(x inst) (bad string) {
	on := true
	defer caught(&bad, &on)
	return x.probe()
}

func caught(bad *string, on *bool) {
	if p := recover(); p != nil {
		if he, ok := p.(lib.HarnessError); ok {
			panic(he)
		}
		st := string(debug.Stack())
		if i := strings.Index(st, "panic("); i > 0 {
			st = st[i:]
		}
		if len(st) > 900 {
			st = st[:900]
		}
		*bad, *on = fmt.Sprintf("panic: %v\n%s", p, st), true
	}
}

// watched runs an instance under a guard, whose findings alone count.
type watched struct {
	inst
	g   *lib.Guard
	off bool // the inner check deviated, which other properties decide
}

func (x *watched) step(ev int) (bad string, on bool) {
	if x.off {
		return "", false
	}
	lib.Under(x.g, func() { bad, on = x.inst.step(ev) })
	if bad != "" {
		x.off = true
	}
	return x.g.Leak(), on
}

func (x *watched) probe() string {
	if !x.off {
		lib.Under(x.g, func() { _ = x.inst.probe() })
	}
	return x.g.Leak()
}

func (m *model) bfs(c *lib.Check) {
	if c.Prop == "C25" {
		start := m.start
		m.start = func() inst {
			x := &watched{g: lib.NewGuard()}
			lib.Under(x.g, func() { x.inst = start() })
			return x
		}
	}
	seen := map[uint64]bool{}
	var mu sync.Mutex
	report := func(h []int, bad string, probe bool) {
		key := m.name
		c.Violation(key, fmt.Sprintf("%s: after %v: %s", m.name, m.showAll(h), bad),
			map[string]interface{}{"model": m.name, "events": m.showAll(h), "event_ids": h, "probe": probe, "what": bad},
			func() bool { return m.replay(h, probe) != "" })
	}
	{
		x := m.start()
		seen[lib.Hash(x.key())] = true
		c.Count("states", 1)
		if bad := m.probe(x); bad != "" {
			report(nil, bad, true)
		}
		x.close()
	}
	frontier := [][]int{nil}
	depth := 0
	for len(frontier) > 0 && !c.Stop() {
		if depth >= m.depth {
			c.Cap(fmt.Sprintf("%s: history depth %d", m.name, m.depth))
			break
		}
		depth++
		var next [][]int
		par := m.par
		if par == 0 {
			par = runtime.NumCPU()
		}
		lib.Parallel(len(frontier), par, func(i int) {
			for ev := 0; ev < m.n; ev++ {
				if c.Stop() {
					return
				}
				h := append(append([]int{}, frontier[i]...), ev)
				done := c.Watch(func() (string, interface{}) {
					return fmt.Sprintf("%s: after %v the adapter hangs", m.name, m.showAll(h)), map[string]interface{}{"model": m.name, "events": m.showAll(h)}
				})
				x := m.start()
				bad, on := "", true
				for k, e := range h {
					bad, on = m.step(x, e)
					if bad != "" && k < len(h)-1 {
						report(h[:k+1], bad, false) // did not happen when this prefix was explored
						break
					}
				}
				done()
				if !on {
					x.close()
					continue
				}
				c.Count("transitions", 1)
				if bad != "" {
					x.close()
					report(h, bad, false)
					continue
				}
				k := lib.Hash(x.key())
				mu.Lock()
				isNew := !seen[k]
				seen[k] = true
				if isNew {
					next = append(next, h)
				}
				mu.Unlock()
				if isNew {
					c.Count("states", 1)
					c.Count("traces_validated_against_impl", 1)
					if bad := m.probe(x); bad != "" {
						report(h, bad, true)
					}
					if len(h) > 2 && c.WantSample() {
						c.Sample(map[string]interface{}{"model": m.name, "events": m.showAll(h)})
					}
				}
				x.close()
			}
		})
		frontier = next
	}
	c.Count("depth_"+m.name, depth)
}
