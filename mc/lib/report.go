//go:build go1.21

package lib

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// Check collects what one run covered and decides its exit.
type Check struct {
	Prop, Level, Tier string
	Seed              int
	Start             time.Time
	Deadline          time.Time
	mu                sync.Mutex
	Cov               map[string]interface{}
	counts            map[string]int64
	outcomes          map[string]int64
	samples           []interface{}
	Assumptions       []string
	violations        []string
	known             map[string]string
	knownSeen         map[string]bool
	capped            []string
	unstable          int
	active            sync.Map
	activeN           int64
}

type watched struct {
	start time.Time
	desc  func() (string, interface{})
}

// HangAfter is how long one operation, which takes milliseconds, may take before it counts as hanging.
const HangAfter = 90 * time.Second

// Watch reports a violation if the returned function is not called within HangAfter.
func (c *Check) Watch(desc func() (string, interface{})) func() {
	id := atomic.AddInt64(&c.activeN, 1)
	c.active.Store(id, watched{time.Now(), desc})
	return func() { c.active.Delete(id) }
}

func (c *Check) monitor() {
	for range time.Tick(2 * time.Second) {
		hung := false
		c.active.Range(func(_, v interface{}) bool {
			w := v.(watched)
			if time.Since(w.start) > HangAfter && !hung {
				hung = true
				what, replay := w.desc()
				c.Violation("hang", what, replay, nil)
			}
			return true
		})
		if hung {
			c.Finish()
		}
	}
}

// VerifDir is the root of the verification tree.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

// NewCheck starts a check.
func NewCheck(prop, level string) *Check {
	c := &Check{Prop: prop, Level: level, Tier: os.Getenv("VERIF_TIER"), Start: time.Now(), Cov: map[string]interface{}{},
		counts: map[string]int64{}, outcomes: map[string]int64{}, known: map[string]string{}, knownSeen: map[string]bool{}}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 300 * time.Second
	if c.Tier == "thorough" {
		budget = 3000 * time.Second
	}
	if b, err := time.ParseDuration(os.Getenv("VERIF_BUDGET")); err == nil {
		budget = b
	}
	c.Deadline = c.Start.Add(budget)
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	if b, err := os.ReadFile(filepath.Join(VerifDir(), "known_findings.json")); err == nil {
		_ = json.Unmarshal(b, &f)
	}
	for _, k := range f.Findings {
		if k.Property == prop && k.Status == "known" {
			c.known[k.Key] = k.What
		}
	}
	go c.monitor()
	return c
}

// Thorough tells the tier.
func (c *Check) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick and t in the thorough tier.
func (c *Check) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Expired reports that the time budget is used up.
func (c *Check) Expired() bool { return time.Now().After(c.Deadline) }

// Cap records that a bound was hit before the space was finished.
func (c *Check) Cap(why string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, x := range c.capped {
		if x == why {
			return
		}
	}
	c.capped = append(c.capped, why)
}

// Count adds to a counter of the coverage record.
func (c *Check) Count(name string, n int) { c.mu.Lock(); c.counts[name] += int64(n); c.mu.Unlock() }

// Outcome counts a distinct observed outcome.
func (c *Check) Outcome(o string) {
	c.mu.Lock()
	if len(c.outcomes) < 5000 || c.outcomes[o] > 0 {
		c.outcomes[o]++
	}
	c.mu.Unlock()
}

// Sample keeps a few actual cases.
func (c *Check) Sample(s interface{}) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// WantSample tells whether more samples are useful.
func (c *Check) WantSample() bool { c.mu.Lock(); defer c.mu.Unlock(); return len(c.samples) < 6 }

// Violations returns the number found so far.
func (c *Check) Violations() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.violations) }

// Stop tells workers to end early: a violation was found or time is up.
func (c *Check) Stop() bool {
	if c.Violations() > 0 {
		return true
	}
	if c.Expired() {
		c.Cap("time budget")
		return true
	}
	return false
}

// Violation reports a confirmed violation. again re-runs the case and tells whether it fails again.
func (c *Check) Violation(key, what string, replay interface{}, again func() bool) {
	if again != nil {
		for i := 0; i < 4; i++ {
			if !again() {
				c.mu.Lock()
				c.unstable++
				n := c.unstable
				c.mu.Unlock()
				if n <= 5 {
					fmt.Printf("unstable (not reported): %s\n", what)
				}
				return
			}
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if w, ok := c.known[key]; ok {
		if !c.knownSeen[key] {
			c.knownSeen[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, w)
		}
		return
	}
	if len(c.violations) >= 3 {
		return
	}
	dir := filepath.Join(VerifDir(), "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.Prop, len(c.violations)+1))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": c.Prop, "what": what, "key": key, "case": replay}, "", " ")
	_ = os.WriteFile(path, b, 0o644)
	c.violations = append(c.violations, what)
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", c.Prop, path, what)
}

// Finish writes the evidence and exits.
func (c *Check) Finish() {
	switch c.Prop {
	case "C01", "C03", "C06", "C09", "C11":
		if r := reusable.Load(); r != nil {
			// whatever is removed, added, expired or logged out meanwhile, the proxy repeats the answer
			c.Violation("reusable-answer", fmt.Sprintf("an answer (status %d) may be reused by Mixer for %v and %d requests without asking the adapter", r.status, r.d, r.n), nil, nil)
		}
	}
	c.mu.Lock()
	cov := c.Cov
	for k, v := range c.counts {
		cov[k] = v
	}
	need := map[string][]string{
		"exploration":       {"evaluations", "distinct_nontrivial"},
		"fault_enumeration": {"evaluations", "distinct_nontrivial"},
		"model_checking":    {"states", "transitions", "traces_validated_against_impl"},
	}
	for _, n := range need[c.Level] {
		if _, ok := cov[n]; !ok {
			cov[n] = int64(0)
		}
	}
	if len(c.outcomes) > 0 {
		cov["distinct_outcomes"] = len(c.outcomes)
		top := map[string]int64{}
		for o, n := range c.outcomes {
			if len(top) < 40 {
				top[o] = n
			}
		}
		cov["outcomes"] = top
	}
	if c.samples == nil {
		c.samples = []interface{}{"none"}
	}
	cov["samples"] = c.samples
	cov["exhaustive"] = len(c.capped) == 0 && len(c.violations) == 0
	if len(c.capped) > 0 {
		cov["caps_hit"] = c.capped
	}
	if c.unstable > 0 {
		cov["unstable_discarded"] = c.unstable
	}
	if FallbackHits > 0 {
		cov["loopback_requests"] = FallbackHits
	}
	ev := map[string]interface{}{"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"wall_s": time.Since(c.Start).Seconds(), "violations": len(c.violations)}
	if len(c.Assumptions) > 0 {
		ev["assumptions"] = c.Assumptions
	}
	dir := filepath.Join(VerifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.Prop+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		os.Exit(2)
	}
	n := len(c.violations)
	c.mu.Unlock()
	fmt.Printf("%s %s: %v violations=%d exhaustive=%v wall=%.1fs\n", c.Prop, c.Tier, c.counts, n, len(c.capped) == 0, time.Since(c.Start).Seconds())
	if n > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// Parallel runs f(0..n-1) on w workers.
func Parallel(n, w int, f func(i int)) {
	if w < 1 {
		w = 1
	}
	var wg sync.WaitGroup
	ch := make(chan int, 64)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
