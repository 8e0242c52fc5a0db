//go:build go1.21

package vsched

// Stats of an exploration.
type Stats struct {
	Schedules, Steps, Nodes, Diverged, Capped int
	MaxPoints                                 int
	Bound                                     int
}

// Cost returns the preemptions among the first i choices.
func (x *Exec) Cost(i int) int {
	c := 0
	for _, p := range x.Points[:i] {
		if !p.Free && p.Chosen != 0 {
			c++
		}
	}
	return c
}

// Children returns the schedules that deviate once more after the given prefix length, within the bound.
func (x *Exec) Children(from, bound int) [][]int8 {
	var l [][]int8
	for i := from; i < len(x.Points); i++ {
		p, cost := x.Points[i], x.Cost(i)
		if !p.Free {
			cost++
		}
		if cost > bound {
			continue
		}
		for alt := int8(1); alt < p.N; alt++ {
			h := make([]int8, i+1)
			for k := 0; k < i; k++ {
				h[k] = x.Points[k].Chosen
			}
			h[i] = alt
			l = append(l, h)
		}
	}
	return l
}

func (s *Stats) add(x *Exec, pre int) {
	s.Schedules++
	s.Steps += x.Steps
	if d := len(x.Points) - pre; d > 0 {
		s.Nodes += d
	}
	if len(x.Points) > s.MaxPoints {
		s.MaxPoints = len(x.Points)
	}
	if x.Diverged {
		s.Diverged++
	}
}

// Add counts one execution.
func (s *Stats) Add(x *Exec, pre int) { s.add(x, pre) }
