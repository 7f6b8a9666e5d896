//go:build go1.24

package simrt

// Rng is a small, fast, seedable generator (splitmix64).
type Rng struct{ s uint64 }

//go:norace
func NewRng(seed uint64) *Rng { return &Rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }

//go:norace
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

//go:norace
func (r *Rng) Chance(num, den int) bool { return r.Intn(den) < num }

// Sched describes the schedule of a run: a seeded policy, or the recorded slices.
type Sched struct {
	Policy   string    `json:"policy"` // serial, random, pct, site, roundrobin, replay
	Seed     uint64    `json:"seed,omitempty"`
	Gap      int       `json:"gap,omitempty"`     // random: mean length of a slice
	Depth    int       `json:"depth,omitempty"`   // pct: number of priority changes
	Horizon  int       `json:"horizon,omitempty"` // pct, stalls: steps over which the changes are spread
	StallOne bool      `json:"stall,omitempty"`   // one task is stalled until all others have ended
	StallAt  int64     `json:"stallAt,omitempty"` // ... after so many of its steps
	StallT   int       `json:"stallTask,omitempty"`
	More     []Stall   `json:"stallMore,omitempty"` // further tasks that are stalled
	Forever  bool      `json:"forever,omitempty"`   // the others must end while they are stalled
	Segments []Segment `json:"segments,omitempty"`
}

// A Stall says after how many of its steps a task is stalled.
type Stall struct {
	T  int   `json:"t"`
	At int64 `json:"at"`
}

// stalls tells whether a task is one of those that are to be stalled, and when.
//
//go:norace
func (c *Sched) stalls(id int) (int64, bool) {
	if !c.StallOne && c.Policy != "replay" {
		return 0, false
	}
	if (c.StallOne || c.Forever) && id == c.StallT {
		return c.StallAt, true
	}
	for _, m := range c.More {
		if m.T == id {
			return m.At, true
		}
	}
	return 0, false
}

type policy struct {
	cfg    Sched
	rng    *Rng
	prio   map[int]int
	points map[int64]bool
	count  int64
	sites  []uint32
	target uint32
	held   int
	heldAt int64
	pos    int
	left   int64
	last   int
	stall  map[int]bool
	over   bool
	idle   int
	before int64
}

//go:norace
func NewPolicy(cfg Sched) Policy {
	p := &policy{cfg: cfg, rng: NewRng(cfg.Seed), held: -1, last: -1, stall: map[int]bool{}}
	if cfg.Policy == "pct" {
		p.prio = map[int]int{}
	}
	if cfg.Policy == "site" {
		p.target = uint32(1 + p.rng.Intn(len(Sites)-1))
	}
	return p
}

//go:norace
func (p *policy) Ended(s *Sim, t *Task, preempted bool) {
	if t.helper || t.steps == p.before {
		p.idle++
	} else {
		p.idle = 0
	}
	if p.cfg.Policy == "site" && preempted && t.site == p.target && p.held < 0 {
		p.held = t.ID
		p.heldAt = s.Steps
	}
	if at, ok := p.cfg.stalls(t.ID); ok && p.cfg.Policy != "replay" && !p.stall[t.ID] && t.state != stDone && t.steps >= at {
		p.stall[t.ID] = true
		s.StalledIDs = append(s.StalledIDs, t.ID)
		s.Stalls++
	}
}

//go:norace
func (p *policy) Next(s *Sim, ready []*Task) (int, int64, uint32) {
	if p.idle > 4*maxIdle {
		return -1, 0, 0
	}
	if p.idle > maxIdle && !p.over {
		// What runs in the background, a ticker for instance, does not end by itself.
		if p.cfg.Forever && p.waiting(s) {
			return -1, 0, 0
		}
		p.over = true
	}
	var i int
	var n int64
	var site uint32
	if p.cfg.Policy == "replay" {
		i, n, site = p.replay(s, ready)
	} else {
		i, n, site = p.next(s, ready)
	}
	if i >= 0 {
		p.before = ready[i].steps
	}
	return i, n, site
}

// maxIdle is how many slices there may be, of background tasks and of callers which only
// look whether they may go on, while some are held back.
const maxIdle = 50_000

// waiting tells whether a caller that is not stalled has not ended.
//
//go:norace
func (p *policy) waiting(s *Sim) bool {
	for _, t := range s.tasks {
		if _, ok := p.cfg.stalls(t.ID); t.state != stDone && !t.helper && !ok {
			return true
		}
	}
	return false
}

//go:norace
func (p *policy) next(s *Sim, ready []*Task) (int, int64, uint32) {
	// A stalled task is not eligible as long as others can run.
	cand := make([]int, 0, len(ready))
	for i, t := range ready {
		if p.stall[t.ID] && !p.over {
			continue
		}
		cand = append(cand, i)
	}
	if len(cand) == 0 {
		// Everybody else has ended, or waits.
		if p.cfg.Forever {
			for _, t := range s.tasks {
				if t.state != stDone && !p.stall[t.ID] {
					return -1, 0, 0
				}
			}
		}
		p.over = true
		for i := range ready {
			cand = append(cand, i)
		}
	}
	i, n, site := p.pick(s, ready, cand)
	if at, ok := p.cfg.stalls(ready[i].ID); ok && !p.stall[ready[i].ID] {
		if left := at - ready[i].steps; left > 0 && (n == 0 || n > left) {
			n = left
		}
	}
	return i, n, site
}

//go:norace
func (p *policy) pick(s *Sim, ready []*Task, cand []int) (int, int64, uint32) {
	switch p.cfg.Policy {
	case "serial":
		// In the order of their numbers, each until it ends.
		return cand[0], 0, 0
	case "roundrobin":
		for _, i := range cand {
			if ready[i].ID > p.last {
				p.last = ready[i].ID
				return i, int64(p.cfg.Gap), 0
			}
		}
		p.last = ready[cand[0]].ID
		return cand[0], int64(p.cfg.Gap), 0
	case "random":
		i := cand[p.rng.Intn(len(cand))]
		// Geometric-like length, with the occasional single step.
		n := 1
		if !p.rng.Chance(1, 5) {
			n = 1 + p.rng.Intn(2*p.cfg.Gap)
		}
		return i, int64(n), 0
	case "pct":
		if p.points == nil {
			p.points = map[int64]bool{}
			for k := 0; k < p.cfg.Depth; k++ {
				p.points[int64(p.rng.Intn(p.cfg.Horizon+1))] = true
			}
		}
		best := -1
		for _, i := range cand {
			id := ready[i].ID
			if _, ok := p.prio[id]; !ok {
				p.prio[id] = 1000 + p.rng.Intn(1000)
			}
			if best < 0 || p.prio[id] > p.prio[ready[best].ID] {
				best = i
			}
		}
		if p.idle%100 == 99 {
			// Who only looks whether it may go on, or is busy in the background forever, must
			// not keep the others from running.
			p.prio[ready[best].ID] = -p.idle
		}
		// Run until the next change point.
		next := int64(0)
		for pt := range p.points {
			if pt > s.Steps && (next == 0 || pt < next) {
				next = pt
			}
		}
		if next == 0 {
			return best, 0, 0
		}
		n := next - s.Steps
		p.prio[ready[best].ID] = p.rng.Intn(900) // lowered once the change point is reached
		return best, n, 0
	case "site":
		// Whoever reaches the site is held there while the others run.
		if p.held >= 0 {
			others := make([]int, 0, len(cand))
			for _, i := range cand {
				if ready[i].ID != p.held {
					others = append(others, i)
				}
			}
			release := int64(p.cfg.Gap) * 10
			if len(others) > 0 && s.Steps-p.heldAt < release && p.idle < 1000 {
				return others[p.rng.Intn(len(others))], int64(1 + p.rng.Intn(2*p.cfg.Gap)), 0
			}
			id := p.held
			p.held = -1
			if p.rng.Chance(1, 2) {
				p.target = uint32(1 + p.rng.Intn(len(Sites)-1))
			}
			for _, i := range cand {
				if ready[i].ID == id {
					return i, int64(1 + p.rng.Intn(2*p.cfg.Gap)), 0
				}
			}
		}
		return cand[p.rng.Intn(len(cand))], int64(1 + p.rng.Intn(20*p.cfg.Gap)), p.target
	}
	panic("simrt: unknown policy " + p.cfg.Policy)
}

// replay executes recorded slices. Slices of tasks which can not run are skipped, and
// when there are none left the tasks are run in the order of their numbers; a recorded
// schedule never needs either, one which was cut down by the minimiser may.
//
//go:norace
func (p *policy) replay(s *Sim, ready []*Task) (int, int64, uint32) {
	for p.pos < len(p.cfg.Segments) {
		seg := p.cfg.Segments[p.pos]
		p.pos++
		for i, t := range ready {
			if t.ID == seg.T {
				return i, seg.N, 0
			}
		}
	}
	if p.cfg.Forever && !p.over {
		best := -1
		for i, t := range ready {
			if _, ok := p.cfg.stalls(t.ID); ok {
				continue
			}
			if best < 0 {
				best = i
			}
		}
		if best < 0 {
			for _, t := range s.tasks {
				if _, ok := p.cfg.stalls(t.ID); !ok && t.state != stDone {
					return -1, 0, 0
				}
			}
			best = 0
		}
		return best, 0, 0
	}
	if p.over {
		for i, t := range ready {
			if !t.helper {
				return i, 0, 0
			}
		}
	}
	return 0, 0, 0
}
