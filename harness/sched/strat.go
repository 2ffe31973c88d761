package sched

import "math/rand"

func has(run []int, t int) bool {
	for _, r := range run {
		if r == t {
			return true
		}
	}
	return false
}

// DFS enumerates the schedules with at most Bound preemptions, depth first.  With Visible only operations on
// shared memory are scheduling points.
type DFS struct {
	Bound   int
	Visible bool
	path    []branch
	at      int
	used    int
}

type branch struct {
	options []int
	taken   int
	cost    int // of an option other than the first
	used    int // preemptions before
}

func (d *DFS) Pick(run []int, cur, from int, visible bool) int {
	if d.Visible && !visible && cur >= 0 {
		return cur
	}
	if len(run) == 1 {
		return run[0]
	}
	if d.at < len(d.path) {
		b := d.path[d.at]
		d.at++
		p := b.options[b.taken]
		if b.taken > 0 {
			d.used += b.cost
		}
		if has(run, p) {
			return p
		}
		return run[0] // the code did not behave as before
	}
	b := branch{used: d.used}
	if cur >= 0 {
		b.options, b.cost = []int{cur}, 1
		if d.used < d.Bound {
			for _, r := range run {
				if r != cur {
					b.options = append(b.options, r)
				}
			}
		}
	} else {
		b.options = append(b.options, run...)
	}
	d.path = append(d.path, b)
	d.at++
	return b.options[0]
}

// Next prepares the next schedule; false if there is none.
func (d *DFS) Next() bool {
	d.at, d.used = 0, 0
	for len(d.path) > 0 {
		b := &d.path[len(d.path)-1]
		if b.taken+1 < len(b.options) {
			b.taken++
			return true
		}
		d.path = d.path[:len(d.path)-1]
	}
	return false
}

// Rand switches with probability P.
type Rand struct {
	R *rand.Rand
	P float64
}

func (s *Rand) Pick(run []int, cur, from int, visible bool) int {
	if cur >= 0 && s.R.Float64() >= s.P {
		return cur
	}
	return run[s.R.Intn(len(run))]
}

// PCT runs the runnable thread of highest priority, and lowers the priority of the running one at the
// points in Change (counted over scheduling points, or over visible ones).
type PCT struct {
	R       *rand.Rand
	Change  map[int]bool
	Visible bool
	prio    map[int]int
	n, low  int
}

// NewPCT chooses d change points among the first n scheduling points.
func NewPCT(r *rand.Rand, threads, d, n int, visible bool) *PCT {
	p := &PCT{R: r, Change: map[int]bool{}, prio: map[int]int{}, Visible: visible}
	for i, v := range r.Perm(threads) {
		p.prio[i] = v
	}
	for i := 0; i < d; i++ {
		p.Change[r.Intn(n+1)] = true
	}
	return p
}

func (p *PCT) Pick(run []int, cur, from int, visible bool) int {
	if visible || !p.Visible {
		p.n++
		if cur >= 0 && p.Change[p.n] {
			p.low--
			p.prio[cur] = p.low
		}
	}
	for _, r := range run {
		if _, ok := p.prio[r]; !ok { // a thread that the code has started
			p.prio[r] = p.R.Intn(2*len(p.prio)+1) - len(p.prio)/2
		}
	}
	best := run[0]
	for _, r := range run {
		if p.prio[r] > p.prio[best] {
			best = r
		}
	}
	return best
}

// List lets the threads it names do one operation on shared memory each, in turn.
type List struct {
	Threads []int
	pos     int
	hits    map[int]int
	done    map[int]int
}

func (l *List) Pick(run []int, cur, from int, visible bool) int {
	if l.hits == nil {
		l.hits, l.done = map[int]int{}, map[int]int{}
	}
	if visible && from >= 0 {
		l.hits[from]++
	}
	for l.pos < len(l.Threads) {
		t := l.Threads[l.pos]
		// a thread has done k operations when it is in front of the next one
		if has(run, t) && l.hits[t] < l.done[t]+2 {
			return t
		}
		l.done[t]++
		l.pos++
	}
	if cur >= 0 {
		return cur
	}
	return run[0]
}

// Hold lets the victim do After points, then all others run to their ends, then the victim.
type Hold struct {
	Victim, After int
	Limit         int // points in a row for the others, in case they wait for the victim
	hits          int
	Reached       bool
}

func (s *Hold) Patience() int { return s.Limit }

func (s *Hold) Pick(run []int, cur, from int, visible bool) int {
	if from == s.Victim {
		s.hits++
	}
	if s.hits < s.After && has(run, s.Victim) {
		return s.Victim
	}
	s.Reached = s.Reached || has(run, s.Victim)
	if cur >= 0 && cur != s.Victim {
		return cur
	}
	for _, r := range run {
		if r != s.Victim {
			return r
		}
	}
	return run[0]
}

// Tick alternates between J points of the victim and W points of the others.
type Tick struct {
	Victim, J, W int
	n            int
	others       bool
}

func (s *Tick) Patience() int { return 4 * (s.J + s.W + spin) }

func (s *Tick) Pick(run []int, cur, from int, visible bool) int {
	s.n++
	if s.others && s.n > s.W || !s.others && s.n > s.J {
		s.others, s.n = !s.others, 1
	}
	if !s.others && has(run, s.Victim) {
		return s.Victim
	}
	if cur >= 0 && cur != s.Victim {
		return cur
	}
	for _, r := range run {
		if r != s.Victim {
			return r
		}
	}
	return run[0]
}
