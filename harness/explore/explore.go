// Package explore runs a scenario under the ways of interleaving it asks for, and records the histories.
package explore

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/iand/starbow/internal/verifdrv/lib"
	"github.com/iand/starbow/internal/verifdrv/sched"
)

type Strat struct {
	Kind    string  `json:"kind"` // seq dfs rand pct list hold tick free
	N       int     `json:"n"`
	Bound   int     `json:"bound"`
	Visible bool    `json:"visible"`
	P       float64 `json:"p"`
	Seed    int64   `json:"seed"`
	Lists   [][]int `json:"lists"`
	Victim  int     `json:"victim"`
	J       int     `json:"j"`
	W       int     `json:"w"`
	Steps   int     `json:"steps"` // limit on the length of one execution, if not 0
}

// Plan is the part of a scenario that says how to run it.
type Plan struct {
	ID     int     `json:"id"`
	Strats []Strat `json:"strats"`
	Max    int     `json:"max"` // histories to report
	Ms     int     `json:"ms"`  // time limit
}

// Head is the part all events have: E is "inv" or "ret", or what went wrong; O numbers the operations of a
// history.
type Head struct {
	E   string `json:"e"`
	O   int    `json:"o"`
	Msg string `json:"msg,omitempty"`
}

func (h *Head) Header() *Head { return h }

type Event interface {
	Header() *Head
	Rank() string // equal for events that can be exchanged
}

func (h *Head) Rank() string { return h.E }

type History struct {
	mu sync.Mutex
	ev []Event
	o  int
}

// Add appends an event; an "inv" gets the next number, which is returned.
func (h *History) Add(e Event) int {
	h.mu.Lock()
	defer h.mu.Unlock()
	x := e.Header()
	if x.E == "inv" {
		h.o++
		x.O = h.o
	}
	h.ev = append(h.ev, e)
	return x.O
}

// Execution is a scenario on fresh objects.  real: without the scheduler.
type Execution struct {
	H       *History
	Pre     func()
	Threads []func(real bool)
	Post    func()
}

// Pause is a point at which other threads may go on.
func Pause(real bool) {
	if real {
		if rand.Intn(4) == 0 {
			runtime.Gosched()
		}
	} else {
		sched.Y()
	}
}

// normal puts the events between two changes from calls to returns, whose order says nothing, into one
// order, and renumbers the operations.
func normal(ev []Event) []Event {
	for i := 0; i < len(ev); {
		e := ev[i].Header().E
		j := i
		for j < len(ev) && ev[j].Header().E == e {
			j++
		}
		part := ev[i:j]
		if e == "inv" || e == "ret" {
			sort.SliceStable(part, func(a, b int) bool { return part[a].Rank() < part[b].Rank() })
		}
		i = j
	}
	num := map[int]int{}
	for _, e := range ev {
		if x := e.Header(); x.E == "inv" {
			num[x.O] = len(num) + 1
		}
	}
	for _, e := range ev {
		x := e.Header()
		x.O = num[x.O]
	}
	return ev
}

func head(s string) string {
	if len(s) > 300 {
		return s[:300]
	}
	return s
}

func execute(fresh func() *Execution, st *Strat, strat sched.Strategy, max int) []Event {
	var x *Execution
	why, msg := lib.Guard(func() { x = fresh() })
	if why != "" {
		return []Event{&Head{E: why, Msg: head(msg)}}
	}
	h := x.H
	fail := func(why, msg string) []Event {
		h.mu.Lock()
		defer h.mu.Unlock()
		return append(append([]Event{}, h.ev...), &Head{E: why, Msg: head(msg)})
	}
	if why, msg := lib.Guard(x.Pre); why != "" {
		return fail(why, msg)
	}
	switch {
	case st.Kind == "free":
		var ready, done sync.WaitGroup
		var gate int32
		var bad atomic.Value
		for _, f := range x.Threads {
			f := f
			ready.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				defer func() {
					if r := recover(); r != nil {
						bad.Store(fmt.Sprint(r))
					}
				}()
				ready.Done()
				for atomic.LoadInt32(&gate) == 0 {
					runtime.Gosched()
				}
				f(true)
			}()
		}
		ready.Wait()
		atomic.StoreInt32(&gate, 1)
		end := make(chan struct{})
		go func() { done.Wait(); close(end) }()
		select {
		case <-end:
			if p := bad.Load(); p != nil {
				return fail("panic", p.(string))
			}
		case <-time.After(lib.Limit):
			return fail("hang", "")
		}
	case len(x.Threads) > 0:
		fns := []func(){}
		for _, f := range x.Threads {
			f := f
			fns = append(fns, func() { f(false) })
		}
		why, panics := sched.Run(fns, strat, max)
		for _, p := range panics {
			return fail("panic", p)
		}
		if why != "" {
			return fail("hang", why)
		}
	}
	if why, msg := lib.Guard(x.Post); why != "" {
		return fail(why, msg)
	}
	return h.ev
}

type Hist struct {
	Ev    []Event `json:"ev"`
	Count int     `json:"count"`
	Strat int     `json:"strat"`
	Run   int     `json:"run"`
}

var hung bool

// Run runs the scenario: fresh gives fresh executions of it.
func Run(c *Plan, fresh func() *Execution) interface{} {
	fmt.Fprintln(os.Stderr, "CASE", c.ID)
	out := []*Hist{}
	if hung {
		// the process has threads that do not end: no further cases
		return map[string]interface{}{"id": c.ID, "hists": out, "runs": 0, "dropped": 0, "complete": []bool{}}
	}
	seen := map[string]int{}
	runs, dropped := 0, 0
	complete := []bool{}
	begin := time.Now()
	stuck := false
	for si := range c.Strats {
		if stuck {
			break
		}
		st := &c.Strats[si]
		left := func(n int) bool {
			share := time.Duration(c.Ms) * time.Millisecond * time.Duration(si+1) / time.Duration(len(c.Strats))
			return n < st.N && (c.Ms == 0 || time.Since(begin) < share)
		}
		// broken ends the case: enough has been seen
		note := func(ev []Event, n int) (broken bool) {
			runs++
			if len(ev) > 0 {
				e := ev[len(ev)-1].Header().E
				broken = e != "inv" && e != "ret"
				stuck = stuck || broken
				hung = hung || e == "hang"
			}
			if !broken {
				ev = normal(ev)
			}
			b, err := json.Marshal(ev)
			lib.Must(err)
			if i, ok := seen[string(b)]; ok {
				out[i].Count++
				return
			}
			if len(out) >= c.Max && !broken {
				dropped++
				return
			}
			seen[string(b)] = len(out)
			out = append(out, &Hist{ev, 1, si, n})
			return
		}
		full := false
		rng := rand.New(rand.NewSource(st.Seed))
		max := 400000
		if st.Steps > 0 {
			max = st.Steps
		}
		switch st.Kind {
		case "seq":
			note(execute(fresh, st, nil, max), 0)
			full = true
		case "free":
			for n := 0; left(n); n++ {
				if note(execute(fresh, st, nil, max), n) {
					break
				}
			}
		case "dfs":
			d := &sched.DFS{Bound: st.Bound, Visible: st.Visible}
			for n := 0; left(n); n++ {
				if note(execute(fresh, st, d, max), n) {
					break
				}
				if !d.Next() {
					full = true
					break
				}
			}
		case "rand":
			for n := 0; left(n); n++ {
				if note(execute(fresh, st, &sched.Rand{R: rng, P: st.P}, max), n) {
					break
				}
			}
		case "pct":
			// the length of an execution, for choosing the change points
			cnt := &counter{visible: st.Visible}
			threads := len(fresh().Threads)
			execute(fresh, st, cnt, max)
			for n := 0; left(n); n++ {
				d := 1 + rng.Intn(st.Bound)
				if note(execute(fresh, st, sched.NewPCT(rng, threads, d, cnt.n, st.Visible), max), n) {
					break
				}
			}
		case "hold":
			for n := 0; left(n); n++ {
				h := &sched.Hold{Victim: st.Victim, After: n, Limit: max / 8}
				if note(execute(fresh, st, h, 2*max), n) {
					break
				}
				if !h.Reached {
					full = true
					break
				}
			}
		case "tick":
			for n := 0; left(n) && n < st.J*st.W; n++ {
				if note(execute(fresh, st, &sched.Tick{Victim: st.Victim, J: 1 + n%st.J, W: 1 + n/st.J}, max), n) {
					break
				}
			}
			full = true
		case "list":
			for n, l := range st.Lists {
				if !left(n) || note(execute(fresh, st, &sched.List{Threads: l}, max), n) {
					break
				}
			}
		}
		complete = append(complete, full)
	}
	return map[string]interface{}{"id": c.ID, "hists": out, "runs": runs, "dropped": dropped, "complete": complete}
}

type counter struct {
	n       int
	visible bool
}

func (c *counter) Pick(run []int, cur, from int, visible bool) int {
	if visible || !c.visible {
		c.n++
	}
	if cur >= 0 {
		return cur
	}
	return run[0]
}
