// Package sched is a cooperative scheduler.  While Run is active exactly one of its threads runs at a
// time, and at every scheduling point (Y) a strategy decides which one goes on.
package sched

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"verif.local/g"
)

// Strategy chooses among the runnable threads (in increasing order) when thread from reaches its next
// scheduling point or ends; cur = from if it can go on, and -1 otherwise.  visible tells that it is about
// to do an atomic operation, take a lock, or copy a part of a buffer.
type Strategy interface {
	Pick(runnable []int, cur, from int, visible bool) int
}

type thread struct {
	s       *Scheduler
	id      int
	spawned bool // by a go statement of the code under test
	wake    chan struct{}
	done    bool
	blocked func() bool // nil, or whether the thread can go on
	last    int         // step at which it was last picked
	outside bool        // did not reach a scheduling point in time; it may be blocked in something unknown
}

type Scheduler struct {
	mu      sync.Mutex
	threads []*thread
	own     int // threads[:own] are not spawned
	ended   sync.WaitGroup
	closed  bool
	free    int32 // 1 if threads go on uncontrolled
	cur     int   // thread that holds the token, -1 if none
	strat   Strategy
	steps   int
	max     int
	limit   int // initial max
	abort   bool
	why     string
	streak  int // points in a row at which the same thread went on, times calm
	forced  int // points left at which the strategy is not asked
	finish  chan struct{}
	beat    int64
	Panics  map[int]string
}

var (
	active int32
	theS   *Scheduler
	ids    sync.Map // goroutine id -> *thread
)

// spin is the number of points in a row after which a thread has to let another one go on, in case it
// waits for that one.
const spin = 150

// calm is how many points that are not visible count as one that is: a thread that does not touch shared
// memory is rather in a long loop of its own than waiting.
const calm = 64

// self is the calling thread of the active scheduler, or nil.
func self() (*Scheduler, *thread) {
	if atomic.LoadInt32(&active) == 0 {
		return nil, nil
	}
	v, ok := ids.Load(g.ID())
	if !ok {
		return nil, nil
	}
	t := v.(*thread)
	if t.s != theS || atomic.LoadInt32(&t.s.free) == 1 {
		return nil, nil // left over from an earlier execution
	}
	return theS, t
}

// Y is a scheduling point.
func Y() {
	s, t := self()
	if s == nil {
		return
	}
	s.point(t, false)
}

// V is a scheduling point in front of an operation on shared memory.
func V() {
	s, t := self()
	if s == nil {
		return
	}
	s.point(t, true)
}

// Block waits until ready returns true; the scheduler does not pick the thread before.
func Block(ready func() bool) {
	s, t := self()
	if s == nil {
		for !ready() {
			time.Sleep(20 * time.Microsecond)
		}
		return
	}
	s.mu.Lock()
	t.blocked = ready
	s.mu.Unlock()
	s.point(t, false)
	if atomic.LoadInt32(&s.free) == 1 {
		for !ready() {
			time.Sleep(20 * time.Microsecond)
		}
	}
}

// waited is the number of waits for late threads, in all executions.
var waited atomic.Int64

// late tells whether there is a thread outside that is worth waiting for.  Called with mu held.
func (s *Scheduler) late() bool {
	if waited.Load() > 10000 {
		return false
	}
	for _, t := range s.threads {
		if !t.done && t.outside {
			return true
		}
	}
	return false
}

func (s *Scheduler) runnable() []int {
	var out []int
	for _, t := range s.threads {
		if !t.done && !t.outside && (t.blocked == nil || t.blocked()) {
			out = append(out, t.id)
		}
	}
	return out
}

// point gives the token away and waits until it comes back.
func (s *Scheduler) point(t *thread, visible bool) {
	s.mu.Lock()
	if s.steps >= s.max && !s.abort && !t.outside && s.late() {
		// A thread has not come back from outside: perhaps the machine is busy.  Wait for it.
		s.mu.Unlock()
		time.Sleep(2 * time.Millisecond)
		waited.Add(1)
		s.mu.Lock()
		s.max = s.steps + 1
		if !s.late() {
			s.max = s.steps + s.limit
		}
	}
	if s.abort {
		s.mu.Unlock()
		runtime.Goexit()
	}
	if t.outside {
		t.outside = false // back; wait to be picked
		if s.cur == -1 {
			s.next(-1, false)
		}
	} else {
		s.steps++
		atomic.AddInt64(&s.beat, 1)
		if s.steps > s.max {
			s.stop("too many steps")
			s.mu.Unlock()
			runtime.Goexit()
		}
		if s.next(t.id, visible) == t.id {
			s.mu.Unlock()
			return
		}
	}
	s.mu.Unlock()
	<-t.wake
	s.mu.Lock()
	ab := s.abort
	s.mu.Unlock()
	if ab {
		runtime.Goexit()
	}
}

// next hands the token on; from is the thread that had it, or -1.  Called with mu held.
func (s *Scheduler) next(from int, visible bool) int {
	run := s.runnable()
	if len(run) == 0 {
		// Either all is done, or Run waits for something that does not belong to the scheduler.
		s.cur = -1
		all := true
		for _, t := range s.threads {
			all = all && t.done
		}
		if all && !s.closed {
			s.closed = true
			close(s.finish)
		}
		return -1
	}
	cur := -1
	for _, r := range run {
		if r == from {
			cur = from
		}
	}
	var pick int
	patience := spin
	if p, ok := s.strat.(interface{ Patience() int }); ok {
		patience = p.Patience()
	}
	if cur >= 0 && len(run) > 1 && s.streak >= patience*calm {
		// The thread may be waiting in a loop for another one: let the one that has not run for longest
		// go on for a while.
		pick = -1
		for _, r := range run {
			if r != from && (pick < 0 || s.threads[r].last < s.threads[pick].last) {
				pick = r
			}
		}
		s.forced = spin / 2
	} else if cur >= 0 && s.forced > 0 {
		s.forced--
		pick = cur
	} else {
		s.forced = 0
		pick = s.strat.Pick(run, cur, from, visible)
	}
	s.threads[pick].last = s.steps
	if pick == from {
		s.streak++
		if visible {
			s.streak += calm - 1
		}
		s.threads[pick].blocked = nil
		return pick
	}
	s.streak = 0
	s.cur = pick
	s.threads[pick].blocked = nil
	s.threads[pick].wake <- struct{}{}
	return pick
}

// stop ends the execution.  Called with mu held.
func (s *Scheduler) stop(why string) {
	if s.abort {
		return
	}
	s.abort = true
	if s.why == "" {
		s.why = why
	}
	for _, t := range s.threads {
		if !t.done {
			select {
			case t.wake <- struct{}{}:
			default:
			}
		}
	}
	if !s.closed {
		s.closed = true
		close(s.finish)
	}
}

// quit ends an execution whose own threads are done; the others go on uncontrolled.  Called with mu held.
func (s *Scheduler) quit() {
	atomic.StoreInt32(&s.free, 1)
	for _, t := range s.threads {
		if !t.done {
			select {
			case t.wake <- struct{}{}:
			default:
			}
		}
	}
	s.closed = true
	close(s.finish)
}

// start makes the goroutine of a thread, which waits until it is picked.
func (s *Scheduler) start(t *thread, fn func()) {
	ready := make(chan struct{})
	go func() {
		id := g.ID()
		ids.Store(id, t)
		close(ready)
		defer func() {
			if r := recover(); r != nil {
				s.mu.Lock()
				s.Panics[t.id] = fmt.Sprint(r, "\n", string(debug.Stack()))
				s.mu.Unlock()
			}
			ids.Delete(id)
			s.mu.Lock()
			t.done = true
			if !s.abort {
				if t.outside {
					t.outside = false
					if s.cur == -1 {
						s.next(-1, false)
					}
				} else {
					s.next(t.id, false)
				}
			}
			s.mu.Unlock()
			if !t.spawned {
				s.ended.Done()
			}
		}()
		<-t.wake
		s.mu.Lock()
		ab := s.abort
		s.mu.Unlock()
		if ab {
			return
		}
		fn()
	}()
	<-ready
}

// Go stands in for the go statement.
func Go(fn func()) {
	s, _ := self()
	if s == nil {
		go fn()
		return
	}
	s.mu.Lock()
	if s.abort {
		s.mu.Unlock()
		runtime.Goexit()
	}
	t := &thread{s: s, id: len(s.threads), spawned: true, wake: make(chan struct{}, 1), last: s.steps, outside: true}
	s.threads = append(s.threads, t) // not picked before it is ready
	s.mu.Unlock()
	s.start(t, fn)
	s.mu.Lock()
	t.outside = false
	s.mu.Unlock()
	V()
}

// Run executes the functions under the strategy.  It returns "" or why the execution was stopped
// ("deadlock", "too many steps", "no progress").
func Run(fns []func(), strat Strategy, max int) (string, map[int]string) {
	s := &Scheduler{strat: strat, max: max, limit: max, cur: -1, finish: make(chan struct{}), Panics: map[int]string{}, own: len(fns)}
	for i := range fns {
		s.threads = append(s.threads, &thread{s: s, id: i, wake: make(chan struct{}, 1)})
	}
	theS = s
	for i := range fns {
		s.ended.Add(1)
		s.start(s.threads[i], fns[i])
	}
	atomic.StoreInt32(&active, 1)
	s.mu.Lock()
	s.next(-1, false)
	s.mu.Unlock()
	// Watch for threads that hold the token without reaching a scheduling point.
	last, stuck := int64(-1), 0
	tick := time.NewTicker(25 * time.Millisecond)
loop:
	for {
		select {
		case <-s.finish:
			break loop
		case <-tick.C:
			b := atomic.LoadInt64(&s.beat)
			if b != last {
				last, stuck = b, 0
				continue
			}
			stuck++
			s.mu.Lock()
			if s.closed {
				s.mu.Unlock()
				continue
			}
			own, outside := 0, 0 // threads that are not done
			for _, t := range s.threads {
				if !t.done && !t.spawned {
					own++
				}
				if !t.done && t.outside {
					outside++
				}
			}
			switch {
			case s.cur >= 0 && !s.threads[s.cur].done:
				// the thread that runs does not reach a scheduling point
				if stuck >= 400 {
					s.stop("no progress")
				} else if stuck%2 == 0 {
					s.threads[s.cur].outside = true
					s.next(-1, false)
				}
			case len(s.runnable()) > 0:
				s.next(-1, false)
			case own == 0 && stuck >= 2:
				// what is left are spawned threads that wait for something
				s.quit()
			case stuck >= 400 || outside == 0 && stuck >= 120:
				s.stop("deadlock")
			}
			s.mu.Unlock()
		}
	}
	tick.Stop()
	if s.why == "" {
		s.ended.Wait()
	} else {
		// give the threads a moment to go away
		c := make(chan struct{})
		go func() { s.ended.Wait(); close(c) }()
		select {
		case <-c:
		case <-time.After(200 * time.Millisecond):
		}
	}
	atomic.StoreInt32(&active, 0)
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.why, s.Panics
}

// Copy is copy with scheduling points inside.
func Copy(dst, src interface{}) int {
	d, ok := dst.([]byte)
	var c []byte
	switch s := src.(type) {
	case []byte:
		c = s
	case string:
		c = []byte(s)
	default:
		ok = false
	}
	if !ok {
		return reflect.Copy(reflect.ValueOf(dst), reflect.ValueOf(src))
	}
	n := len(d)
	if len(c) < n {
		n = len(c)
	}
	if n == 0 {
		return 0
	}
	a, b := uintptr(unsafe.Pointer(&d[0])), uintptr(unsafe.Pointer(&c[0]))
	if n < 2 || a < b+uintptr(n) && b < a+uintptr(n) {
		return copy(d, c)
	}
	V()
	copy(d[:n/2], c[:n/2])
	V()
	copy(d[n/2:n], c[n/2:n])
	return n
}
