// maps runs the record store, the counter map and the sequence lock: sequentially, under a scheduler
// that decides the interleaving, and with real parallelism, and records the calls and their results.
package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"sync/atomic"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/verifdrv/explore"
	"github.com/iand/starbow/internal/verifdrv/lib"
	"github.com/iand/starbow/internal/verifdrv/sched"
)

type Op struct {
	Op   string `json:"op"` // upd get; inc get; put upd get
	K    string `json:"k"`
	ID   int    `json:"id"`
	Fail bool   `json:"fail"`
	D    string `json:"d"`
	// The operation is repeated this often, with results that differ in their bytes but not in what they mean,
	// or until there is no other thread left.
	Times int `json:"times"`
}

type Case struct {
	explore.Plan
	What    string `json:"what"`
	L       int    `json:"l"`
	S       int    `json:"s"`
	Raw     bool   `json:"raw"`
	Narrow  string `json:"narrow"` // writes differ in eight bytes only: "mid" or "ends"
	Pre     []Op   `json:"pre"`
	Threads [][]Op `json:"threads"`
	Post    []Op   `json:"post"`
}

type Call struct {
	Init  bool   `json:"init"`
	Log   []int  `json:"log"`
	Seen  string `json:"seen"`
	Wrote string `json:"wrote"`
}

type Event struct {
	explore.Head
	Op    string `json:"op"`
	K     string `json:"k"`
	ID    int    `json:"id"`
	Fail  bool   `json:"fail"`
	Res   string `json:"res"`
	Calls []Call `json:"calls"`
	Found bool   `json:"found"`
	Log   []int  `json:"log"`
	Val   string `json:"val"`
	Dup   bool   `json:"dup"`
}

func (e *Event) Rank() string {
	return fmt.Sprintf("%s %s %d %v %s %v %v %v", e.Op, e.K, e.ID, e.Found, e.Res, e.Log, e.Calls, e.Val)
}

type hist struct {
	explore.History
	alive int32 // threads that have not ended
}

// again tells whether an operation is to be repeated once more.
func (h *hist) again(op Op, i int) bool {
	return i < op.Times && atomic.LoadInt32(&h.alive) > 1
}

func (h *hist) add(e Event) int {
	if e.Log == nil {
		e.Log = []int{}
	}
	if e.Calls == nil {
		e.Calls = []Call{}
	}
	return h.Add(&e)
}

var errFail = errors.New("update function failed")

// ---- contents of records -------------------------------------------------

// encode gives the contents of a record of n bytes after the updates in log, in one of two forms.
func encode(log []int, n, form int) []byte {
	b := make([]byte, n)
	if len(log) == 0 {
		return b
	}
	sum := form * 100
	for i, id := range log {
		b[1+i] = byte(id)
		sum += id * (i + 11)
	}
	b[0] = byte(len(log) | form<<7)
	for i := len(log) + 1; i < n; i++ {
		b[i] = byte(sum*31 + i*7 + len(log))
	}
	return b
}

var torn = []int{-1}

func decode(b []byte, n int) []int {
	if len(b) != n || n == 0 {
		return torn
	}
	k := int(b[0] & 127)
	if k+1 > n {
		return torn
	}
	log := make([]int, k)
	for i := range log {
		log[i] = int(b[1+i])
	}
	if string(encode(log, n, int(b[0]>>7))) != string(b) {
		return torn
	}
	return log
}

var pause = explore.Pause

// ---- the three structures ------------------------------------------------

type object interface {
	do(op Op, h *hist, real bool)
}

type store struct {
	m      *bufmap.Map
	s      int
	raw    bool
	narrow string
}

// window is where the i-th of eight bytes is that differ.
func window(narrow string, n, i int) int {
	if narrow == "mid" {
		return n/2 - 4 + i
	}
	if i < 4 {
		return i
	}
	return n - 8 + i
}

func (x *store) encode(log []int, form int) []byte {
	if x.narrow == "" || len(log) > 4 {
		return encode(log, x.s, form)
	}
	b := make([]byte, x.s)
	if len(log) == 0 {
		return b
	}
	w := make([]byte, 8)
	w[0] = byte(len(log) | form<<7)
	sum := form * 100
	for i, id := range log {
		w[1+i] = byte(id)
		sum += id * (i + 11)
	}
	for i := 5; i < 8; i++ {
		w[i] = byte(sum*31 + i*7 + len(log))
	}
	for i := range w {
		b[window(x.narrow, x.s, i)] = w[i]
	}
	return b
}

func (x *store) decode(b []byte) []int {
	if x.narrow == "" {
		return decode(b, x.s)
	}
	if len(b) != x.s {
		return torn
	}
	w := make([]byte, 8)
	for i := range w {
		w[i] = b[window(x.narrow, x.s, i)]
	}
	k := int(w[0] & 127)
	if k > 4 {
		return decode(b, x.s)
	}
	log := make([]int, k)
	for i := range log {
		log[i] = int(w[1+i])
	}
	if string(x.encode(log, int(w[0]>>7))) != string(b) {
		return torn
	}
	return log
}

func key(s string) uint64 {
	k, err := strconv.ParseUint(s, 10, 64)
	lib.Must(err)
	return k
}

func (x *store) do(op Op, h *hist, real bool) {
	k := key(op.K)
	o := h.add(Event{Head: explore.Head{E: "inv"}, Op: op.Op, K: op.K, ID: op.ID, Fail: op.Fail})
	r := Event{Head: explore.Head{E: "ret", O: o}, Op: op.Op, K: op.K, ID: op.ID, Fail: op.Fail}
	if op.Op == "get" {
		buf := make([]byte, x.s)
		r.Found = x.m.Get(k, buf)
		if r.Found {
			if x.raw {
				r.Val = hex.EncodeToString(buf)
			} else {
				r.Log = x.decode(buf)
			}
		}
		h.add(r)
		return
	}
	err := x.m.Update(k, func(data []byte, init bool) error {
		c := Call{Init: init, Log: []int{}}
		if x.raw {
			c.Seen = hex.EncodeToString(data)
			for i := range data {
				data[i] = byte(int(data[i])*31 + op.ID*7 + i)
			}
			c.Wrote = hex.EncodeToString(data)
		} else {
			c.Log = x.decode(data)
			pause(real)
			next := data
			if c.Log != nil && (len(c.Log) != 1 || c.Log[0] >= 0) && len(c.Log)+2 < x.s {
				next = x.encode(append(append([]int{}, c.Log...), op.ID), 0)
			}
			half := len(data) / 2
			copy(data[:half], next[:half])
			pause(real)
			copy(data[half:], next[half:])
			pause(real)
		}
		r.Calls = append(r.Calls, c)
		if op.Fail {
			return errFail
		}
		return nil
	})
	for i := 1; err == nil && h.again(op, i); i++ {
		err = x.m.Update(k, func(data []byte, init bool) error {
			log := x.decode(data)
			for _, id := range log {
				if id == op.ID && !init {
					copy(data, x.encode(log, i%2))
					return nil
				}
			}
			r.Calls = append(r.Calls, Call{Init: init, Log: torn})
			return nil
		})
	}
	r.Res = result(err)
	h.add(r)
}

func result(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, errFail):
		return "fail"
	case errors.Is(err, bufmap.ErrOutOfSlots):
		return "out"
	case errors.Is(err, bufmap.ErrInvalidKey):
		return "bad"
	}
	return "other"
}

type counters struct {
	m   *incmap.Map
	raw bool
}

func (x *counters) do(op Op, h *hist, real bool) {
	k := key(op.K)
	o := h.add(Event{Head: explore.Head{E: "inv"}, Op: op.Op, K: op.K, ID: op.ID, Val: op.D})
	r := Event{Head: explore.Head{E: "ret", O: o}, Op: op.Op, K: op.K, ID: op.ID}
	if op.Op == "get" {
		v, found := x.m.Get(k)
		r.Found = found
		if x.raw {
			r.Val = strconv.FormatUint(v, 10)
		} else if found {
			// the digits to base 8 tell which increments are in the sum
			for i := 0; i < 22; i++ {
				d := v >> uint(3*i) & 7
				if d == 1 {
					r.Log = append(r.Log, i)
				} else if d > 1 {
					r.Dup = true
				}
			}
		}
		h.add(r)
		return
	}
	var d uint64
	if x.raw {
		d = key(op.D)
	} else {
		d = 1 << uint(3*op.ID)
	}
	r.Res = "ok"
	if !x.m.Inc(k, d) {
		r.Res = "out"
	}
	h.add(r)
}

type lock struct {
	m      *seqlock.Seqlock
	narrow string
}

func (x *lock) fill(id, form int) (d [1024]byte) {
	if x.narrow == "" {
		return fill(id, form)
	}
	for i := 0; i < 8; i++ {
		d[window(x.narrow, len(d), i)] = byte(id*(1+i%5) + form*37)
	}
	d[window(x.narrow, len(d), 0)] = byte(id | form<<7)
	return
}

func fill(id, form int) (d [1024]byte) {
	for i := range d {
		d[i] = byte(id*(1+i%5) + form*37)
	}
	d[0] = byte(id | form<<7)
	return
}

// contents is the number of the write that left the data, 0 at the start, -1 for anything else.
func (x *lock) contents(d []byte) int {
	if len(d) != 1024 {
		return -1
	}
	first := 0
	if x.narrow != "" {
		first = window(x.narrow, len(d), 0)
	}
	id := int(d[first] & 127)
	want := x.fill(id, int(d[first]>>7))
	if string(want[:]) != string(d) {
		return -1
	}
	return id
}

func (x *lock) do(op Op, h *hist, real bool) {
	o := h.add(Event{Head: explore.Head{E: "inv"}, Op: op.Op, ID: op.ID, Fail: op.Fail})
	r := Event{Head: explore.Head{E: "ret", O: o}, Op: op.Op, ID: op.ID, Fail: op.Fail}
	switch op.Op {
	case "get":
		d := x.m.Get()
		r.Log = []int{x.contents(d[:])}
	case "put":
		x.m.Put(x.fill(op.ID, 0))
		for i := 1; h.again(op, i); i++ {
			x.m.Put(x.fill(op.ID, i%2))
		}
	case "upd":
		err := x.m.Update(func(data []byte) error {
			r.Calls = append(r.Calls, Call{Log: []int{x.contents(data)}})
			next := x.fill(op.ID, 0)
			pause(real)
			copy(data[:500], next[:])
			pause(real)
			copy(data[500:], next[500:])
			pause(real)
			if op.Fail {
				return errFail
			}
			return nil
		})
		for i := 1; (err == nil || op.Fail) && h.again(op, i); i++ {
			err = x.m.Update(func(data []byte) error {
				if got := x.contents(data); !op.Fail && got != op.ID {
					r.Calls = append(r.Calls, Call{Log: []int{-1}})
				}
				next := x.fill(op.ID, i%2)
				copy(data, next[:])
				if op.Fail {
					return errFail
				}
				return nil
			})
		}
		r.Res = result(err)
	}
	h.add(r)
}

func newObject(c *Case) object {
	switch c.What {
	case "bufmap":
		return &store{bufmap.New(c.L, c.S), c.S, c.Raw, c.Narrow}
	case "incmap":
		return &counters{incmap.New(c.L), c.Raw}
	}
	return &lock{seqlock.New(), c.Narrow}
}

// ---- executions ------------------------------------------------------------

func main() {
	lib.Lines(func(line []byte) interface{} {
		var c Case
		lib.Must(json.Unmarshal(line, &c))
		return explore.Run(&c.Plan, func() *explore.Execution {
			h := &hist{}
			x := newObject(&c)
			ops := func(ops []Op) func() {
				return func() {
					for _, op := range ops {
						x.do(op, h, true)
					}
				}
			}
			h.alive = int32(len(c.Threads))
			e := &explore.Execution{H: &h.History, Pre: ops(c.Pre), Post: ops(c.Post)}
			for _, ops := range c.Threads {
				ops := ops
				e.Threads = append(e.Threads, func(real bool) {
					defer atomic.AddInt32(&h.alive, -1)
					for _, op := range ops {
						if !real {
							sched.V()
						}
						x.do(op, h, real)
					}
				})
			}
			return e
		})
	})
}
