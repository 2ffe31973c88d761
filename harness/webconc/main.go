// webconc sends a starbow server concurrent requests: under a scheduler that decides the interleaving,
// and with real parallelism, and records the requests and the responses.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strconv"
	"sync/atomic"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/verifdrv/explore"
	"github.com/iand/starbow/internal/verifdrv/lib"
	"github.com/iand/starbow/internal/verifdrv/sched"
	"github.com/iand/starbow/internal/verifdrv/wk"
)

// Op is a request: a batch of observations, or a query.
type Op struct {
	Op     string `json:"op"` // post query
	Req    int    `json:"req"`
	Target string `json:"target"`
	CT     string `json:"ct"`
	Body   string `json:"body"`
	Chunks []int  `json:"chunks"`
	Skip   int    `json:"skip"` // lines of the response before the measures
}

type Case struct {
	explore.Plan
	Stores  []wk.Store `json:"stores"`
	Pre     []Op       `json:"pre"`
	Threads [][]Op     `json:"threads"`
	Post    []Op       `json:"post"`
	Wire    bool       `json:"wire"` // over the network where the threads really run in parallel
}

// Event: req is the index of the request in the case; set has the observations a response reflects.
type Event struct {
	explore.Head
	Req    int       `json:"req"`
	Status int       `json:"status"`
	Echo   []string  `json:"echo"`
	Resp   []wk.Line `json:"resp"`
	Tail   bool      `json:"tail"`
	Set    []int     `json:"set"`
}

func (e *Event) Rank() string {
	return fmt.Sprintf("%d %d %v %v %v", e.Req, e.Status, e.Echo, e.Resp, e.Set)
}

// backend lets a server go on with fresh records.
type backend struct{ cur atomic.Value }

type box struct{ storage.Backend }

func (b *backend) Get(k uint64, buf []byte) bool { return b.cur.Load().(box).Get(k, buf) }
func (b *backend) Update(k uint64, fn func(data []byte, init bool) error) error {
	return b.cur.Load().(box).Update(k, fn)
}

type world struct {
	c        *Case
	s        *server.Server
	backends []*backend
	cl       *http.Client
	sock     string
}

var dir string
var serial int

func start(c *Case) *world {
	w := &world{c: c, s: server.New()}
	serial++
	w.sock = filepath.Join(dir, strconv.Itoa(os.Getpid())+"-"+strconv.Itoa(serial))
	w.s.Net = "unix"
	w.s.Addr = w.sock
	w.s.Logger = log.New(io.Discard, "", 0)
	for _, st := range c.Stores {
		sch := wk.SchemaOf(st)
		coll, err := sch.Compile()
		lib.Must(err)
		b := &backend{}
		w.backends = append(w.backends, b)
		w.s.Stores = append(w.s.Stores, storage.Store{Backend: b, Collator: coll})
	}
	w.fresh()
	go func() {
		err := w.s.Serve()
		fmt.Fprintln(os.Stderr, "Serve returned", err)
	}()
	tr := &http.Transport{MaxIdleConnsPerHost: 16, Dial: func(_, _ string) (net.Conn, error) { return net.Dial("unix", w.sock) }}
	w.cl = &http.Client{Transport: tr, Timeout: lib.Limit}
	deadline := time.Now().Add(10 * time.Second)
	for {
		resp, err := w.cl.Get("http://x/collation/")
		if err == nil {
			_, _ = io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			break
		}
		if time.Now().After(deadline) {
			lib.Must(fmt.Errorf("server did not start: %v", err))
		}
		time.Sleep(time.Millisecond)
	}
	return w
}

func (w *world) fresh() {
	for i, b := range w.backends {
		b.cur.Store(box{bufmap.New(w.c.Stores[i].Slots, w.s.Stores[i].Collator.Size())})
	}
}

var torn = []int{-1}

// reflected tells from the sum of x which observations a record has: number i has x = 4^i.
func reflected(resp []wk.Line) []int {
	for _, l := range resp {
		if l.M != "sum" || l.F != "x" {
			continue
		}
		n, ok := new(big.Int).SetString(l.V, 10)
		if l.K != "num" || !ok || n.Sign() < 0 || n.BitLen() > 60 {
			return torn
		}
		set := []int{}
		v := n.Uint64()
		for i := 0; v != 0; i++ {
			switch v & 3 {
			case 0:
			case 1:
				set = append(set, i)
			default:
				return torn
			}
			v >>= 2
		}
		return set
	}
	return []int{}
}

func (w *world) do(op Op, h *explore.History, real bool) {
	o := h.Add(&Event{Head: explore.Head{E: "inv"}, Req: op.Req, Echo: []string{}, Resp: []wk.Line{}, Set: []int{}})
	r := &Event{Head: explore.Head{E: "ret", O: o}, Req: op.Req, Echo: []string{}, Set: []int{}, Resp: []wk.Line{}}
	method := "POST"
	if op.Op == "query" {
		method = "GET"
	}
	body := &wk.Body{Data: lib.Dec(op.Body), Chunks: op.Chunks, Hook: func(int) { explore.Pause(real) }}
	var text []byte
	if real && w.c.Wire {
		req, err := http.NewRequest(method, "http://x"+op.Target, bytes.NewReader(body.Data))
		lib.Must(err)
		if op.CT != "" {
			req.Header.Set("Content-Type", op.CT)
		}
		req.Header.Set("Accept-Encoding", "identity")
		resp, err := w.cl.Transport.RoundTrip(req)
		if err == nil {
			text, err = io.ReadAll(resp.Body)
			resp.Body.Close()
			r.Status = resp.StatusCode
		}
		if err != nil {
			panic(err)
		}
	} else {
		req := httptest.NewRequest(method, op.Target, body)
		if op.CT != "" {
			req.Header.Set("Content-Type", op.CT)
		}
		rec := httptest.NewRecorder()
		w.s.ServeHTTP(rec, req)
		r.Status = rec.Code
		text = rec.Body.Bytes()
	}
	if op.Op == "query" {
		r.Resp, r.Tail = wk.ParseLines(text)
		for i := 0; i < op.Skip && len(r.Resp) > 0; i++ {
			r.Echo = append(r.Echo, r.Resp[0].Raw)
			r.Resp = r.Resp[1:]
		}
		r.Set = reflected(r.Resp)
		for i := range r.Resp {
			r.Resp[i].Raw = ""
		}
	}
	h.Add(r)
}

func main() {
	var err error
	dir, err = os.MkdirTemp("", "vw")
	lib.Must(err)
	defer os.RemoveAll(dir)
	lib.Lines(func(line []byte) interface{} {
		var c Case
		lib.Must(json.Unmarshal(line, &c))
		var w *world
		if why, msg := lib.Guard(func() { w = start(&c) }); why != "" {
			lib.Must(fmt.Errorf("starting the server: %s %s", why, msg))
		}
		defer os.Remove(w.sock)
		return explore.Run(&c.Plan, func() *explore.Execution {
			w.fresh()
			h := &explore.History{}
			ops := func(ops []Op) func() {
				return func() {
					for _, op := range ops {
						w.do(op, h, true)
					}
				}
			}
			e := &explore.Execution{H: h, Pre: ops(c.Pre), Post: ops(c.Post)}
			for _, ops := range c.Threads {
				ops := ops
				e.Threads = append(e.Threads, func(real bool) {
					for _, op := range ops {
						if !real {
							sched.V()
						}
						w.do(op, h, real)
					}
				})
			}
			return e
		})
	})
}
