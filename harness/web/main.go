// Command web executes histories of requests on a starbow server and logs the responses.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/verifdrv/lib"
	"github.com/iand/starbow/internal/verifdrv/wk"
)

type cancelSpec struct {
	When  string // "before" the request, on "read" N of the body, on "enter" or "leave" of backend update N
	N     int
	Store int
	// The time of the request is over rather than the client gone.
	Deadline bool
}

// request is a context that is done when end is called: cancelled, or past its deadline.
type request struct {
	context.Context
	done chan struct{}
	err  atomic.Value
	at   time.Time
}

func (r *request) Deadline() (time.Time, bool) { return r.at, true }
func (r *request) Done() <-chan struct{}       { return r.done }
func (r *request) Err() error {
	err, _ := r.err.Load().(error)
	return err
}

func newContext(c *cancelSpec) (context.Context, func()) {
	if c == nil || !c.Deadline {
		return context.WithCancel(context.Background())
	}
	if c.When == "before" {
		return context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
	}
	r := &request{Context: context.Background(), done: make(chan struct{}), at: time.Now().Add(time.Hour)}
	var once sync.Once
	return r, func() {
		once.Do(func() {
			r.err.Store(context.DeadlineExceeded)
			close(r.done)
		})
	}
}

type op struct {
	Op      string
	Method  string
	Target  string
	CT      *string
	Headers [][2]string
	Times   int    // the body is repeated
	Body    string // encoded
	Chunks  []int  // sizes of reads; the last one repeats
	Cancel  *cancelSpec
	Wire    bool
	Proto   string // "1.0" for HTTP/1.0
	Zero    bool
	With    bool
	Break   bool // Body is all that arrives of it

	I    int
	Row  [][2]string
	Sel  [][2]string
	Crit [][2]string
	Rows [][][2]string
	Fam  string
	F    string
	Lo   int
	Hi   int
	Mode string
}

type tcase struct {
	ID     int
	Stores []store
	Ops    []op
}

type result struct {
	Status int    `json:"status"`
	NC     bool   `json:"nc"`
	Lines  []line `json:"lines"`
	Tail   bool   `json:"tail"`
	Res    string `json:"res"`
	Bad    string `json:"bad"`
	Msg    string `json:"msg"`
	Reads  int    `json:"reads"`
}

type output struct {
	ID      int      `json:"id"`
	Sizes   []int    `json:"sizes"`
	Results []result `json:"results"`
}

type (
	store = wk.Store
	line  = wk.Line
)

// backend passes calls on and tells hook about each update.
type backend struct {
	storage.Backend
	i    int
	hook *func(when string, i int)
}

func (b backend) Update(k uint64, fn func(data []byte, init bool) error) error {
	if *b.hook != nil {
		(*b.hook)("enter", b.i)
	}
	err := b.Backend.Update(k, fn)
	if *b.hook != nil {
		(*b.hook)("leave", b.i)
	}
	return err
}

type world struct {
	s    *server.Server
	cl   *http.Client
	hook func(when string, i int)
	sock string
}

var dir string
var serial int

func start(c tcase) (*world, []int) {
	w := &world{s: server.New()}
	serial++
	w.sock = filepath.Join(dir, strconv.Itoa(os.Getpid())+"-"+strconv.Itoa(serial))
	w.s.Net = "unix"
	w.s.Addr = w.sock
	w.s.Logger = log.New(io.Discard, "", 0)
	var sizes []int
	hooked := false
	for _, o := range c.Ops {
		hooked = hooked || o.Cancel != nil && (o.Cancel.When == "enter" || o.Cancel.When == "leave")
	}
	for i, st := range c.Stores {
		sch := wk.SchemaOf(st)
		coll, err := sch.Compile()
		lib.Must(err)
		sizes = append(sizes, coll.Size())
		var be storage.Backend = bufmap.New(st.Slots, coll.Size())
		if hooked {
			be = backend{be, i, &w.hook}
		}
		w.s.Stores = append(w.s.Stores, storage.Store{Backend: be, Collator: coll})
	}
	go func() {
		err := w.s.Serve()
		fmt.Fprintln(os.Stderr, "Serve returned", err)
	}()
	tr := &http.Transport{DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
		return net.Dial("unix", w.sock)
	}}
	w.cl = &http.Client{Transport: tr, Timeout: lib.Limit}
	deadline := time.Now().Add(10 * time.Second)
	for {
		resp, err := w.cl.Get("http://x/collation/")
		if err == nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			break
		}
		if time.Now().After(deadline) {
			lib.Must(fmt.Errorf("server did not start: %v", err))
		}
		time.Sleep(time.Millisecond)
	}
	return w, sizes
}

func (w *world) http(o op, r *result) {
	ctx, cancel := newContext(o.Cancel)
	defer cancel()
	data := lib.Dec(o.Body)
	if o.Times > 0 {
		data = bytes.Repeat(data, o.Times)
	}
	bd := &wk.Body{Data: data, Chunks: o.Chunks, Zero: o.Zero, With: o.With}
	if o.Break {
		bd.Break = io.ErrUnexpectedEOF
	}
	if o.Cancel != nil {
		switch o.Cancel.When {
		case "before":
			cancel()
		case "read":
			bd.Hook = func(n int) {
				if n == o.Cancel.N {
					cancel()
				}
			}
		default:
			n := 0
			w.hook = func(when string, i int) {
				if when == o.Cancel.When && i == o.Cancel.Store {
					n++
					if n == o.Cancel.N {
						cancel()
					}
				}
			}
			defer func() { w.hook = nil }()
		}
	}
	if o.Wire && (o.Break || o.Proto != "") {
		w.raw(o, bd.Data, r)
		return
	}
	if o.Wire {
		req, err := http.NewRequest(o.Method, "http://x"+o.Target, bytes.NewReader(bd.Data))
		lib.Must(err)
		if o.CT != nil {
			req.Header.Set("Content-Type", *o.CT)
		}
		req.Header.Set("Accept-Encoding", "identity")
		o.headers(req)
		resp, err := w.cl.Transport.RoundTrip(req)
		if err != nil {
			r.Bad = "panic"
			r.Msg = err.Error()
			return
		}
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if err != nil {
			r.Bad = "panic"
			r.Msg = err.Error()
			return
		}
		r.Status = resp.StatusCode
		r.NC = wk.NoCache(resp.Header)
		r.Lines, r.Tail = wk.ParseLines(b)
		return
	}
	req := httptest.NewRequest(o.Method, o.Target, bd)
	if o.CT != nil {
		req.Header.Set("Content-Type", *o.CT)
	}
	o.headers(req)
	if o.Proto == "1.0" {
		req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/1.0", 1, 0
	}
	req = req.WithContext(ctx)
	rec := httptest.NewRecorder()
	w.s.ServeHTTP(rec, req)
	r.Status = rec.Code
	r.NC = wk.NoCache(rec.Header())
	r.Lines, r.Tail = wk.ParseLines(rec.Body.Bytes())
	r.Reads = bd.N
}

func (o op) headers(req *http.Request) {
	for _, h := range o.Headers {
		if h[0] == "Host" {
			req.Host = h[1]
		} else {
			req.Header.Set(h[0], h[1])
		}
	}
}

// raw sends the request as bytes and, if the body is to break off, stops sending in the middle of it.
// When the server has closed the connection it has finished with the request.
func (w *world) raw(o op, body []byte, r *result) {
	c, err := net.Dial("unix", w.sock)
	lib.Must(err)
	defer c.Close()
	c.SetDeadline(time.Now().Add(lib.Limit))
	proto := o.Proto
	if proto == "" {
		proto = "1.1"
	}
	n := len(body)
	if o.Break {
		n += 1000
	}
	head := fmt.Sprintf("%s %s HTTP/%s\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n", o.Method, o.Target, proto, n)
	if o.CT != nil {
		head += "Content-Type: " + *o.CT + "\r\n"
	}
	for _, h := range o.Headers {
		if h[0] != "Host" {
			head += h[0] + ": " + h[1] + "\r\n"
		}
	}
	_, err = c.Write(append([]byte(head+"\r\n"), body...))
	if err == nil && o.Break {
		c.(*net.UnixConn).CloseWrite()
	}
	br := bufio.NewReader(c)
	resp, err := http.ReadResponse(br, &http.Request{Method: o.Method})
	if err != nil {
		if !o.Break {
			r.Bad = "panic"
			r.Msg = err.Error()
		}
		return // nobody is there to be answered
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	io.Copy(io.Discard, br)
	if err != nil {
		r.Bad = "panic"
		r.Msg = err.Error()
		return
	}
	r.Status = resp.StatusCode
	r.NC = wk.NoCache(resp.Header)
	r.Lines, r.Tail = wk.ParseLines(b)
}

func fvs(in [][2]string) collation.FVList {
	var out collation.FVList
	for _, x := range in {
		out = append(out, collation.FV{F: lib.Dec(x[0]), V: lib.Dec(x[1])})
	}
	return out
}

func (w *world) write(o op, r *result) {
	ctx, cancel := newContext(o.Cancel)
	defer cancel()
	if o.Cancel != nil {
		cancel()
	}
	now := time.Now()
	row := collation.Row{ReceiveTime: now, DataTime: now, Data: fvs(o.Row)}
	st := w.s.Stores[o.I]
	err := st.Write(ctx, row)
	switch {
	case err == nil:
		r.Res = "ok"
	case errors.Is(err, context.Canceled), errors.Is(err, context.DeadlineExceeded):
		r.Res = "ctx"
	default:
		r.Res = "err"
	}
}

// fill writes values Fam+i of field F, for i in Lo..Hi in the order Mode, to store I in rows
// that also have the fields of Row.
func (w *world) fill(o op, r *result) {
	n := o.Hi - o.Lo + 1
	base := fvs(o.Row)
	st := w.s.Stores[o.I]
	r.Res = "ok"
	one := func(i int) {
		fv := append(append(collation.FVList{}, base...), collation.FV{F: lib.Dec(o.F), V: append(lib.Dec(o.Fam), strconv.Itoa(i)...)})
		if err := st.Write(context.Background(), collation.Row{Data: fv}); err != nil {
			r.Res = "err"
		}
	}
	switch o.Mode {
	case "up":
		for i := 0; i < n; i++ {
			one(o.Lo + i)
		}
	case "down":
		for i := n - 1; i >= 0; i-- {
			one(o.Lo + i)
		}
	case "mix": // every item once, then some again
		p := 7919
		for n%p == 0 {
			p += 2
		}
		for i := 0; i < n+n/2; i++ {
			one(o.Lo + i*p%n)
		}
	}
}

// many writes the same row to store I Hi times.
func (w *world) many(o op, r *result) {
	r.Res = "ok"
	for i := 0; i < o.Hi; i++ {
		if err := w.s.Stores[o.I].Write(context.Background(), collation.Row{Data: fvs(o.Row)}); err != nil {
			r.Res = "err"
			return
		}
	}
}

// search writes one observation for each of Hi different values of field F, to store I, and then
// looks for values whose record has been touched by another; it returns values among which some
// share a record, a small number of them, for a history of their own.
func (w *world) search(o op, r *result) {
	r.Res = "ok"
	st := w.s.Stores[o.I]
	f := lib.Dec(o.F)
	val := func(i int) []byte { return strconv.AppendInt(lib.Dec(o.Fam), int64(i), 36) }
	count := func(v []byte) uint64 {
		res, err := st.Read(context.Background(), collation.Query{Criteria: collation.FVList{{F: f, V: v}},
			FieldMeasures: []collation.FM{{F: []byte("*"), M: [][]byte{[]byte("count")}}}})
		if err != nil || len(res.FieldMeasureValues) == 0 {
			return 0
		}
		var n uint64
		fmt.Sscan(fmt.Sprint(res.FieldMeasureValues[0].V), &n)
		return n
	}
	write := func(v []byte) bool {
		return st.Write(context.Background(), collation.Row{Data: collation.FVList{{F: f, V: v}}}) == nil
	}
	kept := 0
	var first [][]byte
	for i := 0; i < o.Hi; i++ {
		v := val(i)
		if count(v) != 0 && len(first) < 8 { // its record exists already
			first = append(first, v)
		}
		if write(v) {
			kept++
		}
	}
	r.Tail = kept > o.Hi/2
	for _, v := range first { // who else is in it?
		n := count(v)
		for i := 0; i < o.Hi; i++ {
			u := val(i)
			if string(u) == string(v) || count(u) != n {
				continue
			}
			if write(u) && count(v) != n {
				r.Lines = append(r.Lines, line{M: lib.Enc(u), F: lib.Enc(v)})
				n = count(v)
			}
			if len(r.Lines) > 20 {
				return
			}
		}
	}
}

func (w *world) read(o op, r *result) {
	q := collation.Query{Criteria: fvs(o.Crit)}
	idx := map[string]int{}
	for _, s := range o.Sel {
		i, ok := idx[s[1]]
		if !ok {
			i = len(q.FieldMeasures)
			idx[s[1]] = i
			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: lib.Dec(s[1])})
		}
		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, lib.Dec(s[0]))
	}
	st := w.s.Stores[o.I]
	res, err := st.Read(context.Background(), q)
	if err != nil {
		r.Status = 500
		return
	}
	r.Status = 200
	r.Tail = true
	r.Lines = []line{}
	for _, fmv := range res.FieldMeasureValues {
		x := line{Raw: lib.Enc([]byte(fmv.String())), M: lib.Enc(fmv.M), F: lib.Enc(fmv.F), K: "none", V: "0"}
		if v, ok := fmv.V.(float64); ok {
			n := lib.Num(v)
			x.K, x.V = n.K, n.V
		}
		r.Lines = append(r.Lines, x)
	}
}

// canary updates a record in the middle of a larger array and looks at the bytes around it,
// in a buffer with spare capacity and in one without.
func (w *world) canary(o op, r *result) {
	c := w.s.Stores[o.I].Collator
	n := c.Size()
	const pad = 64
	big := make([]byte, n+2*pad)
	for i := range big {
		big[i] = 0xA5
	}
	exact := make([]byte, n)
	spare := big[pad : pad+n]
	for i := range spare {
		spare[i] = 0
	}
	r.Res = "ok"
	for i, row := range o.Rows {
		e1 := c.Update(collation.Row{Data: fvs(row)}, spare, i == 0)
		e2 := c.Update(collation.Row{Data: fvs(row)}, exact, i == 0)
		if (e1 == nil) != (e2 == nil) {
			r.Res = "differ"
		}
		if e1 != nil {
			break
		}
		if !bytes.Equal(spare, exact) {
			r.Res = "differ"
		}
	}
	for i := 0; i < pad; i++ {
		if big[i] != 0xA5 || big[pad+n+i] != 0xA5 {
			r.Res = "outside"
		}
	}
}

func main() {
	var err error
	dir, err = os.MkdirTemp("", "vw")
	lib.Must(err)
	defer os.RemoveAll(dir)
	lib.Lines(func(b []byte) interface{} {
		var c tcase
		lib.Must(json.Unmarshal(b, &c))
		fmt.Fprintln(os.Stderr, "CASE", c.ID)
		out := output{ID: c.ID, Results: []result{}}
		var w *world
		bad, msg := lib.Guard(func() { w, out.Sizes = start(c) })
		if bad != "" {
			out.Results = append(out.Results, result{Bad: bad, Msg: msg, Lines: []line{}})
			return out
		}
		for _, o := range c.Ops {
			o := o
			r := result{Lines: []line{}}
			bad, msg := lib.Guard(func() {
				switch o.Op {
				case "http":
					w.http(o, &r)
				case "write":
					w.write(o, &r)
				case "fill":
					w.fill(o, &r)
				case "many":
					w.many(o, &r)
				case "search":
					w.search(o, &r)
				case "read":
					w.read(o, &r)
				case "canary":
					w.canary(o, &r)
				default:
					lib.Must(errors.New("unknown op " + o.Op))
				}
			})
			if bad != "" {
				r = result{Bad: bad, Msg: msg, Lines: []line{}}
			}
			out.Results = append(out.Results, r)
			if r.Bad != "" {
				break
			}
		}
		os.Remove(w.sock)
		return out
	})
}
