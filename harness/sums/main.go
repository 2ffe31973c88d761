// Driver for the summary packages: runs sequences of calls and reports their results.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"strconv"
	"time"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/hash/fnv"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/summary/stat64"
	"github.com/iand/starbow/internal/verifdrv/lib"
)

// op is one call; which fields matter depends on E.
type op struct {
	E, O, Kind      string
	N, M, W, K, P   int
	Pr              float64 // false positive rate
	I, V            int
	How, Reader     string
	Buf             string
	Bytes           []int // input of read
	Of              string
	Cut             int // bytes taken off the end of the written form
	Patch           [][2]int
	Extra           []int
	Lim             int
	X               string
	Vs              []string
	Multi           bool
	A               bool
	Call            string
	Pre             []int
	Room            int
	Items, Probes   int
	Family          string
	Seed            int64
	Fault           bool
	FaultAt, Repeat int
}

type res map[string]interface{}

type machine struct {
	bb   map[string]*bitbucket.BitBucket
	bl   map[string]*bloom.Bloom
	hl   map[string]*hll.Counter
	st   map[string]stat64.Summary
	f1   map[string]*fnv.Fnv64
	f1a  map[string]*fnv.Fnv64a
	bufs map[string][]byte
}

type serial interface {
	WriteTo(io.Writer) (int64, error)
	Len() int
}

func (m *machine) obj(o op) serial {
	switch o.Kind {
	case "bb":
		return m.bb[o.O]
	case "bloom":
		return m.bl[o.O]
	}
	return m.hl[o.O]
}

// ints is a byte slice as a JSON list
func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, c := range b {
		out[i] = int(c)
	}
	return out
}

func unints(v []int) []byte {
	out := make([]byte, len(v))
	for i, c := range v {
		out[i] = byte(c)
	}
	return out
}

func limbs(h uint64) []int {
	return []int{int(h & 0xffff), int(h >> 16 & 0xffff), int(h >> 32 & 0xffff), int(h >> 48)}
}

// clamp keeps n within TLC's integers
func clamp(n int64) int64 {
	if n > math.MaxInt32 {
		return math.MaxInt32
	}
	if n < -math.MaxInt32 {
		return -math.MaxInt32
	}
	return n
}

// limited fails after lim bytes (never if negative)
type limited struct {
	buf bytes.Buffer
	lim int
}

var errFault = errors.New("fault injected by the driver")

func (l *limited) Write(p []byte) (int, error) {
	if l.lim >= 0 && l.buf.Len()+len(p) > l.lim {
		n := l.lim - l.buf.Len()
		l.buf.Write(p[:n])
		return n, errFault
	}
	return l.buf.Write(p)
}

// reader returns data in one of several manners, and fails with errFault at byte fault if fault >= 0
type reader struct {
	data  []byte
	pos   int
	kind  string
	fault int
	rng   *rand.Rand
	turn  int
}

func (r *reader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	r.turn++
	if r.kind == "zero" && r.turn%2 == 0 {
		return 0, nil
	}
	end := len(r.data)
	if r.fault >= 0 && r.fault < end {
		end = r.fault
	}
	n := len(p)
	switch r.kind {
	case "one", "zero":
		n = 1
	case "half":
		n = (n + 1) / 2
	case "rand", "randeof":
		n = 1 + r.rng.Intn(n)
	}
	if n > end-r.pos {
		n = end - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == end {
		if r.fault >= 0 {
			if n == 0 || r.kind == "eof" {
				return n, errFault
			}
			return n, nil
		}
		if n == 0 || r.kind == "eof" || r.kind == "randeof" {
			return n, io.EOF
		}
	}
	return n, nil
}

// layout version 1
func unpack(body []byte, w, i int) int {
	v := 0
	for j := i * w; j < (i+1)*w; j++ {
		v = v<<1 | int(body[j/8]>>(7-uint(j%8))&1)
	}
	return v
}

func written(s serial) []byte {
	var b bytes.Buffer
	_, err := s.WriteTo(&b)
	if err != nil {
		panic(err)
	}
	return b.Bytes()
}

func diff(a, b []byte) [][]int {
	out := [][]int{}
	if len(a) != len(b) || len(a) < 12 {
		return [][]int{{-1, -1}}
	}
	w := int(a[3])
	ba, bbd := a[12:], b[12:]
	if bytes.Equal(ba, bbd) {
		return out
	}
	n := len(ba) * 8 / w
	last := -1
	for k := range ba {
		if ba[k] == bbd[k] {
			continue
		}
		for i := k * 8 / w; i <= (k*8+7)/w && i < n; i++ {
			if i <= last {
				continue
			}
			last = i
			if x, y := unpack(ba, w, i), unpack(bbd, w, i); x != y {
				out = append(out, []int{i, y})
			}
		}
	}
	return out
}

// item is element i of a family of items
func item(family string, seed int64, i int) []byte {
	switch family {
	case "dec":
		return []byte(strconv.Itoa(i))
	case "pad":
		return []byte(fmt.Sprintf("item-%08d-%d", i, seed))
	case "ip":
		return []byte(fmt.Sprintf("10.%d.%d.%d", i>>16&255, i>>8&255, i&255))
	case "be":
		return []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}
	case "pre":
		return []byte(strconv.Itoa(i) + "-the same long suffix for every item")
	}
	if len(family) > 4 {
		n, err := strconv.Atoi(family[4:])
		lib.Must(err)
		long := bytes.Repeat([]byte(fmt.Sprintf("%d item number ", seed)), n/8)[:n]
		switch family[:4] {
		case "tail":
			return append(long, strconv.Itoa(i)...)
		case "head":
			return append([]byte(strconv.Itoa(i)), long...)
		case "both":
			return append(append(append([]byte{}, long...), strconv.Itoa(i)...), long...)
		}
	}
	x := uint64(i)*0x9E3779B97F4A7C15 + uint64(seed)*0xD1B54A32D192ED03
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	return []byte(strconv.FormatUint(x, 36))
}

func (m *machine) run(o op) res {
	r := res{}
	switch o.E {
	case "new":
		switch o.Kind {
		case "bb":
			b := bitbucket.New(o.N, uint8(o.W))
			m.bb[o.O] = &b
			r["len"], r["plen"] = b.Len(), bitbucket.Len(o.N, uint8(o.W))
		case "bloom":
			var b bloom.Bloom
			r["plen"] = -1
			if o.Pr > 0 {
				b = bloom.New(o.N, o.Pr)
				r["plen"] = bloom.Len(o.N, o.Pr)
			} else {
				b = bloom.NewBits(o.M, uint8(o.K))
			}
			m.bl[o.O] = &b
			w := written(&b)
			r["len"], r["k"] = b.Len(), int(w[1])
			r["m"] = int(w[4]) | int(w[5])<<8 | int(w[6])<<16
		case "hll":
			c := hll.New(uint8(o.P))
			m.hl[o.O] = &c
			r["len"], r["plen"] = c.Len(), hll.Len(uint8(o.P))
		}
	case "set":
		m.bb[o.O].Set(o.I, uint8(o.V))
	case "incn":
		m.bb[o.O].IncN(o.I, uint8(o.V))
	case "get":
		r["r"] = int(m.bb[o.O].Get(o.I))
	case "dump":
		b := m.bb[o.O]
		v := make([]int, b.Count())
		for i := range v {
			v[i] = int(b.Get(i))
		}
		r["r"] = v
	case "countn":
		r["r"] = m.bb[o.O].CountN(uint8(o.V))
	case "info":
		b := m.bb[o.O]
		r["count"], r["width"], r["max"], r["len"] = b.Count(), int(b.Width()), int(b.Max()), b.Len()
	case "reset":
		switch o.Kind {
		case "bb":
			m.bb[o.O].Reset()
		case "bloom":
			m.bl[o.O].Reset()
		case "hll":
			m.hl[o.O].Reset()
		}
	case "write":
		l := &limited{lim: o.Lim}
		s := m.obj(o)
		n, err := s.WriteTo(l)
		r["n"], r["ok"], r["bytes"], r["len"] = n, err == nil, ints(l.buf.Bytes()), s.Len()
	case "read":
		data := unints(o.Bytes)
		if o.Of != "" {
			src := o
			src.O = o.Of
			data = written(m.obj(src))
			if o.Cut > 0 {
				data = data[:len(data)-o.Cut%(len(data)+1)]
			}
			for _, p := range o.Patch {
				if p[0] < len(data) {
					data[p[0]] = byte(p[1])
				}
			}
			data = append(data, unints(o.Extra)...)
		}
		r["bytes"] = ints(data)
		var err error
		var n int64
		if o.How == "with" {
			// capacity equal to length, so that nothing beyond can be touched
			data = data[:len(data):len(data)]
			if o.Buf != "" {
				if b, ok := m.bufs[o.Buf]; ok {
					data = b
					r["bytes"] = ints(data)
				} else {
					m.bufs[o.Buf] = data
				}
			}
			switch o.Kind {
			case "bb":
				var b bitbucket.BitBucket
				b, err = bitbucket.WithBytes(data)
				m.bb[o.O] = &b
			case "bloom":
				var b bloom.Bloom
				b, err = bloom.WithBytes(data)
				m.bl[o.O] = &b
			case "hll":
				var c hll.Counter
				c, err = hll.WithBytes(data)
				m.hl[o.O] = &c
			}
		} else {
			fault := -1
			if o.Fault {
				fault = o.FaultAt % (len(data) + 1)
			}
			rd := &reader{data: data, kind: o.Reader, fault: fault, rng: rand.New(rand.NewSource(o.Seed))}
			switch o.Kind {
			case "bb":
				b := m.bb[o.O]
				if b == nil {
					b = &bitbucket.BitBucket{}
				}
				n, err = b.ReadFrom(rd)
				m.bb[o.O] = b
			case "bloom":
				b := m.bl[o.O]
				if b == nil {
					b = &bloom.Bloom{}
				}
				n, err = b.ReadFrom(rd)
				m.bl[o.O] = b
			case "hll":
				c := m.hl[o.O]
				if c == nil {
					c = &hll.Counter{}
				}
				n, err = c.ReadFrom(rd)
				m.hl[o.O] = c
			}
		}
		r["ok"], r["n"] = err == nil, n
		if err != nil {
			r["err"] = err.Error()
			delete(m.bb, o.O)
			delete(m.bl, o.O)
			delete(m.hl, o.O)
		}
	case "buf":
		r["bytes"] = ints(m.bufs[o.Buf])
	case "badd":
		b := m.bl[o.O]
		before := written(b)
		x := lib.Dec(o.X)
		b.Add(x)
		r["diff"] = diff(before, written(b))
		r["has"] = b.Has(x)
	case "has":
		r["r"] = m.bl[o.O].Has(lib.Dec(o.X))
	case "bstat":
		b := m.bl[o.O]
		r["count"], r["rate"] = clamp(b.Count()), lib.Num(b.ErrorRate())
	case "bbatch":
		b := bloom.New(o.N, o.Pr)
		for i := 0; i < o.Items; i++ {
			b.Add(item(o.Family, o.Seed, i))
		}
		for i := 0; i < o.Repeat; i++ {
			b.Add(item(o.Family, o.Seed, i%o.Items))
		}
		missing, fp, after := 0, 0, 0
		for i := 0; i < o.Items; i++ {
			if !b.Has(item(o.Family, o.Seed, i)) {
				missing++
			}
		}
		for i := 0; i < o.Probes; i++ {
			if b.Has(item(o.Family, o.Seed, 1<<22+i)) {
				fp++
			}
		}
		r["missing"], r["fp"], r["count"], r["rate"], r["p"] = missing, fp, clamp(b.Count()), lib.Num(b.ErrorRate()), lib.Num(o.Pr).V
		r["k"] = int(written(&b)[1])
		b.Reset()
		for i := 0; i < o.Items; i++ {
			if b.Has(item(o.Family, o.Seed, i)) {
				after++
			}
		}
		r["after"] = after
	case "hadd":
		c := m.hl[o.O]
		before := written(c)
		c.Add(lib.Dec(o.X))
		r["diff"] = diff(before, written(c))
	case "hcount":
		r["r"] = clamp(m.hl[o.O].Count())
	case "hbatch":
		rng := rand.New(rand.NewSource(o.Seed))
		c := hll.New(uint8(o.P))
		fresh := written(&c)
		r["count0"] = clamp(c.Count())
		for i := 0; i < o.Items; i++ {
			c.Add(item(o.Family, o.Seed, i))
		}
		count := c.Count()
		r["count"] = clamp(count)
		w := written(&c)
		for i := 0; i < o.Repeat; i++ {
			c.Add(item(o.Family, o.Seed, rng.Intn(o.Items)))
		}
		r["again"] = bytes.Equal(w, written(&c)) && c.Count() == count
		d := hll.New(uint8(o.P))
		if o.Items > 200000 {
			for i := o.Items - 1; i >= 0; i-- {
				d.Add(item(o.Family, o.Seed, i))
			}
		} else {
			for _, i := range rng.Perm(o.Items) {
				d.Add(item(o.Family, o.Seed, i))
			}
		}
		r["twin"] = bytes.Equal(w, written(&d)) && d.Count() == count
		c.Reset()
		r["reset"] = bytes.Equal(fresh, written(&c)) && c.Count() == 0
	case "snew":
		if o.Buf == "" {
			m.st[o.O] = stat64.New()
		} else {
			// a buffer with other data behind the summary
			b := bytes.Repeat([]byte{0xAB}, stat64.Len()+9)
			if o.A {
				_ = stat64.Reset(b[:stat64.Len()])
			} else {
				copy(b, make([]byte, stat64.Len()))
			}
			m.st[o.O] = stat64.WithBytes(b)
		}
	case "supdate":
		vs := make([]float64, len(o.Vs))
		out := make([]lib.Number, len(o.Vs))
		for i, s := range o.Vs {
			f, err := strconv.ParseFloat(s, 64)
			lib.Must(err)
			vs[i] = f
			out[i] = lib.Num(f)
		}
		r["vs"] = out
		s := m.st[o.O]
		if o.Multi {
			s.UpdateMulti(vs)
		} else {
			for _, v := range vs {
				s.Update(v)
			}
		}
	case "sreset":
		var err error
		if o.Multi {
			err = stat64.Reset(m.st[o.O][:stat64.Len()])
		} else {
			err = m.st[o.O].Reset()
		}
		r["ok"] = err == nil
	case "sread":
		s := m.st[o.O]
		n := s.Count()
		if n > math.MaxInt32 {
			n = math.MaxInt32
		}
		r["count"], r["sum"], r["mean"], r["var"], r["len"] = n, lib.Num(s.Sum()), lib.Num(s.Mean()), lib.Num(s.Variance()), s.Len()
		for _, c := range s[stat64.Len():] {
			if c != 0xAB {
				r["len"] = -1 // wrote beyond the summary
			}
		}
	case "fnew":
		if o.A {
			m.f1a[o.O] = fnv.New64a()
		} else {
			m.f1[o.O] = fnv.New64()
		}
	case "freset":
		if o.A {
			m.f1a[o.O].Reset()
		} else {
			m.f1[o.O].Reset()
		}
	case "fwrite":
		var h interface {
			Write([]byte) (int, error)
			WriteByte(byte) error
			WriteString(string) (int, error)
			WriteUint64(uint64)
		}
		if o.A {
			h = m.f1a[o.O]
		} else {
			h = m.f1[o.O]
		}
		b := unints(o.Bytes)
		n, err := len(b), error(nil)
		switch o.Call {
		case "write":
			n, err = h.Write(b)
		case "string":
			n, err = h.WriteString(string(b))
		case "byte":
			err = h.WriteByte(b[0])
		case "uint64":
			v := uint64(0)
			for _, c := range b {
				v = v<<8 | uint64(c)
			}
			h.WriteUint64(v)
		}
		r["n"], r["ok"] = n, err == nil
	case "fsum":
		if o.A {
			h := m.f1a[o.O]
			r["h"], r["size"], r["block"] = limbs(h.Sum64()), h.Size(), h.BlockSize()
		} else {
			h := m.f1[o.O]
			r["h"], r["size"], r["block"] = limbs(h.Sum64()), h.Size(), h.BlockSize()
		}
	case "fappend":
		pre := unints(o.Pre)
		if o.Room > 0 { // room for more, with something in it
			b := bytes.Repeat([]byte{0xa5}, len(pre)+o.Room)
			copy(b, pre)
			pre = b[:len(pre)]
		}
		var out []byte
		if o.A {
			out = m.f1a[o.O].Sum(pre)
		} else {
			out = m.f1[o.O].Sum(pre)
		}
		r["bytes"] = ints(out)
	case "fhelp":
		b := unints(o.Bytes)
		r["s64"], r["s64a"] = limbs(fnv.String64(string(b))), limbs(fnv.String64a(string(b)))
		r["b64"], r["b64a"] = limbs(fnv.Sum64(b)), limbs(fnv.Sum64a(b))
	}
	return r
}

func main() {
	lib.Lines(func(line []byte) interface{} {
		var c struct {
			ID  int `json:"id"`
			Ops []op
		}
		lib.Must(json.Unmarshal(line, &c))
		fmt.Fprintln(os.Stderr, "CASE", c.ID)
		m := &machine{map[string]*bitbucket.BitBucket{}, map[string]*bloom.Bloom{}, map[string]*hll.Counter{},
			map[string]stat64.Summary{}, map[string]*fnv.Fnv64{}, map[string]*fnv.Fnv64a{}, map[string][]byte{}}
		out := []res{}
		for _, o := range c.Ops {
			var r res
			bad, msg := lib.GuardFor(lib.Limit+time.Duration(o.Items+o.Probes)*20*time.Microsecond, func() { r = m.run(o) })
			if bad != "" {
				out = append(out, res{"bad": bad, "msg": msg})
				break
			}
			out = append(out, r)
		}
		return map[string]interface{}{"id": c.ID, "results": out}
	})
}
