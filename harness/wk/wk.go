// Package wk has what the drivers of the server share.
package wk

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/verifdrv/lib"
)

type Measure struct {
	M string
	P int
}

type Store struct {
	Name     string
	Keys     []string
	Rows     []string
	Measures []struct {
		F  string
		Ms []Measure
	}
	Slots int
}

type Line struct {
	Raw string `json:"raw"`
	M   string `json:"m"`
	F   string `json:"f"`
	K   string `json:"k"`
	V   string `json:"v"`
}

// SchemaOf builds a schema.
func SchemaOf(st Store) collation.Schema {
	sch := collation.Schema{Name: string(lib.Dec(st.Name))}
	for _, k := range st.Keys {
		sch.Keys = append(sch.Keys, collation.KeySpec{Field: collation.FieldSpec{Pattern: string(lib.Dec(k))}})
	}
	for _, r := range st.Rows {
		if r != "count" {
			lib.Must(errors.New("unknown record measure " + r))
		}
		sch.RecordMeasures = append(sch.RecordMeasures, collation.Count{})
	}
	for _, m := range st.Measures {
		ms := collation.MeasureSpec{Field: collation.FieldSpec{Pattern: string(lib.Dec(m.F))}}
		for _, x := range m.Ms {
			var me collation.Measure
			switch x.M {
			case "sum":
				me = collation.Sum{}
			case "mean":
				me = collation.Mean{}
			case "var":
				me = collation.Variance{}
			case "max":
				me = collation.Max{}
			case "min":
				me = collation.Min{}
			case "uniquecount":
				me = collation.Cardinality{Precision: x.P}
			default:
				lib.Must(errors.New("unknown measure " + x.M))
			}
			ms.Measures = append(ms.Measures, me)
		}
		sch.Measures = append(sch.Measures, ms)
	}
	return sch
}

// Body delivers data in chunks and tells hook about each read.
type Body struct {
	Data   []byte
	Chunks []int
	Hook   func(n int)
	N      int
	Zero   bool  // every other read returns nothing
	With   bool  // the end, or the error, comes with the last bytes
	Break  error // how the body ends if not with io.EOF
	idle   bool
}

func (b *Body) end() error {
	if b.Break != nil {
		return b.Break
	}
	return io.EOF
}

func (b *Body) Read(p []byte) (int, error) {
	b.N++
	if b.Hook != nil {
		b.Hook(b.N)
	}
	if b.Zero {
		if b.idle = !b.idle; b.idle {
			return 0, nil
		}
	}
	if len(b.Data) == 0 {
		return 0, b.end()
	}
	n := len(b.Data)
	if len(b.Chunks) > 0 {
		c := b.Chunks[len(b.Chunks)-1]
		if b.N <= len(b.Chunks) {
			c = b.Chunks[b.N-1]
		}
		if c < n {
			n = c
		}
	}
	n = copy(p, b.Data[:n])
	b.Data = b.Data[n:]
	if b.With && len(b.Data) == 0 {
		return n, b.end()
	}
	return n, nil
}

func (b *Body) Close() error { return nil }

// ParseLines takes the text of a response apart.
func ParseLines(b []byte) ([]Line, bool) {
	out := []Line{}
	if len(b) == 0 {
		return out, true
	}
	tail := b[len(b)-1] == '\n'
	if tail {
		b = b[:len(b)-1]
	}
	for _, l := range bytes.Split(b, []byte{'\n'}) {
		if len(l) > 100000 {
			l = l[:100000]
		}
		x := Line{Raw: lib.Enc(l), K: "none", V: "0"}
		if p, e := bytes.IndexByte(l, '('), bytes.LastIndex(l, []byte(")=")); p >= 0 && e > p {
			if v, err := strconv.ParseFloat(string(l[e+2:]), 64); err == nil {
				n := lib.Num(v)
				x.M, x.F, x.K, x.V = lib.Enc(l[:p]), lib.Enc(l[p+1:e]), n.K, n.V
			}
		}
		out = append(out, x)
	}
	return out, tail
}

// NoCache reports whether a response must not be cached.
func NoCache(h http.Header) bool {
	v := strings.ToLower(strings.Join(h.Values("Cache-Control"), ","))
	return strings.Contains(v, "no-cache") || strings.Contains(v, "no-store")
}
