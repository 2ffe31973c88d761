// Package lib holds what the drivers share: the text encoding of byte strings,
// exact numbers, and running a call under a time limit.
package lib

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

// Enc writes bytes as printable ASCII, other bytes and % as %XX.
func Enc(b []byte) string {
	var sb strings.Builder
	for _, c := range b {
		if c < 32 || c > 126 || c == '%' {
			fmt.Fprintf(&sb, "%%%02X", c)
		} else {
			sb.WriteByte(c)
		}
	}
	return sb.String()
}

// Dec is the inverse of Enc.
func Dec(s string) []byte {
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			var c int
			if _, err := fmt.Sscanf(s[i+1:i+3], "%02X", &c); err != nil {
				panic("bad encoding " + s)
			}
			out = append(out, byte(c))
			i += 2
		} else {
			out = append(out, s[i])
		}
	}
	return out
}

// Number is a float64 as an exact rational ("n" or "n/d"), or a NaN or infinity.
type Number struct {
	K string `json:"k"`
	V string `json:"v"`
}

func Num(f float64) Number {
	switch {
	case math.IsNaN(f):
		return Number{"nan", "0"}
	case math.IsInf(f, 1):
		return Number{"pinf", "0"}
	case math.IsInf(f, -1):
		return Number{"ninf", "0"}
	}
	r := new(big.Rat)
	r.SetFloat64(f)
	if r.IsInt() {
		return Number{"num", r.Num().String()}
	}
	return Number{"num", r.Num().String() + "/" + r.Denom().String()}
}

// Limit is the time after which a call of the code under test counts as hanging.
const Limit = 20 * time.Second

// Guard runs f and reports whether it "hang"s or "panic"s; "" if neither.
func Guard(f func()) (string, string) { return GuardFor(Limit, f) }

// GuardFor is Guard with another limit.
func GuardFor(limit time.Duration, f func()) (string, string) {
	done := make(chan [2]string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- [2]string{"panic", fmt.Sprint(r, "\n", string(debug.Stack()))}
			}
		}()
		f()
		done <- [2]string{"", ""}
	}()
	select {
	case r := <-done:
		return r[0], r[1]
	case <-time.After(limit):
		return "hang", ""
	}
}

// Lines calls fn with each JSON line of the file named by the first argument and
// writes each result as a line of the file named by the second.
func Lines(fn func(line []byte) interface{}) {
	in, err := os.Open(os.Args[1])
	Must(err)
	out, err := os.Create(os.Args[2])
	Must(err)
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 0 {
			Must(enc.Encode(fn(line)))
		}
		if err != nil {
			break
		}
	}
	Must(out.Close())
}

func Must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR", err)
		os.Exit(3)
	}
}
