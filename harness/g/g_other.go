// +build !amd64

package g

import (
	"bytes"
	"runtime"
	"strconv"
)

// ID is different for different running goroutines.
func ID() uintptr {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	b := bytes.TrimPrefix(buf[:n], []byte("goroutine "))
	i := bytes.IndexByte(b, ' ')
	id, _ := strconv.Atoi(string(b[:i]))
	return uintptr(id)
}
