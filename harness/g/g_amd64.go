// Package g identifies goroutines.
package g

// ID is different for different running goroutines.
func ID() uintptr
