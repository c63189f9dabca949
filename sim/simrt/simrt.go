// Package simrt is the run-time half of the statement-level instrumentation.
// The instrumented copy of the library calls Step before every statement; the
// simulator uses it to count work, to bound it, and to pre-empt tasks.
//
// Only one simulated task runs at any time and control is handed over through
// channels, so the plain variables below are never accessed concurrently.
package simrt

import (
	"math"
	"sync/atomic"
	"unsafe"
)

var (
	// Steps counts instrumented statements executed by the library.
	Steps int64
	// Trip is the step count at which OnTrip is called.
	Trip int64 = math.MaxInt64
	// OnTrip is called, on the goroutine executing library code, when Steps
	// reaches Trip. It must move Trip forward or panic.
	OnTrip func()

	// Wait parks the current task until cond holds (simulated locks). Nil
	// when no scheduler is active.
	Wait func(what string, cond func() bool)

	// Foreign is set if the library starts goroutines of its own. They are not
	// scheduled by the simulator; statements are then counted, but neither
	// pre-empted nor bounded.
	Foreign bool

	resets []func()

	// Instrumented is the number of step sites compiled in (0: the library
	// was built without instrumentation).
	Instrumented int
)

// Step is called before every statement of the instrumented library.
func Step() {
	if Foreign {
		atomic.AddInt64(&Steps, 1)
		return
	}
	Steps++
	if Steps >= Trip {
		OnTrip()
	}
}

// Work charges library calls that look at n bytes.
func Work(n int) {
	if Foreign {
		return
	}
	Steps += int64(n) / 8
}

// N charges a built-in copy of n elements.
func N(n int) int {
	Work(n)
	return n
}

// S charges for a string or slice that is appended as a whole.
func S[T any](v T) T {
	switch unsafe.Sizeof(v) {
	case 2 * unsafe.Sizeof(uintptr(0)), 3 * unsafe.Sizeof(uintptr(0)): // string, slice
		Work(*(*int)(unsafe.Add(unsafe.Pointer(&v), unsafe.Sizeof(uintptr(0)))))
	}
	return v
}

// Register is called by the instrumented library from an init function. reset
// restores all package-level variables to their initial values.
func Register(sites int, reset func()) {
	Instrumented += sites
	resets = append(resets, reset)
}

// ResetPackages restores the package-level state of the instrumented library.
func ResetPackages() {
	old := Trip
	Trip = math.MaxInt64
	closed = nil
	for _, f := range resets {
		f()
	}
	Trip = old
}

// Deadlock is the panic value used when a lock can never be obtained.
type Deadlock struct{ What string }

// Block waits until cond holds.
func Block(what string, cond func() bool) {
	if cond() {
		return
	}
	if Wait == nil {
		panic(Deadlock{what})
	}
	Wait(what, cond)
}

// Channel operations of library code. Buffered channels (semaphores, free
// lists) are simulated: the task parks until the operation can proceed.
// Unbuffered ones stay real, as both sides would have to be in the library.

var closed []unsafe.Pointer

func isClosed(p unsafe.Pointer) bool {
	for _, q := range closed {
		if p == q {
			return true
		}
	}
	return false
}

func id[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// Send returns the function that sends on c.
func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		if cap(c) > 0 {
			Block("channel send", func() bool { return len(c) < cap(c) || isClosed(id(c)) })
		}
		c <- v
	}
}

// Recv receives from c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 receives from c.
func Recv2[T any](c <-chan T) (T, bool) {
	if cap(c) > 0 {
		Block("channel receive", func() bool { return len(c) > 0 || isClosed(id(c)) })
	}
	v, ok := <-c
	return v, ok
}

// Close closes c.
func Close[T any](c chan<- T) {
	close(c)
	closed = append(closed, id(c))
}
