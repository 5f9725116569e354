// Package bubble runs code with a clock of its own (that of testing/synctest):
// sleeping takes no time, and the time starts at 2000-01-01.
package bubble

import (
	"fmt"
	_ "testing/synctest"
	_ "unsafe"
)

//go:linkname run internal/synctest.Run
func run(f func())

// Run f; a panic of f is passed on.
func Run(f func()) {
	done := false
	var caught interface{}
	func() {
		defer func() {
			// goroutines left behind are not our business
			if m := recover(); m != nil && !done {
				caught = fmt.Sprintf("in bubble: %v", m)
			}
		}()
		run(func() {
			defer func() { caught = recover(); done = true }()
			f()
		})
	}()
	if caught != nil {
		panic(caught)
	}
}
