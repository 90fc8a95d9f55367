// Package runtime hands scheduling to the simulation.
package runtime

import "github.com/ti-mo/comfo/zsim/rt"

func Gosched()          { rt.Gosched() }
func NumGoroutine() int {
	if rt.W == nil {
		return 1
	}
	return rt.W.LiveTasks(func(string) bool { return true })
}
func GC() {}
