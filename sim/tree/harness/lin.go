package harness

import (
	"sort"
)

// LinOp is one operation of a history. Ret is the event number of its return; pending or failed operations, whose
// effect may come at any later time or never, have Maybe set.
type LinOp struct {
	Call, Ret uint64
	Maybe     bool
	Desc      string
	// Step applies the operation to a state; ok is false if the state does not permit the recorded outcome.
	Step func(s string) (next []string)
}

const linInf = ^uint64(0)

// linearizable decides whether the history has a legal sequential order (Wing & Gong with memoisation). It reports
// unknown if it gives up.
func linearizable(init string, ops []*LinOp) (ok, unknown bool) {
	n := len(ops)
	if n > 62 {
		return true, true
	}
	ord := append([]*LinOp(nil), ops...)
	sort.SliceStable(ord, func(i, j int) bool { return ord[i].Call < ord[j].Call })
	var must uint64
	for i, o := range ord {
		if !o.Maybe {
			must |= 1 << uint(i)
		}
	}
	type key struct {
		mask uint64
		st   string
	}
	seen := map[key]bool{}
	budget := 400000
	var rec func(mask uint64, st string) bool
	rec = func(mask uint64, st string) bool {
		if mask&must == must {
			return true
		}
		k := key{mask, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		if budget--; budget < 0 {
			return false
		}
		// the earliest return among the operations that must still be placed
		min := linInf
		for i, o := range ord {
			if mask&(1<<uint(i)) == 0 && !o.Maybe && o.Ret < min {
				min = o.Ret
			}
		}
		for i, o := range ord {
			if mask&(1<<uint(i)) != 0 || o.Call > min {
				continue
			}
			for _, nx := range o.Step(st) {
				if rec(mask|1<<uint(i), nx) {
					return true
				}
			}
		}
		return false
	}
	r := rec(0, init)
	return r || budget < 0, budget < 0
}
