// Package rand draws from the simulation's choice streams.
package rand

import (
	"github.com/ti-mo/comfo/zsim/rt"
)

func draw(n int64) int64 {
	if rt.W == nil {
		return 0
	}
	return rt.W.Range("mathrand", 0, n-1)
}

func Seed(int64)       {}
func Int() int         { return int(draw(1<<62)) }
func Int63() int64     { return draw(1 << 62) }
func Int31() int32     { return int32(draw(1 << 31)) }
func Uint32() uint32   { return uint32(draw(1 << 32)) }
func Uint64() uint64   { return uint64(draw(1<<32))<<32 | uint64(draw(1<<32)) }
func Intn(n int) int   { check(n > 0); return int(draw(int64(n))) }
func Int63n(n int64) int64 { check(n > 0); return draw(n) }
func Int31n(n int32) int32 { check(n > 0); return int32(draw(int64(n))) }
func Float64() float64 { return float64(draw(1<<53)) / (1 << 53) }
func Float32() float32 { return float32(draw(1<<24)) / (1 << 24) }
func check(ok bool) {
	if !ok {
		panic("invalid argument to rand function")
	}
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := int(draw(int64(i + 1)))
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(draw(int64(i+1))))
	}
}
