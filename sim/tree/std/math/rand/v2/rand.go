// Package rand draws from the simulation's choice streams.
package rand

import "github.com/ti-mo/comfo/zsim/rt"

func draw(n int64) int64 {
	if rt.W == nil {
		return 0
	}
	return rt.W.Range("mathrand", 0, n-1)
}

func Int() int               { return int(draw(1 << 62)) }
func Int64() int64           { return draw(1 << 62) }
func Uint32() uint32         { return uint32(draw(1 << 32)) }
func IntN(n int) int         { return int(draw(int64(n))) }
func Int64N(n int64) int64   { return draw(n) }
func Int32N(n int32) int32   { return int32(draw(int64(n))) }
func UintN(n uint) uint      { return uint(draw(int64(n))) }
func Float64() float64       { return float64(draw(1<<53)) / (1 << 53) }
func N[I ~int | ~int64 | ~int32 | ~uint | ~uint64 | ~uint32](n I) I { return I(draw(int64(n))) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := int(draw(int64(i + 1)))
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(draw(int64(i+1))))
	}
}
