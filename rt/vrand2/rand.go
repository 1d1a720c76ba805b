// Package vrand2 stands in for math/rand/v2: results are data choices of the explorer.
package vrand2

import (
	"github.com/browles/drip/zzv/rt/vs"
)

// Explore makes the results data choices (one deviation per non-default answer).
var Explore = false

func choose(n int) int {
	if !Explore || vs.S == nil || n <= 1 {
		return 0
	}
	if n > 4 {
		// lowest, highest and the middle stand for larger ranges
		switch vs.Choose(3, "rand") {
		case 1:
			return n - 1
		case 2:
			return n / 2
		}
		return 0
	}
	return vs.Choose(n, "rand")
}

func Seed(int64)           {}
func Int() int             { return choose(1 << 30) }
func Int31() int32         { return int32(choose(1 << 30)) }
func Int63() int64         { return int64(choose(1 << 30)) }
func Uint32() uint32       { return uint32(choose(1 << 30)) }
func Uint64() uint64       { return uint64(choose(1 << 30)) }
func Intn(n int) int       { return choose(n) }
func Int31n(n int32) int32 { return int32(choose(int(n))) }
func Int63n(n int64) int64 { return int64(choose(int(n))) }
func IntN(n int) int       { return choose(n) }

func Float64() float64 {
	if choose(2) == 1 {
		return 0.75
	}
	return 0.25
}
func Float32() float32 { return float32(Float64()) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		j := i
		if Explore {
			j = i - choose(i+1)
		}
		swap(i, j)
	}
}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(i)
	}
	return len(p), nil
}

func Int32() int32            { return int32(choose(1 << 30)) }
func Int32N(n int32) int32    { return int32(choose(int(n))) }
func Int64() int64            { return int64(choose(1 << 30)) }
func Int64N(n int64) int64    { return int64(choose(int(n))) }
func Uint() uint              { return uint(choose(1 << 30)) }
func UintN(n uint) uint       { return uint(choose(int(n))) }
func Uint32N(n uint32) uint32 { return uint32(choose(int(n))) }
func Uint64N(n uint64) uint64 { return uint64(choose(int(n))) }

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func N[T integer](n T) T { return T(choose(int(n))) }
