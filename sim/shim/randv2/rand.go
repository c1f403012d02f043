// Package rand is math/rand/v2 drawing from the run's choice streams.
package rand

import (
	r "math/rand/v2"

	"verif.local/sim/simrt"
)

type (
	Source = r.Source
	Rand   = r.Rand
)

type src struct{}

func (s src) Uint64() uint64 {
	if simrt.S == nil {
		return 1
	}
	st := simrt.NamedStream("rand")
	return uint64(st.Choose(1<<30))<<34 ^ uint64(st.Choose(1<<30))<<8 ^ uint64(st.Choose(256))
}

func g() *Rand                           { return r.New(src{}) }
func New(s Source) *Rand                 { return r.New(s) }
func NewPCG(a, b uint64) *r.PCG          { return r.NewPCG(a, b) }
func Int() int                           { return g().Int() }
func IntN(n int) int                     { return g().IntN(n) }
func Int32() int32                       { return g().Int32() }
func Int32N(n int32) int32               { return g().Int32N(n) }
func Int64() int64                       { return g().Int64() }
func Int64N(n int64) int64               { return g().Int64N(n) }
func Uint32() uint32                     { return g().Uint32() }
func Uint32N(n uint32) uint32            { return g().Uint32N(n) }
func Uint64() uint64                     { return g().Uint64() }
func Uint64N(n uint64) uint64            { return g().Uint64N(n) }
func Float32() float32                   { return g().Float32() }
func Float64() float64                   { return g().Float64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func N[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(g().Uint64N(uint64(n)))
}
