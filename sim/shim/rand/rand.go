// Package rand is math/rand drawing from the run's choice streams.
package rand

import (
	r "math/rand"

	"verif.local/sim/simrt"
)

type (
	Source   = r.Source
	Source64 = r.Source64
	Rand     = r.Rand
)

type src struct{ st *simrt.Stream }

func (s src) Uint64() uint64 {
	if simrt.S == nil {
		return 1
	}
	st := simrt.NamedStream("rand")
	return uint64(st.Choose(1<<30))<<34 ^ uint64(st.Choose(1<<30))<<8 ^ uint64(st.Choose(256))
}
func (s src) Int63() int64 { return int64(s.Uint64() >> 1) }
func (s src) Seed(int64)   {}

func NewSource(seed int64) Source { return r.NewSource(seed) }
func New(s Source) *Rand          { return r.New(s) }

func g() *Rand { return r.New(src{}) }

func Seed(int64)                         {}
func Int() int                           { return g().Int() }
func Intn(n int) int                     { return g().Intn(n) }
func Int31() int32                       { return g().Int31() }
func Int31n(n int32) int32               { return g().Int31n(n) }
func Int63() int64                       { return g().Int63() }
func Int63n(n int64) int64               { return g().Int63n(n) }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Float32() float32                   { return g().Float32() }
func Float64() float64                   { return g().Float64() }
func ExpFloat64() float64                { return g().ExpFloat64() }
func NormFloat64() float64               { return g().NormFloat64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return g().Read(p) }
