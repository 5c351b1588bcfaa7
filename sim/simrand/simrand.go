// Package simrand replaces the top-level functions of math/rand.
package simrand

import (
	"math/rand"

	"verifsim/simrt"
)

type src struct{}

func (src) Int63() int64 { return int64(src{}.Uint64() >> 1) }
func (src) Uint64() uint64 {
	if v, ok := simrt.Draw(simrt.StreamRand); ok {
		return v
	}
	return rand.Uint64()
}
func (src) Seed(int64) {}

var r = rand.New(src{})

func ExpFloat64() float64                { return r.ExpFloat64() }
func Float32() float32                   { return r.Float32() }
func Float64() float64                   { return r.Float64() }
func Int() int                           { return r.Int() }
func Int31() int32                       { return r.Int31() }
func Int31n(n int32) int32               { return r.Int31n(n) }
func Int63() int64                       { return r.Int63() }
func Int63n(n int64) int64               { return r.Int63n(n) }
func Intn(n int) int                     { return r.Intn(n) }
func NormFloat64() float64               { return r.NormFloat64() }
func Perm(n int) []int                   { return r.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r.Shuffle(n, swap) }
func Uint32() uint32                     { return r.Uint32() }
func Uint64() uint64                     { return r.Uint64() }
func Seed(int64)                         {}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(src{}.Uint64())
	}
	return len(p), nil
}
