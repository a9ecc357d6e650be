// Package rand mirrors math/rand with the global source replaced by the noise stream.
package rand

import (
	"math/rand"

	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

// Force, when set, supplies the next value of the global source (an extreme start value
// for a counter, say).
var Force func() (uint64, bool)

func u64() uint64 {
	if Force != nil {
		if v, ok := Force(); ok {
			return v
		}
	}
	return simrt.Rand().Uint64()
}

func New(s Source) *Rand                      { return rand.New(s) }
func NewSource(seed int64) Source             { return rand.NewSource(seed) }
func Seed(int64)                              {}
func Int() int                                { return int(u64() >> 1) }
func Intn(n int) int                          { return simrt.Rand().Intn(n) }
func Int31() int32                            { return int32(u64() & 0x7fffffff) }
func Int31n(n int32) int32                    { return simrt.Rand().Int31n(n) }
func Int63() int64                            { return int64(u64() >> 1) }
func Int63n(n int64) int64                    { return simrt.Rand().Int63n(n) }
func Uint32() uint32                          { return uint32(u64()) }
func Uint64() uint64                          { return u64() }
func Float32() float32                        { return simrt.Rand().Float32() }
func Float64() float64                        { return simrt.Rand().Float64() }
func ExpFloat64() float64                     { return simrt.Rand().ExpFloat64() }
func NormFloat64() float64                    { return simrt.Rand().NormFloat64() }
func Perm(n int) []int                        { return simrt.Rand().Perm(n) }
func Shuffle(n int, swap func(i, j int))      { simrt.Rand().Shuffle(n, swap) }
func Read(p []byte) (int, error)              { return simrt.Rand().Read(p) }
