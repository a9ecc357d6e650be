// Package rand mirrors math/rand/v2 with the global source replaced by the noise stream.
package rand

import (
	"math/rand/v2"

	v1 "github.com/younglifestyle/secs4go/verifsim/shim/rand"
	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
	Zipf    = rand.Zipf
)

func New(s Source) *Rand             { return rand.New(s) }
func NewPCG(a, b uint64) *PCG        { return rand.NewPCG(a, b) }
func NewChaCha8(s [32]byte) *ChaCha8 { return rand.NewChaCha8(s) }

func Int() int                           { return v1.Int() }
func IntN(n int) int                     { return v1.Intn(n) }
func Int32() int32                       { return v1.Int31() }
func Int32N(n int32) int32               { return v1.Int31n(n) }
func Int64() int64                       { return v1.Int63() }
func Int64N(n int64) int64               { return v1.Int63n(n) }
func Uint() uint                         { return uint(v1.Uint64()) }
func Uint32() uint32                     { return v1.Uint32() }
func Uint64() uint64                     { return v1.Uint64() }
func UintN(n uint) uint                  { return uint(Uint64N(uint64(n))) }
func Uint32N(n uint32) uint32            { return uint32(v1.Int63n(int64(n))) }
func Float32() float32                   { return v1.Float32() }
func Float64() float64                   { return v1.Float64() }
func ExpFloat64() float64                { return v1.ExpFloat64() }
func NormFloat64() float64               { return v1.NormFloat64() }
func Perm(n int) []int                   { return v1.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { v1.Shuffle(n, swap) }

func Uint64N(n uint64) uint64 {
	if n == 0 {
		panic("invalid argument to Uint64N")
	}
	return simrt.Rand().Uint64() % n
}

func N[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(Uint64N(uint64(n)))
}
