// Package rand mirrors crypto/rand over the noise stream.
package rand

import (
	"io"
	"math/big"

	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) { return simrt.Rand().Read(p) }

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	b := make([]byte, len(max.Bytes())+8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}

func Text() string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = abc[simrt.Rand().Intn(len(abc))]
	}
	return string(b)
}
