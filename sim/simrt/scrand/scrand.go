//go:build go1.24

// Package scrand is crypto/rand with numbers of the simulated host.
package scrand

import (
	"io"
	"math/big"

	"github.com/couchbaselabs/gojsonsm/simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(simrt.RandU64())
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }
func Text() string {
	const chars = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = chars[simrt.RandU64()%32]
	}
	return string(b)
}
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, len(max.Bytes())+8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	n := new(big.Int).SetBytes(b)
	return n.Mod(n, max), nil
}
