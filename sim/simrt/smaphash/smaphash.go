//go:build go1.24

// Package smaphash is hash/maphash with seeds that the simulated host chooses.
package smaphash

import (
	"fmt"

	"github.com/couchbaselabs/gojsonsm/simrt"
)

type Seed struct{ s uint64 }

func MakeSeed() Seed { return Seed{simrt.RandU64() | 1} }

type Hash struct {
	seed Seed
	buf  []byte
}

func sum(s Seed, b string) uint64 {
	if s.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	h := s.s ^ 14695981039346656037
	for i := 0; i < len(b); i++ {
		h = (h ^ uint64(b[i])) * 1099511628211
	}
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	return h ^ h>>32
}

func Bytes(s Seed, b []byte) uint64               { return sum(s, string(b)) }
func String(s Seed, b string) uint64              { return sum(s, b) }
func Comparable[T comparable](s Seed, v T) uint64 { return sum(s, fmt.Sprintf("%T%#v", v, v)) }
func WriteComparable[T comparable](h *Hash, v T)  { h.WriteString(fmt.Sprintf("%T%#v", v, v)) }
func (h *Hash) init() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}
func (h *Hash) Write(b []byte) (int, error) {
	h.init()
	h.buf = append(h.buf, b...)
	return len(b), nil
}
func (h *Hash) WriteString(s string) (int, error) {
	h.init()
	h.buf = append(h.buf, s...)
	return len(s), nil
}
func (h *Hash) WriteByte(b byte) error { h.init(); h.buf = append(h.buf, b); return nil }
func (h *Hash) Seed() Seed             { h.init(); return h.seed }
func (h *Hash) SetSeed(s Seed)         { h.seed, h.buf = s, nil }
func (h *Hash) Reset()                 { h.buf = nil }
func (h *Hash) Sum64() uint64          { h.init(); return sum(h.seed, string(h.buf)) }
func (h *Hash) Size() int              { return 8 }
func (h *Hash) BlockSize() int         { return 128 }
func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	for i := 56; i >= 0; i -= 8 {
		b = append(b, byte(x>>uint(i)))
	}
	return b
}
