//go:build go1.25

// Package rt is the deterministic runtime every other simulator package and
// the instrumented daemon run on: one seeded scheduler, one virtual clock.
package rt

import "math/bits"

// RNG is a splitmix64-seeded xoshiro256** generator; all randomness of a run
// comes from streams of this type derived from one seed.
type RNG struct{ s [4]uint64 }

func mix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Hash64 derives a seed from a parent seed and a label.
func Hash64(seed uint64, label string) uint64 {
	h := seed ^ 0xcbf29ce484222325
	for i := 0; i < len(label); i++ {
		h = (h ^ uint64(label[i])) * 0x100000001b3
	}
	return mix(&h)
}

func NewRNG(seed uint64) *RNG {
	r := &RNG{}
	for i := range r.s {
		r.s[i] = mix(&seed)
	}
	return r
}

func (r *RNG) Uint64() uint64 {
	s := &r.s
	res := bits.RotateLeft64(s[1]*5, 7) * 9
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = bits.RotateLeft64(s[3], 45)
	return res
}

func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	hi, _ := bits.Mul64(r.Uint64(), uint64(n))
	return int(hi)
}
func (r *RNG) Int63n(n int64) int64 {
	if n <= 1 {
		return 0
	}
	hi, _ := bits.Mul64(r.Uint64(), uint64(n))
	return int64(hi)
}

// Range returns a value in [lo,hi].
func (r *RNG) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// P is true with probability num/den.
func (r *RNG) P(num, den int) bool { return r.Intn(den) < num }
func (r *RNG) Float() float64      { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *RNG) Bytes(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.Uint64()
		for j := i; j < len(b) && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

// Pick returns one of the values.
func Pick[T any](r *RNG, v ...T) T { return v[r.Intn(len(v))] }

// Pick returns one of the values.
func (r *RNG) Pick(v ...int) int { return v[r.Intn(len(v))] }
