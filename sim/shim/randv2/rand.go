//go:build go1.25

package rand

import (
	real "math/rand/v2"

	"github.com/gostor/gotgt/zsim/rt"
)

type src struct{}

func (src) Uint64() uint64 {
	if rt.S == nil {
		return 4
	}
	return rt.S.Stream("mathrand").Uint64()
}
func g() *real.Rand { return real.New(src{}) }

func Int() int                        { return g().Int() }
func IntN(n int) int                  { return g().IntN(n) }
func Int32() int32                    { return g().Int32() }
func Int32N(n int32) int32            { return g().Int32N(n) }
func Int64() int64                    { return g().Int64() }
func Int64N(n int64) int64            { return g().Int64N(n) }
func Uint32() uint32                  { return g().Uint32() }
func Uint64() uint64                  { return g().Uint64() }
func Float64() float64                { return g().Float64() }
func Perm(n int) []int                { return g().Perm(n) }
func Shuffle(n int, f func(i, j int)) { g().Shuffle(n, f) }
