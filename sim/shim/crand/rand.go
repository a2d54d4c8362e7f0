//go:build go1.25

package rand

import (
	"io"
	"math/big"

	"github.com/gostor/gotgt/zsim/rt"
)

type rd struct{}

func (rd) Read(b []byte) (int, error) {
	if rt.S != nil {
		rt.S.Stream("cryptorand").Bytes(b)
	}
	return len(b), nil
}

var Reader io.Reader = rd{}

func Read(b []byte) (int, error) { return Reader.Read(b) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, max.BitLen()/8+8)
	r.Read(b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}
