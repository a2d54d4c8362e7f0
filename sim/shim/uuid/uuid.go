//go:build go1.25

// Package uuid makes UUIDs from the run's seed.
package uuid

import (
	real "github.com/satori/go.uuid"

	"github.com/gostor/gotgt/zsim/rt"
)

func gen(v byte) (u real.UUID) {
	rt.Y(0)
	if rt.S != nil {
		rt.S.Stream("uuid").Bytes(u[:])
	}
	u.SetVersion(v)
	u.SetVariant(real.VariantRFC4122)
	return u
}

func NewV1() real.UUID            { return gen(1) }
func NewV2(domain byte) real.UUID { return gen(2) }
func NewV4() real.UUID            { return gen(4) }
