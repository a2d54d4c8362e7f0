//go:build go1.25

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/gostor/gotgt/zsim/rt"
)

// Blocks that several initiators write and OR into at the same time. Every
// such command has a bit of its own in every eight bytes of its data: a write
// leaves that bit alone, an ORWRITE adds it, and a read tells which are set.

type bitState struct {
	init bool // ORed over what was there in the beginning
	m    uint64
}

const maxBits = 60

func (lu *LU) initBytes(lba uint64) []byte {
	b := make([]byte, lu.BS)
	if id := lu.initial(lba); id != 0 {
		fillBlock(b, id)
	}
	return b
}

// bitsOf reads the set of a block.
func (lu *LU) bitsOf(lba uint64, b []byte) (bitState, bool) {
	m := ^uint64(0)
	same := true
	first := binary.LittleEndian.Uint64(b)
	for k := 0; k+8 <= len(b); k += 8 {
		v := binary.LittleEndian.Uint64(b[k:])
		m &= v
		same = same && v == first
	}
	if same {
		return bitState{false, first}, true
	}
	in := lu.initBytes(lba)
	for k := 0; k+8 <= len(in); k += 8 {
		binary.LittleEndian.PutUint64(in[k:], binary.LittleEndian.Uint64(in[k:])|m)
	}
	return bitState{true, m}, bytes.Equal(in, b)
}

func (lu *LU) bitsInitial(lba uint64) bitState {
	return bitState{init: !zeroBytes(lu.initBytes(lba))}
}

func (s bitState) String() string {
	t := ""
	if s.init {
		t = "initial data and "
	}
	for k := 0; k < maxBits; k++ {
		if s.m>>k&1 != 0 {
			t += fmt.Sprintf("%d,", k)
		}
	}
	return t
}

// bitFill gives the command its bit.
func (w *World) bitFill(c *Cmd) {
	if c.lu.nbit >= maxBits {
		panic("too many bit steps")
	}
	c.bit = c.lu.nbit
	c.lu.nbit++
	c.out = make([]byte, c.edtl)
	for k := 0; k+8 <= len(c.out); k += 8 {
		binary.LittleEndian.PutUint64(c.out[k:], 1<<c.bit)
	}
	c.what += fmt.Sprintf(" of bit %d", c.bit)
}

func (w *World) bitSettle(c *Cmd) {
	inv, ret, certain, none := c.span()
	certain = certain && !c.maybe
	if none {
		return
	}
	if c.kind == "read" {
		if !certain {
			return
		}
		for k := 0; k < int(c.n) && (k+1)*c.lu.BS <= min(c.inN, len(c.in)); k++ {
			w.bitSeen(c.lu, c.lba+uint64(k), c.in[k*c.lu.BS:(k+1)*c.lu.BS], c.inv, c.ret, c.i.a.Name+" "+c.what)
		}
		return
	}
	bit := uint64(1) << c.bit
	for k := uint64(0); k < uint64(c.n); k++ {
		o := &linOp[bitState]{inv: inv, ret: ret, opt: !certain, what: fmt.Sprintf("%s %s [%d..%d]", c.i.a.Name, c.what, inv, ret)}
		if c.kind == "orwrite" {
			o.apply = func(s bitState) (bitState, bool) { s.m |= bit; return s, true }
			w.cover("orwrite_shared")
		} else {
			o.apply = func(s bitState) (bitState, bool) { return bitState{m: bit}, true }
		}
		c.lu.bits[c.lba+k] = append(c.lu.bits[c.lba+k], o)
	}
}

func (w *World) bitSeen(lu *LU, lba uint64, b []byte, inv, ret int64, who string) {
	v, ok := lu.bitsOf(lba, b)
	if !ok {
		w.fail("lin", "%s: block %d of device %d is no combination of the writes and ORWRITEs sent (%x...)", who, lba, lu.Dev, b[:16])
		return
	}
	lu.bits[lba] = append(lu.bits[lba], &linOp[bitState]{inv: inv, ret: ret, pure: true, what: fmt.Sprintf("%s [%d..%d] saw {%v}", who, inv, ret, v),
		apply: func(s bitState) (bitState, bool) { return s, s == v }})
}

// checkBits decides whether one order of writes, ORWRITEs and reads explains
// what was read.
func (w *World) checkBits() {
	for _, lu := range w.LUs {
		for _, lba := range sortedKeys(lu.bits) {
			b := make([]byte, lu.BS)
			if !w.medium(lu, lba, b) {
				w.fail("lin", "block %d of device %d is gone from the medium", lba, lu.Dev)
				continue
			}
			t := w.tick()
			w.bitSeen(lu, lba, b, t, t, "the medium")
			bad, seen := linearize(lu.bitsInitial(lba), lu.bits[lba])
			if bad != nil {
				w.fail("lin", "block %d of device %d: no order of the writes and ORWRITEs explains %s", lba, lu.Dev, bad.what)
			}
			w.cover("bits_judged")
			if seen < 0 {
				w.cover("bits_undecided")
			}
		}
	}
}

// bitStep draws a command for the n blocks from lba on.
func bitStep(r *rt.RNG, lun int, lba uint64, n int) Step {
	st := Step{Op: []string{"orwrite", "orwrite", "orwrite", "write", "wsame", "wverify", "read", "read"}[r.Intn(8)], LUN: lun, Bits: true, V: 16,
		Imm: r.Pick(-1, -1, 0, 512), PDU: r.Pick(0, 0, 512, 1024), Async: r.P(4, 5)}
	if st.Op == "wsame" {
		st.V = r.Pick(10, 16)
	} else if st.Op != "orwrite" {
		st.V = r.Pick(10, 12, 16)
	}
	at := r.Intn(n)
	st.LBA, st.N = lba+uint64(at), uint32(1+r.Intn(n-at))
	return st
}
