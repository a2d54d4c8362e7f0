//go:build go1.25

package main

import "encoding/binary"

// Every block the simulator writes carries a value nobody else writes: the
// id of the write, the index of the block in it and, sector by sector, bytes
// derived from both. Blocks never written carry ids derived from their place.

const initBit = uint64(1) << 63

func initID(dev uint64, lba uint64) uint64 { return initBit | dev<<40 | lba }
func wrID(op int, idx int) uint64          { return uint64(op)<<24 | uint64(idx) }
func idOp(id uint64) int                   { return int(id >> 24 & (1<<38 - 1)) }

func fillSector(b []byte, id uint64, sec int) {
	if len(b) < 16 {
		var t [16]byte
		fillSector(t[:], id, sec)
		copy(b, t[:])
		return
	}
	binary.LittleEndian.PutUint64(b, id)
	x := id*0x9e3779b97f4a7c15 ^ uint64(sec)*0xbf58476d1ce4e5b9 ^ 0x1234567
	binary.LittleEndian.PutUint64(b[8:], x)
	for i := 16; i+8 <= len(b); i += 8 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		binary.LittleEndian.PutUint64(b[i:], x)
	}
}

func fillBlock(b []byte, id uint64) {
	for s := 0; s*512 < len(b); s++ {
		e := s*512 + 512
		if e > len(b) {
			e = len(b)
		}
		fillSector(b[s*512:e], id, s)
	}
}

func zeroBytes(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// readSector returns the id a sector carries; ok is false for bytes nobody wrote.
func readSector(b []byte, sec int) (id uint64, ok bool) {
	if zeroBytes(b) {
		return 0, true
	}
	id = binary.LittleEndian.Uint64(b)
	var t [512]byte
	fillSector(t[:len(b)], id, sec)
	for i := range b {
		if b[i] != t[i] {
			return id, false
		}
	}
	return id, true
}

// readBlock returns the id of a whole block; torn means its sectors disagree.
func readBlock(b []byte) (id uint64, ok, torn bool) {
	for s := 0; s*512 < len(b); s++ {
		i, k := readSector(b[s*512:min(s*512+512, len(b))], s)
		if !k {
			return i, false, false
		}
		if s > 0 && i != id {
			return id, false, true
		}
		id = i
	}
	return id, true, false
}
