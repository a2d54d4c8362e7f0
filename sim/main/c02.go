//go:build go1.25

package main

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"

	"github.com/gostor/gotgt/zsim/rt"
)

const tgt1 = "iqn.2020-01.org.sim:t1"

// spreadTargets configures one or two targets with units on scattered LUNs.
func spreadTargets(r *rt.RNG, p *Plan, n int, mk func(k int) Storage) {
	lunPool := []int{0, 1, 2, 3, 5, 7, 16, 63, 128, 255}
	nt := 1
	if n > 1 && r.P(1, 2) {
		nt = 2
	}
	for k := 0; k < nt; k++ {
		p.Setup.Targets = append(p.Setup.Targets, Target{Name: []string{tgt0, tgt1}[k], TPGTs: map[string][]int{"1": {0}}, LUNs: map[string]int{}})
	}
	for k := 0; k < n; k++ {
		st := mk(k)
		st.Dev = uint64(1000 + k)
		p.Setup.Storages = append(p.Setup.Storages, st)
		t := &p.Setup.Targets[k%nt]
		for {
			l := fmt.Sprint(lunPool[r.Intn(len(lunPool))])
			if len(t.LUNs) == 0 && r.P(1, 2) {
				l = "0"
			}
			if _, used := t.LUNs[l]; !used {
				t.LUNs[l] = 1000 + k
				break
			}
		}
	}
}

// alias puts a unit behind one more LUN, now and then, of its target or of
// any.
func alias(r *rt.RNG, p *Plan, any bool) {
	if !r.P(1, 3) {
		return
	}
	for n := r.Range(1, 2); n > 0; n-- {
		from := &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
		to := from
		if any {
			to = &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
		}
		luns := lunsOf(from)
		if len(luns) == 0 {
			continue
		}
		l := fmt.Sprint(r.Pick(0, 1, 2, 3, 6, 8, 17, 64, 254, 255))
		if _, used := to.LUNs[l]; !used {
			to.LUNs[l] = from.LUNs[fmt.Sprint(luns[r.Intn(len(luns))])]
		}
	}
}

// lunsOf lists the LUNs of a target in order.
func lunsOf(t *Target) (out []int) {
	for x := range t.LUNs {
		if l, err := strconv.Atoi(x); err == nil && l < 1<<14 && strconv.Itoa(l) == x {
			out = append(out, l)
		}
	}
	sort.Ints(out)
	return
}

func (p *Plan) storage(t *Target, lun int) *Storage {
	d := t.LUNs[fmt.Sprint(lun)]
	for k := range p.Setup.Storages {
		if int(p.Setup.Storages[k].Dev) == d {
			return &p.Setup.Storages[k]
		}
	}
	return nil
}

func wop(r *rt.RNG) string {
	return []string{"write", "write", "write", "wverify", "wsame", "orwrite", "unmap"}[r.Intn(7)]
}

// outside draws an access that is not wholly inside the unit.
func outside(r *rt.RNG, lun int, blocks uint64) Step {
	st := Step{Op: []string{"write", "write", "read", "wverify", "wsame", "verify", "sync", "prefetch", "orwrite"}[r.Intn(9)], LUN: lun, V: r.Pick(10, 12, 16, 16), Imm: r.Pick(-1, 0)}
	if st.Op == "verify" {
		st.V = -st.V
	}
	n := uint64(r.Pick(1, 2, 3, 8, 64))
	switch r.Intn(7) {
	case 0:
		st.LBA = blocks
		if n == 0 {
			n = 1
		}
	case 1:
		st.LBA = blocks + uint64(r.Intn(1000))
	case 2: // begins inside, ends outside
		if n < 2 {
			n = 2
		}
		if n > blocks {
			n = blocks
		}
		st.LBA = blocks - n + 1
	case 3:
		st.LBA = 1<<32 - 1
	case 4:
		st.LBA = 1<<63 - uint64(r.Intn(2))*n
	case 5:
		st.LBA = -n + uint64(r.Intn(2))
	case 6:
		st.LBA = 1<<uint(33+r.Intn(30)) | uint64(r.Intn(int(min(blocks, 1<<20))))
	}
	if st.LBA < blocks && st.LBA+n <= blocks {
		st.LBA = blocks
	}
	st.N = uint32(n)
	return st
}

// stray draws a command that must not change any medium.
func stray(r *rt.RNG, lun int, blocks uint64) Step {
	b := make([]byte, 16)
	st := Step{Op: "raw", LUN: lun, Want: wantAny, Like: true}
	lba := uint64(r.Intn(int(min(blocks, 1<<20))))
	n := 1
	switch r.Intn(16) {
	default:
		return seldom(r, lun, blocks)
	case 0, 1: // protection information on a unit without it
		kind := []string{"write", "wverify", "wsame", "write"}[r.Intn(4)]
		v := r.Pick(10, 12, 16)
		b = cdbRW(kind, v, lba, uint32(n), byte(1+r.Intn(7))<<5)
		st.Arg = -4096
		st.Want = wantCheck
		if kind == "wsame" {
			st.Want = wantAny
		}
	case 2: // no such operation
		b[0] = byte(r.Pick(0xc0, 0xd1, 0xff, 0x02, 0x09, 0x1f, 0x6f, 0x53, 0x9c, 0x89))
		put32(b[2:], uint32(lba))
		put16(b[7:], 1)
		st.Arg = -int64(r.Pick(512, 4096))
		st.Want = wantCheck
	case 3:
		return Step{Op: "inq", LUN: lun, V: r.Pick(0, 0x100, 0x183, 0x1b0, 0x1b2), Want: wantAny}
	case 4:
		return Step{Op: "msense10", LUN: lun, V: r.Pick(0x3f, 0x08, 0x0a), Want: wantAny}
	case 5:
		return Step{Op: []string{"rcap10", "rcap16"}[r.Intn(2)], LUN: lun}
	case 6:
		return Step{Op: "rluns", LUN: lun}
	case 7:
		return Step{Op: "tur", LUN: lun}
	case 8: // MODE SELECT with a parameter list of garbage
		b[0] = 0x55
		b[1] = 0x10
		put16(b[7:], 64)
		st.Arg = -64
	case 9: // reads with data attached to nothing
		b = cdbRW("read", r.Pick(10, 16), lba, uint32(n), 0)
		st.Arg = int64(r.Pick(512, 1024))
	case 10:
		return Step{Op: "sync", LUN: lun, LBA: lba, N: uint32(n), V: r.Pick(10, 16)}
	case 11:
		return Step{Op: "prefetch", LUN: lun, LBA: lba, N: uint32(n), V: r.Pick(10, 16), Want: wantAny}
	}
	st.Hex = hex.EncodeToString(b)
	return st
}

// seldom draws one of the commands initiators seldom send. None of them
// changes a medium, whatever its fields.
func seldom(r *rt.RNG, lun int, blocks uint64) Step {
	b := make([]byte, 16)
	st := Step{Op: "raw", LUN: lun, Want: wantAny, Like: true}
	alloc := r.Pick(0, 1, 4, 8, 12, 24, 64, 112, 255, 512, 4000)
	in := func(at, size int) {
		switch size {
		case 1:
			b[at] = byte(alloc)
			alloc &= 255
		case 2:
			put16(b[at:], uint16(alloc))
		case 4:
			put32(b[at:], uint32(alloc))
		}
		st.Arg = int64(alloc)
		if r.P(1, 4) {
			st.Arg = int64(max(0, alloc+r.Pick(-8, -1, 1, 30, 700)))
		}
	}
	lba := uint64(r.Intn(int(min(blocks, 1<<20))))
	if r.P(1, 5) {
		lba = blocks - uint64(r.Intn(2)) + uint64(r.Pick(0, 0, 1<<33))
	}
	switch r.Intn(16) {
	case 0, 1: // START STOP UNIT
		b[0], b[1], b[4] = 0x1b, byte(r.Intn(2)), byte(r.Pick(0, 1, 2, 3, 1, 0x10, 0x11, 0x23, 0xb1, 4, 7))
		st.Arg = int64(r.Pick(0, 0, 0, 8))
	case 2: // PREVENT ALLOW MEDIUM REMOVAL
		b[0], b[4] = 0x1e, byte(r.Intn(4))
		st.Arg = int64(r.Pick(0, 0, 0, 64))
	case 3: // SEND DIAGNOSTIC
		b[0], b[1] = 0x1d, byte(r.Pick(0, 4, 4, 0x14, 0x25))
		st.Arg = int64(r.Pick(0, 0, 0, -16, 16))
	case 4: // FORMAT UNIT
		b[0], b[1] = 0x04, byte(r.Pick(0, 0, 0x10, 0x80, 0x97, 7, 1))
		st.Arg = int64(r.Pick(0, 0, -4, -64, 8))
	case 5, 6: // REPORT SUPPORTED OPERATION CODES
		b[0], b[1], b[2], b[3] = 0xa3, 0x0c, byte(r.Pick(0, 0, 0, 0x80, 0x80, 1, 2, 3, 0x81, 7)), byte(r.Intn(256))
		put16(b[4:], uint16(r.Intn(64)))
		in(6, 4)
	case 7: // GET LBA STATUS
		b[0], b[1] = 0x9e, 0x12
		put64(b[2:], lba)
		in(10, 4)
	case 8: // another service action
		b[0], b[1] = byte(r.Pick(0x9e, 0xa3, 0x5e)), byte(r.Intn(32))
		if b[0] == 0x5e {
			in(7, 2)
		} else {
			in(10, 4)
		}
	case 9, 10: // MODE SENSE: current, changeable, default and saved values, subpages
		pg := byte(r.Pick(0x3f, 0x3f, 0x08, 0x0a, 0x02, 0x03, 0x04, 0x1c, 0x00, r.Intn(64)))
		b[1], b[2], b[3] = byte(r.Pick(0, 8, 0x10)), byte(r.Intn(4))<<6|pg, byte(r.Pick(0, 0, 0, 1, 0xff))
		if r.P(1, 2) {
			b[0] = 0x1a
			in(4, 1)
		} else {
			b[0] = 0x5a
			in(7, 2)
		}
	case 11: // MODE SELECT
		n := r.Pick(0, 4, 12, 24, 64)
		if r.P(1, 2) {
			b[0], b[1], b[4] = 0x15, byte(r.Pick(0x10, 0x11, 0)), byte(n)
		} else {
			b[0], b[1] = 0x55, byte(r.Pick(0x10, 0x11, 0))
			put16(b[7:], uint16(n))
		}
		st.Arg = -int64(n)
		if n > 0 && r.P(1, 4) {
			st.Arg = -int64(max(0, n+r.Pick(-3, 5, 600)))
		}
	case 12: // UNMAP that asks for an anchor
		b[0], b[1] = 0x42, 1
		put16(b[7:], 24)
		st.Arg = -24
		st.S = fmt.Sprintf("0016001000000000%016x%08x00000000", lba, 1)
		st.Want = wantCheck
	case 13: // WRITE SAME that asks for an anchor, or for the blocks' own numbers
		b = cdbRW("wsame", r.Pick(10, 16), lba, 1, byte(r.Pick(0x10, 0x18, 0x06, 0x02, 0x04)))
		st.Arg = -4096
		st.Want = wantCheck
	case 14: // protection information asked for where there is none
		b = cdbRW([]string{"read", "verify"}[r.Intn(2)], r.Pick(10, 12, 16), min(lba, blocks-1), 1, byte(1+r.Intn(7))<<5)
		st.Arg = int64(r.Pick(512, 4096))
		st.Want = wantCheck
	case 15: // RESERVE(10), RELEASE(10) and other commands of this class
		b[0] = byte(r.Pick(0x56, 0x57, 0x4d, 0x1c, 0x37, 0x3b, 0x3c, 0x83, 0x84, 0x89, 0x8e+1, 0xa4, 0x07, 0x23))
		st.Arg = int64(r.Pick(0, 0, 64, -64, 512))
		if b[0] == 0x8f { // VERIFY(16) of nothing
			st.Arg = 0
		} else {
			st.Want = wantCheck
		}
	}
	st.Hex = hex.EncodeToString(b)
	return st
}

// orCheck performs a write, an ORWRITE or a WRITE SAME of zeroes over it and a
// read in blocks no other command uses, and compares with what is due.
func (i *Ini) orCheck(st *Step) {
	lu := i.w.luOf(i.t, st.LUN)
	if lu == nil || i.need() == nil {
		return
	}
	for k := uint64(0); k < uint64(st.N); k++ {
		lu.taint[st.LBA+k] = true
	}
	i.s.awaitAll()
	mk := func(op string) *Cmd {
		x := *st
		x.Op, x.Want, x.Async, x.Hold, x.V = op, wantGood, false, 0, 16
		if op == "orwrite" {
			x.Want = wantAny
		}
		if op != "wsame" {
			x.Arg = 0
		}
		return i.step(&x)
	}
	a := mk("write")
	second := "orwrite"
	if st.Arg&1 != 0 {
		second = "wsame"
	}
	b := mk(second)
	if a == nil || b == nil || !a.done || !b.done || a.status != stGood || b.rsp != 0 {
		return
	}
	c := mk("read")
	if c == nil || !c.done || c.status != stGood || len(c.in) != len(a.out) {
		return
	}
	if b.status == stGood {
		i.w.cover(second + "_compared")
	}
	for k := range c.in {
		want := a.out[k]
		switch {
		case b.status != stGood:
		case second == "wsame":
			want = 0
		default:
			want |= b.out[k]
		}
		if c.in[k] != want {
			i.w.fail("lin", "%s: byte %d after write and %s (status %02x) of lun %d lba %d is %02x, not %02x", i.a.Name, k, second, b.status, st.LUN, st.LBA, c.in[k], want)
			return
		}
	}
}

func init() {
	addProp(&Prop{id: "C02", tags: []string{"lin", "never", "otherfile", "status"},
		rule: "1 to 3 initiators mix write-type commands of every CDB size with refused commands (out of range, overflowing, unmapped LUN, protection bits, unknown operations) and commands that are not writes, on up to four units on scattered LUNs of two targets, some larger than 2 TiB, some behind several LUNs; at the end every byte of every file is compared with the history, and refused data may appear nowhere.",
		gen: func(r *rt.RNG, p *Plan) {
			n := r.Range(1, 4)
			spreadTargets(r, p, n, func(k int) Storage {
				if r.P(1, 5) {
					return Storage{Blocks: uint64(r.Pick(1<<33, 1<<32+1000, 1<<32, 1<<32-1, 5<<30)), BShift: 9, Sparse: true, Thin: r.P(1, 2)}
				}
				return Storage{Blocks: uint64(r.Range(16, 200)), BShift: genShift(r), Thin: r.P(1, 3), Extra: r.Pick(0, 0, 100, 511)}
			})
			alias(r, p, true)
			for k := range p.Setup.Storages {
				s := &p.Setup.Storages[k]
				if s.Sparse {
					s.BShift = 9
				}
			}
			p.PageY = r.Pick(4096, 65536)
			for k := r.Range(1, 3); k > 0; k-- {
				t := &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
				a := Actor{Kind: "ini", Target: t.Name, Depth: r.Pick(1, 2, 4, 8), Keys: genKeys(r), SN0: uint32(r.Uint64())}
				luns := lunsOf(t)
				async := r.P(1, 2)
				for m := r.Range(6, 30); m > 0; m-- {
					lun := luns[r.Intn(len(luns))]
					s := p.storage(t, lun)
					own := uint64(4) // the last blocks are for ORWRITE checks, by initiator
					top := s.Blocks - 3*own
					var st Step
					switch x := r.Intn(20); {
					case x < 10:
						st = Step{Op: wop(r), LUN: lun, V: r.Pick(6, 10, 10, 12, 16, 16), Imm: r.Pick(-1, -1, 0, 512), PDU: r.Pick(0, 512, 4096), FUA: r.P(1, 10)}
						st.N = uint32(1 + r.Intn(r.Pick(2, 8, 24)))
						if uint64(st.N) > top {
							st.N = uint32(top)
						}
						base := []uint64{0, top - uint64(st.N), uint64(r.Intn(int(min(top-uint64(st.N)+1, 1<<31))))}[r.Intn(3)]
						if s.Sparse && r.P(1, 2) {
							base = uint64(1)<<uint(16+r.Intn(17)) - uint64(r.Intn(4)) + uint64(r.Pick(0, 0, 0, 1<<20))
						}
						if base+uint64(st.N) > top {
							base = top - uint64(st.N)
						}
						st.LBA = base
						switch st.Op {
						case "orwrite":
							if k > 3 {
								continue
							}
							st.Op = "orcheck"
							if r.P(1, 3) {
								st.Arg = 1
							}
							st.N = uint32(r.Range(1, int(own)))
							st.LBA = s.Blocks - own*uint64(k)
						case "wsame":
							st.V = r.Pick(10, 16)
							if r.P(1, 4) && !s.Sparse {
								st.N = 0
								st.LBA = s.Blocks - 1 - uint64(r.Intn(12))
							} else if r.P(1, 4) {
								st.Arg = 8
							} else if r.P(1, 4) && top > 6000 { // in more than one piece
								st.N = uint32(r.Pick(2048, 2049, 4096, r.Range(2000, 5000)))
								st.LBA = min(st.LBA, top-uint64(st.N))
							}
							if st.N == 0 && st.LBA+12 > top {
								continue
							}
						case "wverify":
							st.Arg = int64(r.Intn(2))
						case "unmap":
							st.Want = wantAny
						}
					case x < 12:
						st = rwStep(r, lun, min(top, 1<<21), 16, 8)
					case x < 15:
						st = outside(r, lun, s.Blocks)
					case x < 17: // a LUN without a unit
						st = rwStep(r, lun, min(top, 1<<21), 16, 8)
						for {
							st.LUN = r.Pick(0, 1, 2, 3, 4, 5, 6, 100, 254, 256, 256+luns[0], 257, 512, 16383)
							if _, ok := t.LUNs[fmt.Sprint(st.LUN)]; !ok {
								break
							}
						}
					default:
						st = stray(r, lun, s.Blocks)
					}
					st.Async = async && r.P(3, 4)
					a.Steps = append(a.Steps, st)
				}
				p.Actors = append(p.Actors, a)
			}
		}})
}
