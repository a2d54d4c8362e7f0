//go:build go1.25

package main

import (
	"fmt"

	"github.com/gostor/gotgt/zsim/rt"
)

// capRun is what the runs of C22 keep: everything that tells a unit's size,
// as operations on that size in bytes.
type capRun struct {
	ops     map[*LU][]*linOp[int64]
	resizes []*linOp[int64]
	vals    []int64
}

// capAt are the sizes the unit may have between two moments.
func (c *capRun) at(lu *LU, inv, ret int64) (out []int64) {
	last := int64(0)
	for _, r := range c.resizes {
		if r.ret < inv {
			last = max(last, r.inv)
		}
	}
	none := true
	for k, r := range c.resizes {
		if r.inv <= ret && r.ret >= last {
			out = append(out, c.vals[k])
		}
		none = none && r.ret >= inv
	}
	if none {
		out = append(out, lu.size0())
	}
	return
}

func (lu *LU) size0() int64 {
	if lu.Have >= 0 {
		return lu.Have
	}
	return int64(lu.Blocks)<<lu.Shift + int64(len(lu.Extra))
}

// capDone takes up what an answer tells about the size.
func (w *World) capDone(c *Cmd) {
	lu := c.lu
	r := w.x["cap"].(*capRun)
	if lu == nil || !c.done || c.rsp != 0 || c.status < 0 {
		if lu != nil && c.kind == "wsame" && c.n == 0 {
			w.wsameAll(c, c.inv, inf)
		}
		return
	}
	who := fmt.Sprintf("%s %s [%d..%d]", c.i.a.Name, c.what, c.inv, c.ret)
	note := func(what string, f func(blocks uint64) bool) {
		r.ops[lu] = append(r.ops[lu], &linOp[int64]{inv: c.inv, ret: c.ret, pure: true, what: who + " " + what,
			apply: func(s int64) (int64, bool) { return s, f(uint64(s) >> lu.Shift) }})
	}
	bad := func(f string, a ...any) { w.fail("cap", "%s "+f, append([]any{who}, a...)...) }
	rng := c.status == stCheck && c.key == 5 && c.asc == 0x2100
	end := func() string { return fmt.Sprintf("ends in status 0x%02x sense %x/%04x", c.status, c.key, c.asc) }
	switch c.kind {
	case "rcap10", "rcap16":
		if c.status == stCheck && c.key == 2 {
			note("says there is no medium", func(b uint64) bool { return b == 0 })
			w.cover("capacity_none")
			return
		}
		if c.status != stGood {
			bad("%s", end())
			return
		}
		var last uint64
		var bs uint32
		if c.kind == "rcap10" {
			if c.inN < 8 {
				bad("returns %d bytes", c.inN)
				return
			}
			last, bs = uint64(be32(c.in)), be32(c.in[4:])
		} else {
			if c.inN < 12 {
				if c.edtl >= 12 {
					bad("returns %d bytes", c.inN)
				}
				return
			}
			last, bs = be64(c.in), be32(c.in[8:])
		}
		if int(bs) != lu.BS {
			bad("shows blocks of %d bytes, they have %d", bs, lu.BS)
		}
		note(fmt.Sprintf("shows the last block %d", last), func(b uint64) bool {
			if c.kind == "rcap10" && b > 1<<32-1 {
				return last == 1<<32-1
			}
			return b > 0 && last == b-1
		})
		w.cover("capacity_seen")
	case "msense6", "msense10":
		if c.status != stGood {
			bad("%s", end())
			return
		}
		h, n := 4, 0
		if c.inN >= 4 {
			n = int(c.in[3])
		}
		if c.kind == "msense10" {
			h = 8
			if c.inN >= 8 {
				n = int(c.in[6])<<8 | int(c.in[7])
			}
		}
		if n != 8 || c.inN < h+8 {
			return // no short block descriptor
		}
		b, bs := uint64(be32(c.in[h:])), int(be32(c.in[h+4:])&0xffffff)
		if bs != lu.BS {
			bad("shows blocks of %d bytes, they have %d", bs, lu.BS)
		}
		note(fmt.Sprintf("shows %d blocks", b), func(x uint64) bool { return b == min(x, 1<<32-1) })
		w.cover("descriptor_seen")
	case "read", "write", "wverify", "verify", "wsame", "orwrite", "sync", "prefetch", "unmap":
		lba, n := c.lba, uint64(c.n)
		in := func(b uint64) bool { return lba <= b && n <= b-lba && (n > 0 || lba < b || c.kind == "sync") }
		switch {
		case rng:
			note("is out of range", func(b uint64) bool { return !in(b) })
			w.cover("out_of_range")
		case c.status == stGood, c.status == stCheck && c.key == 0xe:
			note("is within the unit", in)
			w.cover("within")
		case c.status == stCheck && c.key == 5 && c.asc == 0x2400 && n<<lu.Shift > 1<<32-1 && (c.rd || c.wr):
			// more than a command can transfer
		case c.status == stCheck && c.key == 5 && c.asc == 0x2400 && c.st.Arg&8 != 0 && !lu.Thin:
			// UNMAP on a unit which is not thin provisioned
		default:
			bad("%s", end())
		}
		if c.kind == "wsame" && n == 0 {
			w.wsameAll(c, c.inv, c.ret)
		}
	}
}

// wsameAll limits what a WRITE SAME to the end has written to what the unit
// can have had.
func (w *World) wsameAll(c *Cmd, inv, ret int64) {
	top := uint64(0)
	for _, s := range w.x["cap"].(*capRun).at(c.lu, inv, ret) {
		top = max(top, uint64(s)>>c.lu.Shift)
	}
	n := uint64(0)
	if top > c.lba {
		n = top - c.lba
	}
	if uint64(len(c.vals)) > n {
		c.vals = c.vals[:n]
	}
	c.maybe = len(w.x["cap"].(*capRun).resizes) > 0
}

func (w *World) checkCap() {
	r := w.x["cap"].(*capRun)
	for _, lu := range w.LUs {
		ops := append(append([]*linOp[int64]{}, r.resizes...), r.ops[lu]...)
		bad, n := linearize(lu.size0(), ops)
		w.cov["cap_states"] += int64(max(0, n))
		if bad != nil {
			s := ""
			if verbose {
				for _, o := range ops {
					s += fmt.Sprintf("\n   [%d..%d] %s", o.inv, o.ret, o.what)
				}
			}
			w.fail("cap", "device %d, %d bytes in blocks of %d at the start: %s, which no size it had explains%s", lu.Dev, lu.size0(), lu.BS, bad.what, s)
		}
		if n < 0 {
			w.cover("cap_undecided")
		}
	}
}

func runCap(w *World) {
	r := &capRun{ops: map[*LU][]*linOp[int64]{}}
	w.x["cap"] = r
	w.onDone = w.capDone
	w.x["beforeLin"] = func() { w.checkCap() }
	w.stepHook = func(i *Ini, st *Step) bool {
		if lu := w.luOf(i.t, st.LUN); st.Op == "orwrite" && lu != nil {
			for k := uint64(0); k < uint64(st.N) && st.LBA+k < lu.Blocks; k++ {
				lu.taint[st.LBA+k] = true // its result is no block anybody made
			}
		}
		if st.Op != "resize" {
			return false
		}
		v := st.Arg
		op := &linOp[int64]{inv: w.tick(), ret: inf, what: fmt.Sprintf("resize to %d", v), apply: func(int64) (int64, bool) { return v, true }}
		r.resizes = append(r.resizes, op)
		r.vals = append(r.vals, v)
		var err error
		if w.inDaemon("Resize", func() { err = w.lib.drv.Resize(uint64(v)) }) {
			op.ret = w.tick()
		}
		op.opt = op.ret == inf
		if err != nil {
			w.fail("cap", "resizing to %d fails: %v", v, err)
		}
		w.cover("resized")
		return true
	}
	runStandard(w)
}

// edgeStep draws an access at or around the end of the unit.
func edgeStep(r *rt.RNG, lun int, blocks uint64, room bool) Step {
	s := Step{Op: []string{"read", "read", "write", "write", "wverify", "verify", "verify", "wsame", "orwrite", "sync", "prefetch", "unmap"}[r.Intn(12)],
		LUN: lun, V: r.Pick(6, 10, 12, 16), Imm: r.Pick(-1, 0, 512), Want: wantAny}
	if s.Op == "verify" && r.P(1, 2) {
		s.V = -s.V // compares
	}
	data := s.Op == "read" || s.Op == "write" || s.Op == "wverify" || s.Op == "verify" && s.V < 0 || s.Op == "orwrite"
	n := uint64(r.Pick(1, 1, 2, 3, 8, 64, 256))
	if !data && r.P(1, 4) {
		n = uint64(r.Pick(1<<16-1, 1<<16, 1<<24, 1<<31, 1<<32-1))
	}
	switch r.Intn(9) {
	case 0, 1: // up to the last block
		s.LBA = blocks - n
	case 2, 3: // one too far
		s.LBA = blocks - n + 1
	case 4:
		s.LBA = blocks + uint64(r.Pick(0, 0, 1, 1000))
	case 5: // around what 21 and 32 bits can tell
		s.LBA = uint64(r.Pick(1<<21, 1<<32)) - uint64(r.Range(0, 2))*n/2
	case 6:
		s.LBA = -n + uint64(r.Intn(3))
	case 7:
		s.LBA = 1<<uint(31+r.Intn(33)) | uint64(r.Intn(100))
	case 8:
		if blocks > 0 {
			s.LBA = uint64(r.Uint64()) % blocks
		}
	}
	if r.P(1, 12) && (s.Op == "sync" || s.Op == "wsame") && blocks > 0 && blocks < 4096 {
		s.LBA, n = blocks-1-uint64(r.Intn(int(min(blocks, 16)))), 0
		if s.Op == "wsame" {
			s.V = r.Pick(10, 16)
		}
	}
	s.N = uint32(n)
	if s.Op == "wsame" && n > 256 && s.LBA < blocks && s.LBA+n <= blocks {
		s.N = 1
	}
	if s.Op == "wsame" && r.P(1, 4) {
		s.Arg = 8
	}
	return s
}

func init() {
	addProp(&Prop{id: "C22", tags: []string{"cap", "status", "lin", "never", "otherfile", "hang", "boot", "resid"}, run: runCap,
		rule: "1 to 4 units of 512 to 4096-byte blocks, of 0 bytes, less than a block, single blocks, non-multiples, around 2^32 blocks and up to 2^42, on files or a program's own store; 1 to 4 initiators read the capacity and the mode parameter block descriptor and use every command with a block range at the last block, across it, beyond it, where it wraps 21, 32 or 64 bits, while in half of the runs the program resizes up and down. Every answer must fit one size the unit had during the command; refused data may appear nowhere.",
		gen: func(r *rt.RNG, p *Plan) {
			resize := r.P(1, 2)
			top := int64(r.Pick(16, 32, 64)) << 12
			sizes := []int64{0, 511, 512, 4095, 4096, 5000, 8192, 8192 + 512, top - 4096, top - 512, top - 1, top}
			size := func() int64 {
				if r.P(1, 3) {
					return int64(r.Intn(int(top) + 1))
				}
				return sizes[r.Intn(len(sizes))]
			}
			if resize || r.P(1, 3) {
				p.Setup.Mode = "lib"
			}
			spreadTargets(r, p, r.Range(1, 4), func(k int) Storage {
				s := Storage{BShift: uint(r.Pick(9, 9, 10, 11, 12)), Thin: r.P(1, 3)}
				if p.Setup.Mode == "lib" {
					s.Remote = r.P(1, 2)
				}
				if resize {
					s.Blocks = uint64(top >> s.BShift)
					s.Have = 1 + size()
					if s.Remote && s.Have < 1+512 {
						s.Have = 1 + 4096
					}
					return s
				}
				if r.P(1, 3) && !s.Remote {
					s.Sparse = true
					s.Blocks = uint64(r.Pick(1<<32-1, 1<<32, 1<<32+1, 1<<33, 1<<21, 1<<42, 1<<31+5, 1<<31, 3<<30))
					s.Extra = r.Pick(0, 0, 511)
					return s
				}
				s.Blocks = uint64(r.Pick(0, 1, 2, 3, 8, 64, 65, 100, 255, 256, 257))
				s.Extra = r.Pick(0, 0, 1, 511, 1<<s.BShift-1)
				if s.Remote && s.Blocks == 0 {
					s.Blocks = 1
				}
				return s
			})
			for n := r.Range(1, 4); n > 0; n-- {
				t := &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
				luns := lunsOf(t)
				a := Actor{Kind: "ini", Target: t.Name, Depth: r.Pick(1, 2, 4, 8), Keys: genKeys(r), SN0: uint32(r.Uint64())}
				async := r.P(2, 3)
				for c := r.Range(3, 30); c > 0; c-- {
					lun := luns[r.Intn(len(luns))]
					st := p.storage(t, lun)
					blocks := st.Blocks
					if resize {
						blocks = uint64(size()) >> st.BShift
					}
					s := edgeStep(r, lun, blocks, !resize)
					if r.P(1, 4) {
						s = Step{Op: []string{"rcap10", "rcap16", "rcap16", "msense6", "msense10"}[r.Intn(5)], LUN: lun, Want: wantAny}
						if s.Op == "msense6" || s.Op == "msense10" {
							s.V = r.Pick(0x3f, 0x08)
						} else if s.Op == "rcap16" {
							s.Arg = int64(r.Pick(32, 32, 12, 8, 255))
						}
					}
					s.Async = async && r.P(3, 4)
					if r.P(1, 5) {
						s.Gap = int64(r.Intn(300000))
					}
					a.Steps = append(a.Steps, s)
				}
				p.Actors = append(p.Actors, a)
			}
			if resize {
				for n := r.Pick(1, 1, 2); n > 0; n-- {
					a := Actor{Kind: "admin", Name: fmt.Sprintf("admin%d", n)}
					for c := r.Range(1, 8); c > 0; c-- {
						a.Steps = append(a.Steps, Step{Op: "resize", Arg: size(), Gap: int64(r.Pick(0, 1000, 100000, 1000000))})
					}
					p.Actors = append(p.Actors, a)
				}
			}
		}})
}
