//go:build go1.25

package main

import (
	"github.com/gostor/gotgt/zsim/rt"
)

// hitBy: the command may be the one that met the fault.
func (c *Cmd) hitBy(h *hit) bool {
	if c.lu == nil || c.lu.Path != h.op.Path || c.inv == 0 || c.inv > h.seq || c.done && c.ret < h.seq || c.bound > 0 && c.bound < h.seq {
		return false
	}
	lo, hi := int64(c.lba)*int64(c.lu.BS), (int64(c.lba)+int64(c.n))*int64(c.lu.BS)
	if c.kind == "wsame" && c.n == 0 {
		hi = 1 << 62
	}
	overlap := h.op.Off < hi && lo < h.op.Off+int64(h.op.Len)
	switch h.op.Kind {
	case "read":
		switch c.kind {
		case "read", "verify", "wverify", "orwrite":
			return overlap
		}
	case "write":
		switch c.kind {
		case "write", "wverify", "wsame", "orwrite":
			return overlap
		case "unmap":
			return h.op.Off < int64(c.lba+uint64(c.n))*int64(c.lu.BS) && int64(c.lba)*int64(c.lu.BS) < h.op.Off+int64(h.op.Len)
		}
	case "sync":
		switch c.kind {
		case "sync", "unmap":
			return true
		case "write", "wverify", "wsame", "orwrite":
			return c.cdb[0] == 0x0a || c.cdb[1]&8 != 0 || c.fua
		}
	case "advise":
		return c.kind == "prefetch"
	}
	return false
}

// runFaulty is the standard run with every injected backend failure held
// against the commands that can have met it.
func runFaulty(w *World) {
	w.excuse = func(c *Cmd) bool {
		if c.status != stCheck || c.key == 5 {
			return false
		}
		for k := range w.faults {
			if c.hitBy(&w.faults[k]) {
				return true
			}
		}
		return false
	}
	w.onFault = func(h *hit) {
		// the block written in part is undefined
		if h.op.Kind != "write" || h.part == 0 {
			return
		}
		for _, lu := range w.LUs {
			if lu.Path == h.op.Path {
				lu.taint[uint64(h.op.Off+int64(h.part))/uint64(lu.BS)] = true
			}
		}
	}
	runStandard(w)
	w.checkFaults()
}

func (w *World) checkFaults() {
	for k := range w.faults {
		h := &w.faults[k]
		if h.op.Kind == "advise" {
			continue
		}
		n, ok := 0, false
		what := ""
		for _, c := range w.cmds {
			if c.cdb == nil || !c.hitBy(h) {
				continue
			}
			n++
			what = c.what
			if !c.done || c.status != stGood {
				ok = true
			}
		}
		if n > 0 && !ok {
			w.fail("ioerr", "the %s of %d bytes at %d of %s failed (%s, %d bytes done), but no command that can have met it reports a failure: %s ended GOOD (%d candidates)",
				h.op.Kind, h.op.Len, h.op.Off, h.op.Path, h.f.Errno, h.part, what, n)
		}
		if n > 0 {
			w.cover("fault_judged")
		}
	}
}

func genDiskFault(r *rt.RNG, path string, n int) Fault {
	f := Fault{Kind: "disk", Path: path, N: 1 + r.Intn(n), Op: []string{"read", "read", "write", "write", "write", "sync"}[r.Intn(6)]}
	switch f.Op {
	case "sync":
		f.N = 1 + r.Intn(1+n/6)
		f.Errno = []string{"EIO", "ENOSPC", "EDQUOT"}[r.Intn(3)]
	case "read":
		f.Errno = "EIO"
		if r.P(1, 4) {
			f.Errno, f.Short = "", true
		}
	default:
		f.Errno = []string{"EIO", "ENOSPC", "EDQUOT", "EROFS"}[r.Intn(4)]
	}
	if r.P(1, 2) {
		f.Part = r.Pick(512, 1024, 4096, 1, 700, 8192, 511)
	}
	if r.P(1, 4) {
		f.Count = r.Pick(2, 3, 10, 1000)
	}
	if r.P(1, 6) {
		f.Delay = int64(r.Pick(1e5, 1e7, 1e9))
	}
	return f
}

func init() {
	addProp(&Prop{id: "C04", tags: []string{"ioerr", "lin", "never", "status", "connlost", "hang", "answer", "statsn"}, run: runFaulty,
		rule: "Reads, writes and syncs of the backing files, and of the stores of an embedding program, fail with EIO, ENOSPC, EDQUOT or EROFS, come up short or take effect in part, once, several times in a row or from a point on, while 1 to 3 initiators work on up to three units; each failure must show in a command that can have met it, and every other command must succeed.",
		gen: func(r *rt.RNG, p *Plan) {
			var st []Storage
			if r.P(1, 3) {
				p.Setup.Mode = "lib"
			}
			for k := r.Range(1, 3); k > 0; k-- {
				st = append(st, Storage{Blocks: uint64(r.Range(16, 128)), BShift: genShift(r), Thin: r.P(1, 3), Remote: p.Setup.Mode == "lib" && r.P(2, 3)})
			}
			if r.P(1, 12) {
				st[0].Blocks, st[0].BShift = uint64(r.Range(4100, 6000)), 9
			}
			oneTarget(p, st...)
			p.PageY = r.Pick(4096, 65536)
			hot := uint64(r.Pick(4, 16, 128))
			maxN := r.Pick(2, 8, 24)
			steps := 0
			for k := r.Range(1, 3); k > 0; k-- {
				a := Actor{Kind: "ini", Depth: r.Pick(1, 1, 2, 4), Keys: genKeys(r), SN0: uint32(r.Uint64())}
				async := r.P(2, 3)
				for n := r.Range(5, 30); n > 0; n-- {
					lun := r.Intn(len(st))
					s := rwStep(r, lun, st[lun].Blocks, hot, maxN)
					s.FUA = s.FUA || r.P(1, 6)
					switch r.Intn(12) {
					case 0, 1:
						s = Step{Op: "sync", LUN: lun, LBA: 0, N: uint32(r.Pick(0, 1, 8)), V: r.Pick(10, 16)}
					case 2:
						if st[lun].Thin {
							s = Step{Op: "unmap", LUN: lun, LBA: uint64(r.Intn(int(st[lun].Blocks))), N: 1, Want: wantAny}
						}
					case 3:
						s = Step{Op: "nop", N: 5}
					case 4:
						if s.Op == "wsame" && r.P(1, 2) {
							s.V, s.Arg = 16, 1
						}
						s.DPO = true
					case 5:
						switch r.Intn(6) {
						case 0:
							s.Op, s.V, s.Arg = "orwrite", 16, 0
						case 1:
							s.Op, s.V, s.FUA, s.Want = "prefetch", 10, false, wantAny
						case 2:
							s.Op, s.V, s.N, s.Arg = "wsame", 10, uint32(st[lun].Blocks-s.LBA), 0
						case 3: // more than is written at once
							if st[lun].Blocks > 4096 {
								s.Op, s.V, s.N, s.Arg = "wsame", 16, uint32(st[lun].Blocks-s.LBA), 0
							}
						}
					}
					s.Async = async && r.P(4, 5)
					a.Steps = append(a.Steps, s)
					steps++
				}
				p.Actors = append(p.Actors, a)
			}
			for k := r.Range(1, 6); k > 0; k-- {
				d := r.Intn(len(st))
				f := genDiskFault(r, devPath(1000+uint64(d)), max(1, steps/2/len(st)))
				if st[d].Remote && f.Op == "write" && r.P(1, 3) {
					// a program's store may tell of a short write by its count only
					f.Errno, f.Short = "", true
				}
				p.Faults = append(p.Faults, f)
			}
		}})
}
