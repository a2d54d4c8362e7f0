//go:build go1.25

package main

import (
	"fmt"

	"github.com/gostor/gotgt/zsim/rt"
)

// limits draws operational keys with the transfer limits in focus.
func limits(r *rt.RNG) (k [][2]string) {
	add := func(n string, v any) { k = append(k, [2]string{n, fmt.Sprint(v)}) }
	mb := r.Pick(512, 513, 1000, 1024, 1536, 4096, 5000, 8192, 16384, 65536, 262144)
	if r.P(3, 4) {
		add("MaxBurstLength", mb)
		fb := r.Pick(512, 513, 1024, 2000, 4096, 65536)
		if fb > mb {
			fb = mb
		}
		add("FirstBurstLength", fb)
	}
	if r.P(3, 4) {
		add("MaxRecvDataSegmentLength", r.Pick(512, 514, 700, 1000, 1024, 2048, 3000, 4096, 8192, 65536, 1<<20))
	}
	if r.P(1, 2) {
		add("ImmediateData", []string{"Yes", "No"}[r.Intn(2)])
	}
	if r.P(1, 2) {
		add("InitialR2T", []string{"Yes", "No"}[r.Intn(2)])
	}
	if r.P(1, 2) {
		add("MaxOutstandingR2T", r.Pick(1, 2, 8, 65535))
	}
	return
}

func init() {
	addProp(&Prop{id: "C07", tags: []string{"din", "lin", "hang", "connlost", "login"},
		rule: "Sessions negotiate bursts and receive segments from 512 bytes up, aligned and not, and read ranges of 1 to 200 blocks, and parameter data of every kind, with shorter and longer expected lengths, while other reads and writes are pipelined around them; each Data-In is checked for order, place, size and burst, and the data against the block histories.",
		gen: func(r *rt.RNG, p *Plan) {
			st := []Storage{{Blocks: uint64(r.Range(32, 400)), BShift: genShift(r)}}
			if r.P(1, 3) {
				st = append(st, Storage{Blocks: 64, BShift: 9})
			}
			oneTarget(p, st...)
			for k := r.Range(1, 3); k > 0; k-- {
				a := Actor{Kind: "ini", Depth: r.Pick(1, 2, 4, 8), Keys: limits(r), SN0: uint32(r.Uint64()), Stage: []string{"", "secop", "split", "opmin"}[r.Intn(4)]}
				async := r.P(3, 4)
				for n := r.Range(4, 20); n > 0; n-- {
					lun := r.Intn(len(st))
					var s Step
					switch x := r.Intn(10); {
					case x < 6:
						s = Step{Op: "read", LUN: lun, V: r.Pick(6, 10, 12, 16), N: uint32(r.Range(1, r.Pick(4, 20, 100, 200)))}
						if uint64(s.N) > st[lun].Blocks {
							s.N = uint32(st[lun].Blocks)
						}
						s.LBA = uint64(r.Intn(int(st[lun].Blocks - uint64(s.N) + 1)))
						if r.P(1, 5) {
							s.ED = r.Pick(-1, -511, -512, -1000, 1, 512, 5000)
						}
					case x < 8:
						s = rwStep(r, lun, st[lun].Blocks, 64, 40)
					default:
						s = Step{Op: []string{"inq", "rluns", "msense10", "rcap16"}[r.Intn(4)], LUN: lun, V: 0, Arg: int64(r.Pick(0, 16, 32, 255)), Want: wantAny}
					}
					s.Async = async && r.P(4, 5)
					a.Steps = append(a.Steps, s)
				}
				p.Actors = append(p.Actors, a)
			}
		}})

	addProp(&Prop{id: "C08", tags: []string{"dout", "lin", "hang", "connlost", "login", "status"},
		rule: "Sessions negotiate bursts from 512 bytes up and send writes of 1 to 300 blocks with every amount of immediate data, Data-Out PDUs of any size, pauses inside a transfer and the transfers of several commands interleaved PDU by PDU, next to reads and pings; every R2T is checked and the medium compared with the bytes sent.",
		gen: func(r *rt.RNG, p *Plan) {
			st := []Storage{{Blocks: uint64(r.Range(32, 400)), BShift: genShift(r)}}
			if r.P(1, 3) {
				st = append(st, Storage{Blocks: 64, BShift: 9, Thin: true})
			}
			oneTarget(p, st...)
			for k := r.Range(1, 3); k > 0; k-- {
				a := Actor{Kind: "ini", Depth: r.Pick(1, 2, 4, 8, 16), Keys: limits(r), SN0: uint32(r.Uint64()), Stage: []string{"", "secop", "secsplit"}[r.Intn(3)]}
				async := r.P(4, 5)
				for n := r.Range(4, 20); n > 0; n-- {
					lun := r.Intn(len(st))
					var s Step
					switch x := r.Intn(10); {
					case x < 7:
						s = Step{Op: []string{"write", "write", "write", "wverify"}[r.Intn(4)], LUN: lun, V: r.Pick(6, 10, 12, 16), N: uint32(r.Range(1, r.Pick(4, 20, 100, 300))),
							Imm: r.Pick(-1, 0, 0, 1, 100, 512, 600, 4096), PDU: r.Pick(0, 0, 1, 100, 511, 512, 513, 4096), FUA: r.P(1, 10)}
						if uint64(s.N) > st[lun].Blocks {
							s.N = uint32(st[lun].Blocks)
						}
						if b := int(s.N) << st[lun].BShift; s.PDU > 0 && b/s.PDU > 600 {
							s.PDU = b / 600
						}
						s.LBA = uint64(r.Intn(int(st[lun].Blocks - uint64(s.N) + 1)))
						if r.P(1, 8) && (s.PDU == 0 || int(s.N)<<st[lun].BShift/s.PDU < 100) {
							s.Slow = int64(r.Pick(1000, 100000, 3000000))
						}
						if r.P(1, 10) {
							s.ED = r.Pick(-512, 512, 1024, 77)
						}
					case x < 9:
						s = rwStep(r, lun, st[lun].Blocks, 64, 40)
					default:
						s = Step{Op: "nop", N: uint32(r.Intn(100)), I: r.P(1, 2)}
					}
					s.Async = async && r.P(5, 6)
					a.Steps = append(a.Steps, s)
				}
				p.Actors = append(p.Actors, a)
			}
		}})

	addProp(&Prop{id: "C09", tags: []string{"resid", "lin", "never", "din", "hang", "connlost", "status"},
		rule: "Every kind of command is sent with expected lengths from zero over shorter and longer than its own up to many blocks more, in both directions and without data, at different transfer limits and with other commands around it; flags and counts are compared with the lengths, and the blocks touched with the shorter of the two.",
		gen: func(r *rt.RNG, p *Plan) {
			st := []Storage{{Blocks: uint64(r.Range(32, 200)), BShift: genShift(r)}}
			if r.P(1, 3) {
				st = append(st, Storage{Blocks: 64, BShift: 9, Thin: true})
			}
			oneTarget(p, st...)
			for k := r.Range(1, 3); k > 0; k-- {
				a := Actor{Kind: "ini", Depth: r.Pick(1, 2, 4, 8), Keys: limits(r), SN0: uint32(r.Uint64())}
				async := r.P(3, 4)
				for n := r.Range(6, 30); n > 0; n-- {
					lun := r.Intn(len(st))
					bs := 1 << st[lun].BShift
					s := rwStep(r, lun, st[lun].Blocks, 32, r.Pick(2, 8, 40))
					if r.P(1, 3) {
						s = Step{Op: []string{"tur", "inq", "rcap10", "rcap16", "rluns", "msense6", "msense10", "sync", "rsense", "prin", "start", "unmap"}[r.Intn(12)], LUN: lun,
							Arg: int64(r.Pick(0, 0, 4, 8, 16, 36, 64, 96, 255, 2000)), N: 1, LBA: uint64(r.Intn(20))}
						switch s.Op {
						case "msense6", "rsense":
							s.Arg &= 255
						case "inq":
							s.V = r.Pick(0, 0x100, 0x180, 0x183)
						case "prin":
							s.V = r.Intn(3)
						case "msense10":
							s.V = r.Pick(0, 8, 0x3f)
						case "start":
							s.V, s.Arg = 1, 0
						case "tur", "sync":
							s.Arg = 0
						}
						s.Want = wantAny
					} else if r.P(1, 8) {
						s = seldom(r, lun, st[lun].Blocks)
					}
					if s.Op != "raw" && r.P(2, 3) {
						s.ED = r.Pick(-100000, -bs, -bs*2, -1, -bs+1, 1, 8, bs-1, bs, 2*bs, 10*bs, 70000)
					}
					if s.Op == "verify" && s.ED != 0 {
						s.Want = wantAny
					}
					s.Async = async && r.P(4, 5)
					a.Steps = append(a.Steps, s)
				}
				p.Actors = append(p.Actors, a)
			}
		}})
}
