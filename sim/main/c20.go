//go:build go1.25

package main

import (
	"fmt"

	"github.com/gostor/gotgt/pkg/scsi"
	"github.com/gostor/gotgt/zsim/rt"
)

// statShot is one reading of the statistics.
type statShot struct {
	s    scsi.Stats
	copy map[int]int64
	at   span
}

func statClass(op byte) int {
	switch op {
	case 0x08, 0x28, 0xa8, 0x88:
		return 1
	case 0x0a, 0x2a, 0xaa, 0x8a:
		return 2
	}
	return 0
}

// readStats takes a reading.
func (w *World) readStats() *statShot {
	h := &statShot{at: span{from: w.tick()}}
	if !w.inDaemon("reading the statistics", func() { h.s = w.lib.drv.Stats() }) {
		return nil
	}
	h.at.to = w.tick()
	h.copy = map[int]int64{}
	for k, v := range h.s.SCSIIOCount {
		h.copy[k] = v
	}
	l, _ := w.x["stats"].([]*statShot)
	w.x["stats"] = append(l, h)
	w.cover("statistics_read")
	return h
}

// checkStats holds every reading against the commands sent and answered.
func (w *World) checkStats() {
	l, _ := w.x["stats"].([]*statShot)
	for n, h := range l {
		var sure, may [256]int64
		var bytes [3]int64
		var open [3][]int64
		for _, c := range w.cmds {
			if c.cdb == nil || c.inv == 0 || c.inv > h.at.to {
				continue
			}
			op := c.cdb[0]
			if c.done && c.rsp == 0 && c.status >= 0 && c.ret < h.at.from {
				sure[op]++
				bytes[statClass(op)] += int64(c.edtl)
			} else {
				may[op]++
				open[statClass(op)] = append(open[statClass(op)], int64(c.edtl))
			}
		}
		var cls [3]int64
		var base [3]int64
		for op := 0; op < 256; op++ {
			v := h.copy[op]
			cls[statClass(byte(op))] += v
			base[statClass(byte(op))] += sure[op]
			if v < sure[op] {
				w.fail("stats", "reading %d [%d..%d] counts %d commands with operation code %02x, %d were answered before", n, h.at.from, h.at.to, v, op, sure[op])
				return
			}
			if v > sure[op]+may[op] {
				w.fail("stats", "reading %d [%d..%d] counts %d commands with operation code %02x, only %d were sent by then", n, h.at.from, h.at.to, v, op, sure[op]+may[op])
				return
			}
		}
		for op, v := range h.copy {
			if op < 0 || op > 255 || v < 0 {
				w.fail("stats", "reading %d counts %d commands with operation code %d", n, v, op)
				return
			}
		}
		if h.s.ReadIOPS != cls[1] || h.s.WriteIOPS != cls[2] {
			w.fail("stats", "reading %d [%d..%d] shows %d reads and %d writes, by operation code there are %d and %d", n, h.at.from, h.at.to, h.s.ReadIOPS, h.s.WriteIOPS, cls[1], cls[2])
			return
		}
		for k, v := range []int64{0, h.s.TotalReadBlockCount, h.s.TotalWriteBlockCount} {
			if k > 0 && !sumOf(open[k], int(cls[k]-base[k]), v-bytes[k]) {
				w.fail("stats", "reading %d [%d..%d]: %d bytes for %d %s commands, %d of them with %d bytes were answered before and of %d more none make up the rest", n, h.at.from, h.at.to, v, cls[k], []string{"", "read", "write"}[k], base[k], bytes[k], len(open[k]))
				return
			}
		}
		if len(h.s.SCSIIOCount) != len(h.copy) {
			w.fail("stats", "reading %d changed after it was returned", n)
		}
		for op, v := range h.s.SCSIIOCount {
			if h.copy[op] != v {
				w.fail("stats", "reading %d changed after it was returned", n)
			}
		}
		for _, p := range l[:n] {
			if p.at.to >= h.at.from {
				continue
			}
			back := p.s.ReadIOPS > h.s.ReadIOPS || p.s.WriteIOPS > h.s.WriteIOPS || p.s.TotalReadBlockCount > h.s.TotalReadBlockCount || p.s.TotalWriteBlockCount > h.s.TotalWriteBlockCount ||
				p.s.TotalReadTime > h.s.TotalReadTime || p.s.TotalWriteTime > h.s.TotalWriteTime
			for op, v := range p.copy {
				back = back || v > h.copy[op]
			}
			if back {
				w.fail("stats", "reading %d [%d..%d] is behind an earlier one [%d..%d]", n, h.at.from, h.at.to, p.at.from, p.at.to)
				return
			}
		}
	}
}

// sumOf tells whether n of the numbers make up the sum.
func sumOf(l []int64, n int, sum int64) bool {
	if n < 0 || sum < 0 || n > len(l) {
		return false
	}
	type st struct {
		n   int
		sum int64
	}
	have := map[st]bool{{}: true}
	for _, v := range l {
		var add []st
		for s := range have {
			if t := (st{s.n + 1, s.sum + v}); t.n <= n && t.sum <= sum && !have[t] {
				add = append(add, t)
			}
		}
		for _, t := range add {
			have[t] = true
		}
		if len(have) > 1<<18 {
			return true // too many to tell
		}
	}
	return have[st{n, sum}]
}

func runStats(w *World) {
	w.stepHook = func(i *Ini, st *Step) bool {
		if st.Op == "stats" {
			w.readStats()
			return true
		}
		return false
	}
	if !w.boot() {
		w.fail("boot", "the daemon does not start: %v", w.x["booterr"])
		return
	}
	var fns []func()
	for k := range w.P.Actors {
		i := w.newIni(&w.P.Actors[k])
		fns = append(fns, i.run)
	}
	w.tasksThen(fns, func() {
		sleep(100e6)
		w.readStats()
	})
	w.checkStats()
}

func init() {
	addProp(&Prop{id: "C20", tags: []string{"stats", "boot", "lin", "status", "hang", "connlost", "login"}, run: runStats,
		rule: "1 to 4 initiators on one or two targets send reads and writes of every CDB size and all other commands, many of them failing, some aborted or cut off with their connection, while up to 3 readers take the statistics all the time; every reading must lie between the commands answered before it and those sent by its end, in number by operation code, in bytes (some set of the open commands must make up the difference), agree with itself, never fall behind an earlier one and stay as it was returned.",
		gen: func(r *rt.RNG, p *Plan) {
			p.Setup.Mode = "lib"
			p.Setup.Stats = true
			spreadTargets(r, p, r.Range(1, 4), func(k int) Storage {
				return Storage{Blocks: uint64(r.Range(32, 200)), BShift: genShift(r), Thin: r.P(1, 2)}
			})
			pause := func() int64 { return int64(r.Pick(0, 1000, 50000, 300000, 1000000)) }
			for n := r.Range(1, 4); n > 0; n-- {
				t := &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
				luns := lunsOf(t)
				a := Actor{Kind: "ini", Target: t.Name, Depth: r.Pick(1, 4, 8), Keys: genKeys(r), SN0: uint32(r.Uint64())}
				id := n * 1000
				for c := r.Range(3, 40); c > 0; c-- {
					lun := luns[r.Intn(len(luns))]
					bl := p.storage(t, lun).Blocks
					id++
					var s Step
					switch x := r.Intn(24); {
					case x < 12:
						s = rwStep(r, lun, bl, 200, r.Pick(4, 30))
					case x < 15:
						s = outside(r, lun, bl)
					case x < 17:
						s = stray(r, lun, bl)
					case x < 18:
						s = Step{Op: []string{"tur", "inq", "rcap10", "rcap16", "rluns", "msense6", "msense10", "rsense", "sync"}[r.Intn(9)], LUN: lun, Want: wantAny}
						switch s.Op {
						case "sync":
							s.V, s.N = 10, 1
						case "msense6", "msense10":
							s.V = r.Pick(0x3f, 0x08, 0)
						case "inq":
							s.V = r.Pick(0, 0x183, 0x155)
						}
					case x < 19:
						s = Step{Op: "read", LUN: 77, V: r.Pick(10, 16), N: uint32(r.Range(1, 8))}
					case x < 20:
						s = Step{Op: "nop", N: uint32(r.Intn(600))}
					case x < 22:
						s = Step{Op: "write", LUN: lun, V: r.Pick(10, 12, 16), N: uint32(r.Range(8, 24)), LBA: uint64(r.Intn(int(bl) - 24)), Imm: r.Pick(0, 512), PDU: 512, Keep: 1 + r.Pick(0, 512, 2048), Async: true, ID: id}
						a.Steps = append(a.Steps, s)
						s = Step{Op: "tmf", V: tmfAbortTask, Of: id, I: r.P(1, 2), LUN: lun, Gap: pause()}
						if r.P(1, 2) {
							s = Step{Op: "resume", Of: id}
						}
					default:
						s = Step{Op: []string{"logout", "close", "rst"}[r.Intn(3)]}
					}
					if s.Op != "tmf" && !s.Async {
						s.Async = r.P(2, 3)
					}
					if r.P(1, 4) {
						s.Gap = pause()
					}
					a.Steps = append(a.Steps, s)
				}
				p.Actors = append(p.Actors, a)
			}
			for n := r.Range(1, 3); n > 0; n-- {
				a := Actor{Kind: "admin", Name: fmt.Sprintf("admin%d", n)}
				for c := r.Range(1, 30); c > 0; c-- {
					a.Steps = append(a.Steps, Step{Op: "stats", Gap: pause()})
				}
				p.Actors = append(p.Actors, a)
			}
		}})
}
