//go:build go1.25

package main

import (
	"github.com/gostor/gotgt/zsim/rt"
)

// covers: a completed SYNCHRONIZE CACHE includes the block, or the command is
// a FUA write of it.
func (c *Cmd) covers(lba uint64) bool {
	return lba >= c.lba && (lba < c.lba+uint64(c.n) || c.kind == "sync" && c.n == 0)
}

// durable: the write is known to be on stable storage.
func (w *World) durable(lu *LU, lba uint64, r *mrec) bool {
	if !r.w || r.opt || r.who == nil {
		return false
	}
	if r.who.fua && r.who.done && r.who.status == stGood {
		return true
	}
	for _, s := range w.syncs {
		if s.kind == "sync" && s.lu == lu && s.inv > r.ret && s.covers(lba) {
			return true
		}
	}
	return false
}

// survivors lists the values a sector of the block may have after a power loss.
func (w *World) survivors(lu *LU, lba uint64) map[uint64]bool {
	h := lu.hist[lba]
	ok := map[uint64]bool{}
	var dur []*mrec
	for k := range h {
		if w.durable(lu, lba, &h[k]) {
			dur = append(dur, &h[k])
		}
	}
	superseded := func(r *mrec) bool {
		for _, d := range dur {
			if d != r && r.ret < d.inv {
				return true
			}
		}
		return false
	}
	if len(dur) == 0 {
		ok[lu.initial(lba)] = true
	}
	for k := range h {
		if h[k].w && !superseded(&h[k]) {
			ok[h[k].id] = true
		}
	}
	return ok
}

// sightAll takes the whole medium as read at this moment.
func (w *World) sightAll() {
	t := w.tick()
	for _, lu := range w.LUs {
		b := make([]byte, lu.BS)
		for lba := uint64(0); lba < lu.Blocks; lba++ {
			if !w.medium(lu, lba, b) {
				w.fail("dur", "block %d of device %d is gone from the medium", lba, lu.Dev)
				break
			}
			w.sighting(lu, lba, b, t, t, nil)
		}
	}
}

// afterPower compares what the power loss left with what may survive, and
// makes it the starting point of a new history.
func (w *World) afterPower() {
	for _, lu := range w.LUs {
		b := make([]byte, lu.BS)
		base := map[uint64]uint64{}
		if n, want := w.D.Size(lu.Path), int64(lu.Blocks)*int64(lu.BS)+int64(len(lu.Extra)); n != want {
			w.fail("dur", "after the power loss the file of device %d has %d bytes instead of %d", lu.Dev, n, want)
		}
		for lba := uint64(0); lba < lu.Blocks; lba++ {
			if !w.medium(lu, lba, b) {
				w.fail("dur", "block %d of device %d is gone after the power loss", lba, lu.Dev)
				break
			}
			ok := w.survivors(lu, lba)
			var first uint64
			for s := 0; s*512 < lu.BS; s++ {
				id, known := readSector(b[s*512:s*512+512], s)
				if lu.taint[lba] {
					continue
				}
				if !known {
					w.fail("dur", "after the power loss sector %d of block %d, device %d holds bytes nobody wrote", s, lba, lu.Dev)
				} else if !ok[id] && !(id == 0 && lu.zeroOK[lba]) {
					w.fail("dur", "after the power loss sector %d of block %d, device %d holds %s; it was replaced durably%s", s, lba, lu.Dev, describe(id, w), w.blockHist(lu, lba))
				}
				if s == 0 {
					first = id
				} else if id != first {
					lu.taint[lba] = true
					w.cover("torn_block_after_power_loss")
				}
				if id != lu.initial(lba) {
					w.cover("sector_new_after_power_loss")
				} else if len(lu.hist[lba]) > 0 {
					w.cover("sector_old_after_power_loss")
				}
			}
			base[lba] = first
		}
		lu.base = base
		lu.hist = map[uint64][]mrec{}
	}
	w.syncs = nil
	w.epoch0 = w.tick()
}

// crash ends the daemon, with the power if asked to, and waits for the
// initiators to notice.
func (w *World) crash(power bool) {
	w.kill(false)
	for t := w.S.Now() + 5e9; w.S.Now() < t; {
		left := 0
		for _, i := range w.inis {
			i.stop = true
			if i.s != nil && !i.s.gone {
				left++
			}
		}
		if left == 0 {
			break
		}
		rt.Sleep(1e6)
	}
	for _, i := range w.inis {
		if i.s != nil && !i.s.gone {
			i.s.closing = true
			i.s.end("the daemon died")
		}
	}
	for _, lu := range w.LUs {
		for lba, h := range lu.hist {
			keep := h[:0]
			for _, r := range h {
				if r.w && r.ret > w.crash0 {
					if r.inv > w.crash0 {
						continue
					}
					r.ret = w.crash0
				}
				keep = append(keep, r)
			}
			lu.hist[lba] = keep
		}
	}
	w.sightAll()
	if power {
		w.checkLin()
		w.D.PowerLoss()
		w.cover("fault:power_loss")
		w.afterPower()
	}
}

// runCrash runs the phases of the plan and reads everything back.
func runCrash(w *World) {
	if runPhases(w) {
		w.readAll()
		w.finish(nil)
	}
}

// runPhases runs the phases of the plan, each but the last ended by a crash.
func runPhases(w *World) bool { return w.phases(w.P) }

// phases is runPhases with some of the actors.
func (w *World) phases(p *Plan) bool {
	phases := 0
	for k := range p.Actors {
		phases = max(phases, p.Actors[k].Phase)
	}
	for ph := 0; ph <= phases; ph++ {
		if !w.boot() {
			w.fail("dur", "the daemon does not start after %d crashes: %v", ph, w.x["booterr"])
			return false
		}
		w.killed, w.phase = false, ph
		last := ph == phases
		left := 0
		for k := range p.Actors {
			a := &p.Actors[k]
			if a.Phase != ph {
				continue
			}
			i := w.newIni(a)
			left++
			w.S.Spawn("actor", w.root, func() {
				i.run()
				left--
				w.killq.WakeAll()
			})
		}
		power, at := false, inf
		for k := range w.P.Faults {
			if f := &w.P.Faults[k]; f.Arg == int64(ph) && (f.Kind == "killat" || f.Kind == "powerat") {
				at = w.S.Now() + f.At
				power = f.Kind == "powerat"
			}
		}
		delete(w.x, "power")
		limit := w.S.Now() + 3600e9
		for left > 0 && !w.killed && w.S.Now() < at {
			if w.S.Deadlock || w.S.Now() > limit {
				w.fail("hang", "the workload does not end within an hour of simulated time")
				return false
			}
			w.killq.WaitFor("crash", min(at, limit)-w.S.Now())
		}
		if v, ok := w.x["power"]; ok {
			power = v.(bool)
		}
		if w.daemon.Dead {
			return false // it died on its own, reported as a crash
		}
		if last {
			break
		}
		w.crash(power)
	}
	w.quiet = true
	return true
}

// readAll reads everything back through the daemon.
func (w *World) readAll() {
	for k := range w.P.Setup.Targets {
		t := &w.P.Setup.Targets[k]
		a := &Actor{Kind: "ini", Target: t.Name, Depth: 4}
		i := w.newIni(a)
		for _, lun := range lunsOf(t) {
			lu := w.luOf(t, lun)
			for lba := uint64(0); lba < lu.Blocks; lba += 16 {
				i.step(&Step{Op: "read", LUN: lun, LBA: lba, N: uint32(min(16, lu.Blocks-lba)), V: 10, Async: true})
			}
		}
		if i.s != nil && !i.s.gone {
			i.s.awaitAll()
		}
	}
}

func init() {
	addProp(&Prop{id: "C03", tags: []string{"dur", "lin", "never", "boot", "login", "hang"}, run: runCrash,
		rule: "1 to 3 initiators write, FUA-write and sync units of 512 to 4096-byte blocks; the daemon is killed or the host loses power up to three times, at a random instant or within a chosen write or sync of the backing file; after a power loss each 512-byte sector keeps its last synced content or any later version at random. Every sector is compared with what may survive, then the daemon is started again and everything is read back through it.",
		gen: func(r *rt.RNG, p *Plan) {
			var st []Storage
			for k := r.Range(1, 2); k > 0; k-- {
				st = append(st, Storage{Blocks: uint64(r.Range(8, 48)), BShift: genShift(r), Thin: r.P(1, 4)})
			}
			oneTarget(p, st...)
			p.PageY = r.Pick(4096, 65536)
			phases := r.Range(1, 3)
			hot := uint64(r.Pick(2, 4, 16))
			maxN := r.Pick(1, 2, 8)
			for ph := 0; ph <= phases; ph++ {
				if ph == phases && r.P(1, 2) {
					break
				}
				for k := r.Range(1, 3); k > 0; k-- {
					a := Actor{Kind: "ini", Phase: ph, Depth: r.Pick(1, 2, 4), Keys: genKeys(r), SN0: uint32(r.Uint64())}
					async := r.P(2, 3)
					for n := r.Range(3, 20); n > 0; n-- {
						lun := r.Intn(len(st))
						s := rwStep(r, lun, st[lun].Blocks, hot, maxN)
						s.FUA = s.FUA || r.P(1, 5)
						if r.P(1, 5) {
							s = Step{Op: "sync", LUN: lun, LBA: uint64(r.Intn(4)), N: uint32(r.Pick(0, 1, 4)), V: r.Pick(10, 16)}
							if r.P(1, 2) {
								s.LBA, s.N = 0, 0
							}
						}
						s.Async = async && r.P(3, 4)
						a.Steps = append(a.Steps, s)
					}
					p.Actors = append(p.Actors, a)
				}
				if ph < phases {
					f := Fault{Kind: []string{"killat", "powerat", "powerat", "killop", "powerop", "powerop", "none", "endpower"}[r.Intn(8)], Arg: int64(ph), Path: devPath(1000 + uint64(r.Intn(len(st))))}
					switch f.Kind {
					case "killat", "powerat":
						f.At = int64(r.Intn(r.Pick(2000000, 20000000)))
					case "endpower": // after the workload
						f.Kind, f.At = "powerat", 3000e9
					case "none":
						f.Kind, f.At = "killat", 3000e9
					default:
						f.Op = []string{"write", "write", "sync"}[r.Intn(3)]
						f.N = 1 + r.Intn(30)
						f.Delay = int64(r.Pick(0, 0, 1000, 100000))
					}
					p.Faults = append(p.Faults, f)
				}
			}
			// a phase for every crash, even without a workload
			if n := len(p.Actors); n == 0 || p.Actors[n-1].Phase < phases {
				p.Actors = append(p.Actors, Actor{Kind: "ini", Phase: phases})
			}
		}})
}
