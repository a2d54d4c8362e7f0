//go:build go1.25

package main

import (
	"fmt"
	"sort"

	"github.com/gostor/gotgt/zsim/rt"
)

// mixed draws one request of any kind; all answers but the kind's own are
// judged by the session.
func mixed(r *rt.RNG, lun int, blocks uint64) Step {
	var st Step
	switch k := r.Intn(24); {
	case k < 8:
		st = rwStep(r, lun, blocks, 16, 8)
	case k < 11:
		st = Step{Op: "nop", N: uint32(r.Pick(0, 0, 1, 3, 4, 47, 48, 49, 512, 4096, 8192))}
	case k < 12:
		st = Step{Op: "text", Keys: [][2]string{{"SendTargets", ""}}}
	case k < 13:
		st = Step{Op: "tmf", LUN: lun, V: tmfAbortTask, Arg: int64(r.Uint64() & 0x7fffffff)}
	case k < 14:
		st = Step{Op: "tmf", LUN: lun, V: r.Pick(tmfClearACA, tmfReassign)}
	case k < 15:
		st = outside(r, lun, blocks)
	case k < 16:
		st = stray(r, lun, blocks)
	case k < 17:
		st = rwStep(r, lun, blocks, 16, 8)
		st.LUN = r.Pick(9, 77, 300, 16000)
	default:
		st = Step{Op: []string{"tur", "inq", "rcap10", "rcap16", "rluns", "msense6", "msense10", "sync", "rsense", "prin"}[r.Intn(10)], LUN: lun, V: r.Pick(0, 0, 0x3f)}
		if st.Op == "prin" {
			st.V = r.Intn(3)
		}
		if st.Op == "inq" {
			st.V = r.Pick(0, 0x100, 0x180, 0x183, 0x1b0, 0x1b1, 0x1b2)
		}
		if st.Op == "sync" {
			st.N, st.V = 1, 10
		}
		st.Want = wantAny
		if r.P(1, 3) {
			st.ED = r.Pick(-3, 0, 5, 300)
		}
	}
	st.I = r.P(1, 6)
	return st
}

func init() {
	addProp(&Prop{id: "C05", tags: []string{"answer", "statsn", "hang", "connlost", "sense", "login", "reject"},
		rule: "1 to 3 initiators pipeline SCSI commands of all kinds (also refused ones), pings with data, text requests, task management and logouts with new logins, immediate and not, over byte streams cut into segments down to one byte and with held-back peers; every response is matched with the request it answers.",
		gen: func(r *rt.RNG, p *Plan) {
			st := []Storage{{Blocks: uint64(r.Range(16, 200)), BShift: genShift(r)}}
			if r.P(1, 2) {
				st = append(st, Storage{Blocks: 64, BShift: 9, Thin: true})
			}
			oneTarget(p, st...)
			for k := r.Range(1, 3); k > 0; k-- {
				a := Actor{Kind: "ini", Depth: r.Pick(1, 3, 8, 16), Keys: genKeys(r), SN0: uint32(r.Uint64()), Stage: []string{"", "secop", "secff", "split", "cbit"}[r.Intn(5)], CID: uint16(r.Intn(3))}
				if r.P(1, 4) {
					a.SN0 = -uint32(r.Intn(20))
				}
				async := r.P(4, 5)
				for n := r.Range(5, 40); n > 0; n-- {
					lun := r.Intn(len(st))
					s := mixed(r, lun, st[lun].Blocks)
					s.Async = async && r.P(5, 6)
					a.Steps = append(a.Steps, s)
					switch r.Intn(25) {
					case 0:
						a.Steps = append(a.Steps, Step{Op: "logout", I: r.P(1, 2)})
					case 1:
						a.Steps = append(a.Steps, Step{Op: "noread", Arg: int64(r.Pick(1e5, 1e7, 1e9))})
					case 2:
						a.Steps = append(a.Steps, Step{Op: "stall", V: r.Intn(3), Arg: int64(r.Pick(1e5, 1e7, 1e9))})
					case 3:
						a.Steps = append(a.Steps, Step{Op: []string{"close", "rst", "halfclose"}[r.Intn(3)]})
					}
				}
				if r.P(1, 2) {
					a.Steps = append(a.Steps, Step{Op: "wait"}, Step{Op: "logout"})
				}
				p.Actors = append(p.Actors, a)
			}
		}})

	addProp(&Prop{id: "C06", tags: []string{"order", "window", "hang", "lin", "answer", "login"},
		rule: "Initiators deliver commands out of CmdSN order, repeat commands already received, send numbers behind, exactly at and far beyond the edges of the window, with starting numbers around the 32-bit and 31-bit wraps; every session's private blocks must end up, and be read, as if its commands had run in CmdSN order once each.",
		run:  runOrder,
		gen: func(r *rt.RNG, p *Plan) {
			oneTarget(p, Storage{Blocks: 128, BShift: genShift(r)})
			na := r.Range(1, 3)
			for k := 0; k < na; k++ {
				a := Actor{Kind: "ini", Depth: r.Pick(2, 4, 8, 16, 40), SN0: uint32(r.Uint64()), Stage: []string{"", "secop"}[r.Intn(2)]}
				switch r.Intn(3) {
				case 0:
					a.SN0 = -uint32(r.Intn(30))
				case 1:
					a.SN0 = 1<<31 - uint32(r.Intn(30))
				}
				base := uint64(k * 8)
				for n := r.Range(8, 40); n > 0; n-- {
					st := Step{LUN: 0, LBA: base + uint64(r.Intn(r.Pick(1, 2, 6))), N: uint32(r.Range(1, 2)), V: 10, Imm: -1, Async: true}
					st.Op = []string{"write", "read", "write"}[r.Intn(3)]
					if r.P(1, 3) {
						st.Hold = r.Range(1, 4)
					}
					switch r.Intn(18) {
					case 16, 17: // immediate, with data to be asked for, elsewhere
						st.Op, st.I, st.Hold = "write", true, 0
						st.LBA, st.N = 64+uint64(r.Intn(40)), uint32(r.Range(1, 24))
						st.Imm, st.PDU = r.Pick(0, 0, 0, 512, -1), r.Pick(0, 512, 1024)
						if r.P(1, 3) {
							st.Slow = int64(r.Pick(1000, 100000, 2000000))
						}
					case 0:
						st.Op = "nop"
						st.N = uint32(r.Intn(60))
						st.I = r.P(1, 2)
					case 1:
						st.Op, st.I = "read", true
					case 2: // a number already used
						st.Op, st.Arg = "stale", int64(r.Pick(1, 1, 2, 5, 1<<30))
					case 3:
						st.Op, st.Arg = "ahead", int64(r.Pick(1, 1, 2, 64, 1<<20, 1<<30))
					case 4:
						st.Op = "again"
						st.Arg = int64(r.Range(1, 6))
					case 5:
						st.Async = false
						st.Hold = 0
					case 6:
						st.Op = "wait"
					}
					a.Steps = append(a.Steps, st)
				}
				if r.P(1, 25) {
					a.Steps = append(a.Steps, Step{Op: "fill", LBA: base, V: 10, Arg: int64(r.Pick(0, 0, 0, 1, 100))})
				}
				p.Actors = append(p.Actors, a)
			}
		}})
}

// orderStep sends a command that must be ignored because of its number.
func (i *Ini) orderStep(st *Step) {
	s := i.need()
	if s == nil {
		return
	}
	switch st.Op {
	case "again": // the request of an earlier, answered command once more
		for k := len(i.all) - int(st.Arg); k >= 0; k-- {
			c := i.all[k]
			if c.s != s || !c.done || c.imm || c.cdb == nil || c.noAns || c.edtl > 0 && c.wr && c.sent < len(c.out) {
				continue
			}
			if !snLess(c.sn, s.expSeen) {
				continue
			}
			i.w.cover("fault:duplicate_command")
			s.enqueue(&outPDU{p: s.rebuild(c)})
			return
		}
		return
	}
	x := *st
	x.Op, x.Like, x.Async, x.Hold, x.I = "write", false, true, 0, false
	if st.Op == "fill" {
		// every number of the window at once, the first one last
		s.awaitAll()
		n := int(s.maxSeen-s.cmdSN) + 1 - int(st.Arg)
		for k := 0; k < n && !s.gone; k++ {
			x.Op, x.LBA, x.N, x.Hold, x.Imm = []string{"write", "read"}[i.rng.Intn(2)], st.LBA+uint64(i.rng.Intn(6)), 1, 0, -1
			if k == 0 {
				x.Hold = n - 1
			}
			c := i.build(&x)
			if !s.submit(c) {
				break
			}
			c.st = st
			i.all = append(i.all, c)
		}
		i.w.cover("fault:window_filled")
		s.awaitAll()
		return
	}
	if st.Op == "ahead" && st.Arg <= 64 {
		s.awaitAll()
		if s.gone {
			return
		}
	}
	c := i.build(&x)
	c.st = st
	c.noAns = true
	i.w.register(c)
	c.s, c.i = s, i
	c.itt = s.newITT()
	if st.Op == "stale" {
		c.sn = s.expSeen - uint32(st.Arg)
		i.w.cover("fault:stale_cmdsn")
	} else {
		if st.Arg <= 64 {
			// nothing is outstanding: the window stands still until the next command
			c.sn = s.maxSeen + uint32(st.Arg)
		} else {
			c.sn = s.maxSeen + uint32(st.Arg)
		}
		i.w.cover("fault:cmdsn_beyond_window")
	}
	c.what += fmt.Sprintf(" with CmdSN %x outside the window %x..%x", c.sn, s.expSeen, s.maxSeen)
	s.out[c.itt] = c
	p := s.scsiPDU(c)
	s.enqueue(&outPDU{p: p, c: c})
	if st.Op == "ahead" && st.Arg <= 64 {
		// let it arrive before the window can move
		n := s.nop(nil, true, 0)
		s.await(n)
	}
}

// rebuild makes the request PDU of a command again.
func (s *Sess) rebuild(c *Cmd) *PDU {
	so, ro := c.sent, c.r2tOff
	p := s.scsiPDU(c)
	c.sent, c.r2tOff = so, ro
	return p
}

func runOrder(w *World) {
	w.stepHook = func(i *Ini, st *Step) bool {
		switch st.Op {
		case "stale", "ahead", "again", "fill":
			i.orderStep(st)
			return true
		}
		return false
	}
	runStandard(w)
	w.checkOrder()
}

// checkOrder replays the commands of each session on its private blocks in
// CmdSN order.
func (w *World) checkOrder() {
	bySess := map[*Sess][]*Cmd{}
	var order []*Sess
	for _, c := range w.cmds {
		if c.noAns || c.imm || c.s == nil || c.inv == 0 || c.kind != "read" && c.kind != "write" {
			continue
		}
		if bySess[c.s] == nil {
			order = append(order, c.s)
		}
		bySess[c.s] = append(bySess[c.s], c)
	}
	cur := map[string]uint64{}
	key := func(lu *LU, lba uint64) string { return fmt.Sprintf("%d/%d", lu.Dev, lba) }
	known := map[string]bool{}
	for _, s := range order {
		cs := bySess[s]
		sort.SliceStable(cs, func(a, b int) bool { return snLess(cs[a].sn, cs[b].sn) })
		for _, c := range cs {
			lu := c.lu
			if lu == nil {
				continue
			}
			for k := uint64(0); k < uint64(c.n); k++ {
				kk := key(lu, c.lba+k)
				if _, ok := known[kk]; !ok {
					known[kk], cur[kk] = true, lu.initial(c.lba+k)
				}
			}
			if !c.done || c.status != stGood || c.kind == "write" && c.r2tN > 0 {
				// not known to have happened, or in its own time
				for k := uint64(0); k < uint64(c.n); k++ {
					if c.kind == "write" {
						known[key(lu, c.lba+k)] = false
					}
				}
				continue
			}
			if c.kind == "write" {
				for k, id := range c.vals {
					kk := key(lu, c.lba+uint64(k))
					cur[kk], known[kk] = id, true
				}
				continue
			}
			for k := 0; (k+1)*lu.BS <= c.inN && k < int(c.n); k++ {
				kk := key(lu, c.lba+uint64(k))
				if !known[kk] || lu.taint[c.lba+uint64(k)] {
					continue
				}
				id, ok, _ := readBlock(c.in[k*lu.BS : (k+1)*lu.BS])
				if ok && id != cur[kk] {
					w.fail("order", "%s: %s (CmdSN %x) shows %s, but by CmdSN order it is %s", c.i.a.Name, c.what, c.sn, describe(id, w), describe(cur[kk], w))
				}
			}
		}
	}
	for _, lu := range w.LUs {
		b := make([]byte, lu.BS)
		for lba := uint64(0); lba < lu.Blocks; lba++ {
			kk := key(lu, lba)
			if !known[kk] || lu.taint[lba] || !w.medium(lu, lba, b) {
				continue
			}
			if id, ok, _ := readBlock(b); ok && id != cur[kk] {
				w.fail("order", "block %d of device %d ends as %s, but by CmdSN order it is %s", lba, lu.Dev, describe(id, w), describe(cur[kk], w))
			}
		}
	}
}
