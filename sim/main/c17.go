//go:build go1.25

package main

import (
	"fmt"

	"github.com/gostor/gotgt/zsim/rt"
)

const maxPR = 6

// prState is the persistent reservation state of a unit.
type prState struct {
	key    [maxPR]uint64 // by initiator; 0: not registered
	holder int           // initiator+1
	typ    byte          // 0: no reservation
	gen    uint32
	over   [2]uint64 // sessions that have ended
}

func allReg(t byte) bool { return t == 7 || t == 8 }
func validPR(st byte) bool {
	switch st & 15 {
	case 1, 3, 5, 6, 7, 8:
		return st>>4 == 0
	}
	return false
}

func (s prState) holds(n int) bool {
	if allReg(s.typ) {
		return s.key[n] != 0
	}
	return s.typ != 0 && s.holder == n+1
}

// drop removes the registration of n, and the reservation with it where it
// was its own.
func (s *prState) drop(n int) {
	s.key[n] = 0
	if s.typ == 0 {
		return
	}
	if allReg(s.typ) {
		for _, k := range s.key {
			if k != 0 {
				return
			}
		}
		s.typ, s.holder = 0, 0
	} else if s.holder == n+1 {
		s.typ, s.holder = 0, 0
	}
}

type prOut struct {
	s  prState
	st int
}

// prExec tells what a PERSISTENT RESERVE OUT of initiator n may do.
func prExec(s prState, n int, c *Cmd, to int) []prOut {
	conflict, check := prOut{s, stConflict}, prOut{s, stCheck}
	own := s.key[n]
	st := c.st
	key, act, scope := uint64(st.Arg), uint64(st.Arg2), byte(st.N)
	if c.kind == "prmove" {
		o := prOut{s, stGood}
		switch {
		case st.LBA != 0:
			return []prOut{check, conflict}
		case own == 0 && s.typ != 0:
			return []prOut{conflict}
		case own == 0:
			return []prOut{check, conflict}
		case own != key:
			return []prOut{conflict}
		case s.typ == 0:
			return []prOut{check}
		case !s.holds(n) || allReg(s.typ):
			return []prOut{conflict}
		case act == 0 || to == n:
			return []prOut{check}
		}
		o.s.key[to] = act
		o.s.holder = to + 1
		if st.V&2 != 0 {
			o.s.key[n] = 0
		}
		o.s.gen++
		return []prOut{o}
	}
	if st.LBA != 0 || st.V == 5 || st.V > 7 { // what it does not do
		return []prOut{check, conflict}
	}
	o := prOut{s, stGood}
	switch st.V {
	case 0, 6:
		if own == 0 && (st.V == 6 || key == 0) || own != 0 && (st.V == 6 || key == own) {
			if act != 0 {
				o.s.key[n] = act
			} else if own == 0 {
				// nothing to do; whether it counts is not said
				p := o
				p.s.gen++
				return []prOut{o, p}
			} else {
				o.s.drop(n)
			}
			o.s.gen++
			return []prOut{o}
		}
		return []prOut{conflict}
	}
	if own == 0 || own != key {
		if !validPR(scope) || act == 0 {
			return []prOut{conflict, check}
		}
		return []prOut{conflict}
	}
	switch st.V {
	case 1:
		if !validPR(scope) {
			if s.typ != 0 && !s.holds(n) {
				return []prOut{check, conflict}
			}
			return []prOut{check}
		}
		switch {
		case s.typ == 0:
			o.s.typ, o.s.holder = scope, n+1
		case !s.holds(n) || s.typ != scope:
			return []prOut{conflict}
		}
		return []prOut{o}
	case 2:
		switch {
		case s.typ == 0 || !s.holds(n):
		case s.typ != scope:
			return []prOut{check}
		default:
			o.s.typ, o.s.holder = 0, 0
		}
		return []prOut{o}
	case 3:
		o.s.key = [maxPR]uint64{}
		o.s.typ, o.s.holder = 0, 0
		o.s.gen++
		return []prOut{o}
	case 4:
		match := false
		for _, k := range s.key {
			match = match || act != 0 && k == act
		}
		take := s.typ != 0 && (allReg(s.typ) && act == 0 || !allReg(s.typ) && s.key[s.holder-1] == act)
		if take {
			if !validPR(scope) {
				return []prOut{check}
			}
			for k := range s.key {
				if k != n && (act == 0 || s.key[k] == act) {
					o.s.key[k] = 0
				}
			}
			o.s.typ, o.s.holder = scope, n+1
			o.s.gen++
			return []prOut{o}
		}
		if act == 0 {
			return []prOut{check, conflict}
		}
		if !match {
			return []prOut{conflict}
		}
		for k := range s.key {
			if k != n && s.key[k] == act {
				o.s.drop(k)
			}
		}
		o.s.gen++
		if own == act { // its own registration may go or stay
			p := o
			p.s.drop(n)
			return []prOut{o, p, check, conflict}
		}
		return []prOut{o}
	}
	return []prOut{check}
}

// keptOut tells whether the reservation excludes a medium access.
func (s prState) keptOut(n int, write bool) bool {
	if s.typ == 0 || s.holds(n) {
		return false
	}
	reg := s.key[n] != 0
	switch s.typ {
	case 1:
		return write
	case 3:
		return true
	case 5, 7:
		return write && !reg
	default:
		return !reg
	}
}

func sameKeys(b []byte, s *prState) bool {
	var want []uint64
	for _, k := range s.key {
		if k != 0 {
			want = append(want, k)
		}
	}
	if len(b) != 8*len(want) {
		return false
	}
	for j := 0; j+8 <= len(b); j += 8 {
		k := be64(b[j:])
		ok := false
		for x := range want {
			if want[x] == k {
				want = append(want[:x], want[x+1:]...)
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// prShows tells whether PERSISTENT RESERVE IN data is right in a state.
func prShows(c *Cmd, b []byte, s *prState) bool {
	if c.st.V == 2 {
		return len(b) >= 8 && be16(b) == 8
	}
	if len(b) < 8 || be32(b) != s.gen || int(be32(b[4:])) != len(b)-8 {
		return false
	}
	if c.st.V == 0 {
		return sameKeys(b[8:], s)
	}
	if s.typ == 0 {
		return len(b) == 8
	}
	if len(b) != 24 {
		return false
	}
	k := s.key[s.holder-1]
	if allReg(s.typ) {
		k = 0
	}
	return be64(b[8:]) == k && b[21] == s.typ
}

func runPR(w *World) {
	w.stepHook = func(i *Ini, st *Step) bool {
		w.endStep(i, st)
		return i.sessionStep(st)
	}
	x := w.watchSessions()
	w.x["sess"] = x
	w.x["onEnd"] = func(s *Sess) { w.boundEnd(s) }
	if !w.boot() {
		w.fail("boot", "the daemon does not start: %v", w.x["booterr"])
		return
	}
	var fns []func()
	for k := range w.P.Actors {
		w.newIni(&w.P.Actors[k])
	}
	left := len(w.inis)
	var wl rt.WaitList
	for _, i := range w.inis {
		i := i
		fns = append(fns, func() {
			i.need()
			// a REGISTER AND MOVE names ports that have a session
			left--
			wl.WakeAll()
			for left > 0 && !w.S.Deadlock {
				wl.WaitFor("the others", 1e9)
			}
			i.run()
		})
	}
	w.tasksThen(fns, func() {
		if w.S.Deadlock || w.daemon.Dead {
			return
		}
		for _, i := range w.inis {
			i.step(&Step{Op: "close"})
		}
		sleep(6e9)
		for _, i := range w.inis[:1] {
			for _, l := range lunsOf(i.t) {
				for v := 0; v < 2; v++ {
					i.step(&Step{Op: "prin", V: v, LUN: l})
				}
			}
		}
	})
	w.checkPR(x)
}

// prGated tells how a persistent reservation gates a command other than those
// every reservation does: 0 not at all, 1 as a read, 2 as a write.
func (c *Cmd) prGated() int {
	switch {
	case c.kind == "prefetch":
		return 1
	case c.kind == "msense6" || c.kind == "msense10":
		return 2
	case c.kind != "raw":
		return 0
	}
	switch c.cdb[0] {
	case 0x1b: // START STOP UNIT, unless it only starts the unit
		if c.cdb[4]&0xf0 == 0 && c.cdb[4]&1 != 0 {
			return 0
		}
		return 2
	case 0x04, 0x15, 0x55, 0x1a, 0x5a: // FORMAT UNIT, MODE SELECT, MODE SENSE
		return 2
	}
	return 0
}

// prFree tells whether a command is let through by every persistent reservation.
func (c *Cmd) prFree() bool {
	switch c.kind {
	case "tur", "inq", "rcap10", "rcap16", "rluns", "rsense", "prin":
		return true
	case "raw":
		return c.cdb[0] == 0x1b && c.prGated() == 0
	}
	return false
}

func (w *World) checkPR(x *sessions) {
	num := map[*Sess]int{}
	for k, s := range x.all {
		num[s] = k + 1
	}
	if len(x.all) > 120 {
		return
	}
	for k := range w.P.Setup.Targets {
		t := &w.P.Setup.Targets[k]
		done := map[*LU]bool{}
		for _, l := range lunsOf(t) {
			if lu := w.luOf(t, l); !done[lu] {
				done[lu] = true
				w.prHistory(t, lu, x, num)
			}
		}
	}
}

func (w *World) prHistory(t *Target, lu *LU, x *sessions, num map[*Sess]int) {
	var ops []*linOp[prState]
	for _, c := range w.cmds {
		c := c
		if c.s == nil || c.inv == 0 || c.s.i.t != t || w.luOf(t, c.lun) != lu || c.cdb == nil || num[c.s] == 0 {
			continue
		}
		n := c.s.i.idx
		sn := num[c.s]
		o := &linOp[prState]{inv: c.inv, ret: c.ret, what: c.String()}
		answered := c.done && c.rsp == 0 && c.status >= 0
		switch {
		case c.kind == "prout" || c.kind == "prmove":
			o.opt = !answered
			pick := func(which int) func(prState) (prState, bool) {
				return func(s prState) (prState, bool) {
					if o.opt && s.over[sn>>6]>>(sn&63)&1 != 0 {
						return s, false
					}
					skip := which
					for _, r := range prExec(s, n, c, int(c.st.N)) {
						if r.st == c.status || o.opt && r.st == stGood {
							if skip == 0 {
								return r.s, true
							}
							skip--
						}
					}
					return s, false
				}
			}
			o.apply, o.alt = pick(0), pick(1)
			if answered {
				w.cover(fmt.Sprintf("pr_out_%d_status_%d", c.cdb[1], c.status))
			}
		case c.kind == "prin":
			if !answered || c.status != stGood {
				continue
			}
			o.pure = true
			b := c.in[:min(c.inN, len(c.in))]
			o.what += fmt.Sprintf(" %x", b)
			o.apply = func(s prState) (prState, bool) { return s, prShows(c, b, &s) }
		case answered && (c.gated() || c.prGated() != 0):
			write := c.kind != "read" && c.kind != "verify" && c.prGated() != 1
			if c.status != stGood && c.status != stConflict && !(c.status == stCheck && (c.key == 0xe || c.kind == "raw")) {
				continue
			}
			o.pure = true
			o.apply = func(s prState) (prState, bool) { return s, s.keptOut(n, write) == (c.status == stConflict) }
			if c.status == stConflict {
				w.cover("conflicts_of_medium_access")
			}
		case answered && c.prFree():
			if c.status == stConflict {
				w.fail("pr", "%s: %s, which no persistent reservation keeps out", c.s.i.a.Name, c)
			}
			continue
		default:
			continue
		}
		ops = append(ops, o)
	}
	for _, s := range x.all {
		n := num[s]
		e := w.ends()[s]
		if s.i.t != t || s.disc || e == nil {
			continue
		}
		ret := e.ret
		if s.replacedAt > 0 {
			ret = min(ret, s.replacedAt)
		}
		lost := false
		for _, c := range w.cmds {
			lost = lost || c.s == s && w.luOf(t, c.lun) == lu && (c.kind == "prout" || c.kind == "prmove") && !c.done
		}
		if !lost {
			continue
		}
		ops = append(ops, &linOp[prState]{inv: e.inv, ret: ret, opt: ret >= inf, what: fmt.Sprintf("[%d..%d] end of the session %s#%d (%s)", e.inv, ret, s.i.a.Name, s.n, s.why),
			apply: func(st prState) (prState, bool) {
				st.over[n>>6] |= 1 << (n & 63)
				return st, true
			}})
	}
	bad, seen := linearize(prState{}, ops)
	w.cov["pr_states"] += int64(max(seen, 0))
	if seen < 0 {
		w.cover("histories_too_wide")
	}
	if bad != nil {
		w.fail("pr", "%s device %d: no order of the persistent reservation's history explains %s; before it: %s", t.Name, lu.Dev, bad.what, lastOps(ops, bad))
	}
}

func init() {
	addProp(&Prop{id: "C17", tags: []string{"pr", "lin", "never", "status", "login", "hang", "connlost", "resid", "maprace"}, run: runPR,
		rule: "2 to 5 initiators, some of them one port that came in through two portal groups, register, reserve, release, clear, preempt and move reservations of every type on 1 or 2 units at once, some behind two LUNs, right and wrong, in a random order, read keys and reservation, access the medium, reset units and end sessions and come back; the history of every unit is checked for linearizability against a model of the persistent reservation rules written from SPC-4.",
		gen: func(r *rt.RNG, p *Plan) {
			na := r.Range(2, 5)
			spreadTargets(r, p, r.Pick(1, 1, 2), func(k int) Storage {
				return Storage{Blocks: uint64(r.Range(24, 64)), BShift: genShift(r)}
			})
			calm := r.P(1, 3) // no session ends
			isids := genISIDs(r, na)
			portal := genGroups(r, p)
			alias(r, p, false)
			for k := 0; k < na; k++ {
				t := &p.Setup.Targets[0]
				if k > 1 && r.P(1, 5) {
					t = &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
				}
				luns := lunsOf(t)
				a := Actor{Kind: "ini", Target: t.Name, Portal: portal(), Depth: r.Pick(1, 1, 2, 3), Keys: genKeys(r), SN0: uint32(r.Uint64()), ISID: isids[k]}
				if r.P(1, 4) {
					a.Name = "iqn.2020-01.org.sim:same"
				}
				p.Actors = append(p.Actors, a)
				_ = luns
			}
			twins(r, p)
			pool := make([][]uint64, na)
			for k := range pool {
				pool[k] = []uint64{uint64(100*(k+1) + 1), uint64(100*(k+1) + 2)}
				if r.P(1, 4) {
					pool[k][0] = 7 // shared
				}
				if r.P(1, 6) {
					pool[k][1] = r.Uint64() | 1<<63
				}
			}
			types := []int{1, 3, 5, 6, 7, 8}
			fav := types[r.Intn(6)]
			typ := func() uint32 {
				if r.P(2, 3) {
					return uint32(fav)
				}
				if r.P(1, 8) {
					return uint32(r.Pick(0, 2, 4, 9, 15, 0x11, 0x13))
				}
				return uint32(types[r.Intn(6)])
			}
			for k := range p.Actors {
				a := &p.Actors[k]
				t := &p.Setup.Targets[0]
				if a.Target != t.Name {
					t = &p.Setup.Targets[1]
				}
				luns := lunsOf(t)
				cur := map[int]uint64{} // what its key should be
				async := r.Pick(0, 0, 1, 2)
				if r.P(1, 2) {
					a.Start = int64(r.Intn(2000000))
				}
				add := func(s Step) {
					s.Async = r.P(async, 3)
					if r.P(1, 6) {
						s.Gap = int64(r.Intn(400000))
					}
					if s.Op == "prout" || s.Op == "prmove" {
						s.Want = wantAny
						s.Imm = r.Pick(-1, 0)
					}
					a.Steps = append(a.Steps, s)
				}
				other := func() uint64 { q := pool[r.Intn(na)]; return q[r.Intn(2)] }
				for c := r.Range(5, 30); c > 0; c-- {
					lun := luns[0]
					if r.P(1, 5) {
						lun = luns[r.Intn(len(luns))]
					}
					blocks := p.storage(t, lun).Blocks
					key := int64(cur[lun])
					if r.P(1, 12) {
						key = int64(other())
					}
					s := Step{Op: "prout", LUN: lun, Arg: key}
					if r.P(1, 25) {
						s.LBA = uint64(r.Pick(1, 4, 8, 8<<8, 16<<8, 20<<8, 23<<8, 25<<8, 28<<8, 48<<8))
					}
					x := r.Intn(30)
					if cur[lun] == 0 && x < 14 && r.P(3, 4) {
						x = 0
					}
					switch {
					case x < 4: // register
						s.V = r.Pick(0, 0, 6)
						s.Arg2 = int64(pool[k][r.Intn(2)])
						if cur[lun] != 0 && r.P(1, 3) {
							s.Arg2 = 0
						}
						cur[lun] = uint64(s.Arg2)
						add(s)
					case x < 8:
						s.V, s.N = 1, typ()
						add(s)
					case x < 10:
						s.V, s.N = 2, typ()
						add(s)
					case x == 10:
						s.V = 3
						if r.P(1, 2) {
							cur[lun] = 0
						}
						add(s)
					case x < 13:
						s.V, s.N = 4, typ()
						s.Arg2 = int64(other())
						if r.P(1, 6) {
							s.Arg2 = 0
						}
						add(s)
					case x == 13:
						m := Step{Op: "prmove", LUN: lun, Arg: key, Arg2: int64(other()), N: uint32(r.Intn(na)), V: r.Pick(0, 2)}
						if o := &p.Actors[m.N]; o.Target != a.Target || !calm {
							m.N = uint32(k)
						}
						if r.P(1, 5) {
							m.LBA = uint64(r.Range(1, 8))
						}
						add(m)
					case x == 14:
						s.V, s.N, s.Arg2 = r.Pick(5, 8, 31), typ(), int64(other())
						add(s)
					case x < 18:
						add(Step{Op: "prin", V: r.Pick(0, 0, 1, 1, 2), LUN: lun})
					case x < 26:
						q := rwStep(r, lun, blocks, 6, 6)
						if q.Op == "wverify" {
							q.Op = "read"
							q.V = r.Pick(6, 10, 12, 16)
						}
						q.Want = wantAny
						add(q)
					case x == 26:
						add(Step{Op: "sync", LUN: lun, V: r.Pick(10, 16), Want: wantGoodOrConflict})
					case x == 27:
						switch r.Intn(3) {
						case 0:
							add(Step{Op: []string{"tur", "inq", "rcap10", "rcap16", "rluns"}[r.Intn(5)], LUN: lun})
						case 1: // START STOP UNIT, FORMAT UNIT
							h := []string{"1b00000000", "1b00000001", "1b01000003", "1b00000010", "1b00000011", "040000000000"}[r.Intn(6)]
							add(Step{Op: "raw", LUN: lun, Hex: h, Want: wantAny})
						case 2:
							q := Step{Op: []string{"msense6", "msense10", "prefetch", "raw", "raw"}[r.Intn(5)], LUN: lun, V: 0x3f, Want: wantAny}
							switch q.Op {
							case "raw": // MODE SELECT
								q.Hex, q.Arg = []string{"151000000c00", "55100000000000000c00"}[r.Intn(2)], -12
							case "prefetch":
								q.V, q.N = 10, 1
							}
							add(q)
						}
					case x == 28:
						if !calm && r.P(1, 2) {
							a.Steps = append(a.Steps, Step{Op: []string{"close", "rst", "logout", "relogin", "halfclose"}[r.Intn(5)], Arg: int64(r.Uint64() >> 1)})
						} else {
							add(Step{Op: "tmf", V: tmfLUReset, LUN: lun, I: r.P(1, 2)})
						}
					case x == 29:
						if r.P(1, 2) {
							a.Steps = append(a.Steps, Step{Op: "sleep", Arg: int64(r.Intn(1000000))})
						}
					}
				}
			}
		}})
}
