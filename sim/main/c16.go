//go:build go1.25

package main

import (
	"fmt"

	"github.com/gostor/gotgt/zsim/rt"
)

// resState is what is known of one unit's reservation: the number of the
// session that holds it, and the sessions that have ended.
type resState struct {
	holder int
	over   [4]uint64
}

// watchEnds notes when each session's end began and when it must be complete.
type sessEnd struct {
	inv, ret int64
}

// endsOf is a stepHook that notes the beginning of every way to end a session.
func (w *World) endStep(i *Ini, st *Step) {
	switch st.Op {
	case "close", "rst", "halfclose", "logout", "cut", "relogin":
		if i.s != nil && !i.s.gone {
			w.beginEnd(i.s)
		}
	}
}

func (w *World) ends() map[*Sess]*sessEnd {
	m, _ := w.x["ends"].(map[*Sess]*sessEnd)
	if m == nil {
		m = map[*Sess]*sessEnd{}
		w.x["ends"] = m
	}
	return m
}

func (w *World) beginEnd(s *Sess) {
	if w.ends()[s] == nil {
		w.ends()[s] = &sessEnd{inv: w.tick(), ret: inf}
	}
}

// boundEnd makes sure the end of the session counts as complete some time
// after the connection is gone.
func (w *World) boundEnd(s *Sess) {
	w.beginEnd(s)
	e := w.ends()[s]
	if s.replacedAt > 0 {
		e.ret = min(e.ret, s.replacedAt)
	}
	w.S.After(5e9, func() {
		if !w.down {
			e.ret = min(e.ret, w.tick())
		}
	})
}

func runReserve(w *World) {
	w.stepHook = func(i *Ini, st *Step) bool {
		w.endStep(i, st)
		return i.sessionStep(st)
	}
	x := w.watchSessions()
	w.x["sess"] = x
	if !w.boot() {
		w.fail("boot", "the daemon does not start: %v", w.x["booterr"])
		return
	}
	w.x["onEnd"] = func(s *Sess) { w.boundEnd(s) }
	var fns []func()
	for k := range w.P.Actors {
		i := w.newIni(&w.P.Actors[k])
		fns = append(fns, i.run)
	}
	w.tasksThen(fns, func() {
		for k, i := range w.inis {
			switch k % 3 {
			case 0:
				i.step(&Step{Op: "logout"})
			case 1:
				i.step(&Step{Op: "close"})
			default:
				i.step(&Step{Op: "rst"})
			}
		}
		sleep(6e9)
		if w.S.Deadlock || w.daemon.Dead {
			return
		}
		// everything is free again
		for k := range w.P.Setup.Targets {
			t := &w.P.Setup.Targets[k]
			i := w.newIni(&Actor{Kind: "ini", Name: fmt.Sprintf("iqn.2020-01.org.sim:fresh%d", k), Target: t.Name, Depth: 1})
			for _, l := range lunsOf(t) {
				i.step(&Step{Op: "reserve", LUN: l, Want: wantGoodOrConflict})
				i.step(&Step{Op: "write", LUN: l, N: 1, V: 10, Imm: -1, Want: wantGoodOrConflict})
				i.step(&Step{Op: "release", LUN: l})
			}
		}
	})
	w.checkReserve(x)
}

func (w *World) checkReserve(x *sessions) {
	num := map[*Sess]int{}
	for k, s := range x.all {
		num[s] = k + 1
	}
	if len(x.all) > 250 {
		return
	}
	for _, lu := range w.LUs {
		w.reserveHistory(lu, x, num)
	}
}

// gated commands are kept out by a reservation.
func (c *Cmd) gated() bool {
	switch c.kind {
	case "read", "write", "wverify", "wsame", "verify", "sync", "unmap":
		return true
	}
	return false
}

// has tells whether the unit is behind any LUN of the target.
func (w *World) has(t *Target, lu *LU) bool {
	for _, l := range lunsOf(t) {
		if w.luOf(t, l) == lu {
			return true
		}
	}
	return false
}

func (w *World) reserveHistory(lu *LU, x *sessions, num map[*Sess]int) {
	var ops []*linOp[resState]
	for _, c := range w.cmds {
		c := c
		if c.s == nil || c.inv == 0 || !w.has(c.s.i.t, lu) || c.s.disc {
			continue
		}
		n := num[c.s]
		if n == 0 {
			continue
		}
		bit := func(s resState) bool { return s.over[n>>6]>>(n&63)&1 != 0 }
		o := &linOp[resState]{inv: c.inv, ret: c.ret, what: c.String()}
		answered := c.done && c.rsp == 0 && c.status >= 0
		// an answer that came after the connection was replaced bounds nothing
		if c.kind == "tmf" {
			all := c.n == tmfWarmReset || c.n == tmfColdReset
			if !all && (c.n != tmfLUReset || w.luOf(c.s.i.t, c.lun) != lu) || c.done && c.rsp != 0 {
				continue
			}
			o.opt = !c.done
			o.apply = func(s resState) (resState, bool) {
				if o.opt && bit(s) {
					return s, false
				}
				s.holder = 0
				return s, true
			}
			w.cover("resets")
			ops = append(ops, o)
			continue
		}
		if c.cdb == nil || w.luOf(c.s.i.t, c.lun) != lu {
			continue
		}
		switch {
		case answered && c.status == stConflict:
			o.pure = true
			o.apply = func(s resState) (resState, bool) { return s, s.holder != 0 && s.holder != n }
			w.cover("conflicts")
			if c.gated() {
				w.cover("conflicts_of_medium_access")
			}
		case c.kind == "reserve" && (!answered || c.status == stGood):
			o.opt = !answered
			o.apply = func(s resState) (resState, bool) {
				if s.holder != 0 && s.holder != n || bit(s) {
					return s, false
				}
				s.holder = n
				return s, true
			}
			if !o.opt {
				w.cover("reserved")
			}
		case c.kind == "release" && (!answered || c.status == stGood):
			o.opt = !answered
			o.apply = func(s resState) (resState, bool) {
				if bit(s) {
					return s, false
				}
				if s.holder == n {
					s.holder = 0
				}
				return s, true
			}
		case c.gated() && answered && (c.status == stGood || c.status == stCheck && c.key == 0xe):
			o.pure = true
			o.apply = func(s resState) (resState, bool) { return s, s.holder == 0 || s.holder == n }
		default:
			continue
		}
		ops = append(ops, o)
	}
	for _, s := range x.all {
		n := num[s]
		e := w.ends()[s]
		if !w.has(s.i.t, lu) || s.disc || e == nil {
			continue
		}
		ret := e.ret
		if s.replacedAt > 0 {
			ret = min(ret, s.replacedAt)
		}
		ops = append(ops, &linOp[resState]{inv: e.inv, ret: ret, opt: ret >= inf, what: fmt.Sprintf("[%d..%d] end of the session %s#%d (%s)", e.inv, ret, s.i.a.Name, s.n, s.why),
			apply: func(st resState) (resState, bool) {
				if st.holder == n {
					st.holder = 0
				}
				st.over[n>>6] |= 1 << (n & 63)
				return st, true
			}})
	}
	bad, seen := linearize(resState{}, ops)
	w.cov["reservation_states"] += int64(max(seen, 0))
	if seen < 0 {
		w.cover("histories_too_wide")
	}
	if bad != nil {
		w.fail("reserve", "device %d: no order of the reservation's history explains %s; before it: %s", lu.Dev, bad.what, lastOps(ops, bad))
	}
}

// lastOps tells what happened around and before an operation.
func lastOps[S comparable](ops []*linOp[S], bad *linOp[S]) string {
	r := ""
	n := 0
	for k := len(ops) - 1; k >= 0 && n < 12; k-- {
		if o := ops[k]; o != bad && o.inv < bad.ret {
			r += o.what + "; "
			n++
		}
	}
	return r
}

func init() {
	addProp(&Prop{id: "C16", tags: []string{"reserve", "lin", "never", "status", "login", "hang", "connlost", "reinst"}, run: runReserve,
		rule: "2 to 4 initiators, some of them one port that came in through two portal groups, reserve, release, reset and access 1 to 3 units at once, some through several LUNs or targets, and end their sessions by logout, close, reset, half-close and by logging in again, with writes waiting for data across all of it; the history of every unit's reservation is checked for linearizability, with session ends as operations, and no refused write may show on the medium.",
		gen: func(r *rt.RNG, p *Plan) {
			na := r.Range(2, 4)
			spreadTargets(r, p, r.Pick(1, 1, 2, 3), func(k int) Storage {
				return Storage{Blocks: uint64(r.Range(24, 64)), BShift: genShift(r), Thin: r.P(1, 3)}
			})
			t0 := &p.Setup.Targets[0]
			id := 0
			isids := genISIDs(r, na)
			portal := genGroups(r, p)
			alias(r, p, true)
			for k := 0; k < na; k++ {
				t := t0
				if k > 1 && r.P(1, 4) {
					t = &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
				}
				luns := lunsOf(t)
				a := Actor{Kind: "ini", Target: t.Name, Portal: portal(), Depth: r.Pick(1, 2, 3, 4), Keys: genKeys(r), SN0: uint32(r.Uint64()), ISID: isids[k]}
				if r.P(1, 4) {
					a.Name = "iqn.2020-01.org.sim:same"
				}
				if r.P(1, 2) {
					a.Start = int64(r.Intn(2000000))
				}
				async := r.Pick(0, 1, 2)
				polite := r.P(1, 3)
				for c := r.Range(3, 12); c > 0; c-- {
					lun := luns[0]
					if r.P(1, 3) {
						lun = luns[r.Intn(len(luns))]
					}
					blocks := p.storage(t, lun).Blocks
					add := func(s Step) {
						s.Async = s.Async || r.P(async, 3)
						if r.P(1, 6) {
							s.Gap = int64(r.Intn(400000))
						}
						a.Steps = append(a.Steps, s)
					}
					if r.P(1, 2) {
						add(Step{Op: "reserve", LUN: lun, Want: wantGoodOrConflict})
					}
					for n := r.Range(1, 5); n > 0; n-- {
						switch x := r.Intn(16); {
						case x < 9:
							s := rwStep(r, lun, blocks, 6, 6)
							if s.Op == "verify" || s.Op == "wverify" {
								s.Op = "read"
								s.V = r.Pick(6, 10, 12, 16)
							}
							s.Want = wantGoodOrConflict
							if s.Op == "write" && r.P(1, 4) {
								id++
								s.ID, s.Imm, s.Keep, s.Async = (k+1)*1000+id, 0, 1+r.Pick(0, 512), true
							}
							add(s)
						case x == 9:
							add(Step{Op: "sync", LUN: lun, V: r.Pick(10, 16), Want: wantGoodOrConflict})
						case x == 10:
							add(Step{Op: "tur", LUN: lun, Want: wantGoodOrConflict})
						case x == 11:
							add(Step{Op: "reserve", LUN: lun, Want: wantGoodOrConflict})
						case x == 12:
							add(Step{Op: []string{"rcap10", "inq", "rluns", "rcap16"}[r.Intn(4)], LUN: lun})
						case x == 13 && !polite:
							add(Step{Op: "release", LUN: lun})
						case x == 14:
							add(Step{Op: "tmf", V: tmfLUReset, LUN: lun, I: r.P(1, 2), Async: r.P(1, 2)})
						case x == 15:
							a.Steps = append(a.Steps, Step{Op: "sleep", Arg: int64(r.Intn(1000000))})
						}
					}
					switch x := r.Intn(16); {
					case x < 7:
						add(Step{Op: "release", LUN: lun})
					case x == 7:
						a.Steps = append(a.Steps, Step{Op: "logout", I: r.P(1, 2)})
					case x == 8:
						a.Steps = append(a.Steps, Step{Op: "close"})
					case x == 9:
						a.Steps = append(a.Steps, Step{Op: "rst"})
					case x == 10:
						a.Steps = append(a.Steps, Step{Op: "halfclose"})
					case x == 11:
						a.Steps = append(a.Steps, Step{Op: "relogin", Arg: int64(r.Uint64() >> 1)})
					case x == 12:
						a.Steps = append(a.Steps, Step{Op: "sleep", Arg: int64(r.Pick(1e6, 1e9, 6e9))})
					}
				}
				p.Actors = append(p.Actors, a)
			}
			twins(r, p)
			for k := r.Intn(3); k > 0; k-- {
				p.Faults = append(p.Faults, Fault{Kind: "disk", Op: []string{"write", "read"}[r.Intn(2)], Path: devPath(p.Setup.Storages[r.Intn(len(p.Setup.Storages))].Dev), N: r.Intn(12), Count: r.Pick(1, 2), Delay: int64(r.Pick(1000000, 10000000, 500000000))})
			}
		}})
}
