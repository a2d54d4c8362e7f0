//go:build go1.25

package main

import (
	"fmt"

	"github.com/gostor/gotgt/zsim/rt"
)

func (c *Cmd) scsi() bool { return c.cdb != nil }

// managed applies the answer of a task management request to the commands of
// the session.
func (s *Sess) managed(t *Cmd) {
	w := s.w
	before := func(c *Cmd) bool { // it came before the request
		if t.imm {
			return c.inv > 0 && c.inv < t.inv
		}
		return c.inv > 0 && (snLess(c.sn, t.sn) || c.imm && c.sn == t.sn)
	}
	hit := func(c *Cmd) bool { return false }
	switch t.n {
	case tmfAbortTask:
		n := t.named
		w.cover(fmt.Sprintf("abort_task_response_%d", t.rsp))
		if t.rsp != 0 && t.rsp != 1 && (n == nil || n.lun == t.lun) {
			s.bad("tmf", "%s is answered with response %d", t.what, t.rsp)
			return
		}
		switch {
		case n == nil || !n.scsi():
			if t.rsp == 0 {
				s.bad("tmf", "%s, which is no task of this session, is reported complete", t.what)
			}
		case n.done && n.ret < t.inv || n.abort != nil:
			if t.rsp == 0 {
				s.bad("tmf", "%s, which has ended, is reported complete", t.what)
			}
		case t.rsp == 1 && !n.done && before(n):
			s.bad("tmf", "%s is answered with \"task does not exist\", but the task has not been answered", t.what)
		case t.rsp == 0 && n.inv == 0:
			s.bad("tmf", "%s is reported complete before the command was sent", t.what)
		case t.rsp == 0 && !n.done:
			hit = func(c *Cmd) bool { return c == n }
		}
	case tmfAbortTaskSet, tmfLUReset, tmfClearTaskSet:
		w.cover(fmt.Sprintf("task_set_function_%d_response_%d", t.n, t.rsp))
		if t.rsp != 0 {
			if w.luOf(s.i.t, t.lun) != nil && t.n != tmfClearTaskSet {
				s.bad("tmf", "%s is answered with response %d", t.what, t.rsp)
			}
			return
		}
		hit = func(c *Cmd) bool { return c.lun == t.lun && before(c) }
	case tmfWarmReset, tmfColdReset:
		if t.rsp != 0 {
			return
		}
		hit = before
	default:
		if t.rsp == 0 && t.n != tmfClearACA {
			s.bad("tmf", "%s is reported complete", t.what)
		}
		return
	}
	for _, k := range sortedKeys32(s.out) {
		c := s.out[k]
		if c == nil || !c.scsi() || !hit(c) {
			continue
		}
		c.abort = t
		c.lost = true
		c.bound = t.ret
		delete(s.out, k)
		if s.dead == nil {
			s.dead = map[uint32]*Cmd{}
		}
		s.dead[k] = c
		w.cover("aborted_commands")
		if len(c.parked) > 0 {
			w.cover("aborted_commands_waiting_for_data")
		}
		w.settle(c)
		if lu := c.lu; lu != nil && c.op > 0 && !w.noLin {
			for n := range c.vals {
				if lba := c.lba + uint64(n); lba < lu.Blocks && n < 64 {
					w.probe(lu, lba)
				}
			}
		}
	}
	s.wl.WakeAll()
}

func (i *Ini) abortStep(st *Step) bool {
	switch st.Op {
	case "retag": // the next command takes the tag of an aborted one
		s, c := i.s, i.byID(st.Of)
		if s == nil || s.gone || c == nil || c.s != s || c.abort == nil || s.dead[c.itt] != c || s.reuse != 0 {
			return true
		}
		for _, k := range sortedKeys32(s.out) {
			if s.out[k].named == c {
				return true
			}
		}
		c.parked = nil
		c.retag = true
		for _, f := range s.flows {
			if f.c == c {
				return true
			}
		}
		delete(s.dead, c.itt)
		s.reuse = c.itt
		i.w.cover("tags_reused")
	case "late": // the data of an aborted command
		if s, c := i.s, i.byID(st.Of); s != nil && !s.gone && c != nil && c.s == s && c.abort != nil && s.dead[c.itt] == c {
			if len(c.parked) > 0 {
				i.w.cover("late_data")
			}
			s.resume(c)
		}
	case "tmfother": // names a task of another session
		s := i.need()
		if s == nil {
			return true
		}
		for _, o := range i.w.inis {
			if o == i || o.s == nil || o.s.gone || o.t != i.t {
				continue
			}
			for _, k := range sortedKeys32(o.s.out) {
				if s.out[k] != nil || s.dead[k] != nil {
					continue
				}
				c := s.tmf(tmfAbortTask, o.s.out[k].lun, nil, k, true, 0)
				if c.itt != 0 {
					i.w.cover("aborts_naming_another_sessions_task")
					s.await(c)
				}
				return true
			}
		}
	default:
		return false
	}
	return true
}

func init() {
	addProp(&Prop{id: "C15", tags: []string{"tmf", "lin", "never", "answer", "order", "status", "statsn", "window", "hang", "connlost", "dout", "reject", "login"},
		run: func(w *World) {
			w.stepHook = func(i *Ini, st *Step) bool { return i.abortStep(st) }
			runStandard(w)
		},
		rule: "1 to 3 initiators on one or two units leave writes waiting for data and commands waiting behind a gap in the numbers, then abort tasks, task sets and units, immediately and in turn, name tasks that ended, never existed or belong to somebody else, send the late data, use the tags again, and go on; the medium is looked at the moment an abort is confirmed and at the end.",
		gen: func(r *rt.RNG, p *Plan) {
			na := r.Range(1, 3)
			spreadTargets(r, p, r.Range(2, 4), func(k int) Storage {
				return Storage{Blocks: uint64(r.Range(48, 120)), BShift: genShift(r), Thin: r.P(1, 3)}
			})
			for k := 0; k < na; k++ {
				t := &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
				if k == 0 {
					t = &p.Setup.Targets[0]
				}
				luns := lunsOf(t)
				lun := func() int { return luns[r.Intn(len(luns))] }
				a := Actor{Kind: "ini", Target: t.Name, Depth: r.Pick(8, 16, 30), Keys: genKeys(r), SN0: uint32(r.Uint64())}
				if r.P(1, 4) {
					a.SN0 = 0xffffffff - uint32(r.Intn(20))
				}
				id := (k + 1) * 1000
				for c := r.Range(2, 6); c > 0; c-- {
					var ids []int
					n := r.Range(1, 6)
					if r.P(1, 3) { // a gap
						h := rwStep(r, lun(), p.storage(t, luns[0]).Blocks, 4, 4)
						id++
						h.ID, h.Async, h.Hold, h.I = id, true, r.Range(2, n+6), false
						h.LUN = luns[0]
						ids = append(ids, id)
						a.Steps = append(a.Steps, h)
					}
					for ; n > 0; n-- {
						l := lun()
						bl := p.storage(t, l).Blocks
						id++
						ids = append(ids, id)
						var s Step
						if r.P(2, 3) {
							m := uint32(r.Range(4, 24))
							s = Step{Op: []string{"write", "write", "write", "wverify", "verify"}[r.Intn(5)], LUN: l, V: 10, N: m, LBA: uint64(r.Intn(int(bl - 24))), Imm: r.Pick(0, 512, 2048), PDU: r.Pick(512, 1024, 8192), Keep: 1 + r.Pick(0, 0, 512, 2048, 5000), Like: true}
							if s.Op == "verify" {
								s.V = -10
							}
						} else {
							s = rwStep(r, l, bl, 8, 8)
						}
						s.ID, s.Async = id, true
						s.I = r.P(1, 12)
						a.Steps = append(a.Steps, s)
					}
					if r.P(1, 2) {
						a.Steps = append(a.Steps, Step{Op: "r2twait", Of: ids[r.Intn(len(ids))]})
					} else if r.P(1, 2) {
						a.Steps = append(a.Steps, Step{Op: "sleep", Arg: int64(r.Intn(1000000))})
					}
					var hit []int
					for m := r.Range(1, 3); m > 0; m-- {
						x := Step{Op: "tmf", LUN: lun(), I: r.P(2, 3), Async: r.P(1, 2)}
						switch r.Intn(10) {
						case 0, 1, 2, 3:
							x.V = tmfAbortTask
							x.Of = ids[r.Intn(len(ids))]
							for _, s := range a.Steps {
								if s.ID == x.Of {
									x.LUN = s.LUN
								}
							}
							hit = append(hit, x.Of)
						case 4, 5:
							x.V = tmfAbortTaskSet
							hit = append(hit, ids...)
						case 6:
							x.V = tmfLUReset
							hit = append(hit, ids...)
						case 7:
							x.V = tmfAbortTask
							x.Arg = int64(r.Uint64()&0x3fffffff | 0x40000000)
						case 8:
							x.V = r.Pick(tmfClearACA, tmfClearTaskSet, tmfWarmReset, tmfColdReset, tmfReassign)
						case 9:
							x = Step{Op: "tmfother"}
						}
						if r.P(1, 4) { // a command behind it
							id++
							l := lun()
							s := rwStep(r, l, p.storage(t, l).Blocks, 4, 4)
							s.ID, s.Async = id, true
							if r.P(1, 2) {
								a.Steps = append(a.Steps, x, s)
							} else if x.Op == "tmf" && !x.I { // which arrives first
								x.Hold = 1 + r.Intn(2)
								x.Async = true
								if s.I = r.P(1, 2); s.I && r.P(2, 3) {
									s.LUN, s.Op, s.V, s.Imm, s.PDU = x.LUN, "write", 10, r.Pick(0, 512), 512
									s.LBA, s.N = uint64(r.Intn(20)), uint32(r.Range(4, 24))
								}
								a.Steps = append(a.Steps, x, s)
							} else {
								a.Steps = append(a.Steps, s, x)
							}
							continue
						}
						a.Steps = append(a.Steps, x)
					}
					for m := r.Intn(3); m > 0 && len(hit) > 0; m-- {
						of := hit[r.Intn(len(hit))]
						if r.P(1, 4) {
							a.Steps = append(a.Steps, Step{Op: "retag", Of: of})
							l := lun()
							s := rwStep(r, l, p.storage(t, l).Blocks, 16, 8)
							s.Async = r.P(1, 2)
							a.Steps = append(a.Steps, s)
						} else {
							a.Steps = append(a.Steps, Step{Op: "late", Of: of})
						}
					}
					for m := r.Intn(4); m > 0; m-- {
						l := lun()
						s := rwStep(r, l, p.storage(t, l).Blocks, 16, 8)
						s.Async = r.P(1, 2)
						a.Steps = append(a.Steps, s)
					}
					if r.P(2, 3) {
						a.Steps = append(a.Steps, Step{Op: "wait"})
					}
				}
				p.Actors = append(p.Actors, a)
			}
		}})
}
