//go:build go1.25

package main

import (
	"github.com/gostor/gotgt/zsim/rt"
)

// relogin makes another login of the initiator port that has a session.
func (i *Ini) relogin(st *Step) {
	w := i.w
	old := i.s
	q := i.loginDefaults()
	q.sn0 = uint32(st.Arg)
	q.stage = []string{"", "secop", "secff", "split", "secsplit"}[int(uint64(st.Arg)>>33)%5]
	alive := old != nil && old.certain()
	var owner *Sess
	switch st.V {
	case 0: // the old session is replaced
		if old != nil {
			old.expect = true
		}
		r := i.login(q)
		if r.ok {
			i.s = r.s
			return
		}
		if !i.lenientIni() && !i.lostOK {
			w.fail("login", "%s: logging in again to %s failed: %v", i.a.Name, i.a.Target, r)
		}
		return
	case 1: // a handle nobody has
		q.tsih = uint16(uint64(st.Arg)>>40 | 0x8000)
	case 2: // the handle of another
		x := w.x["sess"].(*sessions)
		for _, o := range x.all {
			if o.i != i && o.certain() && o.q.port() != q.port() {
				q.tsih, owner = o.tsih, o
			}
		}
		if q.tsih == 0 {
			return
		}
	case 3: // its own, for a connection there is none of
		if !alive {
			return
		}
		q.tsih, q.cid = old.tsih, old.cid+1
	case 4:
		q.disc = true
		q.tsih = uint16(uint64(st.Arg)>>40 | 1)
		if alive && st.Arg&1 != 0 {
			q.tsih = old.tsih
		}
	case 5: // its own, for the connection it has
		if !alive || !old.awaitAll() {
			return
		}
		old.expect = true
		q.tsih, q.sn0 = old.tsih, old.cmdSN
		r := i.login(q)
		if !r.ok {
			w.cover("connection_reinstatement_refused")
			if !old.gone {
				old.expect = false
			}
			return
		}
		w.cover("connection_reinstatement")
		if r.s.tsih != old.tsih {
			w.fail("sess", "%s: a connection reinstated in session %#x is told %#x", i.a.Name, old.tsih, r.s.tsih)
		}
		i.s = r.s
		return
	}
	was, lax := i.lostOK, i.lax
	i.lostOK, i.lax = true, true
	r := i.login(q)
	i.lostOK, i.lax = was, lax
	w.cover("logins_with_wrong_handle")
	if r.hang && !w.down && !w.S.Capped {
		w.fail("hang", "%s: a login with session handle %#x is neither answered nor refused", i.a.Name, q.tsih)
	}
	if r.ok && owner != nil && !owner.certain() {
		r.s.closing = true
		r.s.end("not wanted")
		return
	}
	if r.ok {
		w.fail("reinst", "%s: a login with session handle %#x and connection %d (kind %d) is accepted, no such session and connection is there", i.a.Name, q.tsih, q.cid, st.V)
		r.s.closing = true
		r.s.end("not wanted")
	}
}

func runReinstate(w *World) {
	w.stepHook = func(i *Ini, st *Step) bool { return i.sessionStep(st) }
	x := w.watchSessions()
	w.x["sess"] = x
	w.onDone = func(c *Cmd) {
		if s := c.s; s != nil && s.replacedAt > 0 && c.inv > s.replacedAt && c.done && c.cdb != nil && c.status == stGood && c.rsp == 0 {
			w.fail("reinst", "%s: %s was sent after a login with the same name and ISID was complete, and is answered on the old connection", s.i.a.Name, c.what)
		}
	}
	if !w.boot() {
		w.fail("boot", "the daemon does not start: %v", w.x["booterr"])
		return
	}
	groups := map[string][]*Ini{}
	var order []string
	var fns []func()
	for k := range w.P.Actors {
		i := w.newIni(&w.P.Actors[k])
		if i.a.Kind == "dup" || i.a.Kind == "solo" {
			i.lostOK = i.a.Kind == "dup"
			g := i.loginDefaults().port()
			if groups[g] == nil {
				order = append(order, g)
			}
			groups[g] = append(groups[g], i)
		}
		fns = append(fns, i.run)
	}
	w.tasksThen(fns, func() {
		for _, g := range order {
			w.oneRemains(x, groups[g])
		}
	})
}

// oneRemains lets the members of a group log in at once; exactly one session
// is left, and it works.
func (w *World) oneRemains(x *sessions, is []*Ini) {
	if w.S.Deadlock || w.daemon.Dead {
		return
	}
	ok := 0
	for _, s := range x.tags[is[0].loginDefaults().port()] {
		s.expect = true
	}
	var fns []func()
	for _, i := range is {
		i := i
		i.stop = false
		fns = append(fns, func() {
			if r := i.login(i.loginDefaults()); r.ok {
				i.s = r.s
				ok++
			}
		})
	}
	w.tasks(300e9, fns...)
	sleep(12e9)
	if w.S.Deadlock || w.daemon.Dead {
		return
	}
	if ok == 0 {
		w.fail("reinst", "%s: none of %d logins with the same name and ISID made at once succeeds", is[0].a.Name, len(is))
		return
	}
	q := is[0].loginDefaults()
	var left []*Sess
	for _, s := range x.tags[q.port()] {
		if !s.gone && !s.closing {
			left = append(left, s)
		}
	}
	if len(left) != 1 {
		w.fail("reinst", "%s: %d of the sessions with the same name and ISID are open, 12 s after %d logins at once", is[0].a.Name, len(left), len(is))
		return
	}
	s := left[0]
	s.i.lostOK = false
	s.i.s = s
	for k := 0; k < 2; k++ {
		s.i.step(&Step{Op: "write", LUN: lunsOf(s.i.t)[0], N: 1, V: 10, Imm: -1})
	}
	expect := map[string]int{}
	for g := range w.tpgtOf(s) {
		expect[nexusName(q.name, q.isid, q.target, g)] = 1
	}
	for _, l := range w.targetList("10.0.9.9") {
		if l.Name != q.target {
			continue
		}
		h := l.nexuses()
		for _, n := range sortedStr(expect) {
			if h[n] != 1 {
				w.fail("reinst", "the target listing shows %d I_T nexuses %q for its one session", h[n], n)
			}
		}
	}
}

func init() {
	addProp(&Prop{id: "C12", tags: []string{"reinst", "sess", "lin", "never", "status", "login", "hang", "connlost", "window"}, run: runReinstate,
		rule: "1 to 3 initiator ports, each played by 1 to 3 actors at once, log in again and again over sessions with commands queued, in execution on a slow disk and waiting for data, and with handles that are stale, foreign or of another connection, beside initiators that differ in name, ISID, target or portal group only; unfinished commands of a replaced session may have effects only before the login that replaced it ended.",
		gen: func(r *rt.RNG, p *Plan) {
			spreadTargets(r, p, r.Range(1, 3), func(k int) Storage {
				return Storage{Blocks: uint64(r.Range(32, 100)), BShift: genShift(r)}
			})
			ng := r.Range(1, 3)
			isids := genISIDs(r, ng)
			portal := genGroups(r, p)
			for g := 0; g < ng; g++ {
				t := &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
				luns := lunsOf(t)
				name := "iqn.2020-01.org.sim:same"
				isid := isids[g]
				if g == 1 || g > 0 && r.P(1, 2) {
					name = []string{"iqn.2020-01.org.sim:same", "iqn.2020-01.org.sim:same2", "iqn.2020-01.org.sim:sam"}[r.Intn(3)]
				}

				at := portal()
				kind := "dup"
				members := r.Range(1, 3)
				if members == 1 {
					kind = "solo"
				}
				for m := members; m > 0; m-- {
					a := Actor{Kind: kind, Name: name, ISID: isid, Target: t.Name, Portal: at, Depth: 8, Keys: genKeys(r), SN0: uint32(r.Uint64()), CID: uint16(r.Intn(2)), Start: int64(r.Intn(3000000))}
					for c := r.Range(2, 6); c > 0; c-- {
						for n := r.Range(1, 6); n > 0; n-- {
							lun := luns[r.Intn(len(luns))]
							s := rwStep(r, lun, p.storage(t, lun).Blocks, 10, 10)
							s.Async = r.P(4, 5)
							if s.Op == "write" && r.P(1, 3) {
								s.Imm, s.Keep, s.Async = 0, 1+r.Pick(0, 512), true
							}
							if s.Want == 0 {
								s.Want = wantAny
							}
							a.Steps = append(a.Steps, s)
						}
						if r.P(1, 3) {
							a.Steps = append(a.Steps, Step{Op: "sleep", Arg: int64(r.Intn(2000000))})
						}
						switch x := r.Intn(12); {
						case x < 7:
							a.Steps = append(a.Steps, Step{Op: "relogin", Arg: int64(r.Uint64() >> 1)})
						case x < 8 && members == 1:
							a.Steps = append(a.Steps, Step{Op: "relogin", V: 5, Arg: int64(r.Uint64() >> 1)})
						case x < 11:
							a.Steps = append(a.Steps, Step{Op: "relogin", V: r.Range(1, 4), Arg: int64(r.Uint64() >> 1)})
						default:
							a.Steps = append(a.Steps, Step{Op: []string{"close", "rst"}[r.Intn(2)]})
						}
					}
					p.Actors = append(p.Actors, a)
				}
			}
			// others that differ in one thing
			first := p.Actors[0]
			for k := r.Range(1, 3); k > 0; k-- {
				t := &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
				a := Actor{Kind: "ini", Name: first.Name, ISID: first.ISID, Target: t.Name, Portal: first.Portal, Depth: r.Pick(1, 4), Keys: genKeys(r), SN0: uint32(r.Uint64())}
				switch {
				case t.Name != first.Target && k == 1 && ng == 1:
				case k == 1 && len(p.Setup.Portals) > 1: // another portal group
					a.Portal = otherPortal(first.Portal)
				case k >= 2:
					for again := true; again; {
						a.ISID = first.ISID ^ uint64(1+r.Intn(63))<<uint(r.Intn(43))
						again = a.ISID == 0
						for _, v := range isids {
							again = again || v == a.ISID
						}
						isids = append(isids, a.ISID)
					}
				default:
					a.Name += "0"
				}
				luns := lunsOf(t)
				for n := r.Range(4, 16); n > 0; n-- {
					lun := luns[r.Intn(len(luns))]
					s := rwStep(r, lun, p.storage(t, lun).Blocks, 10, 10)
					s.Async = r.P(1, 2)
					if r.P(1, 4) {
						s.Gap = int64(r.Intn(2000000))
					}
					if r.P(1, 10) {
						a.Steps = append(a.Steps, Step{Op: "relogin", V: r.Range(1, 4), Arg: int64(r.Uint64() >> 1)})
					}
					a.Steps = append(a.Steps, s)
				}
				p.Actors = append(p.Actors, a)
			}
			for k := r.Intn(4); k > 0; k-- {
				p.Faults = append(p.Faults, Fault{Kind: "disk", Op: []string{"write", "read"}[r.Intn(2)], Path: devPath(p.Setup.Storages[r.Intn(len(p.Setup.Storages))].Dev), N: r.Intn(12), Count: r.Pick(1, 2), Delay: int64(r.Pick(1000000, 10000000, 500000000))})
			}
		}})
}
