//go:build go1.25

package main

import (
	"fmt"
	"net"

	"github.com/gostor/gotgt/zsim/rt"
)

// sessions is what is known of all sessions ever established in a run.
type sessions struct {
	all  []*Sess
	tags map[string][]*Sess // by initiator port and target
}

// port names the two ends of a session, the initiator's port and the target's
// portal group.
func (q *loginReq) port() string {
	return fmt.Sprintf("%s/%012x/%s/%s", q.name, q.isid, q.target, q.group)
}

// groupOf is the one portal group of a target that has the address.
func (p *Plan) groupOf(t *Target, portal string) string {
	if portal == "" {
		portal = "10.0.0.1"
	}
	g, n := "", 0
	for k, ids := range t.TPGTs {
		for _, id := range ids {
			if id < len(p.Setup.Portals) && p.Setup.Portals[id] == net.JoinHostPort(portal, fmt.Sprint(iscsiPort)) {
				g, n = k, n+1
			}
		}
	}
	if n != 1 {
		return ""
	}
	return g
}

func otherPortal(a string) string {
	if a == "" {
		return "10.0.0.2"
	}
	return ""
}

// twins lets two of the actors be the same initiator port at two portal groups
// of one target.
func twins(r *rt.RNG, p *Plan) {
	if len(p.Setup.Portals) < 2 || len(p.Actors) < 2 || !r.P(2, 3) {
		return
	}
	a, b := &p.Actors[0], &p.Actors[1]
	a.Name = "iqn.2020-01.org.sim:twin"
	b.Name, b.Target, b.ISID, b.Portal = a.Name, a.Target, a.ISID, otherPortal(a.Portal)
}

// genGroups gives every target two portal groups with an address each, now
// and then.
func genGroups(r *rt.RNG, p *Plan) (portal func() string) {
	if !r.P(1, 3) {
		return func() string { return "" }
	}
	p.Setup.Portals = []string{"10.0.0.1:3260", "10.0.0.2:3260"}
	for k := range p.Setup.Targets {
		a, b := "1", fmt.Sprint(r.Pick(2, 10, 256, 257, 65535))
		if r.P(1, 2) {
			a, b = b, a
		}
		p.Setup.Targets[k].TPGTs = map[string][]int{a: {0}, b: {1}}
	}
	return func() string { return []string{"", "10.0.0.2"}[r.Intn(2)] }
}

// certain tells whether the target must have the session right now.
func (s *Sess) certain() bool {
	return s.full && !s.gone && !s.closing && !s.leaving && !s.expect && s.replacedAt == 0 && !s.i.lostOK && !s.i.lax && !s.c.PeerGone()
}

// watchSessions checks every login against the sessions there are.
func (w *World) watchSessions() *sessions {
	x := &sessions{tags: map[string][]*Sess{}}
	w.onLogin = func(s *Sess, q *loginReq) {
		s.q = q
		w.cover("sessions")
		if s.tsih == 0 {
			w.fail("sess", "%s: the login completed with session handle 0", s.i.a.Name)
		}
		for _, o := range x.all {
			if s.i.lostOK && o.at > s.inv {
				continue // s may have been replaced before o began
			}
			if o.tsih == s.tsih && o.certain() && !(q.tsih != 0 && o.q.port() == q.port()) {
				w.fail("sess", "%s got session handle %#x, which the session of %s has", s.i.a.Name, s.tsih, o.i.a.Name)
			}
		}
		x.all = append(x.all, s)
		if q.disc {
			return
		}
		k := q.port()
		if q.tsih != 0 {
			x.tags[k] = append(x.tags[k], s)
			return
		}
		for _, o := range x.tags[k] {
			if o.at < s.inv && o.replacedAt == 0 {
				w.replaced(o, s)
			}
		}
		x.tags[k] = append(x.tags[k], s)
	}
	return x
}

// replaced notes that the login of n has ended the session o.
func (w *World) replaced(o, n *Sess) {
	o.replacedAt = n.at
	w.cover("reinstatements")
	if !o.gone {
		w.cover("reinstatements_of_open_sessions")
		if len(o.out) > 0 {
			w.cover("reinstatements_with_commands")
		}
	}
	for _, lu := range w.LUs {
		for _, b := range sortedKeys(lu.hist) {
			h := lu.hist[b]
			for k := range h {
				if h[k].who != nil && h[k].who.s == o && h[k].ret > n.at {
					h[k].ret = n.at
				}
			}
		}
	}
	w.S.Spawn("watch", w.root, func() {
		sleep(10e9)
		if !o.gone && !w.S.Deadlock && !w.down {
			w.fail("reinst", "%s: the connection of the old session is still open 10 s after a login with the same name and ISID", o.i.a.Name)
		}
	})
}

// ended wraps up after the work: it checks what the target still holds for
// the sessions that are alive, ends those and checks that nothing is left.
func (w *World) leftovers(x *sessions, base int) {
	sleep(3e9)
	if w.S.Deadlock || w.daemon.Dead {
		return
	}
	expect := map[string]map[string]int{}
	open := 0
	for _, t := range w.P.Setup.Targets {
		expect[t.Name] = map[string]int{}
	}
	for _, s := range x.all {
		if s.gone || s.c.PeerGone() {
			continue
		}
		open++
		if !s.disc {
			for g := range w.tpgtOf(s) {
				expect[s.q.target][nexusName(s.q.name, s.q.isid, s.q.target, g)]++
			}
		}
		// it is alive
		n := s.nop(nil, true, 0)
		if n.itt != 0 {
			s.await(n)
		}
	}
	w.compareList(expect, "with all transfers over")
	for t := w.S.Now() + 5e9; len(w.iscsiConns()) != open && w.S.Now() < t && !w.S.Deadlock; {
		sleep(100e6)
	}
	if n := len(w.iscsiConns()); n != open {
		w.fail("sess", "the target holds %d connections, %d are open", n, open)
	}
	k := 0
	for _, s := range x.all {
		if s.gone {
			continue
		}
		if k++; k%3 == 0 {
			s.i.s = s
			s.i.logout(true)
		} else {
			s.closing = true
			if k%3 == 1 {
				s.c.Abort()
			}
			s.end("end of run")
		}
	}
	sleep(3e9)
	if w.S.Deadlock || w.daemon.Dead {
		return
	}
	for n := range expect {
		expect[n] = map[string]int{}
	}
	w.compareList(expect, "with every session ended")
	if n := len(w.iscsiConns()); n != 0 {
		w.fail("sess", "the target holds %d connections with every session ended", n)
	}
	sleep(1e9)
	if t := w.daemonTasks(); len(t) > base {
		w.fail("sess", "%d tasks run in the daemon with every session ended, %d did before the first: %v", len(t), base, t)
	}
	// what was reserved is free again
	for k := range w.P.Setup.Targets {
		t := &w.P.Setup.Targets[k]
		i := w.newIni(&Actor{Kind: "ini", Name: fmt.Sprintf("iqn.2020-01.org.sim:fresh%d", k), Target: t.Name, Depth: 1})
		for _, l := range lunsOf(t) {
			i.step(&Step{Op: "read", LUN: l, N: 1, V: 10})
			i.step(&Step{Op: "reserve", LUN: l})
			i.step(&Step{Op: "write", LUN: l, N: 1, V: 10, Imm: -1})
			i.step(&Step{Op: "release", LUN: l})
		}
		i.hangup("close")
	}
}

// tpgtOf are the groups a session can be with.
func (w *World) tpgtOf(s *Sess) map[int]bool {
	out := map[int]bool{}
	for g := range s.i.t.TPGTs {
		if s.q.group != "" && s.q.group != g {
			continue
		}
		n := 0
		fmt.Sscan(g, &n)
		out[n] = true
	}
	return out
}

// compareList compares the target listing with the sessions there are.
func (w *World) compareList(expect map[string]map[string]int, when string) {
	l := w.targetList("10.0.9.9")
	if l == nil {
		return
	}
	if len(l) != len(expect) {
		w.fail("mgmt", "%d targets are listed, there are %d", len(l), len(expect))
	}
	for k := range l {
		e, ok := expect[l[k].Name]
		if !ok {
			w.fail("mgmt", "target %q is listed, which does not exist", l[k].Name)
			continue
		}
		have := l[k].nexuses()
		for _, n := range sortedStr(have) {
			if e[n] != have[n] {
				w.fail("sess", "%s: the target listing shows %d I_T nexuses %q of %d live sessions", when, have[n], n, e[n])
			}
		}
		for _, n := range sortedStr(e) {
			if have[n] == 0 {
				w.fail("sess", "%s: the target listing lacks the I_T nexus %q of a live session", when, n)
			}
		}
	}
}

// iscsiConns are the iSCSI connections the daemon has open.
func (w *World) iscsiConns() (out []string) {
	for _, c := range w.N.ServerConns() {
		if c.LocalPort() == iscsiPort {
			out = append(out, c.RemoteAddr().String())
		}
	}
	return
}

// failedLogin makes a login that does not succeed, or is given up.
func (i *Ini) failedLogin(st *Step) {
	w := i.w
	r := rt.NewRNG(uint64(st.Arg))
	q := i.loginDefaults()
	q.isid ^= uint64(1+r.Intn(1<<20)) << 8
	q.stage = []string{"", "secop", "secff", "split", "secsplit", "cbit"}[r.Intn(6)]
	q.disc = r.P(1, 4)
	q.cid = uint16(r.Intn(3))
	refuse := false
	switch st.V {
	case 0: // given up
		q.stop, q.part, q.how = 1+r.Intn(4), -1, []string{"close", "rst", "halfclose"}[r.Intn(3)]
		if r.P(1, 2) {
			q.part = r.Pick(0, 1, 20, 47, 48, 49, 60, 100)
		}
	case 1:
		q.target, q.disc, refuse = q.target+"x", false, true
	case 2:
		q.tsih, refuse = uint16(1+r.Intn(65535)), true
		if r.P(1, 2) {
			q.disc = false
		}
		q.cid = 7
	case 3:
		q.auth, refuse = []string{"CHAP", "SRP", "KRB5,CHAP", "SPKM1"}[r.Intn(4)], true
		q.stage = []string{"secop", "secff", "secsplit"}[r.Intn(3)]
	case 4:
		q.noName, refuse = true, true
	case 5:
		q.noTgt, q.disc, refuse = true, false, true
	case 6:
		q.keys = append(append([][2]string{}, q.keys...), [2]string{[]string{"MaxBurstLength", "MaxRecvDataSegmentLength", "ImmediateData", "MaxOutstandingR2T"}[r.Intn(4)], []string{"", "x", "-1", "99999999999999999999", "0", "Maybe"}[r.Intn(6)]})
	case 7:
		q.ver = byte(r.Range(1, 255))
	case 8:
		q.csg = 1
	}
	lost := i.lostOK
	i.lostOK = true
	defer func() { i.lostOK = lost }()
	odd := i.lax
	if st.V >= 6 {
		i.lax = true // the answers are not judged
	}
	defer func() { i.lax = odd }()
	res := i.login(q)
	w.cover("failed_logins")
	if res.hang && !w.down && !w.S.Capped {
		w.fail("hang", "%s: a login of kind %d (stage %q) is neither answered nor ended in %d s", i.a.Name, st.V, q.stage, hangAfter/1e9)
	}
	if res.ok {
		if refuse {
			w.fail("login", "%s: a login that must be refused (kind %d, stage %q, target %q, handle %#x, authentication %q) succeeded", i.a.Name, st.V, q.stage, q.target, q.tsih, q.auth)
		}
		res.s.closing = true
		switch r.Intn(3) {
		case 0:
			res.s.c.Abort()
		case 1:
			res.s.expect = true
			if c := res.s.logout(true); c.itt != 0 {
				res.s.await(c)
			}
		}
		res.s.end("not wanted")
	}
}

// churn logs in very many times, ending each session the same way.
func (i *Ini) churn(st *Step) {
	w := i.w
	q := i.loginDefaults()
	q.disc = st.V == 3
	var last *Sess
	for k := int64(0); k < st.Arg; k++ {
		r := i.login(q)
		if !r.ok {
			if !w.down && !w.daemon.Dead {
				w.fail("sess", "%s: after %d sessions that ended (way %d) a login fails: %v", i.a.Name, k, st.V, r)
			}
			return
		}
		r.s.closing = true
		switch st.V {
		case 0, 3:
			c := r.s.logout(true)
			if c.itt == 0 || !r.s.await(c) {
				return
			}
			r.s.end("logged out")
		case 1:
			r.s.end("closed")
			for n := 0; k%256 == 255 && n < 50 && len(w.iscsiConns()) > 0; n++ {
				sleep(1e6)
			}
		case 2:
			r.s.c.Abort()
			r.s.end("reset")
			for n := 0; k%256 == 255 && n < 50 && len(w.iscsiConns()) > 0; n++ {
				sleep(1e6)
			}
		case 4: // each replaces the one before
			r.s.expect = true
			if last != nil {
				for t := w.S.Now() + 5e9; !last.gone && w.S.Now() < t && !w.S.Deadlock; {
					last.wl.WaitFor("end", t-w.S.Now())
				}
				last.end("replaced")
			}
			last = r.s
		}
		w.cmds = w.cmds[:0]
	}
	if last != nil {
		last.end("done")
	}
	w.cover("churned_sessions_x1000")
}

func (i *Ini) sessionStep(st *Step) bool {
	switch st.Op {
	case "isid":
		i.isid = uint64(st.Arg)
	case "flogin":
		i.failedLogin(st)
	case "churn":
		i.churn(st)
	case "disc": // a discovery session beside
		q := i.loginDefaults()
		q.disc = true
		q.isid ^= 0x7700
		r := i.login(q)
		if !r.ok {
			if !i.lenientIni() {
				i.w.fail("login", "%s: a discovery login failed: %v", i.a.Name, r)
			}
			return true
		}
		if st.V&1 != 0 {
			if c := r.s.text([][2]string{{"SendTargets", "All"}}, true, 0); c.itt != 0 {
				r.s.await(c)
			}
		}
		switch st.V >> 1 {
		case 0:
			if c := r.s.logout(true); c.itt != 0 {
				r.s.await(c)
			}
		case 1:
			r.s.closing = true
			r.s.c.Abort()
		}
		r.s.closing = true
		r.s.end("closed")
	case "relogin":
		i.relogin(st)
	default:
		return false
	}
	return true
}

func (i *Ini) lenientIni() bool { return i.w.down || i.w.daemon.Dead || i.w.S.Deadlock || i.lax }

func runSessions(w *World) {
	w.stepHook = func(i *Ini, st *Step) bool { return i.sessionStep(st) }
	x := w.watchSessions()
	if !w.boot() {
		w.fail("boot", "the daemon does not start: %v", w.x["booterr"])
		return
	}
	sleep(1e9)
	base := len(w.daemonTasks())
	if w.P.Kind == "churn" {
		w.onLogin = nil
	}
	var fns []func()
	for k := range w.P.Actors {
		i := w.newIni(&w.P.Actors[k])
		fns = append(fns, i.run)
	}
	w.tasksThen(fns, func() { w.leftovers(x, base) })
}

func init() {
	addProp(&Prop{id: "C11", tags: []string{"sess", "lin", "never", "status", "login", "hang", "connlost", "mgmt"}, run: runSessions,
		rule: "2 to 5 initiators, some of them one port that comes in through two portal groups, cycle through sessions with reserved units and unfinished transfers, ended by logout, close, reset, half-close and cuts at any byte, beside discovery sessions and logins refused or given up at every point; handles are compared at each login, and when all is quiet the target listing, the open connections and the daemon's tasks with the sessions alive, then with none. Eight runs each make more than 65536 sessions end in one way.",
		gen: func(r *rt.RNG, p *Plan) {
			if p.Index < 8 {
				p.Kind = "churn"
				oneTarget(p, Storage{Blocks: 32})
				p.Sched = rt.SchedCfg{Mode: "coop", Seed: p.Seed, StepNs: 20, MaxSteps: 1 << 40}
				p.Net.SegTiny, p.Net.Short, p.Net.SegMax = 0, 0, 65536
				p.Actors = []Actor{{Kind: "ini", Steps: []Step{{Op: "churn", V: p.Index % 5, Arg: 65560}}}}
				return
			}
			na := r.Range(2, 5)
			spreadTargets(r, p, na, func(k int) Storage {
				return Storage{Blocks: uint64(r.Range(32, 100)), BShift: genShift(r)}
			})
			portal := genGroups(r, p)
			for k := 0; k < na; k++ {
				t, lun := unitOf(p, k)
				a := Actor{Kind: "ini", Target: t.Name, Portal: portal(), Depth: r.Pick(4, 8), Keys: genKeys(r), SN0: uint32(r.Uint64()), CID: uint16(r.Intn(3)),
					Stage: []string{"", "secop", "secff", "split", "secsplit", "cbit", "opmin"}[r.Intn(7)], ISID: 0x80_000000_0000 | uint64(k+1)<<24}
				s := p.storage(t, lun)
				cycles := r.Range(2, 6)
				for c := 0; c < cycles; c++ {
					if r.P(1, 2) {
						a.Steps = append(a.Steps, Step{Op: "isid", Arg: int64(a.ISID | uint64(c)<<8)})
					}
					reserved := false
					if r.P(1, 2) {
						reserved = true
						a.Steps = append(a.Steps, Step{Op: "reserve", LUN: lun})
					}
					for n := r.Intn(5); n > 0; n-- {
						st := rwStep(r, lun, s.Blocks, 8, 8)
						st.Async = r.P(2, 3)
						a.Steps = append(a.Steps, st)
					}
					dangling := false
					if r.P(1, 3) {
						dangling = true
						for n := r.Range(1, 3); n > 0; n-- {
							st := Step{Op: "write", LUN: lun, V: 10, N: 24, LBA: uint64(r.Intn(int(s.Blocks - 24))), Imm: r.Pick(0, 512), PDU: 512, Keep: 1 + r.Pick(0, 512, 2048), Async: true}
							a.Steps = append(a.Steps, st)
						}
						if r.P(1, 2) {
							a.Steps = append(a.Steps, Step{Op: "sleep", Arg: int64(r.Intn(3000000))})
						}
					}
					if r.P(1, 4) {
						a.Steps = append(a.Steps, Step{Op: "flogin", V: r.Intn(9), Arg: int64(r.Uint64() >> 1)})
					}
					if r.P(1, 4) {
						a.Steps = append(a.Steps, Step{Op: "disc", V: r.Intn(6)})
					}
					if c == cycles-1 && r.P(1, 2) && !dangling {
						break // stays
					}
					switch x := r.Intn(6); {
					case x == 0 && !dangling:
						a.Steps = append(a.Steps, Step{Op: "logout", I: r.P(1, 2)})
					case x <= 1:
						a.Steps = append(a.Steps, Step{Op: "close"})
					case x == 2:
						a.Steps = append(a.Steps, Step{Op: "rst"})
					case x == 3:
						a.Steps = append(a.Steps, Step{Op: "halfclose"})
					default:
						a.Steps = append(a.Steps, Step{Op: "cut", Arg: int64(r.Intn(700)), V: r.Intn(4)})
						for n := r.Range(1, 4); n > 0; n-- {
							st := rwStep(r, lun, s.Blocks, 8, 8)
							st.Async = r.P(1, 2)
							a.Steps = append(a.Steps, st)
						}
						a.Steps = append(a.Steps, Step{Op: "close"})
					}
					if reserved || r.P(1, 4) {
						a.Steps = append(a.Steps, Step{Op: "sleep", Arg: 2e9})
					}
				}
				p.Actors = append(p.Actors, a)
			}
			if r.P(1, 2) {
				a := Actor{Kind: "ini", Target: p.Setup.Targets[0].Name, ISID: 0x80_0000ff_0000}
				for n := r.Range(2, 10); n > 0; n-- {
					a.Steps = append(a.Steps, Step{Op: "flogin", V: r.Intn(9), Arg: int64(r.Uint64() >> 1), Gap: int64(r.Intn(1000000))})
				}
				p.Actors = append(p.Actors, a)
			}
		}})
}

// unitOf spreads the actors over the units.
func unitOf(p *Plan, k int) (*Target, int) {
	type u struct {
		t *Target
		l int
	}
	var us []u
	for j := range p.Setup.Targets {
		t := &p.Setup.Targets[j]
		for _, l := range lunsOf(t) {
			us = append(us, u{t, l})
		}
	}
	x := us[k%len(us)]
	return x.t, x.l
}
