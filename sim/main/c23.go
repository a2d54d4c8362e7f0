//go:build go1.25

package main

import (
	"fmt"
	"syscall"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
	"github.com/gostor/gotgt/zsim/rt"
)

// promptly is how long anything may take that no fault concerns, above what
// the run's scheduler and network add.
const promptly = int64(15e9)

// runStalled lets some sessions stall, flood and wait for a slow disk while
// others must be served promptly.
func runStalled(w *World) {
	if !w.boot() {
		w.fail("boot", "the daemon does not start: %v", w.x["booterr"])
		return
	}
	slow, accept := int64(0), int64(0)
	for _, f := range w.P.Faults {
		switch f.Kind {
		case "disk":
			slow += f.Delay * int64(max(1, f.Count))
		case "accept":
			accept += 1e9 * int64(max(1, f.Count))
		}
	}
	for _, a := range w.P.Actors {
		for _, s := range a.Steps {
			switch s.Op {
			case "noread", "stall":
				slow += s.Arg
			}
			slow += s.Slow * (int64(s.N)*8 + 1)
		}
	}
	w.x["limit"] = 3600e9 + 20*slow
	w.stepHook = w.stallStep
	w.onDone = func(c *Cmd) {
		if d := c.retT - c.invT; c.i != nil && c.i.a.Kind == "ini" && !c.i.lax && c.inv > 0 {
			w.cov["answers_judged"]++
			if slow > 0 && c.i.limit == promptly+accept {
				w.cov["answers_while_others_stall"]++
			}
			if d > w.cov["max:answer_ms"]*1e6 && c.i.limit == promptly+accept {
				w.cov["max:answer_ms"] = d / 1e6
			}
		}
	}
	var fns []func()
	for k := range w.P.Actors {
		a := &w.P.Actors[k]
		switch a.Kind {
		case "ini":
			i := w.newIni(a)
			switch {
			case a.Lax:
				i.limit = 20e9
			case a.Stage == "patient":
				i.limit = hangAfter + slow + accept
			default:
				i.limit = promptly + accept
			}
			fns = append(fns, i.run)
		default:
			fns = append(fns, func() { w.stallAdmin(a, slow) })
		}
	}
	w.tasksThen(fns, func() { w.afterStalls(accept) })
}

func (w *World) stallStep(i *Ini, st *Step) bool {
	switch st.Op {
	case "again": // logs in anew with the same identity, whatever the old session is doing
		old := i.s
		if old == nil || old.gone {
			return true
		}
		old.expect, old.closing = true, true
		old.noRead = false
		old.readers.WakeAll()
		i.s = nil
		i.need()
		w.cover("fault:reinstated_while_busy")
		return true
	}
	return i.attack(st)
}

// stallAdmin is the embedding program, or a client of the management API.
func (w *World) stallAdmin(a *Actor, slow int64) {
	sleep(a.Start)
	for k := range a.Steps {
		st := &a.Steps[k]
		sleep(st.Gap)
		t := w.S.Now()
		switch st.Op {
		case "addstore":
			sto := &w.P.Setup.Storages[st.Arg]
			done := false
			w.S.Spawn("adding a device", w.daemon, func() {
				scsi.AddBackendStorage(config.BackendStorage{DeviceID: sto.Dev, Path: "file:" + devPath(sto.Dev), Online: true, BlockShift: sto.BShift})
				done = true
			})
			for !done && !w.S.Deadlock {
				sleep(100e6)
				if w.S.Now()-t > hangAfter+slow {
					w.fail("hang", "adding device %d never returns", sto.Dev)
					return
				}
			}
			w.cover("device_added")
			continue
		case "stats":
			if w.lib == nil {
				continue
			}
			w.inDaemon("Stats", func() { w.lib.drv.Stats() })
		case "reread":
			if w.lib == nil {
				continue
			}
			w.inDaemon("RereadTargetLUNMap", func() { w.lib.svc.RereadTargetLUNMap() })
		case "newtarget":
			if w.lib == nil {
				continue
			}
			w.inDaemon("NewTarget", func() {
				w.lib.drv.NewTarget(fmt.Sprintf("iqn.2020-01.org.sim:new%d", st.Arg), w.lib.conf)
			})
		case "map":
			if w.lib == nil {
				continue
			}
			w.inDaemon("AddLUNMapping", func() {
				scsi.AddLUNMapping(scsi.LUNMapping{TargetName: "iqn.2020-01.org.sim:none", LUN: uint64(st.Arg), DeviceID: 1001})
			})
		case "get":
			if w.P.Setup.Mode == "lib" && !w.P.Setup.API {
				continue
			}
			if code, _, err := w.httpCall("10.0.2.1", "GET", st.S, "", ""); err != nil || code != 200 {
				w.fail("hang", "GET %s: status %d, %v", st.S, code, err)
			}
		}
		w.cover("admin_" + st.Op)
		if d := w.S.Now() - t; d > promptly && !w.S.Capped {
			w.fail("hang", "%s %s takes %d ms while others stall", st.Op, st.S, d/1e6)
		}
	}
}

// afterStalls: the faults have stopped; the service must be back in full, and
// end when it is told to.
func (w *World) afterStalls(accept int64) {
	w.quiet = true
	var live []*Ini
	for k := range w.P.Setup.Targets {
		t := &w.P.Setup.Targets[k]
		i := w.newIni(&Actor{Kind: "ini", Name: fmt.Sprintf("iqn.2020-01.org.sim:late%d", k), Target: t.Name})
		i.limit = promptly + accept
		for _, l := range lunsOf(t) {
			i.step(&Step{Op: "read", LUN: l, N: 1, V: 10})
		}
		live = append(live, i)
	}
	for _, i := range w.inis {
		if i.s != nil && !i.s.gone && !i.lax {
			i.step(&Step{Op: "tur", Want: wantAny})
			live = append(live, i)
		}
	}
	t := w.S.Now()
	if w.P.Setup.Mode == "lib" {
		if w.P.Kind == "stay" {
			return
		}
		var err error
		if !w.inDaemon("Close", func() { err = w.lib.drv.Close() }) {
			return
		}
		if err != nil {
			w.fail("stop", "closing the service fails: %v", err)
		}
		for !w.lib.ran && w.S.Now() < t+promptly && !w.S.Deadlock {
			sleep(20e6)
		}
		switch {
		case !w.lib.ran:
			w.fail("stop", "Run has not returned %d s after the service was closed", promptly/1e9)
		case w.lib.err != nil:
			w.fail("stop", "Run returns %v after the service was closed", w.lib.err)
		}
		if w.N.Listening(iscsiPort) {
			w.fail("stop", "connections are still taken after the service was closed")
		}
		w.cover("service_closed")
	} else {
		if w.P.Kind == "stay" || w.daemon.Signal == nil {
			return
		}
		sig := syscall.SIGTERM
		if w.P.Kind == "int" {
			sig = syscall.SIGINT
		}
		w.S.Spawn("signal", w.daemon, func() { w.daemon.Signal(sig) })
		for w.x["returned"] == nil && w.S.Now() < t+promptly && !w.S.Deadlock {
			sleep(20e6)
		}
		if w.x["returned"] == nil {
			w.fail("stop", "the daemon does not end within %d s of being told to", promptly/1e9)
		}
		w.cover("daemon_stopped")
		return
	}
	// what the service still has open is served or ended
	for _, i := range live {
		s := i.s
		if s == nil || s.gone {
			continue
		}
		s.expect = true
		c := i.step(&Step{Op: "tur", Async: true, Want: wantAny})
		for t := w.S.Now() + promptly; c != nil && !c.done && !s.gone && !w.S.Deadlock; {
			if w.S.Now() >= t {
				w.fail("stop", "%s: neither an answer nor the end of the connection %d s after the service was closed", i.a.Name, promptly/1e9)
				break
			}
			s.wl.WaitFor("answer after close", 1e9)
		}
	}
}

func genStalled(r *rt.RNG, p *Plan) {
	p.Kind = []string{"int", "term", "stay"}[r.Intn(3)]
	if r.P(1, 2) {
		p.Setup.Mode = "lib"
		p.Setup.API = r.P(1, 2)
		p.Setup.Stats = r.P(1, 2)
	}
	// the first unit is the slow one
	spreadTargets(r, p, r.Range(2, 4), func(k int) Storage {
		s := Storage{Blocks: uint64(r.Range(32, 300)), BShift: genShift(r), Thin: r.P(1, 4)}
		if k > 0 && p.Setup.Mode == "lib" {
			s.Remote = r.P(1, 4)
		}
		return s
	})
	slowT := &p.Setup.Targets[0]
	slowLUN := 0
	for l, d := range slowT.LUNs {
		if d == 1000 {
			fmt.Sscan(l, &slowLUN)
		}
	}
	slowSt := p.storage(slowT, slowLUN)
	hold := func() int64 { return int64(r.Pick(1, 20, 60, 120, 300)) * 1e9 }
	when := func() int64 { return int64(r.Pick(0, 0, 1e5, 1e6, 1e7, 1e9)) }
	kinds := []string{"slow", "noread", "stall", "silent", "flood", "churn", "accept", "open", "r2t", "hostile"}
	for n := r.Range(1, 4); n > 0; n-- {
		k := kinds[r.Intn(len(kinds))]
		if k == "open" && p.Setup.Mode != "lib" {
			k = "slow"
		}
		t := &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
		luns := lunsOf(t)
		a := Actor{Kind: "ini", Target: t.Name, Keys: genKeys(r), SN0: uint32(r.Uint64()), Depth: r.Pick(1, 4, 16), Stage: "patient", Start: when()}
		if r.P(1, 4) {
			a.Start = 0
		}
		lunFast := func() int {
			for {
				l := luns[r.Intn(len(luns))]
				if t.LUNs[fmt.Sprint(l)] != 1000 || len(luns) == 1 {
					return l
				}
			}
		}
		rw := func(lun int, max int) Step {
			s := rwStep(r, lun, p.storage(t, lun).Blocks, uint64(max), max)
			s.Async, s.Want = true, wantAny
			return s
		}
		switch k {
		case "slow":
			a.Target, t = slowT.Name, slowT
			luns = lunsOf(t)
			for c := r.Range(1, 6); c > 0; c-- {
				s := rw(slowLUN, 8)
				s.Async = r.P(3, 4)
				if r.P(1, 5) {
					s = Step{Op: "sync", LUN: slowLUN, V: 10, Async: true, Want: wantAny}
				}
				a.Steps = append(a.Steps, s)
				if r.P(1, 6) {
					a.Steps = append(a.Steps, Step{Op: "tmf", V: r.Pick(tmfAbortTaskSet, tmfLUReset), LUN: slowLUN, I: true, Want: wantAny, Async: r.P(1, 2), Gap: 1e6})
				}
				if r.P(1, 6) {
					a.Steps = append(a.Steps, Step{Op: []string{"again", "rst", "close", "again"}[r.Intn(4)], Gap: int64(r.Pick(1e6, 1e9))})
				}
			}
			if n := r.Range(1, 2); true {
				for ; n > 0; n-- {
					p.Faults = append(p.Faults, Fault{Kind: "disk", Path: devPath(slowSt.Dev), Op: []string{"read", "write", "write", "sync"}[r.Intn(4)], N: 1 + r.Intn(3), Count: r.Range(1, 3), Delay: hold()})
				}
			}
		case "noread":
			lun := luns[r.Intn(len(luns))]
			d := hold()
			a.Steps = append(a.Steps, Step{Op: "login"}, Step{Op: "noread", Arg: d})
			a.Depth = r.Pick(8, 32)
			for c := r.Range(4, 40); c > 0; c-- {
				st := p.storage(t, lun)
				s := Step{Op: "read", LUN: lun, N: uint32(min(st.Blocks, uint64(r.Pick(8, 64, 128)))), V: 10, Async: true}
				if r.P(1, 6) {
					s = Step{Op: "nop", N: uint32(r.Pick(0, 48, 4000)), Async: true}
				} else if r.P(1, 6) {
					s = rw(lun, 8)
				}
				a.Steps = append(a.Steps, s)
			}
			if r.P(1, 3) {
				a.Steps = append(a.Steps, Step{Op: []string{"again", "rst", "close"}[r.Intn(3)], Gap: int64(r.Pick(1e6, 1e9, 1e10))})
			}
		case "stall":
			for c := r.Range(2, 10); c > 0; c-- {
				if r.P(1, 4) {
					a.Steps = append(a.Steps, Step{Op: "stall", V: r.Intn(3), Arg: hold()})
				}
				a.Steps = append(a.Steps, rw(lunFast(), 32))
			}
		case "r2t": // asked for data, it keeps it back
			a.Keys = append([][2]string{{"ImmediateData", "No"}, {"InitialR2T", "Yes"}}, [2]string{"MaxBurstLength", "512"}, [2]string{"FirstBurstLength", "512"})
			lun := lunFast()
			for c := r.Range(1, 6); c > 0; c-- {
				st := p.storage(t, lun)
				s := Step{Op: "write", LUN: lun, N: uint32(min(st.Blocks, uint64(r.Pick(1, 8, 32)))), V: 10, Async: true, Slow: int64(r.Pick(1, 10)) * 1e9, Want: wantAny}
				if r.P(1, 2) {
					s.Slow, s.Keep = 0, 1+r.Intn(600)
				}
				a.Steps = append(a.Steps, s)
			}
			a.Steps = append(a.Steps, Step{Op: "sleep", Arg: hold()})
		case "silent": // connections that say nothing, or not enough
			a.Lax, a.Stage = true, ""
			for c := r.Range(1, 20); c > 0; c-- {
				a.Steps = append(a.Steps, Step{Op: "xconn"})
				if r.P(1, 2) {
					a.Steps = append(a.Steps, Step{Op: "xlogin", V: 11, Keep: 1 + r.Intn(100), Arg: int64(r.Uint64() >> 1)})
				}
				a.Steps = append(a.Steps, Step{Op: "xend", V: 3})
			}
		case "hostile":
			a.Lax, a.Stage = true, ""
			a.Target = t.Name
			for c := r.Range(1, 6); c > 0; c-- {
				a.Steps = append(a.Steps, Step{Op: "xpdu", V: r.Intn(6), N: uint32(r.Pick(0, 1, 3)), Arg: int64(r.Uint64() >> 1), Keep: r.Pick(0, 1, 20, 48, 49, 60)})
				a.Steps = append(a.Steps, Step{Op: "xend", V: 3})
			}
		case "flood":
			a.Depth = 128
			a.Stage = ""
			lun := lunFast()
			for c := r.Range(50, 200); c > 0; c-- {
				s := Step{Op: []string{"tur", "nop", "rcap10"}[r.Intn(3)], LUN: lun, Async: true, Want: wantAny}
				if r.P(1, 4) {
					s = rw(lun, 32)
				}
				a.Steps = append(a.Steps, s)
			}
		case "churn":
			a.Stage = ""
			for c := r.Range(3, 15); c > 0; c-- {
				a.Steps = append(a.Steps, rw(lunFast(), 8), Step{Op: []string{"close", "rst", "halfclose", "logout", "again"}[r.Intn(5)]})
			}
		case "accept":
			p.Faults = append(p.Faults, Fault{Kind: "accept", Arg: iscsiPort, N: r.Intn(6), Count: r.Pick(1, 2, 5, 20), Errno: []string{"EMFILE", "ENFILE"}[r.Intn(2)]})
			continue
		case "open":
			dev := uint64(3000 + len(p.Setup.Storages))
			p.Setup.Storages = append(p.Setup.Storages, Storage{Dev: dev, Blocks: 8, BShift: 9, Late: true})
			p.Actors = append(p.Actors, Actor{Kind: "admin", Name: "program", Start: when(), Steps: []Step{{Op: "addstore", Arg: int64(len(p.Setup.Storages) - 1)}}})
			p.Faults = append(p.Faults, Fault{Kind: "disk", Path: devPath(dev), Op: "open", N: 1, Delay: hold()})
			continue
		}
		if a.Stage == "" && !a.Lax && len(luns) == 1 && t.LUNs[fmt.Sprint(luns[0])] == 1000 {
			a.Stage = "patient" // it may be waiting for the slow disk itself
		}
		p.Actors = append(p.Actors, a)
	}
	// those who must not notice
	for n := r.Range(1, 3); n > 0; n-- {
		t := &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
		var luns []int
		for _, l := range lunsOf(t) {
			if t.LUNs[fmt.Sprint(l)] != 1000 {
				luns = append(luns, l)
			}
		}
		a := Actor{Kind: "ini", Target: t.Name, Keys: genKeys(r), SN0: uint32(r.Uint64()), Depth: r.Pick(1, 2, 8), Start: when() + int64(r.Intn(3e6))}
		for c := r.Range(4, 20); c > 0; c-- {
			var s Step
			switch {
			case len(luns) > 0 && r.P(3, 5):
				lun := luns[r.Intn(len(luns))]
				s = rwStep(r, lun, p.storage(t, lun).Blocks, 16, 16)
			case r.P(1, 6):
				s = Step{Op: []string{"close", "logout", "rst"}[r.Intn(3)]}
			default:
				// these need nothing from a disk, on any unit
				s = Step{Op: []string{"tur", "inq", "rcap10", "rcap16", "rluns", "msense6", "nop"}[r.Intn(7)], Want: wantAny}
				if all := lunsOf(t); true {
					s.LUN = all[r.Intn(len(all))]
				}
				switch s.Op {
				case "msense6":
					s.V = 0x3f
				case "rcap16":
					s.Arg = 32
				}
			}
			s.Async = r.P(1, 2)
			s.Gap = int64(r.Pick(0, 0, 1e5, 1e6, 1e8, 5e9, 3e10))
			a.Steps = append(a.Steps, s)
		}
		p.Actors = append(p.Actors, a)
	}
	if r.P(1, 2) {
		a := Actor{Kind: "admin", Name: "manager", Start: when()}
		for c := r.Range(1, 5); c > 0; c-- {
			s := Step{Op: []string{"stats", "reread", "get", "newtarget", "map"}[r.Intn(5)], Gap: int64(r.Pick(0, 1e6, 1e9, 2e10)), Arg: int64(r.Intn(200))}
			s.S = "/target/list"
			a.Steps = append(a.Steps, s)
		}
		p.Actors = append(p.Actors, a)
	}
}

func init() {
	addProp(&Prop{id: "C23", tags: []string{"hang", "stop", "login", "status", "lin", "never", "connlost", "boot", "window", "answer"}, run: runStalled,
		rule: "beside 1 to 3 initiators that nothing concerns, up to 4 of: a disk that takes up to 300 s per operation, readers that stop reading, senders that keep data back, networks that hold everything, connections that say nothing or half a login or half a request, floods of 200 commands, logins and logouts without end, a session reinstated while its commands hang, accept failing with EMFILE or ENFILE, a new device whose file takes up to 300 s to open; meanwhile management calls. Every answer and login of those not concerned within 15 s (plus what accept failures cost), everybody else once what holds them back is over; at the end the service is closed or told to stop by a signal and must end within 15 s.", gen: genStalled})
}
