//go:build go1.25

package main

import (
	"fmt"
	"strings"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/port/iscsit"
	"github.com/gostor/gotgt/zsim/rt"
)

// span is when something came to be: it began at from and was done at to.
type span struct{ from, to int64 }

// known is what discovery may and must show of the targets.
type known14 struct {
	tgt  map[string]*span
	addr map[string]map[string]*span // target -> "portal,group"
}

func (w *World) knownTargets() *known14 {
	k := &known14{map[string]*span{}, map[string]map[string]*span{}}
	for j := range w.P.Setup.Targets {
		t := &w.P.Setup.Targets[j]
		if !t.Late {
			k.tgt[t.Name] = &span{0, 0}
		}
		k.addr[t.Name] = map[string]*span{}
		for _, g := range sortedStr(t.TPGTs) {
			if w.P.Setup.Cluster != "" {
				k.addr[t.Name][w.P.Setup.Cluster+","+g] = &span{0, 0}
				continue
			}
			for _, id := range t.TPGTs[g] {
				k.addr[t.Name][w.P.Setup.Portals[id]+","+g] = &span{0, 0}
			}
		}
	}
	return k
}

type found struct {
	name  string
	addrs []string
}

// discovered judges the answer to SendTargets=All.
func (k *known14) discovered(w *World, who string, c *Cmd) (out []found) {
	kv, ok := parseKV(c.rdata)
	if !ok {
		w.fail("disc", "%s: malformed text in the answer to SendTargets=All: %q", who, c.rdata)
		return nil
	}
	w.cover("discoveries")
	for _, x := range kv {
		switch x[0] {
		case "TargetName":
			out = append(out, found{name: x[1]})
		case "TargetAddress":
			if len(out) == 0 {
				w.fail("disc", "%s: TargetAddress=%s without a target", who, x[1])
				return
			}
			f := &out[len(out)-1]
			f.addrs = append(f.addrs, x[1])
		case "TargetAlias":
		default:
			w.fail("disc", "%s: the answer to SendTargets=All has %s=%s", who, x[0], x[1])
		}
	}
	seen := map[string]bool{}
	for _, f := range out {
		if seen[f.name] {
			w.fail("disc", "%s: target %s is listed twice", who, f.name)
		}
		seen[f.name] = true
		if s := k.tgt[f.name]; s == nil || s.from >= c.ret {
			w.fail("disc", "%s: target %s is listed, which is not served", who, f.name)
			continue
		}
		at := map[string]bool{}
		for _, a := range f.addrs {
			if at[a] {
				w.fail("disc", "%s: address %s of %s is listed twice", who, a, f.name)
			}
			at[a] = true
			if s := k.addr[f.name][a]; s == nil || s.from >= c.ret {
				w.fail("disc", "%s: %s is listed with address %s, which it has not", who, f.name, a)
			}
		}
		for _, a := range sortedStr(k.addr[f.name]) {
			if s := k.addr[f.name][a]; s.to < c.inv && s.to >= 0 && !at[a] {
				w.fail("disc", "%s: %s is listed without its address %s", who, f.name, a)
			}
		}
	}
	for _, n := range sortedStr(k.tgt) {
		if s := k.tgt[n]; s.to < c.inv && s.to >= 0 && !seen[n] {
			w.fail("disc", "%s: target %s is not listed", who, n)
		}
	}
	return
}

func (i *Ini) discoverStep(st *Step, k *known14) bool {
	w := i.w
	switch st.Op {
	case "discover":
		s := i.need()
		if s == nil {
			return true
		}
		c := s.text([][2]string{{"SendTargets", "All"}}, st.I, 0)
		if c.itt == 0 || !s.await(c) || c.rsp != 0 {
			return true
		}
		l := k.discovered(w, i.a.Name, c)
		if st.V == 0 || len(l) == 0 {
			return true
		}
		// the addresses accept a login
		r := rt.NewRNG(uint64(st.Arg))
		for n := st.V; n > 0; n-- {
			f := l[r.Intn(len(l))]
			t := w.targetOf(&Actor{Target: f.name})
			if t == nil || t.Name != f.name || len(f.addrs) == 0 {
				continue
			}
			a, _, _ := strings.Cut(f.addrs[r.Intn(len(f.addrs))], ",")
			ip, ok := strings.CutSuffix(a, fmt.Sprintf(":%d", iscsiPort))
			if w.P.Setup.Cluster != "" {
				ip = w.anyPortal(r, t)
			}
			ip = strings.Trim(ip, "[]")
			if !ok || ip == "" {
				continue
			}
			x := w.newIni(&Actor{Kind: "ini", Name: fmt.Sprintf("%s.%d.%d", i.name, st.ID, n), Target: f.name, Portal: ip, Host: i.host, Depth: 1})
			x.need()
			w.cover("logins_to_listed_addresses")
			if luns := lunsOf(t); len(luns) > 0 && !t.Late {
				x.step(&Step{Op: "read", LUN: luns[r.Intn(len(luns))], N: 1, V: 10})
			}
			x.logout(true)
		}
	case "newtarget":
		t := w.P.Setup.Targets[st.N]
		s := &span{w.tick(), -1}
		k.tgt[t.Name] = s
		var err error
		w.inDaemon("creation of a target", func() {
			c := config.ISCSITarget{TPGTs: map[string][]uint64{}, LUNs: map[string]uint64{}}
			for g, ids := range t.TPGTs {
				for _, id := range ids {
					c.TPGTs[g] = append(c.TPGTs[g], uint64(id))
				}
			}
			w.lib.conf.ISCSITargets[t.Name] = c
			err = w.lib.drv.NewTarget(t.Name, w.lib.conf)
		})
		if err != nil {
			w.fail("mgmt", "creating target %s fails: %v", t.Name, err)
		}
		s.to = w.tick()
		w.cover("targets_created")
	case "addportal":
		t := w.P.Setup.Targets[st.N]
		if s := k.tgt[t.Name]; s == nil || s.to < 0 {
			return true
		}
		g := sortedStr(t.TPGTs)[0]
		n := 0
		fmt.Sscan(g, &n)
		s := &span{w.tick(), -1}
		if w.P.Setup.Cluster == "" {
			k.addr[t.Name][st.S+","+g] = s
		}
		ip, _, _ := strings.Cut(st.S, ":")
		w.x["portal "+t.Name+" "+ip+","+g] = true
		var err error
		w.inDaemon("addition of a portal", func() {
			err = w.lib.drv.(*iscsit.ISCSITargetDriver).AddiSCSIPortal(t.Name, uint16(n), st.S)
		})
		if err != nil {
			w.fail("mgmt", "adding portal %s to %s fails: %v", st.S, t.Name, err)
		}
		s.to = w.tick()
		w.cover("portals_added")
	case "refused":
		w.refused(st, k)
	case "listing":
		if w.lib == nil {
			w.targetList(i.host)
		}
	default:
		return false
	}
	return true
}

// refused makes a management call that cannot be done, and so must fail and
// change nothing, or asks for what the daemon has.
func (w *World) refused(st *Step, k *known14) {
	t := w.P.Setup.Targets[st.N]
	s := k.tgt[t.Name]
	if s == nil || s.to < 0 || w.lib == nil || len(t.TPGTs) == 0 {
		return
	}
	gs := sortedStr(t.TPGTs)
	g := gs[int(st.Arg%int64(len(gs)))]
	n := 0
	fmt.Sscan(g, &n)
	ids := t.TPGTs[g]
	at := w.P.Setup.Portals[ids[int(st.Arg%int64(len(ids)))]]
	free := n
	for used := true; used; {
		free++
		_, used = t.TPGTs[fmt.Sprint(free&0xffff)]
	}
	drv := w.lib.drv.(*iscsit.ISCSITargetDriver)
	var err error
	var has, want bool
	what := ""
	w.inDaemon("a refused call", func() {
		switch st.V {
		case 0:
			what = "creating target " + t.Name + " again"
			err = drv.NewTarget(t.Name, w.lib.conf)
		case 1:
			what = "adding a portal to a target that is not there"
			err = drv.AddiSCSIPortal(t.Name+"x", uint16(n), "10.0.8.1:3260")
		case 2:
			what = fmt.Sprintf("adding a portal to portal group %d, which %s has not,", free&0xffff, t.Name)
			err = drv.AddiSCSIPortal(t.Name, uint16(free), "10.0.8.1:3260")
		case 3:
			what = "adding " + at + " to group " + g + " of " + t.Name + " again"
			err = drv.AddiSCSIPortal(t.Name, uint16(n), at)
		case 4:
			has, want = drv.HasPortal(t.Name, uint16(n), at), true
		case 5:
			has = drv.HasPortal(t.Name, uint16(free), at)
		case 6:
			has = drv.HasPortal(t.Name+"x", uint16(n), at)
		case 7:
			has = drv.HasPortal(t.Name, uint16(n), "10.0.8.1:3260")
		}
	})
	if w.daemon.Dead {
		return
	}
	w.cover("calls_to_be_refused")
	if what != "" && err == nil {
		w.fail("mgmt", "%s succeeds", what)
	}
	if what == "" && has != want {
		w.fail("mgmt", "HasPortal tells %v for %s group %s (case %d)", has, t.Name, g, st.V)
	}
}

// anyPortal is the host of some address configured for the target.
func (w *World) anyPortal(r *rt.RNG, t *Target) string {
	var l []string
	for _, g := range sortedStr(t.TPGTs) {
		for _, id := range t.TPGTs[g] {
			if ip, ok := strings.CutSuffix(w.P.Setup.Portals[id], fmt.Sprintf(":%d", iscsiPort)); ok {
				l = append(l, strings.Trim(ip, "[]"))
			}
		}
	}
	if len(l) == 0 {
		return ""
	}
	return l[r.Intn(len(l))]
}

func genName(r *rt.RNG, k int) string {
	b := []byte("iqn.2020-01.org.sim:")
	n := r.Pick(1, 3, 10, 40, 120, 200)
	for len(b) < 20+n {
		b = append(b, "abcdefghijklmnopqrstuvwxyz0123456789.-:"[r.Intn(39)])
	}
	return fmt.Sprintf("%s%d", b[:min(len(b), 221)], k)
}

func init() {
	addProp(&Prop{id: "C14", tags: []string{"disc", "din", "lin", "login", "status", "hang", "connlost", "mgmt", "nego", "answer", "statsn"},
		run: func(w *World) {
			k := w.knownTargets()
			w.stepHook = func(i *Ini, st *Step) bool { return i.discoverStep(st, k) }
			runStandard(w)
		},
		rule: "1 to 8 targets with names of 22 to 223 characters, 1 to 3 portal groups and up to 4 addresses each, some behind a cluster address and some created, or given further addresses, while the daemon runs; 1 to 4 discovery sessions with receive segment limits from 512 bytes ask for all targets again and again beside I/O, logins and target listings, and log in to the addresses they got.",
		gen: func(r *rt.RNG, p *Plan) {
			p.Setup.Portals = nil
			np := r.Range(1, 6)
			for k := 0; k < np; k++ {
				p.Setup.Portals = append(p.Setup.Portals, fmt.Sprintf("10.0.0.%d:3260", []int{1, 10, 100, 101, 11, 9}[k]))
			}
			if r.P(1, 5) {
				p.Setup.Portals = append(p.Setup.Portals, "[fd00::1]:3260")
			}
			lib := r.P(1, 2)
			if lib {
				p.Setup.Mode = "lib"
				if r.P(1, 3) {
					p.Setup.Cluster = []string{"10.0.0.1:3260", "192.168.99.1:3260", "10.0.0.200:3260"}[r.Intn(3)]
				}
			}
			nt := r.Pick(1, 2, 3, 4, 6, 8)
			for k := 0; k < nt; k++ {
				t := Target{Name: genName(r, k), TPGTs: map[string][]int{}, LUNs: map[string]int{}, Late: lib && k > 0 && r.P(1, 3)}
				var ids []int
				for id := range p.Setup.Portals {
					ids = append(ids, id)
				}
				for x := len(ids) - 1; x > 0; x-- {
					y := r.Intn(x + 1)
					ids[x], ids[y] = ids[y], ids[x]
				}
				for g := r.Range(1, 3); g > 0 && len(ids) > 0; g-- {
					m := r.Range(1, min(3, len(ids)))
					t.TPGTs[fmt.Sprint(r.Pick(g, g, g*100, 65536-g))] = ids[:m]
					ids = ids[m:]
				}
				if !t.Late {
					for n := r.Range(1, 2); n > 0; n-- {
						d := 1000 + len(p.Setup.Storages)
						p.Setup.Storages = append(p.Setup.Storages, Storage{Dev: uint64(d), Blocks: uint64(r.Range(8, 60)), BShift: 9})
						t.LUNs[fmt.Sprint(r.Intn(5)+n*10)] = d
					}
				}
				p.Setup.Targets = append(p.Setup.Targets, t)
			}
			portal := func(t *Target) string {
				w := &World{P: p}
				return w.anyPortal(r, t)
			}
			for n := r.Range(1, 4); n > 0; n-- {
				a := Actor{Kind: "ini", Disc: true, Depth: 4, Target: p.Setup.Targets[0].Name, SN0: uint32(r.Uint64()), Stage: []string{"", "secop", "secff", "split"}[r.Intn(4)]}
				if r.P(3, 4) {
					a.Keys = [][2]string{{"MaxRecvDataSegmentLength", fmt.Sprint(r.Pick(512, 512, 600, 1024, 8192, 65536))}}
				}
				for m := r.Range(1, 8); m > 0; m-- {
					a.Steps = append(a.Steps, Step{Op: "discover", I: r.P(1, 2), V: r.Pick(0, 0, 1, 3), Arg: int64(r.Uint64() >> 1)})
					if r.P(1, 4) {
						a.Steps = append(a.Steps, Step{Op: []string{"logout", "close", "rst"}[r.Intn(3)]})
					}
					if r.P(1, 3) {
						a.Steps = append(a.Steps, Step{Op: "sleep", Arg: int64(r.Intn(1000000))})
					}
				}
				p.Actors = append(p.Actors, a)
			}
			for n := r.Intn(3); n > 0; n-- {
				t := &p.Setup.Targets[0]
				for x := range p.Setup.Targets {
					if !p.Setup.Targets[x].Late && r.P(1, 2) {
						t = &p.Setup.Targets[x]
					}
				}
				ip := portal(t)
				if ip == "" {
					continue
				}
				a := Actor{Kind: "ini", Target: t.Name, Portal: ip, Depth: r.Pick(1, 4)}
				luns := lunsOf(t)
				for m := r.Range(2, 12); m > 0; m-- {
					lun := luns[r.Intn(len(luns))]
					s := rwStep(r, lun, p.storage(t, lun).Blocks, 8, 4)
					s.Async = r.P(1, 2)
					a.Steps = append(a.Steps, s)
					if r.P(1, 6) {
						a.Steps = append(a.Steps, Step{Op: "logout"})
					}
				}
				p.Actors = append(p.Actors, a)
			}
			adm := Actor{Kind: "admin", Name: "admin", Target: p.Setup.Targets[0].Name}
			if lib {
				extra := 0
				for x := range p.Setup.Targets {
					if p.Setup.Targets[x].Late {
						adm.Steps = append(adm.Steps, Step{Op: "newtarget", N: uint32(x), Gap: int64(r.Intn(1500000))})
					}
					if r.P(1, 3) {
						extra++
						adm.Steps = append(adm.Steps, Step{Op: "addportal", N: uint32(x), S: fmt.Sprintf("10.0.7.%d:3260", extra), Gap: int64(r.Intn(1500000))})
					}
					for r.P(1, 3) {
						adm.Steps = append(adm.Steps, Step{Op: "refused", N: uint32(x), V: r.Intn(8), Arg: int64(r.Intn(100)), Gap: int64(r.Intn(500000))})
					}
				}
			} else if r.P(1, 2) {
				for n := r.Range(1, 5); n > 0; n-- {
					adm.Steps = append(adm.Steps, Step{Op: "listing", Gap: int64(r.Intn(1500000))})
				}
			}
			if len(adm.Steps) > 0 {
				p.Actors = append(p.Actors, adm)
			}
		}})
}
