//go:build go1.25

package main

import (
	"fmt"

	"github.com/gostor/gotgt/zsim/rt"
	"github.com/gostor/gotgt/zsim/simnet"
)

// Prop is one property: how its runs are made, and what breaks it.
type Prop struct {
	id   string
	tags []string
	gen  func(r *rt.RNG, p *Plan)
	run  func(w *World)
	rule string
	stub []string // components replaced by stubs in these runs, besides the common ones
	cpu  int      // weight
}

var props = map[string]*Prop{}

func addProp(p *Prop) {
	if p.run == nil {
		p.run = runStandard
	}
	props[p.id] = p
}

func propOf(id string) *Prop {
	p := props[id]
	if p == nil {
		panic("unknown property " + id)
	}
	return p
}

func (p *Prop) has(tag string) bool {
	if tag == "crash" || tag == "maprace" {
		return true
	}
	for _, t := range p.tags {
		if t == tag {
			return true
		}
	}
	return false
}

// makePlan derives everything about a run from the base seed and its index.
func makePlan(id string, base uint64, index int) *Plan {
	seed := rt.Hash64(base, fmt.Sprintf("%s/%d", id, index))
	r := rt.NewRNG(rt.Hash64(seed, "plan"))
	p := &Plan{Prop: id, Index: index, Seed: seed}
	p.Sched = genSched(r, seed)
	p.Net = genNet(r)
	p.Setup.Portals = []string{"10.0.0.1:3260"}
	propOf(id).gen(r, p)
	genClock(rt.NewRNG(rt.Hash64(seed, "clock")), p)
	if q := rt.NewRNG(rt.Hash64(seed, "log")); p.Setup.Log == "" && q.P(1, 8) {
		p.Setup.Log = []string{"debug", "debug", "info", "warn"}[q.Intn(4)]
	}
	n := 0
	for k := range p.Actors { // often the daemon counts on from there
		switch r.Intn(6) {
		case 0:
			p.Actors[k].Stat0 = -uint32(r.Intn(60))
		case 1:
			p.Actors[k].Stat0 = 1<<31 - uint32(r.Intn(60))
		case 2:
			p.Actors[k].Stat0 = uint32(r.Uint64())
		}
	}
	isids := genISIDs(r, len(p.Actors))
	for a := range p.Actors {
		if p.Actors[a].ISID == 0 {
			p.Actors[a].ISID = isids[a]
		}
		for s := range p.Actors[a].Steps {
			n++
			if p.Actors[a].Steps[s].ID == 0 {
				p.Actors[a].Steps[s].ID = 100000 + n
			}
		}
		if p.Actors[a].Target == "" && len(p.Setup.Targets) > 0 {
			p.Actors[a].Target = p.Setup.Targets[0].Name
		}
	}
	return p
}

// genClock steps the wall clock of the daemon's host, forwards and backwards.
func genClock(r *rt.RNG, p *Plan) {
	if !r.P(1, 4) {
		return
	}
	for k := r.Range(1, 3); k > 0; k-- {
		d := int64(r.Pick(1, 1000, 60_000, 3600_000, 86400_000)) * 1e6 * int64(r.Range(1, 30))
		if r.P(1, 2) {
			d = -d
		}
		p.Faults = append(p.Faults, Fault{Kind: "clock", At: int64(r.Intn(1000)) * int64(r.Pick(1000, 100_000, 1000_000, 10_000_000)), Delay: d})
	}
}

// genISIDs returns session identifiers that differ, often in one of their bytes
// only.
func genISIDs(r *rt.RNG, n int) []uint64 {
	base := r.Uint64() & 0x3fff_ffff_ffff
	mode := r.Intn(4)
	shift := 8 * uint(r.Intn(6))
	used := map[uint64]bool{0: true}
	var out []uint64
	for k := 0; len(out) < n; k++ {
		v := 0x80_000000_0000 | uint64(k+1)
		switch mode {
		case 1:
			v = base ^ uint64(k+1)<<shift&0xbfff_ffff_ffff
		case 2:
			v = base ^ uint64(r.Intn(64))<<uint(r.Intn(48))&0xbfff_ffff_ffff
		case 3:
			v = r.Uint64() & 0xbfff_ffff_ffff
		}
		if !used[v] {
			used[v] = true
			out = append(out, v)
		} else if k > 1000 {
			mode = 0
		}
	}
	return out
}

func genSched(r *rt.RNG, seed uint64) rt.SchedCfg {
	c := rt.SchedCfg{Seed: rt.Hash64(seed, "sched"), StepNs: int64(r.Pick(5, 20, 20, 100))}
	switch k := r.Intn(100); {
	case k < 20:
		c.Mode = "coop"
		c.Random = r.P(1, 2)
		if c.Random {
			c.Mode = "rand"
			c.Gap = 1 << 30
		}
	case k < 70:
		c.Mode = "rand"
		c.Gap = 3 << uint(r.Intn(10))
		c.StallPct = r.Pick(0, 0, 5, 20)
		c.StallMax = int64(r.Pick(10_000, 300_000, 5_000_000))
	default:
		c.Mode = "pct"
		c.Points = r.Range(1, 6)
	}
	return c
}

func genNet(r *rt.RNG) simnet.Cfg {
	c := simnet.DefaultCfg()
	switch r.Intn(4) {
	case 0:
		c.DelayMin, c.DelayMax = 500, 5000
	case 1:
		c.DelayMin, c.DelayMax = 1000, 1000000
	}
	c.SegMax = r.Pick(65536, 65536, 8192, 1460, 512, 100)
	c.SegTiny = r.Pick(0, 0, 5, 30)
	c.Buf = r.Pick(1<<18, 1<<18, 1<<20, 65536, 20000)
	c.Short = r.Pick(0, 0, 10, 50)
	return c
}

// runStandard boots the daemon, lets all initiators perform their steps and
// compares the medium with their history.
func runStandard(w *World) {
	if !w.boot() {
		w.fail("boot", "the daemon does not start: %v", w.x["booterr"])
		return
	}
	var fns []func()
	for k := range w.P.Actors {
		i := w.newIni(&w.P.Actors[k])
		fns = append(fns, i.run)
	}
	w.finish(fns)
}

func (w *World) finish(fns []func()) {
	limit := int64(3600e9)
	if l, ok := w.x["limit"].(int64); ok {
		limit = l
	}
	ok := w.tasks(limit, fns...)
	w.quiet = true
	if !ok && !w.S.Deadlock {
		w.fail("hang", "the workload does not end within %d s of simulated time", limit/1e9)
	}
	if w.S.Capped || w.S.Deadlock && !ok {
		w.fail("hang", "the daemon never stops running (%d statements executed)", w.S.Steps)
		return
	}
	for _, i := range w.inis {
		if i.s != nil && !i.s.gone {
			i.s.closing = true
			i.s.end("end of run")
		}
	}
	// let the daemon finish what it was doing for connections that are gone
	rt.Sleep(50e6)
	w.exited()
	w.S.Kill(w.daemon)
	w.down = true
	w.finalImage()
	if f, ok := w.x["beforeLin"].(func()); ok {
		f()
	}
	w.checkLin()
}
