//go:build go1.25

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"time"

	"github.com/gostor/gotgt/zsim/rt"
	"github.com/gostor/gotgt/zsim/simnet"
)

// shrinkMain reduces the plan and the schedule of a violation while one with
// the same tag persists.
func shrinkMain(in, out string) {
	runtime.GOMAXPROCS(2)
	f := loadReplay(in)
	tag := f.Violation.Tag
	pr := propOf(f.Property)
	deadline := time.Now().Add(40 * time.Second)
	tries := 0
	hit := func(p *Plan) *Result {
		tries++
		r := execute(clonePlan(p))
		for _, v := range unknown(f.Property, relevant(pr, r.V)) {
			if v.Tag == tag {
				return r
			}
		}
		return nil
	}
	late := func() bool { return time.Now().After(deadline) }
	best := f.Plan
	orig := stepsOf(best)
	if hit(best) == nil {
		fmt.Fprintln(os.Stderr, "sim: the violation does not reproduce")
		os.Exit(2)
	}
	try := func(p *Plan) bool {
		if late() {
			return false
		}
		if hit(p) != nil {
			best = p
			return true
		}
		return false
	}
	// cooperative scheduling and a plain network make everything smaller
	simple := func() {
		if best.Sched.Mode != "coop" {
			q := clonePlan(best)
			q.Sched = rt.SchedCfg{Mode: "coop", StepNs: best.Sched.StepNs}
			try(q)
		}
		q := clonePlan(best)
		q.Net = simnet.DefaultCfg()
		if q.Net != best.Net {
			try(q)
		}
	}
	simple()
	ddActors(&best, try)
	for pass := 0; pass < 3 && !late(); pass++ {
		n := stepsOf(best)
		ddSteps(&best, try, late)
		ddFaults(&best, try, late)
		ddActors(&best, try)
		if stepsOf(best) == n {
			break
		}
	}
	simple()
	ddFields(&best, try, late)
	// then the schedule: only the scheduling decisions that matter
	deadline = deadline.Add(20 * time.Second)
	if best.Sched.Mode != "coop" && best.Sched.Mode != "replay" {
		r := hit(best)
		if r == nil {
			os.Exit(2)
		}
		q := clonePlan(best)
		q.Sched.Mode = "replay"
		q.Sched.Devs = r.Devs
		if r2 := hit(q); r2 != nil {
			best = q
			ddDevs(&best, try, late)
		}
	}
	verbose = true
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	so := os.Stdout
	os.Stdout = null
	r := hit(best)
	os.Stdout = so
	verbose = false
	if r == nil {
		os.Exit(2)
	}
	vs := relevant(pr, r.V)
	g := &replayFile{Property: f.Property, All: vs, Seed: f.Seed, Hash: r.Hash, Digest: r.Digest, Plan: best, History: r.History, OrigSteps: orig, FinalSteps: stepsOf(best)}
	for _, v := range vs {
		if v.Tag == tag {
			g.Violation = v
			break
		}
	}
	g.Note = fmt.Sprintf("%d runs to minimise; %d scheduling decisions kept", tries, len(best.Sched.Devs))
	b, err := json.MarshalIndent(g, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(out, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

func ddActors(best **Plan, try func(*Plan) bool) {
	for k := len((*best).Actors) - 1; k >= 0 && len((*best).Actors) > 1; k-- {
		if k >= len((*best).Actors) {
			continue
		}
		// the actor stays, so that the identities of the others do not change
		if len((*best).Actors[k].Steps) == 0 {
			continue
		}
		q := clonePlan(*best)
		q.Actors[k].Steps = nil
		try(q)
	}
}

func ddSteps(best **Plan, try func(*Plan) bool, late func() bool) {
	for k := range (*best).Actors {
		n := len((*best).Actors[k].Steps)
		for size := n / 2; size >= 1; size /= 2 {
			for at := 0; at < len((*best).Actors[k].Steps); {
				if late() {
					return
				}
				q := clonePlan(*best)
				s := q.Actors[k].Steps
				e := min(at+size, len(s))
				q.Actors[k].Steps = append(append([]Step{}, s[:at]...), s[e:]...)
				if !try(q) {
					at += size
				}
			}
		}
	}
}

func ddFaults(best **Plan, try func(*Plan) bool, late func() bool) {
	for at := len((*best).Faults) - 1; at >= 0; at-- {
		if late() {
			return
		}
		q := clonePlan(*best)
		q.Faults = append(q.Faults[:at], q.Faults[at+1:]...)
		try(q)
	}
}

func ddFields(best **Plan, try func(*Plan) bool, late func() bool) {
	for k := range (*best).Actors {
		if len((*best).Actors[k].Keys) > 0 && !late() {
			q := clonePlan(*best)
			q.Actors[k].Keys = nil
			try(q)
		}
		for j := range (*best).Actors[k].Steps {
			for _, f := range []func(s *Step) bool{
				func(s *Step) bool { ok := s.N > 1 && s.N < 1<<20; s.N = 1; return ok },
				func(s *Step) bool { ok := s.Gap > 0; s.Gap = 0; return ok },
				func(s *Step) bool { ok := s.Hold > 0; s.Hold = 0; return ok },
				func(s *Step) bool { ok := s.ED != 0; s.ED = 0; return ok },
				func(s *Step) bool { ok := s.Slow > 0; s.Slow = 0; return ok },
				func(s *Step) bool { ok := s.Async; s.Async = false; return ok },
			} {
				if late() {
					return
				}
				q := clonePlan(*best)
				if f(&q.Actors[k].Steps[j]) {
					try(q)
				}
			}
		}
	}
}

func ddDevs(best **Plan, try func(*Plan) bool, late func() bool) {
	n := len((*best).Sched.Devs)
	for size := (n + 1) / 2; size >= 1; size /= 2 {
		for at := 0; at < len((*best).Sched.Devs); {
			if late() {
				return
			}
			q := clonePlan(*best)
			d := q.Sched.Devs
			e := min(at+size, len(d))
			q.Sched.Devs = append(append([]rt.Deviation{}, d[:at]...), d[e:]...)
			if !try(q) {
				at += size
			}
		}
		if size == 1 {
			break
		}
	}
}
