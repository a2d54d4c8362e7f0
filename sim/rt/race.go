//go:build go1.25

package rt

import (
	"fmt"
	"unsafe"
)

// Vector clocks and the happens-before check on map accesses. Two accesses to
// one map, at least one a write, that are not ordered by synchronisation or by
// causality through the simulated network are accesses the Go runtime may see
// at the same time, and then it ends the process ("concurrent map ...").

type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) set(i int, x uint32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = x
}

// Join makes v the pointwise maximum of v and o.
func (v *VC) Join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	w := *v
	for i, x := range o {
		if x > w[i] {
			w[i] = x
		}
	}
}

func (s *Sim) initVC(t *Task, parent *Task) {
	slot := -1
	if parent != nil {
		for i, f := range s.freeSlots {
			if parent.vc.get(f) >= s.slotLast[f] {
				slot = f
				s.freeSlots = append(s.freeSlots[:i], s.freeSlots[i+1:]...)
				break
			}
		}
	}
	if slot < 0 {
		slot = len(s.slotClock)
		s.slotClock = append(s.slotClock, 0)
		s.slotLast = append(s.slotLast, 0)
	}
	t.slot = slot
	if parent != nil {
		t.vc = append(VC(nil), parent.vc...)
		parent.vc.set(parent.slot, parent.vc.get(parent.slot)+1)
	}
	t.vc.set(slot, s.slotClock[slot]+1)
}

func (s *Sim) freeVC(t *Task) {
	s.slotClock[t.slot] = t.vc.get(t.slot)
	s.slotLast[t.slot] = t.lastA
	s.freeSlots = append(s.freeSlots, t.slot)
	t.vc = nil
}

// Release publishes everything the current task has done on the object clock.
func (v *VC) Release() {
	t := cur
	if t == nil || t.dying {
		return
	}
	v.Join(t.vc)
	t.vc.set(t.slot, t.vc.get(t.slot)+1)
}

// Acquire orders the current task after everything published on the clock.
func (v *VC) Acquire() {
	t := cur
	if t == nil || t.dying {
		return
	}
	t.vc.Join(*v)
}

// Snapshot is the current task's clock, for messages that carry causality.
func Snapshot() VC {
	t := cur
	if t == nil || t.dying {
		return nil
	}
	c := append(VC(nil), t.vc...)
	t.vc.set(t.slot, t.vc.get(t.slot)+1)
	return c
}

type access struct {
	slot  int
	clock uint32
	site  uint32
}

type shadow struct {
	keep  unsafe.Pointer
	w     access
	hasW  bool
	reads []access
}

// NumSites is the number of instrumented places.
var NumSites int

// SiteName translates a site number; set by the generated table.
var SiteName = func(site uint32) string { return fmt.Sprint(site) }

func (s *Sim) mapAccess(p unsafe.Pointer, site uint32, write bool) {
	t := cur
	if p == nil || t.dying || t.Proc.Name == "world" {
		return
	}
	sh := s.shadows[uintptr(p)]
	if sh == nil {
		sh = &shadow{keep: p}
		s.shadows[uintptr(p)] = sh
	}
	c := t.vc.get(t.slot)
	t.lastA = c
	if sh.hasW && sh.w.slot != t.slot && sh.w.clock > t.vc.get(sh.w.slot) {
		s.race(sh.w.site, true, site, write)
	}
	if write {
		for _, r := range sh.reads {
			if r.slot != t.slot && r.clock > t.vc.get(r.slot) {
				s.race(r.site, false, site, true)
			}
		}
		sh.reads = sh.reads[:0]
		sh.w, sh.hasW = access{t.slot, c, site}, true
		return
	}
	for i := range sh.reads {
		if sh.reads[i].slot == t.slot {
			sh.reads[i] = access{t.slot, c, site}
			return
		}
	}
	sh.reads = append(sh.reads, access{t.slot, c, site})
}

func (s *Sim) race(a uint32, aw bool, b uint32, bw bool) {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	x, y := k(aw)+" at "+SiteName(a), k(bw)+" at "+SiteName(b)
	if y < x {
		x, y = y, x
	}
	m := "concurrent map " + x + " and " + y
	if !s.raceSeen[m] {
		s.raceSeen[m] = true
		s.Races = append(s.Races, m)
	}
}

// MR marks a read of a map, MW a write.
func MR[M ~map[K]V, K comparable, V any](site uint32, m M) M {
	if cur != nil {
		S.mapAccess(*(*unsafe.Pointer)(unsafe.Pointer(&m)), site, false)
	}
	return m
}

func MW[M ~map[K]V, K comparable, V any](site uint32, m M) M {
	if cur != nil {
		S.mapAccess(*(*unsafe.Pointer)(unsafe.Pointer(&m)), site, true)
	}
	return m
}

// MapReadPtr marks a read of the map behind a raw pointer (reflection users).
func MapReadPtr(p unsafe.Pointer, site uint32) {
	if cur != nil {
		S.mapAccess(p, site, false)
	}
}

// JoinCur orders the current task after the given clock.
func JoinCur(v VC) {
	if cur != nil && !cur.dying {
		cur.vc.Join(v)
	}
}

// IsRoot reports whether the root task is running.
func IsRoot() bool { return cur != nil && cur == S.root }
