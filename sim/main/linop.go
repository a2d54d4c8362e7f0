//go:build go1.25

package main

import "sort"

// linOp is one operation on a small state machine: it happens at one instant
// between inv and ret, or, if it is optional, at one instant after inv or never.
type linOp[S comparable] struct {
	inv, ret int64
	opt      bool
	pure     bool // it never changes the state
	what     string
	apply    func(S) (S, bool)
	alt      func(S) (S, bool) // what else may happen
	alt2     func(S) (S, bool)
}

type linMask [4]uint64

func (m linMask) has(k int) bool { return m[k>>6]>>(k&63)&1 != 0 }
func (m linMask) with(k int) linMask {
	m[k>>6] |= 1 << (k & 63)
	return m
}
func (m linMask) without(k int) linMask {
	m[k>>6] &^= 1 << (k & 63)
	return m
}

type linConf[S comparable] struct {
	s S
	m linMask
}

const maxStates = 1 << 20

// linearize looks for an order of the operations that respects their times
// and that every one of them is possible in. It returns the first operation
// with which there is none and the number of states gone through.
func linearize[S comparable](init S, ops []*linOp[S]) (*linOp[S], int) {
	type ev struct {
		at  int64
		op  *linOp[S]
		ret bool
	}
	var evs []ev
	for _, o := range ops {
		evs = append(evs, ev{o.inv, o, false})
		if !o.opt {
			evs = append(evs, ev{o.ret, o, true})
		}
	}
	sort.SliceStable(evs, func(a, b int) bool {
		if evs[a].at != evs[b].at {
			return evs[a].at < evs[b].at
		}
		return !evs[a].ret && evs[b].ret
	})
	slots := make([]*linOp[S], 256)
	slot := map[*linOp[S]]int{}
	cur := map[linConf[S]]bool{{s: init}: true}
	top := 0
	seen := 1
	// passive takes up whatever is possible and changes nothing
	passive := func(c linConf[S]) linConf[S] {
		for k := 0; k < top; k++ {
			if o := slots[k]; o != nil && o.pure && !o.opt && !c.m.has(k) {
				if _, ok := o.apply(c.s); ok {
					c.m = c.m.with(k)
				}
			}
		}
		return c
	}
	for _, e := range evs {
		if !e.ret {
			k := 0
			for k < len(slots) && slots[k] != nil {
				k++
			}
			if k == len(slots) {
				return nil, -1 // too many at once to decide
			}
			slots[k], slot[e.op] = e.op, k
			top = max(top, k+1)
			next := map[linConf[S]]bool{}
			for c := range cur {
				next[passive(c)] = true
			}
			cur = next
			continue
		}
		k := slot[e.op]
		next := map[linConf[S]]bool{}
		been := map[linConf[S]]bool{}
		var todo []linConf[S]
		for c := range cur {
			todo = append(todo, c)
			been[c] = true
		}
		for len(todo) > 0 {
			if seen+len(been) > maxStates {
				return nil, -1
			}
			c := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if c.m.has(k) {
				c.m = c.m.without(k)
				next[c] = true
				continue
			}
			for j := 0; j < top; j++ {
				o := slots[j]
				if o == nil || o.pure || c.m.has(j) {
					continue
				}
				for _, f := range []func(S) (S, bool){o.apply, o.alt, o.alt2} {
					if f == nil {
						continue
					}
					n, ok := f(c.s)
					if !ok || o.opt && n == c.s {
						continue
					}
					d := passive(linConf[S]{n, c.m.with(j)})
					if !been[d] {
						been[d] = true
						todo = append(todo, d)
					}
				}
			}
		}
		seen += len(been)
		slots[k] = nil
		if len(next) == 0 {
			return e.op, seen
		}
		cur = next
	}
	return nil, seen
}
