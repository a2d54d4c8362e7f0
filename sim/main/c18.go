//go:build go1.25

package main

import (
	"fmt"
	"strings"

	"github.com/gostor/gotgt/zsim/rt"
)

// hconn is one connection as seen from its host.
type hconn struct {
	host     string
	who      string
	inv      int64 // the attempt began
	resp     int64 // the target has answered something
	close    int64 // the end began
	gone     int64 // it must have ended for the target as well
	res      int64 // the outcome was known
	rejected bool  // closed without an answer
}

type hosts struct {
	w   *World
	all []*hconn
	of  map[*Sess]*hconn
}

func (h *hosts) begin(i *Ini) *hconn {
	c := &hconn{host: i.host, who: i.a.Name, inv: h.w.tick(), gone: inf, close: inf, res: inf}
	h.all = append(h.all, c)
	return c
}

func (h *hosts) end(c *hconn) {
	if c.close == inf {
		c.close = h.w.tick()
	}
	h.w.S.After(5e9, func() {
		if !h.w.down {
			c.gone = min(c.gone, h.w.tick())
		}
	})
}

func (h *hosts) step(i *Ini, st *Step) bool {
	w := h.w
	switch st.Op {
	case "hlogin", "hdisc":
		if st.Op == "hlogin" && i.s != nil && !i.s.gone {
			return true
		}
		q := i.loginDefaults()
		q.disc = st.Op == "hdisc"
		q.stage = []string{"", "secop", "split"}[st.V%3]
		c := h.begin(i)
		q.inject = func(s *Sess, n int) {
			if n > 1 && c.resp == 0 {
				c.resp = w.tick()
			}
		}
		if q.disc {
			q.isid ^= 0x7700
		}
		r := i.login(q)
		c.res = w.tick()
		if r.ok {
			w.cover("logins_accepted")
			if c.resp == 0 {
				c.resp = c.res
			}
			h.of[r.s] = c
			if q.disc {
				sleep(st.Arg)
				c.close = w.tick()
				r.s.closing = true
				if st.V&1 != 0 {
					if l := r.s.logout(true); l.itt != 0 {
						r.s.await(l)
					}
				}
				r.s.end("closed")
				return true
			}
			i.s = r.s
			return true
		}
		h.end(c)
		switch {
		case r.closed && c.resp == 0:
			c.rejected = true
			w.cover("logins_rejected")
			if !w.P.Setup.Block {
				w.fail("host", "%s at %s: the connection is closed without an answer, although hosts do not exclude each other here: %v", i.a.Name, i.host, r)
			}
		case w.down || w.S.Deadlock || w.S.Capped:
		case r.hang:
			w.fail("hang", "%s at %s: a login is neither answered nor ended", i.a.Name, i.host)
		default:
			w.fail("host", "%s at %s: a login that was begun fails: %v", i.a.Name, i.host, r)
		}
	case "hpart": // a login that is given up
		q := i.loginDefaults()
		q.isid ^= uint64(1+i.sess) << 8
		q.stage = "secop"
		q.stop, q.part, q.how = 1+st.V%2, -1, []string{"close", "rst", "halfclose"}[st.V/2%3]
		if st.V&8 != 0 {
			q.part = 20
		}
		c := h.begin(i)
		q.inject = func(s *Sess, n int) {
			if n > 1 && c.resp == 0 {
				c.resp = w.tick()
			}
			if n == q.stop {
				sleep(st.Arg)
				c.close = w.tick()
			}
		}
		r := i.login(q)
		h.end(c)
		c.res = w.tick()
		if r.closed && c.resp == 0 && q.stop == 2 {
			c.rejected = true
		}
		w.cover("logins_given_up")
	case "hidle": // a connection that says nothing
		c := h.begin(i)
		s := i.connect(i.loginDefaults())
		if s == nil {
			return true
		}
		sleep(st.Arg)
		c.close = w.tick()
		if st.V&1 != 0 {
			s.c.Abort()
		}
		s.gone = true
		s.c.Close()
		h.end(c)
		c.res = w.tick()
		w.cover("idle_connections")
	case "close", "rst", "halfclose", "logout":
		if s := i.s; s != nil && !s.gone && h.of[s] != nil {
			h.of[s].close = w.tick()
		}
		return false
	case "sleep", "wait":
		return false
	default:
		return i.s == nil || i.s.gone
	}
	return true
}

// certain tells when the connection was certainly open.
func (c *hconn) certain() (a, b int64, ok bool) {
	if c.resp == 0 || c.rejected {
		return 0, 0, false
	}
	return c.resp, c.close, c.close > c.resp
}

// covered tells whether connections of other hosts were certainly open all
// the time from a to b.
func (h *hosts) covered(host string, a, b int64) bool {
	for a < b {
		next := int64(0)
		for _, o := range h.all {
			if f, t, ok := o.certain(); ok && o.host != host && f <= a && t > next {
				next = t
			}
		}
		if next <= a {
			return false
		}
		a = next
	}
	return true
}

func (h *hosts) check() {
	w := h.w
	for k, a := range h.all {
		af, at, ok := a.certain()
		if !ok {
			continue
		}
		for _, b := range h.all[:k] {
			if bf, bt, ok := b.certain(); ok && a.host != b.host && max(af, bf) < min(at, bt) {
				if w.P.Setup.Block {
					w.fail("host", "connections of %s (%s, open during %d..%d) and %s (%s, %d..%d) are served at the same time", a.host, a.who, af, at, b.host, b.who, bf, bt)
					return
				}
				w.cover("hosts_side_by_side")
			}
		}
	}
	if !w.P.Setup.Block {
		return
	}
	for _, c := range h.all {
		if !c.rejected {
			continue
		}
		why := false
		for _, o := range h.all {
			if o.host == c.host || o.rejected || o.inv > c.res || o.gone < c.inv {
				continue
			}
			adm := o.gone
			if o.resp > 0 {
				adm = o.resp
			}
			if !h.covered(o.host, o.inv, adm) {
				why = true
				break
			}
		}
		if !why {
			w.fail("host", "the connection of %s at %s, made during %d..%d, is turned away, although no connection of another host can be open then", c.who, c.host, c.inv, c.res)
			return
		}
	}
}

// portalFor is the address a host of the same kind reaches the daemon by.
func portalFor(host string) string {
	if strings.Contains(host, ":") {
		return "fd00::1"
	}
	return ""
}

func runHosts(w *World) {
	h := &hosts{w: w, of: map[*Sess]*hconn{}}
	w.stepHook = h.step
	w.x["onEnd"] = func(s *Sess) {
		if c := h.of[s]; c != nil {
			if !s.closing && !s.leaving && c.close == inf {
				c.close = c.resp // not by us
			}
			h.end(c)
		}
	}
	if !w.boot() {
		w.fail("boot", "the daemon does not start: %v", w.x["booterr"])
		return
	}
	var fns []func()
	for k := range w.P.Actors {
		i := w.newIni(&w.P.Actors[k])
		fns = append(fns, i.run)
	}
	w.tasksThen(fns, func() {
		if w.S.Deadlock || w.daemon.Dead {
			return
		}
		// they may stay, and nobody else comes in
		i := w.newIni(&Actor{Kind: "ini", Name: "iqn.2020-01.org.sim:late", Host: "10.0.1.99", Target: tgt0, Depth: 1})
		i.step(&Step{Op: "hlogin"})
		for k, i := range w.inis {
			i.step(&Step{Op: []string{"close", "rst", "logout"}[k%3]})
		}
		sleep(6e9)
		// every host in turn
		for k := 0; k < 3 && !w.S.Deadlock && !w.daemon.Dead; k++ {
			i := w.newIni(&Actor{Kind: "ini", Name: fmt.Sprintf("iqn.2020-01.org.sim:fresh%d", k), Host: w.inis[k*7%len(w.inis)].host, Portal: w.inis[k*7%len(w.inis)].a.Portal, Target: tgt0, Depth: 1})
			i.step(&Step{Op: "hlogin"})
			if i.s == nil {
				w.fail("host", "%s cannot log in with every connection gone", i.host)
				return
			}
			i.step(&Step{Op: "write", N: 1, V: 10, Imm: -1})
			i.step(&Step{Op: []string{"close", "rst", "logout"}[k%3]})
			sleep(6e9)
		}
	})
	h.check()
}

func init() {
	addProp(&Prop{id: "C18", tags: []string{"host", "lin", "never", "status", "hang", "connlost", "boot"}, run: runHosts,
		rule: "2 to 6 initiators on 2 or 3 hosts with similar addresses connect, log in, discover, give up logins, stay silent and end their sessions in every way, most runs with multiple-host blocking; when connections were certainly and possibly open is compared with every login that went through and every one that was turned away, and in the end every host is let in in turn.",
		gen: func(r *rt.RNG, p *Plan) {
			oneTarget(p, Storage{Blocks: uint64(r.Range(24, 64)), BShift: genShift(r)})
			p.Setup.Block = r.P(4, 5)
			hs := []string{"10.0.1.1", []string{"10.0.1.11", "10.0.1.2", "10.0.11.1", "110.0.1.1", "10.0.1.10"}[r.Intn(5)], "10.0.1.12"}
			if r.P(1, 4) {
				hs = []string{"fd00::11", []string{"fd00::12", "fd00::1:11", "fd00:0:0:1::11", "fd01::11"}[r.Intn(4)], []string{"fd00::13", "10.0.1.12"}[r.Intn(2)]}
				p.Setup.Portals = []string{"10.0.0.1:3260", "[fd00::1]:3260"}
				p.Setup.Targets[0].TPGTs = map[string][]int{"1": {0, 1}}
			}
			nh := r.Range(2, 3)
			for k := r.Intn(3); k > 0; k-- {
				p.Faults = append(p.Faults, Fault{Kind: "accept", Arg: iscsiPort, N: r.Intn(12), Count: r.Pick(1, 1, 5), Errno: []string{"EMFILE", "ENFILE"}[r.Intn(2)]})
			}
			for k := r.Range(2, 6); k > 0; k-- {
				a := Actor{Kind: "ini", Target: tgt0, Host: hs[r.Intn(nh)], Depth: r.Pick(1, 4), Keys: genKeys(r), SN0: uint32(r.Uint64()), Start: int64(r.Intn(3000000))}
				if k <= 2 {
					a.Host = hs[k-1]
				}
				a.Portal = portalFor(a.Host)
				for c := r.Range(2, 8); c > 0; c-- {
					pause := func() int64 { return int64(r.Pick(0, 10000, 300000, 2000000, 20000000)) }
					switch x := r.Intn(12); {
					case x < 7:
						a.Steps = append(a.Steps, Step{Op: "hlogin", V: r.Intn(3)})
						for n := r.Intn(5); n > 0; n-- {
							s := rwStep(r, 0, p.Setup.Storages[0].Blocks, 8, 8)
							s.Async = r.P(1, 2)
							if r.P(1, 3) {
								s.Gap = pause()
							}
							a.Steps = append(a.Steps, s)
						}
						if r.P(1, 2) {
							a.Steps = append(a.Steps, Step{Op: "sleep", Arg: pause()})
						}
						if c > 1 || r.P(1, 2) {
							a.Steps = append(a.Steps, Step{Op: []string{"close", "rst", "halfclose", "logout"}[r.Intn(4)], I: r.P(1, 2)})
						}
					case x < 8:
						a.Steps = append(a.Steps, Step{Op: "hdisc", V: r.Intn(6), Arg: pause()})
					case x < 10:
						a.Steps = append(a.Steps, Step{Op: "hpart", V: r.Intn(16), Arg: pause()})
					default:
						a.Steps = append(a.Steps, Step{Op: "hidle", V: r.Intn(2), Arg: pause()})
					}
					if r.P(1, 3) {
						a.Steps = append(a.Steps, Step{Op: "sleep", Arg: int64(r.Pick(1000000, 10000000, 1000000000, 6000000000))})
					}
				}
				p.Actors = append(p.Actors, a)
			}
		}})
}
