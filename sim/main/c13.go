//go:build go1.25

package main

import (
	"fmt"

	"github.com/gostor/gotgt/zsim/rt"
)

// listen reads what comes on a connection whose login goes no further.
func (i *Ini) listen(s *Sess) {
	tm := i.w.S.After(5e9, func() { s.c.Abort() })
	defer tm.Stop()
	for {
		p, err := readPDU(s.c)
		if err != nil {
			return
		}
		switch {
		case p.Op() == opReject, p.Op() == opLoginRsp:
		case s.unserved(p):
		default:
			s.bad("early", "%s on a connection whose login is not complete", p.Name())
		}
	}
}

// earlyPDU renders a request that must not be served yet, or not there.
func (s *Sess) earlyPDU(r *rt.RNG, itt uint32) (*PDU, string) {
	i, w := s.i, s.w
	p := &PDU{}
	lun := 0
	t := i.t
	if t == nil || r.P(1, 4) {
		t = &w.P.Setup.Targets[r.Intn(len(w.P.Setup.Targets))]
	}
	luns := lunsOf(t)
	lun = luns[r.Intn(len(luns))]
	what := ""
	switch k := r.Intn(12); {
	case k < 7:
		old := i.t
		i.t = t
		bl := w.P.storage(t, lun).Blocks
		st := Step{Op: []string{"write", "write", "wverify", "wsame", "read", "unmap", "reserve", "sync", "orwrite", "prout"}[r.Intn(10)], LUN: lun, LBA: uint64(r.Intn(int(bl))), N: 1, V: r.Pick(10, 16), Imm: -1, Want: wantAny}
		switch st.Op {
		case "wverify", "wsame":
			st.V = r.Pick(10, 16)
		case "orwrite":
			st.V = 16
		case "prout":
			st.V, st.Arg = 0, int64(r.Uint64()>>1)|1
		}
		var c *Cmd
		if st.Op == "prout" { // REGISTER
			c = &Cmd{kind: "prout", i: i, lun: lun, wr: true, edtl: 24, out: make([]byte, 24), immN: -1, cdb: make([]byte, 16), what: "PR OUT register", status: -2}
			c.cdb[0] = 0x5f
			c.cdb[8] = 24
			put32(c.out[8:], uint32(st.Arg))
			put32(c.out[12:], uint32(st.Arg>>32))
		} else {
			c = i.build(&st)
		}
		i.t = old
		c.s = s
		c.itt = itt
		c.sn = s.cmdSN
		c.imm = r.P(1, 3)
		p = s.scsiPDU(c)
		c.noAns = true
		c.inv, c.invT = w.tick(), w.S.Now()
		w.register(c)
		if c.op > 0 {
			w.never[c.op] = c
		}
		what = c.what
	case k < 9:
		p.H[0] = 0x02
		fn := byte(r.Pick(1, 2, 3, 5, 5, 6, 7, 8))
		p.H[1] = 0x80 | fn
		l := lunBytes(lun)
		copy(p.H[8:], l[:])
		put32(p.H[20:], uint32(r.Pick(0, int(noTag), int(itt)-1)))
		put32(p.H[24:], s.cmdSN)
		if r.P(1, 2) {
			p.H[0] |= 0x40
		}
		what = fmt.Sprintf("task management function %d", fn)
		// another session's task
		for _, o := range w.inis {
			if o.s != nil && !o.s.gone && r.P(1, 2) {
				for _, x := range sortedKeys32(o.s.out) {
					put32(p.H[20:], x)
				}
			}
		}
	default:
		p.H[0] = opDataOut
		p.H[1] = 0x80
		l := lunBytes(lun)
		copy(p.H[8:], l[:])
		ttt := uint32(r.Pick(0, 1, int(itt)))
		// data for a transfer of another session
		for _, o := range w.inis {
			if o.s != nil && !o.s.gone && r.P(1, 2) {
				for _, x := range sortedKeys32(o.s.out) {
					if c := o.s.out[x]; c.wr {
						itt, ttt = x, x
					}
				}
			}
		}
		put32(p.H[20:], ttt)
		c := &Cmd{kind: "write", i: i, s: s, what: "a data PDU that nobody asked for", noAns: true, itt: itt, sn: s.cmdSN}
		w.register(c)
		w.newOp(c)
		w.never[c.op] = c
		c.inv, c.invT = w.tick(), w.S.Now()
		p.Data = make([]byte, r.Pick(512, 512, 1024, 4096))
		for k := 0; k+512 <= len(p.Data); k += 512 {
			fillBlock(p.Data[k:k+512], wrID(c.op, k/512))
		}
		what = "a data PDU"
	}
	put32(p.H[16:], itt)
	put32(p.H[28:], s.statSN+1)
	if s.early == nil {
		s.early = map[uint32]string{}
	}
	s.early[itt] = what
	w.cover("fault:early_request")
	return p, what
}

func (i *Ini) accessStep(st *Step) bool {
	w := i.w
	r := rt.NewRNG(uint64(st.Arg))
	switch st.Op {
	case "early":
		q := i.loginDefaults()
		q.isid ^= uint64(1+r.Intn(1<<20)) << 8
		q.stage = []string{"", "secop", "secff", "split", "secsplit", "cbit"}[r.Intn(6)]
		q.disc = r.P(1, 6)
		q.sn0 = uint32(r.Uint64())
		at := 1 + r.Intn(len(q.script()))
		n := 1 + r.Intn(3)
		q.inject = func(s *Sess, reqs int) {
			if reqs != at {
				return
			}
			for k := 0; k < n; k++ {
				itt := s.newITT()
				if r.P(1, 4) && k == 0 && reqs > 1 {
					itt = s.itt - 1
				}
				p, what := s.earlyPDU(r, itt)
				_ = what
				if _, err := s.c.Write(p.Bytes()); err != nil {
					return
				}
			}
		}
		if r.P(1, 2) {
			q.stop, q.part, q.how = at, 0, "listen"
		}
		was := i.lostOK
		i.lostOK = true
		res := i.login(q)
		i.lostOK = was
		if res.hang && !w.down && !w.S.Capped {
			w.cover("early_left_open")
		}
		if res.ok {
			w.cover("early_ignored")
			res.s.expect = true
			if !q.disc && i.t != nil {
				i.lostOK = true
				old := i.s
				i.s = res.s
				i.step(&Step{Op: "read", LUN: lunsOf(i.t)[0], N: 1, V: 10, Want: wantAny})
				i.s = old
				i.lostOK = was
			}
			res.s.closing = true
			res.s.end("done")
		}
	case "discio":
		q := i.loginDefaults()
		q.disc = true
		q.isid ^= uint64(1+r.Intn(1<<20)) << 8
		res := i.login(q)
		if !res.ok {
			if !i.lenientIni() {
				w.fail("login", "%s: a discovery login failed: %v", i.a.Name, res)
			}
			return true
		}
		s := res.s
		s.expect = true
		for n := r.Range(1, 4); n > 0 && !s.gone; n-- {
			itt := s.newITT()
			p, _ := s.earlyPDU(r, itt)
			if p.H[0]&0x40 == 0 && p.H[0]&0x3f != opDataOut {
				s.cmdSN++
				s.wireSN = s.cmdSN
			}
			s.enqueue(&outPDU{p: p})
			if r.P(1, 3) {
				sleep(int64(r.Intn(1000000)))
			}
		}
		for t := w.S.Now() + int64(r.Pick(1e6, 1e9)); !s.gone && w.S.Now() < t && !w.S.Deadlock; {
			s.wl.WaitFor("peer", t-w.S.Now())
		}
		if s.gone {
			w.cover("discovery_closed")
		}
		s.closing = true
		s.end("done")
	case "refuse":
		q := i.loginDefaults()
		q.isid ^= uint64(1+r.Intn(1<<20)) << 8
		q.stage = []string{"", "secop", "secff", "split", "secsplit", "cbit"}[r.Intn(6)]
		what := ""
		switch st.V {
		case 0:
			n := q.target
			q.target = []string{n + "x", n[:len(n)-1], n + " ", "", "iqn.2020-01.org.sim", n + "\x01", "*", n + ":lun0"}[r.Intn(8)]
			if q.target == i.t.Name {
				return true
			}
			for _, t := range w.P.Setup.Targets {
				if t.Name == q.target {
					return true
				}
			}
			what = fmt.Sprintf("the unknown target %q", q.target)
		case 1:
			// an address that the target has not
			t := &w.P.Setup.Targets[r.Intn(len(w.P.Setup.Targets))]
			q.target = t.Name
			q.portal = []string{"10.0.0.1", "10.0.0.9", "10.0.0.77", "10.0.0.90"}[r.Intn(4)]
			q.group = w.P.groupOf(t, q.portal)
			if w.serves(t, q.portal) {
				return true
			}
			what = fmt.Sprintf("%s at %s, which is not an address of it", t.Name, q.portal)
		case 2:
			q.auth = []string{"CHAP", "SRP", "KRB5,CHAP", "CHAP,SRP", "none", "Non", "NoneX", ""}[r.Intn(7)]
			q.stage = []string{"secop", "secff", "secsplit"}[r.Intn(3)]
			q.disc = r.P(1, 3)
			what = "authentication by " + q.auth
		}
		was := i.lostOK
		i.lostOK = true
		res := i.login(q)
		i.lostOK = was
		w.cover("logins_to_be_refused")
		if res.ok {
			w.fail("access", "%s: a login for %s is accepted", i.a.Name, what)
			res.s.closing = true
			res.s.end("not wanted")
		} else if res.hang && !w.down && !w.S.Capped {
			w.fail("hang", "%s: a login for %s is neither answered nor refused", i.a.Name, what)
		}
	case "nego": // a new session with other offers
		if i.s != nil && !i.s.gone {
			i.logout(st.V&1 != 0)
		}
		i.s = nil
		q := i.loginDefaults()
		q.keys = st.Keys
		q.stage = st.S
		q.sn0 = uint32(st.Arg)
		res := i.login(q)
		if !res.ok {
			ill := false
			for _, x := range q.keys {
				ill = ill || !legalOffer(x[0], x[1])
				ill = ill || negoRules[x[0]] == "list" && !contains(x[1], "None")
			}
			if ill {
				w.cover("illegal_offer_refused")
				return true
			}
			if !i.lenientIni() {
				w.fail("login", "%s: a login offering %v fails: %v", i.a.Name, q.keys, res)
			}
			return true
		}
		i.s = res.s
	default:
		return false
	}
	return true
}

func contains(list, v string) bool {
	for _, x := range splitComma(list) {
		if x == v {
			return true
		}
	}
	return false
}

// serves tells whether a target is configured at an address.
func (w *World) serves(t *Target, ip string) bool {
	for _, ids := range t.TPGTs {
		for _, id := range ids {
			if w.P.Setup.Portals[id] == fmt.Sprintf("%s:%d", ip, iscsiPort) {
				return true
			}
		}
	}
	return false
}

// genOffers draws keys to offer, legal ones and some that are not.
func genOffers(r *rt.RNG, illegal bool) (k [][2]string) {
	num := func(lo, hi int) string {
		n := 0
		switch r.Intn(4) {
		case 0:
			n = lo + r.Intn(3)
		case 1:
			n = hi - r.Intn(3)
		case 2:
			n = lo + r.Intn(min(hi-lo+1, 100000))
		default:
			n = min(hi, max(lo, 1<<uint(r.Intn(25))+r.Range(-1, 1)))
		}
		n = min(hi, max(lo, n))
		if illegal && r.P(1, 12) {
			return []string{"", "x", "-1", "99999999999999999999", fmt.Sprint(hi + 1), fmt.Sprint(lo - 1), "Maybe", "1 ", "Yes"}[r.Intn(9)]
		}
		if r.P(1, 6) {
			return fmt.Sprintf([]string{"0x%x", "0x%X", "0X%x", "0x0%x"}[r.Intn(4)], n)
		}
		return fmt.Sprint(n)
	}
	yn := func() string {
		if illegal && r.P(1, 12) {
			return []string{"", "1", "Maybe", "Yess"}[r.Intn(4)]
		}
		return []string{"Yes", "No"}[r.Intn(2)]
	}
	dig := func() string {
		if illegal && r.P(1, 12) {
			return []string{"CRC32C", "X-foo", "CRC32C,X-foo"}[r.Intn(3)]
		}
		return []string{"None", "CRC32C,None", "None,CRC32C", "X-foo,None", "CRC32C,X-foo,None"}[r.Intn(5)]
	}
	pool := []func() [2]string{
		func() [2]string { return [2]string{"HeaderDigest", dig()} },
		func() [2]string { return [2]string{"DataDigest", dig()} },
		func() [2]string { return [2]string{"MaxRecvDataSegmentLength", num(512, 1<<24-1)} },
		func() [2]string { return [2]string{"MaxBurstLength", num(512, 1<<24-1)} },
		func() [2]string { return [2]string{"FirstBurstLength", num(512, 1<<24-1)} },
		func() [2]string { return [2]string{"ImmediateData", yn()} },
		func() [2]string { return [2]string{"InitialR2T", yn()} },
		func() [2]string { return [2]string{"MaxOutstandingR2T", num(1, 65535)} },
		func() [2]string { return [2]string{"MaxConnections", num(1, 65535)} },
		func() [2]string { return [2]string{"DataPDUInOrder", yn()} },
		func() [2]string { return [2]string{"DataSequenceInOrder", yn()} },
		func() [2]string { return [2]string{"ErrorRecoveryLevel", num(0, 2)} },
		func() [2]string { return [2]string{"DefaultTime2Wait", num(0, 3600)} },
		func() [2]string { return [2]string{"DefaultTime2Retain", num(0, 3600)} },
		func() [2]string { return [2]string{"IFMarker", "No"} },
		func() [2]string { return [2]string{"OFMarker", "No"} },
		func() [2]string { return [2]string{"InitiatorAlias", "somebody"} },
		func() [2]string { return [2]string{"X-org.sim.thing", "17"} },
		func() [2]string { return [2]string{"X-what", "None"} },
		// names the daemon uses for itself: no keys of the protocol
		func() [2]string { return [2]string{"MaxXmitDataSegmentLength", num(512, 1<<24-1)} },
		func() [2]string { return [2]string{"MaxQueueCmd", num(1, 512)} },
	}
	for k := len(pool) - 1; k > 0; k-- {
		j := r.Intn(k + 1)
		pool[k], pool[j] = pool[j], pool[k]
	}
	for n := r.Intn(len(pool) + 1); n > 0; n-- {
		k = append(k, pool[n-1]())
	}
	return
}

func init() {
	addProp(&Prop{id: "C13", tags: []string{"early", "nego", "access", "never", "lin", "din", "dout", "login", "status", "hang", "connlost", "answer", "statsn", "window", "resv"},
		run: func(w *World) {
			w.stepHook = func(i *Ini, st *Step) bool { return i.accessStep(st) }
			runStandard(w)
		},
		rule: "1 to 3 initiators log in again and again with random offers of every key, legal values at and between the bounds, some illegal ones, in every arrangement of stages, and move data under what was agreed; meanwhile others put SCSI commands, task management and data PDUs (some naming transfers of other sessions) before, between and behind the requests of their login and into discovery sessions, and ask for targets, addresses and authentication there are none of. Whatever comes early must not be answered as served, nor show on the medium or to others.",
		gen: func(r *rt.RNG, p *Plan) {
			spreadTargets(r, p, r.Range(1, 3), func(k int) Storage {
				return Storage{Blocks: uint64(r.Range(32, 200)), BShift: genShift(r), Thin: r.P(1, 2)}
			})
			p.Setup.Portals = []string{"10.0.0.1:3260", "10.0.0.9:3260", "10.0.0.90:3260"}
			for k := range p.Setup.Targets {
				t := &p.Setup.Targets[k]
				t.TPGTs = [](map[string][]int){{"1": {0}}, {"1": {0, 1}}, {"1": {1}}, {"1": {0}, "2": {1}}, {"7": {1}, "3": {2}}, {"65535": {2}}}[r.Intn(6)]
			}
			portal := func(t *Target) string {
				var ids []int
				for _, g := range sortedStr(t.TPGTs) {
					ids = append(ids, t.TPGTs[g]...)
				}
				return []string{"10.0.0.1", "10.0.0.9", "10.0.0.90"}[ids[r.Intn(len(ids))]]
			}
			for n := r.Range(1, 3); n > 0; n-- {
				t := &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
				a := Actor{Kind: "ini", Target: t.Name, Portal: portal(t), Depth: r.Pick(1, 4, 8), Keys: genOffers(r, false), SN0: uint32(r.Uint64())}
				luns := lunsOf(t)
				for c := r.Range(1, 5); c > 0; c-- {
					a.Steps = append(a.Steps, Step{Op: "nego", V: r.Intn(2), Keys: genOffers(r, r.P(1, 4)), S: []string{"", "secop", "secff", "split", "secsplit", "cbit"}[r.Intn(6)], Arg: int64(r.Uint64() >> 1)})
					for m := r.Range(1, 6); m > 0; m-- {
						lun := luns[r.Intn(len(luns))]
						s := rwStep(r, lun, p.storage(t, lun).Blocks, 200, r.Pick(4, 40, 150))
						s.Async = r.P(1, 2)
						a.Steps = append(a.Steps, s)
						if r.P(1, 8) {
							a.Steps = append(a.Steps, Step{Op: "nop", N: uint32(r.Pick(0, 5, 600, 9000))})
						}
					}
				}
				p.Actors = append(p.Actors, a)
			}
			for n := r.Range(1, 3); n > 0; n-- {
				t := &p.Setup.Targets[r.Intn(len(p.Setup.Targets))]
				a := Actor{Kind: "ini", Target: t.Name, Portal: portal(t), Depth: 4, Keys: genOffers(r, false), SN0: uint32(r.Uint64())}
				for m := r.Range(2, 8); m > 0; m-- {
					s := Step{Op: []string{"early", "early", "early", "discio", "refuse"}[r.Intn(5)], V: r.Intn(3), Arg: int64(r.Uint64() >> 1)}
					if r.P(1, 3) {
						s.Gap = int64(r.Intn(1000000))
					}
					a.Steps = append(a.Steps, s)
				}
				p.Actors = append(p.Actors, a)
			}
		}})
}
