//go:build go1.25

package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
	"github.com/gostor/gotgt/zsim/rt"
)

// mapping is which device every LUN of a target shows.
type mapping [8]uint16

// mgmt knows what the management calls did and what the initiators saw of it.
type mgmt struct {
	w      *World
	slots  map[string]map[int]int // target -> LUN -> slot
	ops    map[string][]*linOp[mapping]
	pool   []*linOp[uint64] // which devices there are
	tgt    map[string]*span
	tmpl   *LU
	landed map[int]map[*LU]bool // write -> where it went
	byPath map[string]*LU
	opens  []hit
}

func newMgmt(w *World) *mgmt {
	m := &mgmt{w: w, slots: map[string]map[int]int{}, ops: map[string][]*linOp[mapping]{}, tgt: map[string]*span{}, landed: map[int]map[*LU]bool{}, byPath: map[string]*LU{}}
	for j := range w.P.Setup.Targets {
		t := &w.P.Setup.Targets[j]
		if !t.Late {
			m.tgt[t.Name] = &span{0, 0}
		}
		m.slots[t.Name] = map[int]int{}
		for k, l := range t.Pool {
			m.slots[t.Name][l] = k
		}
	}
	m.tmpl = &LU{BS: 1 << w.P.Setup.Storages[0].BShift, hist: map[uint64][]mrec{}, taint: map[uint64]bool{}, zeroOK: map[uint64]bool{}, bits: map[uint64][]*linOp[bitState]{}}
	for _, s := range w.P.Setup.Storages {
		m.tmpl.Blocks = max(m.tmpl.Blocks, s.Blocks)
	}
	for _, lu := range w.LUs {
		m.byPath[lu.Path] = lu
	}
	w.D.OnWrite = func(path string, off int64, b []byte) {
		lu := m.byPath[path]
		if lu == nil {
			return
		}
		for o := (off + 511) / 512 * 512; o+16 <= off+int64(len(b)); o += 512 {
			id, ok := readSector(b[o-off:min(int64(len(b)), o-off+512)], int(o%int64(lu.BS))/512)
			if ok && id != 0 && id&initBit == 0 {
				op := idOp(id)
				if m.landed[op] == nil {
					m.landed[op] = map[*LU]bool{}
				}
				m.landed[op][lu] = true
			}
		}
	}
	w.luOfDyn = func(i *Ini, lun int) *LU {
		if _, ok := m.slots[i.t.Name][lun]; ok {
			return m.tmpl
		}
		return nil
	}
	w.onDone = m.seen
	w.onFault = func(h *hit) {
		if h.op.Kind == "open" {
			m.opens = append(m.opens, *h)
		}
	}
	return m
}

func (m *mgmt) initial(t *Target) (s mapping) {
	for l, k := range m.slots[t.Name] {
		if d, ok := t.LUNs[fmt.Sprint(l)]; ok {
			s[k] = uint16(d)
		}
	}
	return
}

// seen turns the outcome of a command into what it tells about the mapping.
func (m *mgmt) seen(c *Cmd) {
	w := m.w
	if c.cdb == nil || c.inv == 0 {
		return
	}
	c.want = wantAny
	slot, in := m.slots[c.i.t.Name][c.lun]
	var dev *LU
	if c.lu == m.tmpl {
		c.lu = nil
	}
	if l := m.landed[c.op]; c.op > 0 && len(l) > 0 {
		if len(l) > 1 {
			w.fail("map", "%s %s writes to %d devices", c.i.a.Name, c.what, len(l))
		}
		for d := range l {
			dev = d
		}
	}
	if !c.done || c.rsp != 0 {
		return
	}
	who := c.i.a.Name + " " + c.what
	note := func(what string, f func(mapping) bool) {
		m.ops[c.i.t.Name] = append(m.ops[c.i.t.Name], &linOp[mapping]{inv: c.inv, ret: c.ret, pure: true, what: who + " " + what, apply: func(s mapping) (mapping, bool) { return s, f(s) }})
	}
	at := func(s mapping) *LU {
		if !in {
			return nil
		}
		return w.byDev[uint64(s[slot])]
	}
	fits := func(lu *LU) bool {
		return lu != nil && c.lba+uint64(c.n) <= lu.Blocks && c.lba+uint64(c.n) >= c.lba
	}
	media := false
	switch c.kind {
	case "read", "write", "wverify", "verify", "wsame", "sync":
		media = true
	}
	switch {
	case c.kind == "rluns" && c.status == stGood:
		set, ok := lunList(c.in)
		if !ok {
			w.fail("map", "%s: malformed list of units %x", who, c.in)
			return
		}
		w.cover("unit_lists")
		note(fmt.Sprintf("lists %v", set), func(s mapping) bool {
			n := map[int]bool{0: true}
			for l, k := range m.slots[c.i.t.Name] {
				if s[k] != 0 {
					n[l] = true
				}
			}
			if len(n) != len(set) {
				return false
			}
			for _, l := range set {
				if !n[l] {
					return false
				}
			}
			return true
		})
	case c.kind == "rcap10" && c.status == stGood && len(c.in) >= 8, c.kind == "rcap16" && c.status == stGood && len(c.in) >= 32:
		n, bs := uint64(be32(c.in))+1, be32(c.in[4:])
		if c.kind == "rcap16" {
			n, bs = be64(c.in)+1, be32(c.in[8:])
		}
		note(fmt.Sprintf("shows %d blocks of %d bytes", n, bs), func(s mapping) bool {
			lu := at(s)
			return lu != nil && lu.Blocks == n && lu.BS == int(bs)
		})
		w.cover("capacities_seen")
	case c.status == stCheck && media && c.key == 5 && c.asc == 0x2100:
		note("is out of range", func(s mapping) bool {
			lu := at(s)
			return lu != nil && !fits(lu) || lu == nil && c.lun == 0
		})
	case c.kind == "rluns":
		w.fail("map", "%s ends in status 0x%02x, expected GOOD", who, c.status)
	case c.status == stCheck && c.key == 0xe && c.kind == "wverify":
		if dev == nil {
			w.fail("map", "%s reports MISCOMPARE but nothing was written", who)
			return
		}
		c.lu = dev
		note(fmt.Sprintf("reached device %d", dev.Dev), func(s mapping) bool { return at(s) == dev })
	case c.status == stCheck && (media || c.key == 5 || c.key == 2 && c.lun == 0):
		note("finds no unit", func(s mapping) bool { return at(s) == nil })
		w.cover("refused_unmapped")
		if dev != nil {
			w.fail("map", "%s is refused but writes to device %d", who, dev.Dev)
		}
	case c.status != stGood:
		w.fail("map", "%s ends in status 0x%02x sense %x/%04x", who, c.status, c.key, c.asc)
	case c.kind == "read" && c.n > 0:
		for k := 0; (k+1)*m.tmpl.BS <= c.inN; k++ {
			id, ok, torn := readBlock(c.in[k*m.tmpl.BS : (k+1)*m.tmpl.BS])
			var d *LU
			if ok && !torn && id&initBit != 0 {
				d = w.byDev[id&^initBit>>40]
			} else if ok && !torn && id != 0 {
				for x := range m.landed[idOp(id)] {
					d = x
				}
			}
			if d == nil {
				w.fail("map", "%s: block %d holds what no device holds", who, c.lba+uint64(k))
				return
			}
			if dev != nil && d != dev {
				w.fail("map", "%s returns blocks of device %d and of device %d", who, dev.Dev, d.Dev)
				return
			}
			dev = d
		}
		c.lu = dev
		note(fmt.Sprintf("shows device %d", dev.Dev), func(s mapping) bool { return at(s) == dev })
		w.cover("devices_read")
	case (c.kind == "write" || c.kind == "wverify" || c.kind == "wsame") && c.n > 0:
		if dev == nil {
			w.fail("map", "%s reports GOOD but nothing was written", who)
			return
		}
		c.lu = dev
		note(fmt.Sprintf("reached device %d", dev.Dev), func(s mapping) bool { return at(s) == dev })
		w.cover("devices_written")
	case media:
		note("finds a unit", func(s mapping) bool { return fits(at(s)) })
	case c.lun != 0:
		note("finds a unit", func(s mapping) bool { return at(s) != nil })
	}
}

func has(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// lunList reads the parameter data of REPORT LUNS.
func lunList(b []byte) (out []int, ok bool) {
	if len(b) < 8 {
		return nil, false
	}
	n := int(be32(b))
	if n%8 != 0 || len(b) != 8+n {
		return nil, false
	}
	for o := 8; o < len(b); o += 8 {
		l := int(b[o]&0x3f)<<8 | int(b[o+1])
		if k := b[o] >> 6; k > 1 || k == 0 && b[o] != 0 || be32(b[o+2:]) != 0 {
			return nil, false
		}
		out = append(out, l)
	}
	s := append([]int(nil), out...)
	sort.Ints(s)
	for k := 1; k < len(s); k++ {
		if s[k] == s[k-1] {
			return nil, false
		}
	}
	return out, true
}

// change enters a management call that alters a target's mapping.
func (m *mgmt) change(t *Target, lun int, dev uint16, s span, err error, what string) {
	if err != nil {
		return
	}
	k := m.slots[t.Name][lun]
	m.ops[t.Name] = append(m.ops[t.Name], &linOp[mapping]{inv: s.from, ret: s.to, what: what, apply: func(x mapping) (mapping, bool) {
		x[k] = dev
		return x, true
	}})
}

func (m *mgmt) step(i *Ini, st *Step) bool {
	w := m.w
	s := span{w.tick(), -1}
	var err error
	in := func(name string, f func()) bool {
		ok := w.inDaemon(name, f)
		s.to = w.tick()
		w.cover("mgmt_" + st.Op)
		return ok
	}
	bit := func() uint64 { return 1 << (st.Arg - 1000) }
	switch st.Op {
	case "map":
		t := w.targetOf(&Actor{Target: st.S})
		if t == nil || t.Name != st.S || !has(t.Pool, st.LUN) {
			return true
		}
		what := fmt.Sprintf("mapping device %d as LUN %d of %s", st.Arg, st.LUN, t.Name)
		if !in(what, func() {
			err = scsi.AddLUNMapping(scsi.LUNMapping{TargetName: t.Name, LUN: uint64(st.LUN), DeviceID: uint64(st.Arg)})
		}) {
			return true
		}
		m.change(t, st.LUN, uint16(st.Arg), s, err, what)
		b, e := bit(), err
		m.pool = append(m.pool, &linOp[uint64]{inv: s.from, ret: s.to, pure: true, what: fmt.Sprintf("%s (%v)", what, e), apply: func(x uint64) (uint64, bool) { return x, x&b != 0 == (e == nil) }})
	case "unmap":
		if i.a.Kind != "admin" {
			return false
		}
		t := w.targetOf(&Actor{Target: st.S})
		if t == nil || t.Name != st.S || !has(t.Pool, st.LUN) {
			return true
		}
		what := fmt.Sprintf("unmapping LUN %d of %s", st.LUN, t.Name)
		if in(what, func() {
			scsi.DelLUNMapping(scsi.LUNMapping{TargetName: t.Name, LUN: uint64(st.LUN), DeviceID: uint64(st.Arg)})
		}) {
			m.change(t, st.LUN, 0, s, nil, what)
		}
	case "reread":
		in("rereading the mappings", func() { w.lib.svc.RereadTargetLUNMap() })
	case "addstore":
		var sto *Storage
		for k := range w.P.Setup.Storages {
			if int64(w.P.Setup.Storages[k].Dev) == st.Arg {
				sto = &w.P.Setup.Storages[k]
			}
		}
		if sto == nil {
			return true
		}
		n := len(m.opens)
		if !in(fmt.Sprintf("adding device %d", st.Arg), func() {
			err = scsi.AddBackendStorage(config.BackendStorage{DeviceID: sto.Dev, Path: "file:" + devPath(sto.Dev), Online: true, BlockShift: sto.BShift, ThinProvisioning: sto.Thin})
		}) {
			return true
		}
		failed := false
		for _, h := range m.opens[n:] {
			failed = failed || h.op.Path == devPath(sto.Dev)
		}
		b, e := bit(), err
		m.pool = append(m.pool, &linOp[uint64]{inv: s.from, ret: s.to, what: fmt.Sprintf("adding device %d (%v)", st.Arg, e), apply: func(x uint64) (uint64, bool) {
			if e != nil {
				return x, x&b != 0 || failed
			}
			return x | b, x&b == 0
		}})
	case "delstore":
		if in(fmt.Sprintf("removing device %d", st.Arg), func() { scsi.DelBackendStorage(uint64(st.Arg)) }) {
			b := bit()
			m.pool = append(m.pool, &linOp[uint64]{inv: s.from, ret: s.to, what: fmt.Sprintf("removing device %d", st.Arg), apply: func(x uint64) (uint64, bool) { return x &^ b, true }})
		}
	case "newtarget":
		t := w.targetOf(&Actor{Target: st.S})
		if t == nil || !t.Late {
			return true
		}
		x := &span{s.from, -1}
		m.tgt[t.Name] = x
		if in("creating a target", func() {
			c := config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{}}
			w.lib.conf.ISCSITargets[t.Name] = c
			err = w.lib.drv.NewTarget(t.Name, w.lib.conf)
		}) {
			x.to = s.to
			if err != nil {
				w.fail("mgmt", "creating target %s fails: %v", t.Name, err)
			}
		}
	case "awaittgt":
		for t := w.S.Now() + 60e9; w.S.Now() < t && !w.S.Deadlock; sleep(1e6) {
			if x := m.tgt[i.t.Name]; x != nil && x.to > 0 {
				return true
			}
		}
		i.stop = true
	case "svclist":
		var l []api.SCSITarget
		if !in("listing the targets", func() {
			l, err = w.lib.svc.GetTargetList()
			for k := range l {
				for _, n := range l[k].ITNexus {
					_ = n.Tag
				}
			}
			_, e := json.Marshal(l)
			if e != nil {
				err = e
			}
		}) {
			return true
		}
		if err != nil {
			w.fail("mgmt", "listing the targets fails: %v", err)
		}
		var names []string
		for k := range l {
			names = append(names, l[k].Name)
			m.devices(&l[k], s)
		}
		m.names(names, s)
	case "listing":
		l := w.targetList(i.host)
		if l == nil {
			return true
		}
		s.to = w.tick()
		var names []string
		for k := range l {
			names = append(names, l[k].Name)
		}
		m.names(names, s)
	case "leave":
		m.leave(i, st)
	case "http":
		m.http(i, st)
	case "stats":
		in("reading the statistics", func() { w.lib.drv.Stats() })
	default:
		return false
	}
	return true
}

// devices holds a target's entry in the service's listing against the mapping.
func (m *mgmt) devices(t *api.SCSITarget, s span) {
	var x mapping
	for l, lu := range t.Devices {
		k, ok := m.slots[t.Name][int(l)]
		if !ok || lu == nil {
			m.w.fail("map", "the listing of %s shows LUN %d, which was never mapped", t.Name, l)
			return
		}
		x[k] = uint16(lu.UUID)
	}
	m.ops[t.Name] = append(m.ops[t.Name], &linOp[mapping]{inv: s.from, ret: s.to, pure: true, what: fmt.Sprintf("the listing of its units %v", x), apply: func(y mapping) (mapping, bool) { return y, x == y }})
}

// names holds a target list against the targets there were.
func (m *mgmt) names(l []string, s span) {
	seen := map[string]bool{}
	for _, n := range l {
		if seen[n] {
			m.w.fail("mgmt", "target %s is listed twice", n)
		}
		seen[n] = true
		if x := m.tgt[n]; x == nil || x.from >= s.to {
			m.w.fail("mgmt", "target %q is listed, which does not exist", n)
		}
	}
	for _, n := range sortedStr(m.tgt) {
		if x := m.tgt[n]; x.to >= 0 && x.to < s.from && !seen[n] {
			m.w.fail("mgmt", "target %s is not listed", n)
		}
	}
	m.w.cover("target_lists_compared")
}

// leave: a session reserves a unit that is unmapped before the session ends;
// nobody holds it when it is back.
func (m *mgmt) leave(i *Ini, st *Step) {
	w := m.w
	r := rt.NewRNG(uint64(st.Arg))
	t := i.t
	dev := int64(1000 + r.Intn(len(w.P.Setup.Storages)))
	pick := func() int { return t.Pool[r.Intn(len(t.Pool))] }
	do := func(op string, lun int, dev int64) { m.step(i, &Step{Op: op, S: t.Name, LUN: lun, Arg: dev}) }
	l := pick()
	do("map", l, dev)
	i.step(&Step{Op: "reserve", LUN: l})
	if r.P(1, 3) {
		i.step(&Step{Op: "write", LUN: l, N: 1, V: 10, Imm: -1})
	}
	k := i.a.Kind
	i.a.Kind = "admin"
	for _, x := range t.Pool { // from everywhere
		if r.P(1, 3) {
			do("map", x, 1000+(dev-999)%int64(len(w.P.Setup.Storages)))
		} else {
			do("unmap", x, 0)
		}
	}
	if r.P(1, 4) {
		do("delstore", 0, dev)
		do("addstore", 0, dev)
	}
	i.a.Kind = k
	i.step(&Step{Op: []string{"logout", "close", "rst", "halfclose"}[r.Intn(4)]})
	sleep(2e9)
	l = pick()
	do("map", l, dev)
	n := len(w.inis)
	b := w.newIni(&Actor{Kind: "ini", Name: fmt.Sprintf("%s.b%d", i.name, n), Target: t.Name, Host: i.host, Depth: 1})
	b.step(&Step{Op: "write", LUN: l, N: 1, V: 10, Imm: -1})
	b.step(&Step{Op: "reserve", LUN: l})
	b.logout(false)
	sleep(2e9) // what it reserved is free once the session is taken down
	w.cover("reserved_units_taken_away")
}

// http sends what no client should, and less usual requests.
func (m *mgmt) http(i *Ini, st *Step) {
	w := m.w
	r := rt.NewRNG(uint64(st.Arg))
	if st.V == 0 {
		q := [][2]string{{"POST", "/target/create"}, {"POST", "/target/up"}, {"DELETE", "/target/x"}, {"GET", "/lu/1"}, {"POST", "/lu/create"}, {"DELETE", "/lu/9"}, {"GET", "/discovery/a"}, {"POST", "/discovery/create"},
			{"GET", "/v1.0/target/list"}, {"GET", "/nothing"}, {"PUT", "/target/list"}, {"GET", "/target/list?x=%zz"}, {"POST", "/target/list"}, {"HEAD", "/target/list"}, {"GET", "/v1.x/target/list"}, {"GET", "//target//list"}}[r.Intn(16)]
		body := []string{"", "{}", `{"name":"x"}`, "[", strings.Repeat("x", 5000)}[r.Intn(5)]
		if q[0] == "GET" || q[0] == "HEAD" {
			body = ""
		}
		code, _, err := w.httpCall(i.host, q[0], q[1], "application/json", body)
		if w.down || w.daemon.Dead || w.S.Deadlock || q[0] == "HEAD" {
			return
		}
		if err != nil || code < 200 || code >= 500 {
			w.fail("mgmt", "%s %s: status %d, %v", q[0], q[1], code, err)
		}
		w.cover("http_other")
		return
	}
	c, err := w.N.Dial(i.host, apiPort)
	if err != nil {
		return
	}
	w.cover("fault:http_abuse")
	c.Write([]byte([]string{"GET /target/list HTTP/1.1\r\nHost: a\r\n", "GET /target/list HTTP/1.1\r\nHost: a\r\n\r\n", "\x00\x01\x02\r\n\r\n", "POST /target/create HTTP/1.1\r\nHost: a\r\nContent-Length: 1000\r\n\r\nabc",
		"GET /target/list HTTP/1.0\r\n\r\n", "GET /target/list HTTP/9.9\r\n\r\n", "GET " + strings.Repeat("a", 9000) + " HTTP/1.1\r\n\r\n", "POST /lu/create HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"}[r.Intn(8)]))
	d := int64(r.Pick(0, 100000, 5000000, 2000000000))
	if r.P(1, 2) {
		w.S.After(d, func() { c.Abort() })
		return
	}
	sleep(min(d, 5000000))
	c.Close()
}

func (m *mgmt) check() {
	w := m.w
	// writes nobody got an answer for
	for _, c := range w.cmds {
		if c.done || c.inv == 0 || c.op == 0 || c.lu != nil {
			continue
		}
		inv, ret, _, none := c.span()
		for lu := range m.landed[c.op] {
			if none {
				break
			}
			delete(w.never, c.op)
			for k, id := range c.vals {
				w.rec(lu, c.lba+uint64(k), mrec{id: id, w: true, opt: true, inv: inv, ret: ret, who: c})
			}
			k := lu
			n := m.slots[c.i.t.Name][c.lun]
			m.ops[c.i.t.Name] = append(m.ops[c.i.t.Name], &linOp[mapping]{inv: inv, ret: w.tick(), pure: true, what: fmt.Sprintf("%s %s reached device %d", c.i.a.Name, c.what, lu.Dev),
				apply: func(s mapping) (mapping, bool) { return s, uint64(s[n]) == k.Dev }})
		}
	}
	for j := range w.P.Setup.Targets {
		t := &w.P.Setup.Targets[j]
		bad, n := linearize(m.initial(t), m.ops[t.Name])
		if n < 0 {
			w.cover("undecided")
		} else if bad != nil {
			w.fail("map", "%s: no order of the changes explains what was seen: %s [%d..%d]%s", t.Name, bad.what, bad.inv, bad.ret, m.around(t, bad))
		}
	}
	start := uint64(0)
	for _, s := range w.P.Setup.Storages {
		if !s.Late {
			start |= 1 << (s.Dev - 1000)
		}
	}
	bad, n := linearize(start, m.pool)
	if n >= 0 && bad != nil {
		w.fail("mgmt", "no order of the calls explains the result of %s [%d..%d]", bad.what, bad.inv, bad.ret)
	}
}

func (m *mgmt) around(t *Target, bad *linOp[mapping]) (out string) {
	if !verbose {
		return
	}
	l := append([]*linOp[mapping](nil), m.ops[t.Name]...)
	sort.SliceStable(l, func(a, b int) bool { return l[a].inv < l[b].inv })
	out = fmt.Sprintf("\n    at first %v", m.initial(t))
	for _, o := range l {
		out += fmt.Sprintf("\n    [%d..%d] %s", o.inv, o.ret, o.what)
	}
	return
}

func runManaged(w *World) {
	m := newMgmt(w)
	w.stepHook = m.step
	w.quiet = true
	if !w.boot() {
		w.fail("boot", "the daemon does not start: %v", w.x["booterr"])
		return
	}
	w.quiet = false
	for j := range w.P.Setup.Targets {
		if t := &w.P.Setup.Targets[j]; t.Late {
			w.inDaemon("mapping", func() {
				for _, l := range sortedStr(t.LUNs) {
					n := 0
					fmt.Sscan(l, &n)
					scsi.AddLUNMapping(scsi.LUNMapping{TargetName: t.Name, LUN: uint64(n), DeviceID: uint64(t.LUNs[l])})
				}
			})
		}
	}
	var fns []func()
	for k := range w.P.Actors {
		i := w.newIni(&w.P.Actors[k])
		fns = append(fns, i.run)
	}
	// what the history lacks is known when all is over
	w.x["beforeLin"] = m.check
	w.finish(fns)
}

func init() {
	addProp(&Prop{id: "C19", tags: []string{"map", "boot", "mgmt", "apipanic", "lin", "never", "otherfile", "status", "login", "hang", "connlost", "answer", "din", "statsn", "resid"}, run: runManaged,
		rule: "1 to 3 programs map, unmap and remap up to 8 devices on up to 8 LUNs of 1 to 3 targets, add and remove devices (some of which fail to open), create targets, reread mappings, list targets and read statistics by library calls and HTTP, while up to 4 initiators log in and out and read, write, verify and list units. What every command saw and every device got (each block carries who wrote it) is compared, over the whole run, with the orders of mapping changes the calls allow; a transfer may belong to one device only.",
		gen: func(r *rt.RNG, p *Plan) {
			lib := r.P(5, 6)
			sh := genShift(r)
			nt := r.Range(1, 3)
			nd := r.Range(nt, 8)
			for k := 0; k < nd; k++ {
				p.Setup.Storages = append(p.Setup.Storages, Storage{Dev: uint64(1000 + k), Blocks: uint64(16 + 7*k + r.Intn(6)), BShift: sh, Late: lib && k >= nt && r.P(1, 3)})
			}
			lunPool := []int{0, 1, 2, 3, 5, 7, 16, 63, 128, 255, 256, 300, 16383}
			for k := 0; k < nt; k++ {
				t := Target{Name: []string{tgt0, tgt1, "iqn.2020-01.org.sim:t2"}[k], TPGTs: map[string][]int{"1": {0}}, LUNs: map[string]int{}, Late: lib && k > 0 && r.P(1, 3)}
				for n := r.Range(1, 6); n > 0; n-- {
					t.Pool = append(t.Pool, lunPool[r.Intn(len(lunPool))])
				}
				if r.P(1, 2) {
					t.Pool = append(t.Pool, 0)
				}
				sort.Ints(t.Pool)
				u := t.Pool[:1]
				for _, l := range t.Pool[1:] {
					if l != u[len(u)-1] {
						u = append(u, l)
					}
				}
				t.Pool = u
				for n, l := range t.Pool {
					if d := r.Intn(nd); n == 0 || r.P(1, 2) {
						if p.Setup.Storages[d].Late {
							d = k
						}
						t.LUNs[fmt.Sprint(l)] = 1000 + d
					}
				}
				p.Setup.Targets = append(p.Setup.Targets, t)
			}
			if lib && nd > 1 && r.P(1, 12) {
				p.Kind = "leave"
				p.Setup.Mode = "lib"
				p.Setup.API = true
				t := &p.Setup.Targets[0]
				a := Actor{Kind: "ini", Target: t.Name, Depth: 1}
				for n := r.Range(1, 4); n > 0; n-- {
					a.Steps = append(a.Steps, Step{Op: "leave", Arg: int64(r.Uint64() >> 1)})
				}
				p.Actors = append(p.Actors, a)
				return
			}
			pause := func() int64 { return int64(r.Pick(0, 1000, 50000, 300000, 1000000)) }
			if lib {
				p.Setup.Mode = "lib"
				p.Setup.API = true
				p.Setup.Stats = r.P(1, 2)
				for n := r.Range(1, 3); n > 0; n-- {
					a := Actor{Kind: "admin", Name: fmt.Sprintf("admin%d", n), Host: "10.0.8.1"}
					if n == 1 {
						for k := range p.Setup.Targets {
							if p.Setup.Targets[k].Late {
								a.Steps = append(a.Steps, Step{Op: "newtarget", S: p.Setup.Targets[k].Name, Gap: pause()})
							}
						}
					}
					for c := r.Range(2, 30); c > 0; c-- {
						k := r.Intn(nt)
						t := &p.Setup.Targets[k]
						st := Step{S: t.Name, LUN: t.Pool[r.Intn(len(t.Pool))], Arg: int64(1000 + r.Intn(nd)), Gap: pause()}
						switch x := r.Intn(20); {
						case x < 7:
							st.Op = "map"
						case x < 11:
							st.Op = "unmap"
						case x < 12:
							st.Op = "reread"
						case x < 14:
							st.Op = "addstore"
						case x < 16:
							st.Op = "delstore"
						case x < 17:
							st.Op = "stats"
						default:
							st.Op = "svclist"
						}
						a.Steps = append(a.Steps, st)
					}
					p.Actors = append(p.Actors, a)
				}
				for n := r.Intn(3); n > 0; n-- {
					p.Faults = append(p.Faults, Fault{Kind: "disk", Op: "open", Path: devPath(uint64(1000 + r.Intn(nd))), N: r.Range(1, 3), Errno: []string{"EMFILE", "EIO", "EACCES"}[r.Intn(3)]})
				}
			}
			for n := r.Range(1, 2); n > 0; n-- {
				a := Actor{Kind: "admin", Name: fmt.Sprintf("http%d", n), Host: fmt.Sprintf("10.0.8.%d", 10+n)}
				for c := r.Range(1, 12); c > 0; c-- {
					st := Step{Op: "listing", Gap: pause()}
					if r.P(1, 3) {
						st = Step{Op: "http", V: r.Intn(3) / 2, Arg: int64(r.Uint64() >> 1), Gap: pause()}
					}
					a.Steps = append(a.Steps, st)
				}
				p.Actors = append(p.Actors, a)
			}
			for n := r.Range(1, 4); n > 0; n-- {
				t := &p.Setup.Targets[r.Intn(nt)]
				a := Actor{Kind: "ini", Target: t.Name, Depth: r.Pick(1, 4, 8, 16), Keys: genKeys(r), SN0: uint32(r.Uint64())}
				if t.Late {
					a.Steps = append(a.Steps, Step{Op: "awaittgt"})
				}
				for c := r.Range(4, 40); c > 0; c-- {
					lun := t.Pool[r.Intn(len(t.Pool))]
					var s Step
					switch x := r.Intn(20); {
					case x < 12:
						s = rwStep(r, lun, p.Setup.Storages[r.Intn(nd)].Blocks, 60, r.Pick(4, 16))
						s.ED = 0
						for s.Op == "orwrite" || s.Op == "unmap" || s.Op == "prefetch" || s.Op == "verify" {
							s.Op = "read"
						}
					case x < 15:
						s = Step{Op: "rluns"}
					case x < 17:
						s = Step{Op: []string{"rcap10", "rcap16"}[r.Intn(2)], LUN: lun}
					case x < 18:
						s = Step{Op: "tur", LUN: lun}
					case x < 19:
						s = Step{Op: []string{"logout", "close", "rst"}[r.Intn(3)]}
					default:
						s = Step{Op: "read", LUN: lunPool[r.Intn(len(lunPool))], N: 1, V: 10}
					}
					s.Async = r.P(2, 3)
					if r.P(1, 4) {
						s.Gap = pause()
					}
					a.Steps = append(a.Steps, s)
				}
				p.Actors = append(p.Actors, a)
			}
		}})
}
