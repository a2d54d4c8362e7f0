//go:build go1.25

package main

import (
	"fmt"
	"io"

	"github.com/gostor/gotgt/zsim/rt"
	"github.com/gostor/gotgt/zsim/simnet"
)

// Limits are what a session's two ends agreed on.
type Limits struct {
	MaxBurst, FirstBurst int
	TgtMRDSL, MyMRDSL    int
	ImmData, InitR2T     bool
	MaxR2T               int
}

// Ini is one initiator: an identity and the steps it performs.
type Ini struct {
	w    *World
	a    *Actor
	idx  int
	rng  *rt.RNG
	t    *Target
	name string
	isid uint64
	host string
	s    *Sess
	all  []*Cmd // by step
	sess int    // sessions so far
	lax  bool
	stop bool
	rc   *simnet.Conn // a connection without session
	// lostOK: the loss of the connection is no surprise right now
	lostOK bool
	limit  int64 // how long it waits for an answer (0: hangAfter)
}

func (i *Ini) patience() int64 {
	if i.limit > 0 {
		return i.limit
	}
	return hangAfter
}

// Sess is one connection with its session.
type Sess struct {
	i       *Ini
	w       *World
	n       int
	c       *simnet.Conn
	lim     Limits
	disc    bool
	tsih    uint16
	cid     uint16
	full    bool
	cmdSN   uint32 // next to assign
	wireSN  uint32 // next not yet on the wire
	expSeen uint32
	maxSeen uint32
	statSN  uint32 // last seen status number
	stOK    bool
	itt     uint32
	out     map[uint32]*Cmd
	main    []*outPDU
	flows   []*dflow
	held    []*outPDU
	gone    bool
	why     string
	expect  bool // its end is expected
	closing bool
	wl      rt.WaitList // progress seen by anybody waiting
	sl      rt.WaitList
	keys    map[string]string // answers
	decl    map[string]string
	offered [][2]string
	pings   int // unsolicited NOP-Ins answered
	inv     int64
	at      int64 // established at
	ended   int64
	rxBytes int64
	sentTo  int // commands written
	noRead  bool
	odd     bool // something was sent that may end it
	readers rt.WaitList
	// replacedAt: a login with the same identity was complete by then
	replacedAt int64
	leaving    bool // a logout was sent
	q          *loginReq
	// early has the tags of requests that must not be served
	early map[uint32]string
	// dead has the commands ended by task management
	dead  map[uint32]*Cmd
	reuse uint32 // the next tag
}

// unserved judges an answer to a request that must not be served.
func (s *Sess) unserved(p *PDU) bool {
	what, ok := s.early[p.ITT()]
	if !ok {
		return false
	}
	switch op := p.Op(); {
	case op == opSCSIRsp && (p.H[2] != 0 || p.H[3] != stGood), op == opTMFRsp && p.H[2] != 0:
		s.w.cover("early_refused")
	default:
		s.bad("early", "%s answers %s, which may not be served", p.Name(), what)
	}
	return true
}

type outPDU struct {
	p    *PDU
	c    *Cmd
	last bool
	hold int
	raw  []byte
	dup  bool
}

type dflow struct {
	c    *Cmd
	q    []*PDU
	wait int64 // not before
}

// Cmd is one request and everything known about its execution.
type Cmd struct {
	id     int
	s      *Sess
	i      *Ini
	kind   string
	what   string
	st     *Step
	itt    uint32
	sn     uint32
	imm    bool
	lun    int
	lu     *LU
	lba    uint64
	n      uint32
	cdb    []byte
	edtl   int
	rd, wr bool
	attr   byte
	immN   int
	pduN   int
	hold   int
	slow   int64
	keep   int // Data-Out bytes to send before stalling (-1: all)
	out    []byte
	in     []byte
	inN    int
	dataSN uint32
	burst  int
	openB  bool
	r2tN   uint32
	ttt    uint32 // of the last R2T
	r2tOff int
	r2tOut int
	sent   int // Data-Out bytes on the wire
	parked []*PDU
	op     int // id of the write
	bits   bool
	bit    int
	vals   []uint64
	inv    int64
	ret    int64
	invT   int64
	retT   int64
	done   bool
	lost   bool
	status int
	rsp    int
	key    int
	asc    int
	sense  []byte
	resid  int
	residU bool
	residO bool
	rdata  []byte // response data segment (text, nop, login)
	respSN uint32
	want   int
	named  *Cmd // by task management
	reqs   []*Cmd
	abort  *Cmd
	retag  bool // its tag is used again
	snap   map[string]any
	noAns  bool // must never be answered
	maybe  bool // a GOOD status does not tell what was done
	judged bool
	fua    bool
	part   bool  // the last block is written in part
	bound  int64 // no effect after this
	ranges [][2]uint64
	tlen   int64 // bytes the CDB transfers; -1 unknown
}

// what a command should come back with
const (
	wantGood = iota
	wantVerify
	wantAny
	wantRange // LBA OUT OF RANGE
	wantCheck // some CHECK CONDITION
	wantConflict
	wantGoodOrConflict
)

const (
	stGood     = 0x00
	stCheck    = 0x02
	stBusy     = 0x08
	stConflict = 0x18
	stAborted  = 0x40
)

func (c *Cmd) String() string {
	r := "no answer"
	switch {
	case c.inv == 0:
		r = "never sent"
	case c.done && c.kind == "tmf":
		r = fmt.Sprintf("response %d", c.rsp)
	case c.done:
		r = fmt.Sprintf("status 0x%02x", c.status)
		if c.status == stCheck {
			r += fmt.Sprintf(" key %x asc %04x", c.key, c.asc)
		}
		if c.rsp != 0 {
			r = fmt.Sprintf("response %d", c.rsp)
		}
		if c.residU {
			r += fmt.Sprintf(" under %d", c.resid)
		}
		if c.residO {
			r += fmt.Sprintf(" over %d", c.resid)
		}
	case c.lost:
		r = "connection lost"
	}
	n := ""
	if c.s != nil {
		n = fmt.Sprintf("%s#%d itt %x sn %x", c.i.a.Name, c.s.n, c.itt, c.sn)
	}
	return fmt.Sprintf("[%d..%d] %s %s -> %s", c.inv, c.ret, n, c.what, r)
}

func (w *World) newIni(a *Actor) *Ini {
	i := &Ini{w: w, a: a, idx: len(w.inis), t: w.targetOf(a), name: a.Name, isid: a.ISID, host: a.Host, lax: a.Lax}
	i.rng = rt.NewRNG(rt.Hash64(w.P.Seed, fmt.Sprintf("ini%d", i.idx)))
	if i.name == "" {
		i.name = fmt.Sprintf("iqn.2020-01.org.sim:ini%d", i.idx)
		a.Name = i.name
	}
	if i.host == "" {
		i.host = fmt.Sprintf("10.0.1.%d", i.idx+1)
	}
	if i.isid == 0 {
		i.isid = 0x80_000000_0000 | uint64(i.idx+1)
	}
	w.inis = append(w.inis, i)
	return i
}

// ---- sending ----

func (s *Sess) write(b []byte) bool {
	_, err := s.c.Write(b)
	if err != nil {
		s.end("write: " + err.Error())
		return false
	}
	return true
}

// sender puts requests on the wire, interleaving the transfers of different
// commands at will.
func (s *Sess) sender() {
	for !s.gone {
		now := s.w.S.Now()
		var opts []int
		if len(s.main) > 0 {
			opts = append(opts, -1)
		}
		next := int64(0)
		for k, f := range s.flows {
			if f.wait > now {
				if next == 0 || f.wait < next {
					next = f.wait
				}
				continue
			}
			opts = append(opts, k)
		}
		if len(opts) == 0 {
			d := int64(0)
			if next > 0 {
				d = next - now
			}
			if len(s.held) > 0 && (d == 0 || d > 1500000) {
				d = 1500000
			}
			if d == 0 {
				s.sl.Wait("nothing to send")
			} else if s.sl.WaitFor("pause", d) && len(s.held) > 0 && len(s.main) == 0 {
				o := s.held[0]
				s.held = s.held[1:]
				o.hold = 0
				s.put(o)
			}
			continue
		}
		k := opts[0]
		if len(opts) > 1 {
			k = opts[s.i.rng.Intn(len(opts))]
		}
		if k < 0 {
			o := s.main[0]
			s.main = s.main[1:]
			if o.hold > 0 {
				s.held = append(s.held, o)
				continue
			}
			if !s.put(o) {
				return
			}
			for j := 0; j < len(s.held); {
				h := s.held[j]
				if h.hold--; h.hold <= 0 {
					s.held = append(s.held[:j], s.held[j+1:]...)
					if !s.put(h) {
						return
					}
					continue
				}
				j++
			}
			continue
		}
		f := s.flows[k]
		p := f.q[0]
		f.q = f.q[1:]
		if len(f.q) == 0 {
			s.flows = append(s.flows[:k], s.flows[k+1:]...)
		} else if f.c.slow > 0 {
			f.wait = now + f.c.slow
		}
		if p.Final() {
			f.c.r2tOut--
		}
		f.c.sent += len(p.Data)
		if !s.write(p.Bytes()) {
			return
		}
	}
}

func (s *Sess) put(o *outPDU) bool {
	if o.c != nil && o.c.inv == 0 {
		o.c.inv = s.w.tick()
		o.c.invT = s.w.S.Now()
		if !o.c.imm && !o.c.noAns && snLess(s.wireSN, o.c.sn+1) {
			s.wireSN = o.c.sn + 1
		}
		s.sentTo++
	}
	if o.raw != nil {
		return s.write(o.raw)
	}
	return s.write(o.p.Bytes())
}

func (s *Sess) enqueue(o *outPDU) {
	s.main = append(s.main, o)
	s.sl.WakeAll()
}

func (s *Sess) newITT() uint32 {
	if t := s.reuse; t != 0 {
		s.reuse = 0
		return t
	}
	s.itt++
	if s.itt == noTag {
		s.itt = 1
	}
	return s.itt
}

// assign gives the command its tag and sequence number, waiting for room in
// the window.
func (s *Sess) assign(c *Cmd) bool {
	if !c.imm {
		for t := s.w.S.Now() + s.i.patience(); snLess(s.maxSeen, s.cmdSN); {
			if s.gone {
				return false
			}
			if s.wl.WaitFor("command window", t-s.w.S.Now()) {
				if !s.lenient() {
					s.w.fail("window", "%s: the command window stays closed: CmdSN %x, MaxCmdSN %x, with %d commands outstanding", s.i.a.Name, s.cmdSN, s.maxSeen, len(s.out))
				}
				s.end("window")
				return false
			}
		}
	}
	if s.gone {
		return false
	}
	c.s, c.i = s, s.i
	c.itt = s.newITT()
	c.sn = s.cmdSN
	if !c.imm {
		s.cmdSN++
	}
	s.out[c.itt] = c
	return true
}

func (s *Sess) lenient() bool { return s.i.lax || s.gone || s.expect || s.w.down || s.i.lostOK }

func (w *World) register(c *Cmd) {
	c.id = len(w.cmds)
	w.cmds = append(w.cmds, c)
}

// scsiPDU builds the command PDU; data is sent immediately as far as asked
// for and allowed.
func (s *Sess) scsiPDU(c *Cmd) *PDU {
	p := &PDU{}
	p.H[0] = opSCSI
	if c.imm {
		p.H[0] |= 0x40
	}
	p.H[1] = 0x80 | c.attr&7
	if c.rd {
		p.H[1] |= 0x40
	}
	if c.wr {
		p.H[1] |= 0x20
	}
	l := lunBytes(c.lun)
	copy(p.H[8:], l[:])
	put32(p.H[16:], c.itt)
	put32(p.H[20:], uint32(c.edtl))
	put32(p.H[24:], c.sn)
	put32(p.H[28:], s.statSN+1)
	copy(p.H[32:48], c.cdb)
	if c.wr && s.lim.ImmData && c.immN != 0 {
		n := c.immN
		m := min(len(c.out), s.lim.FirstBurst, s.lim.TgtMRDSL)
		if n < 0 || n > m {
			n = m
		}
		p.Data = c.out[:n]
		c.sent = n
		c.r2tOff = n
	}
	return p
}

// submit sends a SCSI command.
func (s *Sess) submit(c *Cmd) bool {
	s.w.register(c)
	c.s, c.i = s, s.i
	if !s.assign(c) {
		return false
	}
	s.enqueue(&outPDU{p: s.scsiPDU(c), c: c, hold: c.hold})
	return true
}

// ---- receiving ----

func readFull(c *simnet.Conn, b []byte) error {
	_, err := io.ReadFull(c, b)
	return err
}

func readPDU(c *simnet.Conn) (*PDU, error) {
	p := &PDU{}
	if err := readFull(c, p.H[:]); err != nil {
		return nil, err
	}
	if n := int(p.H[4]) * 4; n > 0 {
		p.AHS = make([]byte, n)
		if err := readFull(c, p.AHS); err != nil {
			return nil, err
		}
	}
	if n := be24(p.H[5:]); n > 0 {
		b := make([]byte, (n+3)&^3)
		if err := readFull(c, b); err != nil {
			return nil, err
		}
		p.Data = b[:n]
	}
	return p, nil
}

func (s *Sess) end(why string) {
	if s.gone {
		return
	}
	s.gone = true
	s.why = why
	s.ended = s.w.tick()
	for _, k := range sortedKeys32(s.out) {
		c := s.out[k]
		if !c.done {
			c.lost = true
			if s.w.down && c.bound == 0 {
				c.bound = s.w.crash0
			}
		}
	}
	if !s.closing && !s.lenient0() {
		s.w.fail("connlost", "%s: the connection was lost (%s) with %d commands outstanding: %s", s.i.a.Name, why, len(s.out), s.outList())
	}
	// closing may let other tasks run, which must see this done
	for _, k := range sortedKeys32(s.out) {
		s.w.settle(s.out[k])
	}
	if h, ok := s.w.x["onEnd"].(func(*Sess)); ok {
		h(s)
	}
	s.c.Close()
	s.wl.WakeAll()
	s.sl.WakeAll()
	s.readers.WakeAll()
}

func (s *Sess) lenient0() bool {
	return s.i.lax || s.expect || s.w.down || s.i.lostOK || (s.w.daemon != nil && s.w.daemon.Dead)
}

func (s *Sess) outList() string {
	r := ""
	for n, k := range sortedKeys32(s.out) {
		if n == 4 {
			return r + " ..."
		}
		r += s.out[k].what + "; "
	}
	return r
}

func sortedKeys32[V any](m map[uint32]V) []uint32 {
	var out []uint32
	for k := range m {
		out = append(out, k)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func (s *Sess) bad(tag, f string, a ...any) {
	if s.i.lax {
		return
	}
	s.w.fail(tag, s.i.a.Name+": "+f, a...)
}

// reader checks and dispatches everything the target sends.
func (s *Sess) reader() {
	for !s.gone {
		for s.noRead && !s.gone {
			s.readers.Wait("not reading")
		}
		p, err := readPDU(s.c)
		if s.gone {
			return
		}
		if err != nil {
			s.end(err.Error())
			return
		}
		if len(p.Data) > s.lim.MyMRDSL {
			s.bad("din", "a %s PDU carries %d data bytes, more than the declared maximum %d", p.Name(), len(p.Data), s.lim.MyMRDSL)
		}
		s.window(p)
		s.dispatch(p)
		s.wl.WakeAll()
	}
}

func (s *Sess) window(p *PDU) {
	e, m := p.ExpCmdSN(), p.MaxCmdSN()
	if snLess(m, e-1) {
		s.bad("window", "%s has MaxCmdSN %x below ExpCmdSN %x - 1", p.Name(), m, e)
		return
	}
	if snLess(e, s.expSeen) {
		s.bad("window", "ExpCmdSN moved back from %x to %x in %s", s.expSeen, e, p.Name())
	} else {
		s.expSeen = e
	}
	if snLess(m, s.maxSeen) {
		s.bad("window", "MaxCmdSN moved back from %x to %x in %s", s.maxSeen, m, p.Name())
	} else {
		s.maxSeen = m
	}
	if snLess(s.wireSN, e) {
		s.bad("window", "ExpCmdSN %x in %s although the last CmdSN sent is %x", e, p.Name(), s.wireSN-1)
	}
}

// status checks the status sequence number of a PDU that carries one.
func (s *Sess) status(p *PDU) {
	n := p.StatSN()
	if n != s.statSN+1 {
		s.bad("statsn", "StatSN is %x in %s for tag %x, expected %x", n, p.Name(), p.ITT(), s.statSN+1)
	}
	s.statSN = n
}

func (s *Sess) find(p *PDU) *Cmd {
	c := s.out[p.ITT()]
	if x := s.dead[p.ITT()]; c == nil && x != nil {
		s.bad("tmf", "%s for %s, which an abort reported as complete has ended", p.Name(), x.what)
		return nil
	}
	if c == nil {
		s.bad("answer", "%s for tag %x, which is not outstanding", p.Name(), p.ITT())
		return nil
	}
	if c.inv == 0 {
		s.bad("answer", "%s for tag %x (%s) before the command was sent", p.Name(), p.ITT(), c.what)
	}
	if c.noAns {
		s.bad("order", "%s answers %s, which must be ignored (CmdSN %x)", p.Name(), c.what, c.sn)
	}
	return c
}

func (s *Sess) finish(c *Cmd) {
	c.ret = s.w.tick()
	c.retT = s.w.S.Now()
	c.done = true
	delete(s.out, c.itt)
	if !c.imm && !c.noAns && snLE(s.expSeen, c.sn) {
		s.bad("window", "%s (CmdSN %x) is answered while ExpCmdSN is %x", c.what, c.sn, s.expSeen)
	}
	// transfers still queued for it are moot
	for k := 0; k < len(s.flows); {
		if s.flows[k].c == c {
			s.flows = append(s.flows[:k], s.flows[k+1:]...)
			continue
		}
		k++
	}
	s.w.settle(c)
}

func (s *Sess) dispatch(p *PDU) {
	op := p.Op()
	if p.H[0]&0xc0 != 0 {
		s.bad("answer", "%s has reserved bits set in its first byte: %02x", p.Name(), p.H[0])
	}
	if c := s.out[p.ITT()]; c != nil && c.kind == "odd" && op != opR2T && op != opReject && (op != opDataIn || p.H[1]&1 != 0) {
		s.status(p)
		c.rsp = int(p.H[2])
		s.finish(c)
		return
	}
	if op != opReject && s.unserved(p) {
		if op != opR2T && op != opDataIn {
			s.status(p)
		}
		return
	}
	switch op {
	case opSCSIRsp:
		s.status(p)
		c := s.find(p)
		if c == nil {
			return
		}
		if c.kind == "tmf" || c.kind == "nop" || c.kind == "text" || c.kind == "logout" {
			s.bad("answer", "SCSI Response for %s", c.what)
			return
		}
		c.rsp = int(p.H[2])
		c.status = int(p.H[3])
		s.residual(c, p.H[1], p.W44())
		if c.openB {
			s.bad("din", "%s: the last Data-In before the response did not carry the final bit", c.what)
		}
		if len(p.Data) > 0 {
			s.parseSense(c, p)
		} else if c.status == stCheck && c.rsp == 0 {
			s.bad("sense", "%s: CHECK CONDITION without sense data", c.what)
		}
		if c.rd && c.inN > 0 && c.status == stGood && p.W36() != c.dataSN {
			s.bad("din", "%s: ExpDataSN is %d after %d Data-In PDUs", c.what, p.W36(), c.dataSN)
		}
		s.finish(c)
	case opDataIn:
		c := s.find(p)
		if p.H[1]&1 != 0 {
			s.status(p)
		}
		if c == nil {
			return
		}
		s.dataIn(c, p)
	case opR2T:
		if p.StatSN() != s.statSN+1 {
			s.bad("statsn", "R2T carries StatSN %x, the next one is %x", p.StatSN(), s.statSN+1)
		}
		c := s.find(p)
		if c != nil {
			s.r2t(c, p)
		}
	case opNopIn:
		if p.ITT() == noTag {
			if p.StatSN() != s.statSN+1 {
				s.bad("statsn", "unsolicited NOP-In carries StatSN %x, the next one is %x", p.StatSN(), s.statSN+1)
			}
			if p.TTT() != noTag {
				r := &PDU{}
				r.H[0] = opNopOut | 0x40
				r.H[1] = 0x80
				copy(r.H[8:16], p.H[8:16])
				put32(r.H[16:], noTag)
				put32(r.H[20:], p.TTT())
				put32(r.H[24:], s.cmdSN)
				put32(r.H[28:], s.statSN+1)
				s.enqueue(&outPDU{p: r})
				s.pings++
			}
			return
		}
		s.status(p)
		c := s.find(p)
		if c == nil {
			return
		}
		if c.kind != "nop" {
			s.bad("answer", "NOP-In for %s", c.what)
			return
		}
		if p.TTT() != noTag {
			s.bad("answer", "NOP-In answering a ping has target transfer tag %x", p.TTT())
		}
		c.rdata = p.Data
		if want := c.out[:min(len(c.out), s.lim.MyMRDSL)]; string(p.Data) != string(want) {
			s.bad("answer", "ping of %d bytes came back with %d bytes or other content", len(c.out), len(p.Data))
		}
		s.finish(c)
	case opTextRsp:
		s.status(p)
		c := s.find(p)
		if c == nil {
			return
		}
		if c.kind != "text" {
			s.bad("answer", "Text Response for %s", c.what)
			return
		}
		c.rdata = append(c.rdata, p.Data...)
		if !p.Final() {
			if p.TTT() == noTag {
				s.bad("answer", "Text Response without F has no target transfer tag")
			}
			// ask for the rest
			r := &PDU{}
			r.H[0] = opText | 0x40
			r.H[1] = 0x80
			put32(r.H[16:], c.itt)
			put32(r.H[20:], p.TTT())
			put32(r.H[24:], s.cmdSN)
			put32(r.H[28:], s.statSN+1)
			s.enqueue(&outPDU{p: r})
			return
		}
		s.finish(c)
	case opTMFRsp:
		s.status(p)
		c := s.find(p)
		if c == nil {
			return
		}
		if c.kind != "tmf" {
			s.bad("answer", "Task Management Response for %s", c.what)
			return
		}
		c.rsp = int(p.H[2])
		s.finish(c)
		s.managed(c)
	case opLogoutRs:
		s.status(p)
		c := s.find(p)
		if c == nil {
			return
		}
		if c.kind != "logout" {
			s.bad("answer", "Logout Response for %s", c.what)
			return
		}
		c.rsp = int(p.H[2])
		s.expect = true
		s.finish(c)
	case opAsync:
		s.status(p)
		if ev := p.H[36]; ev == 1 || ev == 2 {
			s.expect = true
		}
	case opReject:
		s.status(p)
		if p.ITT() != noTag {
			s.bad("answer", "Reject has initiator task tag %x", p.ITT())
		}
		s.reject(p)
	default:
		s.bad("answer", "PDU with %s in a full feature session", p.Name())
	}
}

// reject ends the request whose header a Reject returns.
func (s *Sess) reject(p *PDU) {
	if len(p.Data) < 48 {
		s.bad("answer", "Reject without the rejected header (%d bytes)", len(p.Data))
		return
	}
	c := s.out[be32(p.Data[16:])]
	if c == nil {
		return
	}
	c.rsp = 0x100 | int(p.H[2])
	c.status = -1
	if c.want != wantAny {
		s.bad("reject", "%s was rejected (reason %d)", c.what, p.H[2])
	}
	s.finish(c)
}

func (s *Sess) parseSense(c *Cmd, p *PDU) {
	d := p.Data
	if len(d) < 2 {
		s.bad("sense", "%s: response data segment of %d bytes", c.what, len(d))
		return
	}
	n := int(be16(d))
	if n > len(d)-2 {
		s.bad("sense", "%s: sense length %d in a data segment of %d bytes", c.what, n, len(d))
		n = len(d) - 2
	}
	c.sense = append([]byte(nil), d[2:2+n]...)
	b := c.sense
	if len(b) == 0 {
		return
	}
	switch b[0] & 0x7f {
	case 0x70, 0x71:
		if len(b) >= 3 {
			c.key = int(b[2] & 15)
		}
		if len(b) >= 14 {
			c.asc = int(b[12])<<8 | int(b[13])
		}
	case 0x72, 0x73:
		if len(b) >= 4 {
			c.key = int(b[1] & 15)
			c.asc = int(b[2])<<8 | int(b[3])
		}
	}
}

func (s *Sess) residual(c *Cmd, fl byte, v uint32) {
	c.residU, c.residO = fl&2 != 0, fl&4 != 0
	c.resid = int(v)
	if c.residU && c.residO {
		s.bad("resid", "%s: both underflow and overflow are reported", c.what)
	}
	if !c.residU && !c.residO && v != 0 {
		s.bad("resid", "%s: residual count %d without a flag", c.what, v)
	}
	if (c.residU || c.residO) && v == 0 {
		s.bad("resid", "%s: a residual flag with count 0", c.what)
	}
	if c.residU && int(v) > c.edtl {
		s.bad("resid", "%s: underflow of %d bytes with only %d expected", c.what, v, c.edtl)
	}
}

func (s *Sess) dataIn(c *Cmd, p *PDU) {
	if !c.rd {
		s.bad("din", "Data-In for %s", c.what)
		return
	}
	off := int(p.W40())
	if p.W36() != c.dataSN {
		s.bad("din", "%s: DataSN %d, expected %d", c.what, p.W36(), c.dataSN)
	}
	c.dataSN = p.W36() + 1
	if off != c.inN {
		s.bad("din", "%s: Data-In at offset %d, expected %d", c.what, off, c.inN)
	}
	if off+len(p.Data) > c.edtl {
		s.bad("din", "%s: Data-In up to offset %d, only %d bytes expected", c.what, off+len(p.Data), c.edtl)
	}
	if off >= 0 && off <= 1<<27 {
		if n := off + len(p.Data); n > len(c.in) {
			c.in = append(c.in, make([]byte, n-len(c.in))...)
		}
		copy(c.in[off:], p.Data)
	}
	c.inN = off + len(p.Data)
	c.burst += len(p.Data)
	if c.burst > s.lim.MaxBurst {
		s.bad("din", "%s: a burst of %d bytes, the maximum is %d", c.what, c.burst, s.lim.MaxBurst)
	}
	c.openB = true
	if p.Final() {
		c.burst = 0
		c.openB = false
	}
	if p.H[1]&1 != 0 {
		if !p.Final() {
			s.bad("din", "%s: Data-In with status but without the final bit", c.what)
		}
		c.status = int(p.H[3])
		s.residual(c, p.H[1], p.W44())
		s.finish(c)
	}
}

func (s *Sess) r2t(c *Cmd, p *PDU) {
	if !c.wr {
		s.bad("dout", "R2T for %s", c.what)
		return
	}
	if p.W36() != c.r2tN {
		s.bad("dout", "%s: R2TSN %d, expected %d", c.what, p.W36(), c.r2tN)
	}
	c.r2tN, c.ttt = p.W36()+1, p.TTT()
	off, n := int(p.W40()), int(p.W44())
	if off != c.r2tOff {
		s.bad("dout", "%s: R2T asks for offset %d, the next missing byte is %d", c.what, off, c.r2tOff)
	}
	if n == 0 || n > s.lim.MaxBurst {
		s.bad("dout", "%s: R2T asks for %d bytes, the maximum burst is %d", c.what, n, s.lim.MaxBurst)
	}
	if off+n > len(c.out) {
		s.bad("dout", "%s: R2T asks for bytes %d..%d of %d", c.what, off, off+n, len(c.out))
	}
	if p.TTT() == noTag {
		s.bad("dout", "%s: R2T without target transfer tag", c.what)
	}
	c.r2tOut++
	if c.r2tOut > s.lim.MaxR2T {
		s.bad("dout", "%s: %d R2Ts outstanding, %d were agreed", c.what, c.r2tOut, s.lim.MaxR2T)
	}
	if off > len(c.out) {
		off = len(c.out)
	}
	if off+n > len(c.out) {
		n = len(c.out) - off
	}
	c.r2tOff = off + n
	var q []*PDU
	chunk := c.pduN
	if chunk <= 0 || chunk > s.lim.TgtMRDSL {
		chunk = s.lim.TgtMRDSL
	}
	for o, sn := 0, uint32(0); o < n; sn++ {
		k := min(chunk, n-o)
		d := &PDU{Data: c.out[off+o : off+o+k]}
		d.H[0] = opDataOut
		if o+k == n {
			d.H[1] = 0x80
		}
		copy(d.H[8:16], p.H[8:16])
		put32(d.H[16:], c.itt)
		put32(d.H[20:], p.TTT())
		put32(d.H[28:], s.statSN+1)
		put32(d.H[36:], sn)
		put32(d.H[40:], uint32(off+o))
		q = append(q, d)
		o += k
	}
	if c.keep >= 0 {
		var go_ []*PDU
		for _, d := range q {
			if len(c.parked) == 0 && c.keep >= len(d.Data) {
				c.keep -= len(d.Data)
				go_ = append(go_, d)
			} else {
				c.parked = append(c.parked, d)
			}
		}
		q = go_
	}
	if len(q) > 0 {
		s.flows = append(s.flows, &dflow{c: c, q: q, wait: s.w.S.Now() + c.slow})
		s.sl.WakeAll()
	}
}

// resume releases the Data-Outs kept back.
func (s *Sess) resume(c *Cmd) {
	c.keep = -1
	if len(c.parked) == 0 {
		return
	}
	q := c.parked
	c.parked = nil
	for _, f := range s.flows { // behind what is still to be sent
		if f.c == c {
			f.q = append(f.q, q...)
			return
		}
	}
	s.flows = append(s.flows, &dflow{c: c, q: q})
	s.sl.WakeAll()
}

// await blocks until the command is finished or its connection gone.
func (s *Sess) await(c *Cmd) bool {
	for t := s.w.S.Now() + s.i.patience(); !c.done && c.abort == nil && !s.gone; {
		if s.w.S.Deadlock || s.w.S.Now() >= t {
			if !s.lenient() && !s.w.S.Capped {
				s.w.fail("hang", "%s: no answer to %s (sent at %d ms) after %d s while the connection is open", s.i.a.Name, c.what, c.invT/1e6, s.i.patience()/1e9)
			}
			s.end("hang")
			return false
		}
		s.wl.WaitFor("answer", t-s.w.S.Now())
	}
	return c.done
}

func (s *Sess) resumeAll() {
	for _, k := range sortedKeys32(s.out) {
		if c := s.out[k]; c != nil && c.keep >= 0 {
			s.resume(c)
		}
	}
}

func (s *Sess) awaitAll() bool {
	s.resumeAll()
	for _, k := range sortedKeys32(s.out) {
		c := s.out[k]
		if c == nil || c.noAns {
			continue
		}
		if !s.await(c) && c.abort == nil {
			return false
		}
	}
	return true
}

func (s *Sess) outstanding() int {
	n := 0
	for _, c := range s.out {
		if !c.noAns {
			n++
		}
	}
	return n
}

// ---- other requests ----

func (s *Sess) nop(data []byte, imm bool, hold int) *Cmd {
	c := &Cmd{kind: "nop", imm: imm, out: data, keep: -1, what: fmt.Sprintf("NOP-Out ping of %d bytes (immediate %v)", len(data), imm)}
	s.w.register(c)
	c.s, c.i = s, s.i
	if !s.assign(c) {
		return c
	}
	p := &PDU{Data: data}
	p.H[0] = opNopOut
	if imm {
		p.H[0] |= 0x40
	}
	p.H[1] = 0x80
	put32(p.H[16:], c.itt)
	put32(p.H[20:], noTag)
	put32(p.H[24:], c.sn)
	put32(p.H[28:], s.statSN+1)
	s.enqueue(&outPDU{p: p, c: c, hold: hold})
	return c
}

func (s *Sess) text(kv [][2]string, imm bool, hold int) *Cmd {
	c := &Cmd{kind: "text", imm: imm, keep: -1, what: fmt.Sprintf("text request %v", kv)}
	s.w.register(c)
	c.s, c.i = s, s.i
	if !s.assign(c) {
		return c
	}
	p := &PDU{Data: kvText(kv)}
	p.H[0] = opText
	if imm {
		p.H[0] |= 0x40
	}
	p.H[1] = 0x80
	put32(p.H[16:], c.itt)
	put32(p.H[20:], noTag)
	put32(p.H[24:], c.sn)
	put32(p.H[28:], s.statSN+1)
	s.enqueue(&outPDU{p: p, c: c, hold: hold})
	return c
}

const (
	tmfAbortTask    = 1
	tmfAbortTaskSet = 2
	tmfClearACA     = 3
	tmfClearTaskSet = 4
	tmfLUReset      = 5
	tmfWarmReset    = 6
	tmfColdReset    = 7
	tmfReassign     = 8
)

func (s *Sess) tmf(fn int, lun int, named *Cmd, rtt uint32, imm bool, hold int) *Cmd {
	c := &Cmd{kind: "tmf", imm: imm, keep: -1, lun: lun, named: named, n: uint32(fn)}
	c.what = fmt.Sprintf("task management function %d lun %d", fn, lun)
	ref := s.cmdSN
	if named != nil {
		rtt = named.itt
		ref = named.sn
		c.what += fmt.Sprintf(" naming tag %x (%s)", rtt, named.what)
	} else if fn == tmfAbortTask {
		c.what += fmt.Sprintf(" naming tag %x", rtt)
	}
	s.w.register(c)
	c.s, c.i = s, s.i
	if !s.assign(c) {
		return c
	}
	p := &PDU{}
	p.H[0] = opTMF
	if imm {
		p.H[0] |= 0x40
	}
	p.H[1] = 0x80 | byte(fn)
	l := lunBytes(lun)
	copy(p.H[8:], l[:])
	put32(p.H[16:], c.itt)
	if fn == tmfAbortTask {
		put32(p.H[20:], rtt)
		put32(p.H[32:], ref)
	} else {
		put32(p.H[20:], noTag)
	}
	put32(p.H[24:], c.sn)
	put32(p.H[28:], s.statSN+1)
	s.enqueue(&outPDU{p: p, c: c, hold: hold})
	return c
}

func (s *Sess) logout(imm bool) *Cmd {
	c := &Cmd{kind: "logout", imm: imm, keep: -1, what: "logout"}
	s.w.register(c)
	c.s, c.i = s, s.i
	if !s.assign(c) {
		return c
	}
	p := &PDU{}
	p.H[0] = opLogout
	if imm {
		p.H[0] |= 0x40
	}
	p.H[1] = 0x80 // close the session
	put32(p.H[16:], c.itt)
	put16(p.H[20:], s.cid)
	s.leaving = true
	put32(p.H[24:], c.sn)
	put32(p.H[28:], s.statSN+1)
	s.enqueue(&outPDU{p: p, c: c})
	return c
}
