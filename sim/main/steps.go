//go:build go1.25

package main

import (
	"encoding/hex"
	"fmt"
	"strconv"

	"github.com/gostor/gotgt/zsim/rt"
)

func sleep(d int64) { rt.Sleep(d) }

// readLen is the allocation length carried by a CDB of a command that
// returns data, -1 if it has none.
func (w *World) newOp(c *Cmd) int {
	c.op = len(w.ops)
	w.ops = append(w.ops, c)
	return c.op
}

// build prepares the SCSI command a step describes.
func (i *Ini) build(st *Step) *Cmd {
	w := i.w
	c := &Cmd{kind: st.Op, st: st, i: i, lun: st.LUN, lba: st.LBA, n: st.N, imm: st.I, immN: st.Imm, pduN: st.PDU, hold: st.Hold, slow: st.Slow,
		keep: st.Keep - 1, attr: st.Attr, fua: st.FUA, tlen: -1, want: st.Want, status: -2}
	c.lu = w.luOf(i.t, st.LUN)
	if w.luOfDyn != nil {
		c.lu = w.luOfDyn(i, st.LUN)
	}
	bs := uint64(512)
	if c.lu != nil {
		bs = uint64(c.lu.BS)
	}
	var flags byte
	if st.DPO {
		flags |= 0x10
	}
	if st.FUA {
		flags |= 0x08
	}
	grow := func(T uint64) int {
		e := int64(T) + int64(st.ED)
		if e < 0 {
			e = 0
		}
		if e > 1<<26 {
			e = 1 << 26
		}
		return int(e)
	}
	cap_ := uint64(0)
	if c.lu != nil {
		cap_ = c.lu.Blocks
	}
	media := false
	switch st.Op {
	case "read", "write", "wverify", "verify", "wsame", "orwrite", "sync", "prefetch":
		media = true
		if st.Op == "sync" || st.Op == "prefetch" {
			flags = 0
			c.fua = false
		}
		if st.Op == "verify" {
			flags &= 0x10
			c.fua = false
			if st.Like || st.V < 0 {
				flags |= 0x02
			}
		}
		if st.Op == "wsame" {
			flags = 0
			c.fua = false
		}
		if st.Op == "wverify" {
			flags = flags&0x10 | 2
			c.fua = false
			if st.Arg == 1 {
				flags &^= 2
			}
		}
		v := st.V
		if v < 0 {
			v = -v
		}
		v = cdbVar(st.Op, v, st.LBA, st.N)
		if v == 6 {
			flags = 0
			c.fua = false
		}
		c.cdb = cdbRW(st.Op, v, st.LBA, st.N, flags)
		T := uint64(st.N) * bs
		switch st.Op {
		case "wsame":
			T = bs
			if st.N == 0 {
				T = bs
			}
		case "sync", "prefetch":
			T = 0
		case "verify":
			if flags&2 == 0 {
				T = 0
			}
		}
		c.tlen = int64(T)
		c.edtl = grow(T)
		switch st.Op {
		case "read":
			c.rd = true
		case "write", "wverify", "wsame", "orwrite":
			c.wr = true
			if st.Op == "wsame" && st.Arg&1 != 0 && v == 16 { // no data-out buffer
				c.cdb[1] |= 1
				c.wr, c.tlen = false, 0
			}
		case "verify":
			c.wr = flags&2 != 0
		}
		if !c.rd && !c.wr {
			c.edtl = 0
		}
		c.what = fmt.Sprintf("%s(%d) lun %d lba %d blocks %d", st.Op, v, st.LUN, st.LBA, st.N)
		if flags != 0 {
			c.what += fmt.Sprintf(" flags %02x", flags)
		}
		if int64(c.edtl) != c.tlen {
			c.what += fmt.Sprintf(" expecting %d of %d bytes", c.edtl, c.tlen)
		}
	case "unmap":
		b := make([]byte, 8+16)
		put16(b, uint16(len(b)-2))
		put16(b[2:], uint16(len(b)-8))
		put64(b[8:], st.LBA)
		put32(b[16:], st.N)
		c.cdb = make([]byte, 16)
		c.cdb[0] = 0x42
		put16(c.cdb[7:], uint16(len(b)))
		c.out = b
		c.wr = true
		c.edtl = len(b)
		c.tlen = int64(len(b))
		c.ranges = [][2]uint64{{st.LBA, uint64(st.N)}}
		c.what = fmt.Sprintf("unmap lun %d lba %d blocks %d", st.LUN, st.LBA, st.N)
	case "raw":
		b, err := hex.DecodeString(st.Hex)
		if err != nil {
			panic(err)
		}
		c.cdb = make([]byte, 16)
		copy(c.cdb, b)
		// Arg: bytes expected, positive for reads, negative for writes
		if st.Arg > 0 {
			c.rd, c.edtl = true, int(st.Arg)
		} else if st.Arg < 0 {
			c.wr, c.edtl = true, int(-st.Arg)
			c.out = make([]byte, c.edtl)
			if st.S != "" {
				p, err := hex.DecodeString(st.S)
				if err != nil {
					panic(err)
				}
				copy(c.out, p)
			}
		}
		if st.Like && st.S == "" && c.wr {
			// data nobody may ever see on a medium
			w.newOp(c)
			for o := 0; o*512 < len(c.out); o++ {
				fillSector(c.out[o*512:min(o*512+512, len(c.out))], wrID(c.op, o), 0)
			}
		}
		switch c.cdb[0] {
		case 0x1b, 0x1e, 0x1d, 0x04: // commands without data
			if !c.wr {
				c.tlen = 0
			}
		}
		c.what = fmt.Sprintf("cdb %x lun %d expecting %d", c.cdb, st.LUN, st.Arg)
	default:
		if !i.buildOther(c, st) {
			panic("unknown step " + st.Op)
		}
	}
	if st.Bits && c.lu != nil {
		c.bits = true
		for k := uint64(0); k < uint64(st.N); k++ {
			c.lu.taint[st.LBA+k] = true
		}
		if c.wr {
			w.bitFill(c)
		}
	}
	switch st.Op {
	case "write", "wverify", "wsame", "orwrite":
		if c.bits {
			break
		}
		w.newOp(c)
		c.out = make([]byte, c.edtl)
		k := 0
		for ; (k+1)*int(bs) <= c.edtl; k++ {
			id := wrID(c.op, k)
			if uint64(k) >= uint64(c.tlen)/bs {
				id = wrID(c.op, 0x800000+k)
			} else if st.Op == "write" || st.Op == "wverify" {
				c.vals = append(c.vals, id)
			}
			fillBlock(c.out[k*int(bs):(k+1)*int(bs)], id)
		}
		if k*int(bs) < c.edtl {
			fillBlock(c.out[k*int(bs):], wrID(c.op, k))
			c.part = int64(k)*int64(bs) < c.tlen
			if c.part && c.lu != nil {
				c.lu.taint[c.lba+uint64(k)] = true
			}
		}
		if ndob := st.Op == "wsame" && !c.wr; ndob || st.Op == "wsame" && c.edtl >= int(bs) {
			n, id := uint64(st.N), wrID(c.op, 0)
			if ndob {
				id = 0 // which others write, too
				for k := uint64(0); k < n && c.lu != nil; k++ {
					c.lu.taint[st.LBA+k] = true
				}
			}
			if n == 0 && st.LBA <= cap_ {
				n = cap_ - st.LBA
			}
			for k := uint64(0); k < n && st.LBA+k < cap_ && k < 1<<16; k++ {
				c.vals = append(c.vals, id)
			}
			if st.Arg&8 != 0 { // UNMAP bit
				c.cdb[1] |= 8
				c.ranges = [][2]uint64{{st.LBA, n}}
				if c.lu == nil || !c.lu.Thin {
					c.want = wantAny
				}
			}
		}
	case "verify":
		if c.wr {
			c.out = make([]byte, c.edtl)
			for k := 0; k < int(st.N) && (k+1)*int(bs) <= len(c.out); k++ {
				var id uint64
				if c.lu != nil {
					id = c.lu.guess(st.LBA+uint64(k), st.Like, i.rng)
				}
				c.vals = append(c.vals, id)
				if id != 0 {
					fillBlock(c.out[k*int(bs):(k+1)*int(bs)], id)
				}
			}
			if len(c.vals) < int(st.N) {
				c.vals = nil
			}
		}
	}
	if st.Op == "orwrite" && !st.Bits && c.lu != nil {
		for k := uint64(0); k < uint64(st.N) && st.LBA+k < cap_; k++ {
			c.lu.taint[st.LBA+k] = true // neither what was there nor what was sent
		}
	}
	if media && st.Want == 0 && c.want == 0 {
		switch {
		case c.lu == nil:
			c.want = wantCheck
		case st.LBA+uint64(st.N) > cap_ || st.LBA+uint64(st.N) < st.LBA:
			c.want = wantRange
			if st.Op == "prefetch" || st.Op == "orwrite" {
				c.want = wantCheck
			}
			c.vals = nil
		case st.Op == "verify" && c.wr && int64(c.edtl) >= c.tlen:
			c.want = wantVerify
		case st.Op == "orwrite" && st.Bits:
			c.want = wantGood
		case st.Op == "verify" && c.wr || st.Op == "orwrite":
			c.want = wantAny
		case c.wr && int64(c.edtl) < c.tlen, c.rd && int64(c.edtl) < c.tlen:
			// a short transfer may be served in part or refused
			c.want = wantAny
		}
	}
	if c.lu == nil && st.Want == 0 && !media {
		c.want = wantAny
	}
	return c
}

// guess picks the value a VERIFY will compare with: likely what is there.
func (lu *LU) guess(lba uint64, like bool, r *rt.RNG) uint64 {
	h := lu.hist[lba]
	last := lu.initial(lba)
	var ws []uint64
	for k := range h {
		if h[k].w && !h[k].opt {
			last = h[k].id
			ws = append(ws, last)
		}
	}
	if like || len(ws) == 0 {
		return last
	}
	return ws[r.Intn(len(ws))]
}

func (i *Ini) buildOther(c *Cmd, st *Step) bool {
	cdb := make([]byte, 16)
	c.cdb = cdb
	alloc := int(st.Arg)
	ret := func(n int) {
		c.rd = n+st.ED > 0
		c.edtl = max(0, n+st.ED)
	}
	switch st.Op {
	case "tur":
		c.tlen = 0
	case "inq":
		cdb[0] = 0x12
		if st.V >= 0x100 {
			cdb[1] = 1
			cdb[2] = byte(st.V)
		}
		if alloc == 0 {
			alloc = 96
		}
		put16(cdb[3:], uint16(alloc))
		ret(alloc)
	case "rcap10":
		cdb[0] = 0x25
		c.tlen = 8
		ret(8)
	case "rcap16":
		cdb[0] = 0x9e
		cdb[1] = 0x10
		if alloc == 0 {
			alloc = 32
		}
		put32(cdb[10:], uint32(alloc))
		c.tlen = int64(min(alloc, 32))
		ret(alloc)
	case "rluns":
		cdb[0] = 0xa0
		if alloc == 0 {
			alloc = 4096
		}
		put32(cdb[6:], uint32(alloc))
		ret(alloc)
	case "msense6":
		cdb[0] = 0x1a
		cdb[2] = byte(st.V)
		if alloc == 0 {
			alloc = 255
		}
		cdb[4] = byte(alloc)
		ret(int(byte(alloc)))
	case "msense10":
		cdb[0] = 0x5a
		cdb[2] = byte(st.V)
		if alloc == 0 {
			alloc = 512
		}
		put16(cdb[7:], uint16(alloc))
		ret(alloc)
	case "rsense":
		cdb[0] = 0x03
		if alloc == 0 {
			alloc = 252
		}
		cdb[4] = byte(alloc)
		ret(int(byte(alloc)))
	case "reserve":
		cdb[0] = 0x16
		c.tlen = 0
	case "release":
		cdb[0] = 0x17
		c.tlen = 0
	case "start":
		cdb[0] = 0x1b
		cdb[4] = byte(st.V)
		c.tlen = 0
	case "prevent":
		cdb[0] = 0x1e
		cdb[4] = byte(st.V)
		c.tlen = 0
	case "prin":
		cdb[0] = 0x5e
		cdb[1] = byte(st.V)
		if alloc == 0 {
			alloc = 512
		}
		put16(cdb[7:], uint16(alloc))
		ret(alloc)
	case "prout":
		// V: service action, Arg: reservation key, Arg2: action key, N: scope/type, LBA: flags
		cdb[0] = 0x5f
		cdb[1] = byte(st.V)
		cdb[2] = byte(st.N)
		put32(cdb[5:], 24)
		b := make([]byte, 24)
		put64(b, uint64(st.Arg))
		put64(b[8:], uint64(st.Arg2))
		b[20] = byte(st.LBA)
		if n := int(st.LBA >> 8); n > 0 { // not the length it must have
			b = append(b, make([]byte, n)...)[:n]
			put32(cdb[5:], uint32(n))
		}
		c.out = b
		c.wr = true
		c.edtl = len(b)
		c.tlen = int64(len(b))
	case "prmove":
		// Arg: reservation key, Arg2: action key, N: the initiator to move to, V: flags,
		// LBA: what is wrong with it
		o := i
		if int(st.N) < len(i.w.inis) {
			o = i.w.inis[st.N]
		}
		name := o.name
		if st.LBA == 2 {
			name += ".nobody"
		}
		id := []byte(fmt.Sprintf("%s,i,0x%012x", name, o.isid))
		for len(id) == 0 || len(id)%4 != 0 || len(id) < 20 {
			id = append(id, 0)
		}
		b := make([]byte, 24+4+len(id))
		put64(b, uint64(st.Arg))
		put64(b[8:], uint64(st.Arg2))
		b[17] = byte(st.V)
		port := 1 // the portal group that initiator is at
		if g := i.w.P.groupOf(o.t, o.a.Portal); g != "" {
			port, _ = strconv.Atoi(g)
		}
		put16(b[18:], uint16(port))
		put32(b[20:], uint32(4+len(id)))
		b[24] = 0x45
		put16(b[26:], uint16(len(id)))
		copy(b[28:], id)
		cdb[0] = 0x5f
		cdb[1] = 7
		put32(cdb[5:], uint32(len(b)))
		switch st.LBA {
		case 1:
			b[17] |= 1
		case 3:
			put16(b[18:], uint16(port+1000))
		case 4:
			b[24] = 0x40
		case 5:
			put32(b[20:], uint32(4+len(id)-2))
			put16(b[26:], uint16(len(id)-2))
		case 6:
			put32(cdb[5:], uint32(len(b)-4))
		case 7:
			b = b[:16]
			put32(cdb[5:], uint32(len(b)))
		case 8:
			put32(b[20:], uint32(8+len(id)))
		}
		c.out, c.wr, c.edtl, c.tlen = b, true, len(b), int64(len(b))
	default:
		return false
	}
	c.what = fmt.Sprintf("%s lun %d", st.Op, st.LUN)
	if c.rd {
		c.what += fmt.Sprintf(" allocation %d expecting %d", alloc, c.edtl)
	}
	if st.V != 0 {
		c.what += fmt.Sprintf(" (%#x)", st.V)
	}
	if st.Op == "prmove" {
		c.what += fmt.Sprintf(" key %d action key %d to %d", st.Arg, st.Arg2, st.N)
	}
	if st.Op == "prout" {
		c.what += fmt.Sprintf(" key %d action key %d scope/type %02x flags %x", st.Arg, st.Arg2, st.N, st.LBA)
	}
	return true
}

// run performs the actor's steps.
func (i *Ini) run() {
	if i.a.Start > 0 {
		sleep(i.a.Start)
	}
	for k := range i.a.Steps {
		if i.w.S.Deadlock || i.stop {
			break
		}
		st := &i.a.Steps[k]
		if st.Gap > 0 {
			sleep(st.Gap)
		}
		i.step(st)
	}
	if i.s != nil && !i.s.gone {
		i.s.awaitAll()
	}
}

func (i *Ini) byID(id int) *Cmd {
	for k := len(i.all) - 1; k >= 0; k-- {
		if i.all[k].st != nil && i.all[k].st.ID == id {
			return i.all[k]
		}
	}
	return nil
}

// room waits until fewer than the actor's depth of commands are outstanding.
func (i *Ini) room(s *Sess) bool {
	d := i.a.Depth
	if d < 1 {
		d = 1
	}
	if s.outstanding() >= d {
		s.resumeAll()
	}
	for t := i.w.S.Now() + i.patience(); s.outstanding() >= d && !s.gone; {
		if i.w.S.Deadlock || i.w.S.Now() >= t {
			if !s.lenient() && !i.w.S.Capped {
				i.w.fail("hang", "%s: none of %d outstanding commands is answered within %d s: %s", i.a.Name, s.outstanding(), i.patience()/1e9, s.outList())
			}
			s.end("hang")
			return false
		}
		s.wl.WaitFor("room", t-i.w.S.Now())
	}
	return !s.gone
}

func (i *Ini) step(st *Step) *Cmd {
	w := i.w
	if h := w.stepHook; h != nil && h(i, st) {
		return nil
	}
	switch st.Op {
	case "sleep":
		sleep(st.Arg)
		return nil
	case "wait":
		if i.s != nil && !i.s.gone {
			i.s.awaitAll()
		}
		return nil
	case "orcheck":
		i.orCheck(st)
		return nil
	case "login":
		i.need()
		return nil
	case "close", "rst", "halfclose":
		i.hangup(st.Op)
		return nil
	case "logout":
		i.logout(st.I)
		return nil
	case "cut":
		if i.s != nil && !i.s.gone {
			i.s.expect = true
			if st.V&2 == 0 {
				i.s.c.CutSend(st.Arg, st.V&1 != 0)
			} else {
				i.s.c.CutRecv(st.Arg, st.V&1 != 0)
			}
		}
		return nil
	case "stall": // the network holds everything back for a while
		if i.s != nil && !i.s.gone {
			i.s.c.Hold(st.V&1 == 0, st.V&2 == 0, st.Arg)
		}
		return nil
	case "noread":
		if s := i.s; s != nil && !s.gone {
			s.noRead = true
			w.S.After(st.Arg, func() { s.noRead = false; s.readers.WakeAll() })
		}
		return nil
	case "resume":
		if c := i.byID(st.Of); c != nil && c.s == i.s && i.s != nil && !c.done {
			i.s.resume(c)
		}
		return nil
	case "r2twait": // until the target has asked for data of the referenced command
		if c := i.byID(st.Of); c != nil && c.s == i.s && i.s != nil {
			for t := w.S.Now() + 2e9; c.r2tN == 0 && !c.done && !i.s.gone && w.S.Now() < t && !w.S.Deadlock; {
				i.s.wl.WaitFor("r2t", t-w.S.Now())
			}
		}
		return nil
	}
	s := i.need()
	if s == nil {
		return nil
	}
	if st.Op != "tmf" && !i.room(s) {
		return nil
	}
	var c *Cmd
	switch st.Op {
	case "nop":
		b := make([]byte, st.N)
		for k := range b {
			b[k] = byte(uint64(k)*7 + uint64(st.ID)*13 + 1)
		}
		c = s.nop(b, st.I, st.Hold)
	case "text":
		c = s.text(st.Keys, st.I, st.Hold)
	case "tmf":
		var named *Cmd
		rtt := uint32(st.Arg)
		if st.V == tmfAbortTask && st.Of != 0 {
			named = i.byID(st.Of)
			if named == nil || named.s != s || named.itt == 0 || named.retag {
				return nil
			}
		}
		c = i.tmf(s, st, named, rtt)
	default:
		c = i.build(st)
		if !st.Async {
			c.keep = -1
		}
		if !s.submit(c) {
			return c
		}
	}
	if c.s == nil {
		return nil
	}
	c.st = st
	i.all = append(i.all, c)
	w.cover("cmd_" + st.Op)
	if !st.Async {
		s.await(c)
	}
	return c
}

func (i *Ini) tmf(s *Sess, st *Step, named *Cmd, rtt uint32) *Cmd {
	return s.tmf(st.V, st.LUN, named, rtt, st.I, st.Hold)
}

func (i *Ini) hangup(how string) {
	s := i.s
	if s == nil || s.gone {
		return
	}
	s.closing = true
	switch how {
	case "rst":
		s.c.Abort()
		s.end("reset by us")
		s.w.cover("end_rst")
	case "halfclose":
		s.c.CloseWrite()
		s.w.cover("end_halfclose")
		for t := i.w.S.Now() + 5e9; !s.gone && i.w.S.Now() < t && !i.w.S.Deadlock; {
			s.wl.WaitFor("peer", t-i.w.S.Now())
		}
		s.end("closed by us")
	default:
		s.end("closed by us")
		s.w.cover("end_close")
	}
}

func (i *Ini) logout(imm bool) *Cmd {
	s := i.s
	if s == nil || s.gone {
		return nil
	}
	s.awaitAll()
	for n := 0; n < 1000 && !s.gone && len(s.flows) > 0; n++ { // the data of aborted commands
		sleep(1e6)
	}
	if s.gone {
		return nil
	}
	c := s.logout(imm)
	if c.s == nil {
		return c
	}
	if s.await(c) {
		if c.rsp != 0 {
			s.bad("answer", "logout answered with response %d", c.rsp)
		}
		s.closing = true
		s.w.cover("end_logout")
		s.end("logged out")
	}
	return c
}
