//go:build go1.25

package main

import (
	"fmt"

	"github.com/gostor/gotgt/zsim/rt"
	"github.com/gostor/gotgt/zsim/simnet"
)

const tgtWild = "iqn.2020-01.org.sim:wild"

// basePDU draws a well-formed request of the kind.
func (s *Sess) basePDU(r *rt.RNG, kind int, harmless bool) *PDU {
	p := &PDU{}
	put32(p.H[16:], s.newITT())
	put32(p.H[24:], s.cmdSN)
	put32(p.H[28:], s.statSN+1)
	p.H[1] = 0x80
	lun := lunBytes(r.Pick(0, 0, 0, 1, 5, 255, 300))
	if harmless && kind > 5 {
		kind = r.Intn(6)
	}
	switch kind {
	case 0:
		p.H[0] = opNopOut
		put32(p.H[20:], noTag)
		p.Data = make([]byte, r.Pick(0, 0, 1, 5, 48, 500))
	case 1:
		p.H[0] = opText
		put32(p.H[20:], noTag)
		p.Data = kvText([][2]string{{"SendTargets", "All"}})
	case 2:
		p.H[0] = opSCSI
		p.H[1] |= 0x40
		copy(p.H[8:], lun[:])
		n := r.Pick(0, 1, 3, 64)
		put32(p.H[20:], uint32(n*512))
		copy(p.H[32:], cdbRW("read", r.Pick(6, 10, 12, 16), uint64(r.Intn(20)), uint32(n), 0))
	case 3:
		p.H[0] = opDataOut
		put32(p.H[20:], uint32(r.Pick(0, 1, 2, noTag, 77)))
		put32(p.H[36:], uint32(r.Pick(0, 1, 9)))
		put32(p.H[40:], uint32(r.Pick(0, 512, 100000, 0xfffffff0)))
		p.Data = make([]byte, r.Pick(0, 1, 512, 4096))
	case 4:
		p.H[0] = opSNACK
		p.H[1] |= byte(r.Intn(4))
		put32(p.H[20:], noTag)
	case 5:
		p.H[0] = opSCSI
		p.H[1] |= 0x40
		copy(p.H[8:], lun[:])
		put32(p.H[20:], uint32(r.Pick(0, 8, 96, 255, 4096)))
		c := p.H[32:48]
		switch r.Intn(6) {
		case 0:
			c[0], c[4] = 0x12, 96
		case 1:
			c[0] = 0x25
		case 2:
			c[0], c[8] = 0xa0, 255
		case 3:
			c[0], c[2], c[4] = 0x1a, 0x3f, 255
		case 4:
			c[0], c[1], c[8] = 0x5e, byte(r.Intn(4)), 255
		case 5:
			c[0], c[1], c[13] = 0x9e, 0x10, 32
		}
	case 6:
		p.H[0] = opSCSI
		p.H[1] |= 0x20
		copy(p.H[8:], lun[:])
		n := r.Pick(0, 1, 3, 64)
		put32(p.H[20:], uint32(n*512))
		k := []string{"write", "write", "wverify", "wsame", "orwrite", "verify"}[r.Intn(6)]
		copy(p.H[32:], cdbRW(k, r.Pick(6, 10, 12, 16), uint64(r.Intn(20)), uint32(n), byte(r.Pick(0, 0, 8, 2))))
		p.Data = make([]byte, r.Pick(0, n*512, 512, min(n*512, 8192)))
	case 7:
		p.H[0] = opTMF
		p.H[1] |= byte(r.Intn(10))
		copy(p.H[8:], lun[:])
		put32(p.H[20:], s.itt-uint32(r.Intn(4)))
	case 8:
		p.H[0] = opLogout
		p.H[1] |= byte(r.Intn(4))
		put16(p.H[20:], uint16(r.Pick(0, int(s.cid), 9)))
	case 9:
		p.H[0] = opLogin
		p.H[1] = byte(r.Pick(0x87, 0x81, 0x04, 0x83))
		p.Data = kvText([][2]string{{"InitiatorName", s.i.name}, {"TargetName", tgtWild}})
	case 10: // unmap, mode select, persistent reserve out, reserve: data-out with parameter lists
		p.H[0] = opSCSI
		p.H[1] |= 0x20
		copy(p.H[8:], lun[:])
		c := p.H[32:48]
		n := r.Pick(0, 8, 24, 24, 64)
		switch r.Intn(5) {
		case 0:
			c[0], c[8] = 0x42, byte(n)
		case 1:
			c[0], c[8] = 0x55, byte(n)
		case 2:
			c[0], c[1], c[8] = 0x5f, byte(r.Intn(9)), byte(n)
		case 3:
			c[0], c[4] = 0x15, byte(n)
		case 4:
			c[0] = 0x16
		}
		put32(p.H[20:], uint32(n))
		p.Data = make([]byte, n)
		for k := range p.Data {
			p.Data[k] = byte(r.Pick(0, 0, 0, 1, 255, r.Intn(256)))
		}
	case 12, 13, 14, 15, 16, 17: // parameter lists that are nearly right
		p.H[0] = opSCSI
		p.H[1] |= 0x20
		l0 := lunBytes(0)
		copy(p.H[8:], l0[:])
		c := p.H[32:48]
		b := s.i.nearlyRight(r, kind, c)
		n := len(b)
		if r.P(1, 8) { // the CDB tells of more, or less
			n = max(0, n+r.Pick(-1, 1, -4, 4, 1000, -n))
		}
		switch c[0] {
		case 0x15:
			c[4] = byte(min(n, 255))
		case 0x5f:
			put32(c[5:], uint32(n))
		default:
			put16(c[7:], uint16(n))
		}
		put32(p.H[20:], uint32(len(b)))
		if r.P(1, 10) {
			put32(p.H[20:], uint32(max(0, len(b)+r.Pick(-1, 1, -8, 100))))
		}
		p.Data = b
		if r.P(1, 2) {
			p.H[0] |= 0x40
		} else {
			s.cmdSN++
		}
		return p
	default: // anything
		p.H[0] = byte(r.Intn(64))
		for k := 1; k < 48; k++ {
			if k < 4 || k > 7 {
				p.H[k] = byte(r.Intn(256))
			}
		}
	}
	if r.P(1, 3) {
		p.H[0] |= 0x40
	} else if !harmless && p.Op() != opDataOut && p.Op() != opSNACK && r.P(2, 3) {
		s.cmdSN++ // a number of its own
	}
	if r.P(1, 20) {
		p.AHS = make([]byte, 4*r.Pick(1, 3, 63, 255))
		for k := range p.AHS {
			p.AHS[k] = byte(r.Intn(256))
		}
	}
	return p
}

// nearlyRight fills a CDB and returns the parameter list for it, with lengths
// and counts inside that may be off.
func (i *Ini) nearlyRight(r *rt.RNG, kind int, c []byte) []byte {
	const key = 0x1122334455667788
	off := func(n int) int { // a length, perhaps a wrong one
		if r.P(1, 3) {
			return r.Pick(0, 0, 0, 0, 1, 3, 4, 4, 8, 20, 23, 24, 28, n+1, n-1, n+4, n-4, 255, 0x7fff, 0xffff)
		}
		return n
	}
	tid := func() []byte { // a TransportID
		var id []byte
		switch r.Intn(6) {
		case 0:
		case 1:
			id = make([]byte, r.Pick(1, 3, 4, 19, 20, 21, 24, 200))
			for k := range id {
				id[k] = byte(r.Pick('a', 0, ',', 255, r.Intn(256)))
			}
		default:
			name := i.name
			if len(i.w.inis) > 0 && r.P(1, 2) {
				name = i.w.inis[r.Intn(len(i.w.inis))].name
			}
			id = []byte(name + []string{"", ",i,0x" + fmt.Sprintf("%012x", i.isid), ",i,0x", ",i,0xzz", ",", ",i,", ",i,0x1"}[r.Intn(7)])
			for len(id)%4 != 0 || len(id) < 20 {
				id = append(id, 0)
			}
		}
		t := append([]byte{byte(r.Pick(0x45, 0x45, 0x05, 0x45, 0, 0x85, 0x06, 0xff)), 0, 0, 0}, id...)
		put16(t[2:], uint16(off(len(id))))
		if r.P(1, 8) {
			t = t[:r.Intn(len(t)+1)]
		}
		return t
	}
	switch kind {
	case 12: // register
		b := make([]byte, 24)
		c[0], c[1] = 0x5f, byte(r.Pick(6, 6, 6, 6, 0))
		put64(b[8:], key)
		if c[1] == 0 && r.P(1, 2) {
			put64(b, key)
		}
		return b
	case 13: // reserve
		b := make([]byte, 24)
		c[0], c[1], c[2] = 0x5f, 1, byte(r.Pick(1, 3, 5, 6, 5, 3, 1, 7, 8, 15))
		put64(b, key)
		return b
	case 14: // register and move
		b := make([]byte, 24)
		put64(b, uint64(r.Pick(key, key, key, 0)))
		put64(b[8:], uint64(r.Pick(key, 1, 0, 77)))
		b[17] = byte(r.Pick(0, 0, 0, 2, 2, 1, 3))
		put16(b[18:], uint16(r.Pick(1, 1, 2, 0, 65535)))
		t := tid()
		put32(b[20:], uint32(off(len(t))))
		c[0], c[1] = 0x5f, 7
		return append(b, t...)
	case 15: // any other action, with lists of TransportIDs where they may be
		b := make([]byte, 24)
		c[0], c[1], c[2] = 0x5f, byte(r.Intn(9)), byte(r.Intn(256))
		put64(b, uint64(r.Pick(key, key, 0, 5)))
		put64(b[8:], uint64(r.Pick(key, 0, 5)))
		b[20] = byte(r.Pick(0, 8, 1, 4, 12, 255))
		if r.P(1, 2) {
			var l []byte
			for n := r.Intn(4); n > 0; n-- {
				l = append(l, tid()...)
			}
			b = append(b, 0, 0, 0, 0)
			put32(b[24:], uint32(off(len(l))))
			b = append(b, l...)
		}
		return b
	case 16: // unmap
		c[0] = 0x42
		n := r.Pick(0, 1, 2, 5, 20)
		b := make([]byte, 8+16*n)
		put16(b, uint16(off(6+16*n)))
		put16(b[2:], uint16(off(16*n)))
		for k := 0; k < n; k++ {
			d := b[8+16*k:]
			put64(d, uint64(r.Pick(0, 1, 5, 63, 64, 1<<32, 1<<62, -1)))
			put32(d[8:], uint32(r.Pick(0, 1, 3, 64, 65, 1<<31, 1<<32-1)))
		}
		if r.P(1, 5) {
			b = b[:r.Intn(len(b)+1)]
		}
		return b
	default: // mode select
		var b []byte
		if r.P(1, 2) {
			c[0] = 0x15
			b = make([]byte, 4)
			b[3] = byte(off(r.Pick(0, 8)))
		} else {
			c[0] = 0x55
			b = make([]byte, 8)
			put16(b[6:], uint16(off(r.Pick(0, 8))))
		}
		c[1] = byte(r.Pick(0x10, 0x10, 0x11, 0, 1))
		if r.P(1, 3) {
			b = append(b, 0, 0, 0, 64, 0, 0, 2, 0)
		}
		for n := r.Intn(4); n > 0; n-- {
			pg := make([]byte, 2+r.Pick(0, 1, 8, 10, 18, 22, 200))
			pg[0] = byte(r.Pick(8, 0x0a, 2, 1, 0x1c, 0x3f, 0x4a, 0x88, r.Intn(256)))
			pg[1] = byte(off(len(pg) - 2))
			for k := 2; k < len(pg); k++ {
				pg[k] = byte(r.Pick(0, 0, 4, 0x14, 255, r.Intn(256)))
			}
			b = append(b, pg...)
		}
		if r.P(1, 6) {
			b = b[:r.Intn(len(b)+1)]
		}
		return b
	}
}

// mutate changes some bytes of an encoded request.
func mutate(r *rt.RNG, b []byte, n int, harmless bool) []byte {
	for ; n > 0; n-- {
		k := r.Intn(min(len(b), 48))
		if harmless && (k == 0 || k >= 8 && k < 16 || k >= 32) {
			continue
		}
		if k == 5 && !r.P(1, 8) {
			continue
		}
		switch r.Intn(4) {
		case 0:
			b[k] ^= 1 << uint(r.Intn(8))
		case 1:
			b[k] = byte(r.Pick(0, 1, 0x7f, 0x80, 0xff))
		case 2:
			b[k]++
		default:
			b[k] = byte(r.Intn(256))
		}
	}
	if b[0]&0x3f == opSCSI { // keep what a command may make the daemon allocate small
		b[20], b[21] = 0, b[21]&0x0f
	}
	return b
}

func (i *Ini) attack(st *Step) bool {
	w := i.w
	r := rt.NewRNG(uint64(st.Arg))
	switch st.Op {
	case "xconn":
		c, err := w.N.Dial(i.host, iscsiPort)
		if err != nil {
			return true
		}
		i.rc = c
		w.S.Spawn("drain", w.root, func() { drain(c) })
	case "xbytes", "xlogin":
		if i.rc == nil {
			return true
		}
		var b []byte
		if st.Op == "xbytes" {
			b = make([]byte, st.N)
			for k := range b {
				b[k] = byte(r.Intn(256))
			}
			if st.V&1 != 0 && len(b) >= 48 {
				b[0] = byte(r.Pick(0x43, 0x43, 0x03, 0, 0x41, 0x01, 0x45, 0x06))
				b[5] = 0
				b[6] &= 3
				mutate(r, b, 0, false)
			}
		} else {
			b = i.badLogin(r, st)
		}
		if st.Keep > 0 && st.Keep-1 < len(b) {
			b = b[:st.Keep-1]
			w.cover("fault:partial_request")
		}
		i.rc.Write(b)
		w.cover("fault:garbage_before_login")
	case "xpdu":
		s := i.need()
		if s == nil {
			return true
		}
		p := s.basePDU(r, st.V, i.a.Target != tgtWild)
		b := p.Bytes()
		if st.V < 12 {
			b = mutate(r, b, int(st.N), i.a.Target != tgtWild)
		}
		if st.Keep > 0 && st.Keep-1 < len(b) {
			b = b[:st.Keep-1]
			w.cover("fault:partial_request")
		}
		w.cover("fault:mutated_request")
		s.enqueue(&outPDU{raw: b})
	case "xend":
		switch {
		case i.rc == nil:
		case st.V == 0:
			i.rc.Close()
			i.rc = nil
		case st.V == 1:
			i.rc.Abort()
			i.rc = nil
		case st.V == 2:
			i.rc.CloseWrite()
		default: // left open without another byte
			i.rc = nil
			w.cover("fault:silent_peer")
		}
		if i.s != nil && !i.s.gone {
			switch st.V {
			case 0:
				i.hangup("close")
			case 1:
				i.hangup("rst")
			case 2:
				i.s.c.CloseWrite()
			default:
				i.s = nil
				w.cover("fault:silent_peer")
			}
		}
	case "odd":
		i.odd(st)
	default:
		return false
	}
	return true
}

func drain(c *simnet.Conn) {
	b := make([]byte, 4096)
	for {
		if _, err := c.Read(b); err != nil {
			return
		}
	}
}

// badLogin renders a login request with something wrong.
func (i *Ini) badLogin(r *rt.RNG, st *Step) []byte {
	kv := [][2]string{{"InitiatorName", i.name}, {"SessionType", "Normal"}, {"TargetName", tgtWild}}
	p := &PDU{}
	p.H[0] = opLogin | 0x40
	p.H[1] = 0x87
	put16(p.H[8:], uint16(i.isid>>32))
	put32(p.H[10:], uint32(i.isid))
	put32(p.H[16:], uint32(r.Uint64()))
	put32(p.H[24:], uint32(r.Uint64()))
	p.Data = kvText(kv)
	switch st.V {
	case 0: // stages and flags of every kind
		p.H[1] = byte(r.Intn(256))
	case 1:
		p.H[2], p.H[3] = byte(r.Intn(3)), byte(r.Pick(0, 1, 255))
	case 2: // a session handle nobody has, or somebody else's
		put16(p.H[14:], uint16(r.Pick(1, 2, 3, 4, 5, 8, 100, 65535)))
		if r.P(1, 2) {
			p.Data = kvText([][2]string{{"InitiatorName", i.name}, {"SessionType", "Normal"}, {"TargetName", tgt0}})
		}
	case 3: // no name, no target, no such target
		p.Data = kvText(kv[r.Intn(3):][:1])
	case 4:
		p.Data = kvText([][2]string{kv[0], kv[1], {"TargetName", []string{"", "nobody", "iqn.2020-01.org.sim:t", tgt0 + "x"}[r.Intn(4)]}})
	case 5: // text that is no text
		b := make([]byte, r.Pick(1, 2, 3, 7, 300, 4000))
		for k := range b {
			b[k] = byte(r.Pick(0, '=', 'a', 255, 10))
		}
		p.Data = append(p.Data[:r.Pick(0, len(p.Data))], b...)
	case 6: // numbers out of range
		v := []string{"0", "-1", "511", "16777216", "4294967296", "99999999999999999999", "0x200", "abc", "", "Yes"}[r.Intn(10)]
		k := []string{"MaxRecvDataSegmentLength", "MaxBurstLength", "FirstBurstLength", "MaxOutstandingR2T", "ErrorRecoveryLevel", "ImmediateData", "HeaderDigest", "AuthMethod"}[r.Intn(8)]
		p.Data = kvText(append(kv, [2]string{k, v}))
	case 7: // keys without end
		for len(p.Data) < 8000 {
			p.Data = append(p.Data, kvText([][2]string{{fmt.Sprintf("X-key%d", r.Intn(1000)), "v"}})...)
		}
	case 8:
		return mutate(r, p.Bytes(), 1+int(st.N), false)
	case 9: // a session type that does not exist
		p.Data = kvText([][2]string{kv[0], {"SessionType", []string{"", "normal", "Other", "Discovery"}[r.Intn(4)]}, kv[2]})
	case 10: // security first, then nonsense
		p.H[1] = 0x81
		p.Data = kvText(append(kv, [2]string{"AuthMethod", []string{"CHAP", "KRB5,CHAP", "", "none"}[r.Intn(4)]}))
	case 11: // a request that is never completed by the next ones
		p.H[1] = byte(r.Pick(0x04, 0x44, 0x40, 0x00))
	}
	if r.P(1, 10) {
		p.AHS = make([]byte, 4*r.Pick(1, 2, 255))
	}
	b := p.Bytes()
	if r.P(1, 10) {
		b = append(b, b...) // and again without waiting
	}
	return b
}

// odds are complete requests a target cannot serve, or need not: each must
// be answered, rejected or end the connection.
var odds = []struct {
	name string
	make func(r *rt.RNG, s *Sess, p *PDU)
}{
	{"vendor opcode", func(r *rt.RNG, s *Sess, p *PDU) { p.H[0] = byte(r.Pick(0x1c, 0x1d, 0x1e)) }},
	{"unknown opcode", func(r *rt.RNG, s *Sess, p *PDU) { p.H[0] = byte(r.Pick(0x07, 0x08, 0x0f, 0x11, 0x1b, 0x1f)) }},
	{"target opcode", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = byte(r.Pick(0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x31, 0x32, 0x3f))
	}},
	{"SNACK request", func(r *rt.RNG, s *Sess, p *PDU) { p.H[0] = opSNACK; p.H[1] |= byte(r.Intn(4)); put32(p.H[20:], noTag) }},
	{"login in full feature phase", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opLogin
		p.H[1] = 0x87
		p.Data = kvText([][2]string{{"InitiatorName", s.i.name}, {"TargetName", s.i.t.Name}})
	}},
	{"unknown task management function", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opTMF
		p.H[1] |= byte(r.Pick(0, 9, 10, 14, 15, 100, 127))
		put32(p.H[20:], noTag)
	}},
	{"task management for a LUN without a unit", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opTMF
		p.H[1] |= byte(r.Pick(1, 2, 3, 4, 5))
		l := lunBytes(r.Pick(77, 255, 300, 16383))
		copy(p.H[8:], l[:])
		put32(p.H[20:], noTag)
	}},
	{"text request with unknown keys", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opText
		put32(p.H[20:], noTag)
		p.Data = kvText([][2]string{{"X-foo", "1"}, {"Bar", ""}, {"MaxBurstLength", "1"}}[:1+r.Intn(3)])
	}},
	{"text request with malformed text", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opText
		put32(p.H[20:], noTag)
		p.Data = []byte([]string{"SendTargets", "=", "\x00\x00=\x00", "SendTargets=", "a=b"}[r.Intn(5)])
	}},
	{"text request with a transfer tag nobody gave", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opText
		put32(p.H[20:], uint32(r.Pick(0, 1, 77)))
	}},
	{"text request without final bit", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opText
		p.H[1] = byte(r.Pick(0, 0x40))
		put32(p.H[20:], noTag)
		p.Data = []byte("SendTargets=")
	}},
	{"logout with another reason", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opLogout
		p.H[1] |= byte(r.Pick(1, 2, 3, 50))
		put16(p.H[20:], uint16(r.Pick(0, 7, 65535)))
	}},
	{"ping with a LUN and a transfer tag", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opNopOut
		l := lunBytes(r.Pick(1, 77))
		copy(p.H[8:], l[:])
		put32(p.H[20:], uint32(r.Pick(0, 5, 99)))
		p.Data = make([]byte, r.Intn(10))
	}},
	{"ping longer than a data segment may be", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opNopOut
		put32(p.H[20:], noTag)
		p.Data = make([]byte, s.lim.TgtMRDSL+r.Pick(1, 100, 70000))
	}},
	{"SCSI command with an unknown operation", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opSCSI
		p.H[1] |= byte(r.Pick(0, 0x40, 0x20))
		if p.H[1]&0x60 != 0 {
			put32(p.H[20:], uint32(r.Pick(0, 512, 4096)))
		}
		p.H[32] = byte(r.Pick(0xc0, 0xff, 0x02, 0x7f, 0x89, 0x9c, 0x53, 0xa3, 0x9f))
	}},
	{"bidirectional SCSI command", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opSCSI
		p.H[1] |= 0x60
		put32(p.H[20:], 512)
		copy(p.H[32:], cdbRW([]string{"read", "write"}[r.Intn(2)], 10, 0, 1, 0))
	}},
	{"write without the write flag", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opSCSI
		p.H[1] |= byte(r.Pick(0, 0x40))
		put32(p.H[20:], uint32(r.Pick(0, 512)))
		copy(p.H[32:], cdbRW("write", 10, 0, 1, 0))
	}},
	{"read without the read flag", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opSCSI
		put32(p.H[20:], uint32(r.Pick(0, 512)))
		copy(p.H[32:], cdbRW("read", 10, 0, 1, 0))
	}},
	{"SCSI command with immediate data beyond its expected length", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opSCSI
		p.H[1] |= 0x20
		put32(p.H[20:], 512)
		p.Data = make([]byte, r.Pick(513, 1024, 8192))
		copy(p.H[32:], cdbRW("write", 10, 0, 1, 0))
	}},
	{"read with data attached", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opSCSI
		p.H[1] |= 0x40
		put32(p.H[20:], 512)
		p.Data = make([]byte, 512)
		copy(p.H[32:], cdbRW("read", 10, 0, 1, 0))
	}},
	{"SCSI command with additional header segments", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opSCSI
		p.H[1] |= 0x40
		put32(p.H[20:], 512)
		copy(p.H[32:], cdbRW("read", 10, 0, 1, 0))
		p.AHS = make([]byte, 4*r.Pick(1, 2, 5, 255))
		for k := range p.AHS {
			p.AHS[k] = byte(r.Intn(256))
		}
	}},
	{"SCSI command of unknown task attribute", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opSCSI
		p.H[1] |= byte(r.Pick(5, 6, 7, 4))
	}},
	{"SCSI command with an unusual LUN format", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opSCSI
		for k := 8; k < 16; k++ {
			p.H[k] = byte(r.Pick(0, 0xc1, 0x80, 0xff, 0x40, 1))
		}
		if r.P(1, 2) {
			p.H[1] |= 0x40
			put32(p.H[20:], 96)
			p.H[32], p.H[36] = 0x12, 96
		}
	}},
	{"parameter list shorter than its header", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opSCSI
		p.H[1] |= 0x20
		op, n := byte(r.Pick(0x42, 0x55, 0x5f, 0x15)), r.Intn(24)
		p.H[32] = op
		switch op {
		case 0x15:
			p.H[36] = byte(n)
		case 0x5f:
			p.H[33] = byte(r.Intn(8))
			p.H[40] = byte(r.Pick(n, 24))
		default:
			p.H[40] = byte(n)
		}
		put32(p.H[20:], uint32(n))
		p.Data = make([]byte, n)
		for k := range p.Data {
			p.Data[k] = byte(r.Intn(256))
		}
	}},
	{"SCSI command with data nobody wants", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opSCSI
		p.H[1] |= 0x20
		put32(p.H[20:], 1024)
		p.Data = make([]byte, r.Pick(512, 1024))
		copy(p.H[32:], cdbRW("write", 10, 0, 2, 0))
	}},
	{"write whose data does not fit", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opSCSI
		p.H[1] |= 0x20
		n := r.Pick(2, 8, 64)
		put32(p.H[20:], uint32(n*512))
		copy(p.H[32:], cdbRW("write", 10, 0, uint32(n), 0))
	}},
	{"variable length CDB", func(r *rt.RNG, s *Sess, p *PDU) {
		p.H[0] = opSCSI
		p.H[32], p.H[39] = 0x7f, byte(r.Pick(24, 8, 255))
		put16(p.H[40:], uint16(r.Pick(9, 11, 13)))
	}},
}

// odd sends such a request on a session of its own and waits for the outcome.
func (i *Ini) odd(st *Step) {
	w := i.w
	if i.s != nil && !i.s.gone && !i.s.closing && i.s.odd {
		i.hangup("close")
	}
	s := i.need()
	if s == nil {
		if !w.down && !w.daemon.Dead && !w.S.Deadlock {
			w.fail("login", "%s: no session could be established", i.a.Name)
		}
		return
	}
	r := rt.NewRNG(uint64(st.Arg))
	o := odds[st.V%len(odds)]
	c := &Cmd{kind: "odd", imm: st.I, keep: -1, what: "request: " + o.name, want: wantAny, rd: true, wr: true, edtl: 1 << 20, tlen: -1}
	w.register(c)
	c.s, c.i = s, i
	if !s.assign(c) {
		return
	}
	p := &PDU{}
	p.H[1] = 0x80
	put32(p.H[16:], c.itt)
	put32(p.H[24:], c.sn)
	put32(p.H[28:], s.statSN+1)
	o.make(r, s, p)
	if c.imm {
		p.H[0] |= 0x40
	}
	s.odd = true
	s.enqueue(&outPDU{p: p, c: c})
	w.cover("odd_requests")
	for t := w.S.Now() + hangAfter; !c.done && !s.gone && c.r2tN == 0 && len(c.rdata) == 0; {
		if w.S.Deadlock || w.S.Now() >= t {
			if !w.down && !w.S.Capped {
				w.fail("hang", "%s: no answer, no reject and no end of the connection %d s after a %s (header %x)", i.a.Name, hangAfter/1e9, o.name, p.H)
			}
			s.end("hang")
			return
		}
		s.wl.WaitFor("outcome", t-w.S.Now())
	}
	switch {
	case s.gone:
		w.cover("odd_closed")
		return
	case c.r2tN > 0 && !c.done:
		w.cover("odd_continued")
		for n := r.Range(1, 3); n > 0 && !s.gone; n-- {
			s.enqueue(&outPDU{raw: badData(r, c, be32(p.H[20:]))})
			w.cover("fault:wrong_data_out")
			if r.P(1, 2) {
				sleep(int64(r.Intn(200000)))
			}
		}
		if s.gone {
			return
		}
	case !c.done:
		w.cover("odd_continued")
		return
	case c.rsp >= 0x100:
		w.cover("odd_rejected")
	default:
		w.cover("odd_answered")
	}
	// the connection is open, so it works
	n := s.nop(nil, true, 0)
	for t := w.S.Now() + hangAfter; !n.done && !s.gone; {
		if w.S.Deadlock || w.S.Now() >= t {
			if !w.down && !w.S.Capped {
				w.fail("hang", "%s: the connection stays open after a %s but a ping is not answered", i.a.Name, o.name)
			}
			s.end("hang")
			return
		}
		s.wl.WaitFor("ping", t-w.S.Now())
	}
}

// badData is a Data-Out for the command with something wrong in it.
func badData(r *rt.RNG, c *Cmd, total uint32) []byte {
	d := &PDU{}
	d.H[0] = opDataOut
	d.H[1] = byte(r.Pick(0x80, 0x80, 0))
	put32(d.H[16:], c.itt)
	put32(d.H[20:], c.ttt)
	n := min(total, uint32(r.Pick(0, 1, 4, 512, 513, 1024, 4096)))
	switch r.Intn(8) {
	case 0: // not where it belongs
		put32(d.H[40:], uint32(r.Pick(1, 512, 4096, int(total), int(total)-1, 1<<31, 1<<32-1, 1<<32-512)))
	case 1: // more than there is room for
		n = total + uint32(r.Pick(1, 4, 512, 8192))
	case 2: // in answer to nothing
		put32(d.H[20:], uint32(r.Pick(0, 77, noTag, int(c.ttt)+1)))
	case 3: // of another command
		put32(d.H[16:], uint32(r.Pick(0, 77, noTag, int(c.itt)+1)))
	case 4: // out of order
		put32(d.H[36:], uint32(r.Pick(1, 5, 1<<31, 1<<32-1)))
	case 5: // for another unit
		l := lunBytes(r.Pick(1, 77, 300))
		copy(d.H[8:], l[:])
	case 6: // nothing at all
		n = 0
	case 7: // the last of it too early
		d.H[1] = 0x80
		n = min(n, total/2)
	}
	d.Data = make([]byte, n)
	if r.P(1, 10) {
		d.AHS = make([]byte, 4*r.Pick(1, 3))
	}
	return d.Bytes()
}

func runHostile(w *World) {
	w.stepHook = func(i *Ini, st *Step) bool { return i.attack(st) }
	for _, lu := range w.LUs {
		if lu.Dev >= 2000 { // the attackers' own unit is not judged
			for b := uint64(0); b < lu.Blocks; b++ {
				lu.taint[b] = true
			}
		}
	}
	if !w.boot() {
		w.fail("boot", "the daemon does not start: %v", w.x["booterr"])
		return
	}
	var fns []func()
	for k := range w.P.Actors {
		i := w.newIni(&w.P.Actors[k])
		fns = append(fns, i.run)
	}
	fns = append(fns, func() {})
	w.tasksThen(fns, func() {
		// whatever happened, new initiators can log in
		for k := range w.P.Setup.Targets {
			t := &w.P.Setup.Targets[k]
			i := w.newIni(&Actor{Kind: "ini", Name: fmt.Sprintf("iqn.2020-01.org.sim:late%d", k), Target: t.Name})
			if k == 0 {
				i.step(&Step{Op: "read", N: 1, V: 10})
			} else {
				i.step(&Step{Op: "tur", Want: wantAny})
			}
		}
	})
}

// tasksThen runs the actors, then last, then ends the run.
func (w *World) tasksThen(fns []func(), last func()) {
	left := len(fns)
	var wl rt.WaitList
	var all []func()
	for _, f := range fns {
		f := f
		all = append(all, func() { f(); left--; wl.WakeAll() })
	}
	all = append(all, func() {
		for left > 0 && !w.S.Deadlock {
			wl.WaitFor("the others", 1e9)
		}
		last()
	})
	w.finish(all)
}

func init() {
	addProp(&Prop{id: "C10", tags: []string{"hang", "connlost", "lin", "never", "login", "status", "answer", "statsn", "boot", "din", "otherfile"}, run: runHostile,
		rule: "1 to 3 attackers send random bytes, malformed and unfinished logins, mutated requests of every opcode, parameter lists whose inner lengths are off (persistent reservations with keys that fit, UNMAP, MODE SELECT), stray Data-Out, oversized segments and 27 kinds of complete requests, some with wrong Data-Outs behind them, that cannot be served, and stop, reset, stall or refuse to read at arbitrary bytes, beside 1 or 2 well-behaved initiators whose every answer and block is judged; then new initiators log in.",
		gen: func(r *rt.RNG, p *Plan) {
			oneTarget(p, Storage{Blocks: uint64(r.Range(32, 100)), BShift: genShift(r)})
			p.Setup.Targets = append(p.Setup.Targets, Target{Name: tgtWild, TPGTs: map[string][]int{"1": {0}}, LUNs: map[string]int{"0": 2000}})
			p.Setup.Storages = append(p.Setup.Storages, Storage{Dev: 2000, Blocks: 64, Thin: r.P(1, 2)})
			for k := r.Range(1, 2); k > 0; k-- {
				a := Actor{Kind: "ini", Target: tgt0, Depth: r.Pick(1, 2, 4), Keys: genKeys(r), SN0: uint32(r.Uint64())}
				for n := r.Range(4, 15); n > 0; n-- {
					s := rwStep(r, 0, p.Setup.Storages[0].Blocks, 8, 8)
					s.Async = r.P(1, 2)
					if r.P(1, 3) {
						s.Gap = int64(r.Intn(2000000))
					}
					if r.P(1, 12) {
						a.Steps = append(a.Steps, Step{Op: []string{"logout", "close"}[r.Intn(2)]})
					}
					a.Steps = append(a.Steps, s)
				}
				p.Actors = append(p.Actors, a)
			}
			for k := r.Range(1, 3); k > 0; k-- {
				a := Actor{Kind: "raw", Lax: true, Target: tgtWild, Depth: 8, SN0: uint32(r.Uint64()), Start: int64(r.Intn(500000))}
				kind := r.Intn(5)
				if r.P(1, 2) {
					a.Keys = genKeys(r)
				}
				if kind == 3 {
					a.Target = []string{tgtWild, tgt0}[r.Intn(2)]
				}
				if kind == 4 {
					for _, v := range []int{12, 13} {
						if r.P(7, 8) {
							a.Steps = append(a.Steps, Step{Op: "xpdu", V: v, Arg: int64(r.Uint64() >> 1)})
						}
					}
				}
				cut := func() int {
					if r.P(1, 4) {
						return 1 + r.Pick(0, 1, 5, 8, 47, 48, 49, 60, 100)
					}
					return 0
				}
				for n := r.Range(2, 14); n > 0; n-- {
					seed := int64(r.Uint64() >> 1)
					switch kind {
					case 0: // before login
						if r.P(1, 2) || len(a.Steps) == 0 {
							a.Steps = append(a.Steps, Step{Op: "xconn"})
						}
						if r.P(1, 3) {
							a.Steps = append(a.Steps, Step{Op: "xbytes", Arg: seed, N: uint32(r.Pick(1, 10, 47, 48, 49, 100, 500, 5000)), V: r.Intn(2), Keep: cut()})
						} else {
							a.Steps = append(a.Steps, Step{Op: "xlogin", Arg: seed, V: r.Intn(12), N: uint32(r.Intn(6)), Keep: cut()})
						}
						if r.P(1, 3) {
							a.Steps = append(a.Steps, Step{Op: "xend", V: r.Intn(4)})
						}
					case 1: // complete requests that cannot be served
						a.Steps = append(a.Steps, Step{Op: "odd", V: r.Intn(len(odds)), Arg: seed, I: r.P(1, 3)})
					case 4:
						s := Step{Op: "xpdu", V: r.Pick(12, 13, 14, 14, 14, 15, 15, 16, 16, 17, 17), Arg: seed}
						if r.P(1, 10) {
							s.Keep = cut()
						}
						a.Steps = append(a.Steps, s)
					default:
						a.Steps = append(a.Steps, Step{Op: "xpdu", V: r.Intn(12), Arg: seed, N: uint32(r.Pick(0, 0, 1, 2, 5)), Keep: cut()})
						switch r.Intn(12) {
						case 0, 1:
							a.Steps = append(a.Steps, Step{Op: "xend", V: r.Intn(4)})
						case 2:
							a.Steps = append(a.Steps, Step{Op: "noread", Arg: int64(r.Pick(1e6, 1e9, 3600e9))})
						case 3:
							a.Steps = append(a.Steps, Step{Op: "stall", V: r.Intn(3), Arg: int64(r.Pick(1e6, 1e9))})
						case 4:
							a.Steps = append(a.Steps, Step{Op: "cut", Arg: int64(r.Intn(200)), V: r.Intn(4)})
						case 5, 6:
							s := rwStep(r, 0, 64, 16, 16)
							s.Async = true
							if a.Target == tgt0 {
								s.Op = "read"
							}
							s.Keep = r.Pick(0, 1, 513)
							a.Steps = append(a.Steps, s)
						}
					}
					if r.P(1, 3) {
						a.Steps[len(a.Steps)-1].Gap = int64(r.Intn(300000))
					}
				}
				p.Actors = append(p.Actors, a)
			}
		}})
}
