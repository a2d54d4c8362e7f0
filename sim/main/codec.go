//go:build go1.25

package main

import (
	"encoding/binary"
	"fmt"
	"strings"
)

// iSCSI opcodes.
const (
	opNopOut   = 0x00
	opSCSI     = 0x01
	opTMF      = 0x02
	opLogin    = 0x03
	opText     = 0x04
	opDataOut  = 0x05
	opLogout   = 0x06
	opSNACK    = 0x10
	opNopIn    = 0x20
	opSCSIRsp  = 0x21
	opTMFRsp   = 0x22
	opLoginRsp = 0x23
	opTextRsp  = 0x24
	opDataIn   = 0x25
	opLogoutRs = 0x26
	opR2T      = 0x31
	opAsync    = 0x32
	opReject   = 0x3f
)

var opNames = map[int]string{opNopIn: "NOP-In", opSCSIRsp: "SCSI-Response", opTMFRsp: "TMF-Response", opLoginRsp: "Login-Response",
	opTextRsp: "Text-Response", opDataIn: "Data-In", opLogoutRs: "Logout-Response", opR2T: "R2T", opAsync: "Async", opReject: "Reject"}

const noTag = 0xffffffff

// PDU is one protocol data unit.
type PDU struct {
	H    [48]byte
	AHS  []byte
	Data []byte
}

func be16(b []byte) uint16      { return binary.BigEndian.Uint16(b) }
func be32(b []byte) uint32      { return binary.BigEndian.Uint32(b) }
func be64(b []byte) uint64      { return binary.BigEndian.Uint64(b) }
func put16(b []byte, v uint16)  { binary.BigEndian.PutUint16(b, v) }
func put32(b []byte, v uint32)  { binary.BigEndian.PutUint32(b, v) }
func put64(b []byte, v uint64)  { binary.BigEndian.PutUint64(b, v) }
func put24(b []byte, v int)     { b[0], b[1], b[2] = byte(v>>16), byte(v>>8), byte(v) }
func be24(b []byte) int         { return int(b[0])<<16 | int(b[1])<<8 | int(b[2]) }
func (p *PDU) Op() int          { return int(p.H[0] & 0x3f) }
func (p *PDU) Flags() byte      { return p.H[1] }
func (p *PDU) Final() bool      { return p.H[1]&0x80 != 0 }
func (p *PDU) ITT() uint32      { return be32(p.H[16:]) }
func (p *PDU) TTT() uint32      { return be32(p.H[20:]) }
func (p *PDU) StatSN() uint32   { return be32(p.H[24:]) }
func (p *PDU) ExpCmdSN() uint32 { return be32(p.H[28:]) }
func (p *PDU) MaxCmdSN() uint32 { return be32(p.H[32:]) }
func (p *PDU) W36() uint32      { return be32(p.H[36:]) }
func (p *PDU) W40() uint32      { return be32(p.H[40:]) }
func (p *PDU) W44() uint32      { return be32(p.H[44:]) }
func (p *PDU) Name() string {
	if n := opNames[p.Op()]; n != "" {
		return n
	}
	return fmt.Sprintf("opcode 0x%02x", p.Op())
}

// Bytes encodes the PDU, setting the length fields.
func (p *PDU) Bytes() []byte {
	p.H[4] = byte(len(p.AHS) / 4)
	put24(p.H[5:], len(p.Data))
	n := 48 + len(p.AHS) + (len(p.Data)+3)&^3
	b := make([]byte, n)
	copy(b, p.H[:])
	copy(b[48:], p.AHS)
	copy(b[48+len(p.AHS):], p.Data)
	return b
}

// snLess compares serial numbers (RFC 1982).
func snLess(a, b uint32) bool { return a != b && int32(b-a) > 0 }
func snLE(a, b uint32) bool   { return a == b || int32(b-a) > 0 }

// lunBytes encodes a logical unit number as REPORT LUNS would list it.
func lunBytes(l int) (b [8]byte) {
	if l < 256 {
		b[1] = byte(l)
	} else {
		b[0] = 0x40 | byte(l>>8)
		b[1] = byte(l)
	}
	return
}

func lunOf(b []byte) int {
	switch b[0] >> 6 {
	case 0:
		return int(b[1])
	case 1:
		return int(b[0]&0x3f)<<8 | int(b[1])
	}
	return -1
}

func kvText(kv [][2]string) []byte {
	var b []byte
	for _, x := range kv {
		b = append(b, x[0]...)
		b = append(b, '=')
		b = append(b, x[1]...)
		b = append(b, 0)
	}
	return b
}

// parseKV splits text keys; ok is false when the text is malformed.
func parseKV(b []byte) (out [][2]string, ok bool) {
	ok = true
	for len(b) > 0 {
		i := 0
		for i < len(b) && b[i] != 0 {
			i++
		}
		if i == len(b) {
			ok = false
		}
		s := string(b[:i])
		if i < len(b) {
			b = b[i+1:]
		} else {
			b = nil
		}
		if s == "" {
			continue
		}
		j := -1
		for k := range s {
			if s[k] == '=' {
				j = k
				break
			}
		}
		if j < 0 {
			ok = false
			continue
		}
		out = append(out, [2]string{s[:j], s[j+1:]})
	}
	return
}

// ---- command descriptor blocks ----

func cdbRW(kind string, v int, lba uint64, n uint32, flags byte) []byte {
	c := make([]byte, 16)
	ops := map[string][4]byte{
		"read": {0x08, 0x28, 0xa8, 0x88}, "write": {0x0a, 0x2a, 0xaa, 0x8a}, "wverify": {0, 0x2e, 0xae, 0x8e},
		"verify": {0, 0x2f, 0xaf, 0x8f}, "wsame": {0, 0x41, 0, 0x93}, "sync": {0, 0x35, 0, 0x91}, "prefetch": {0, 0x34, 0, 0x90},
		"orwrite": {0, 0, 0, 0x8b},
	}
	o := ops[kind]
	k := map[int]int{6: 0, 10: 1, 12: 2, 16: 3}[v]
	if o[k] == 0 && !(kind == "x") {
		k = 3
		v = 16
		if o[k] == 0 {
			k, v = 1, 10
		}
	}
	c[0] = o[k]
	switch v {
	case 6:
		c[1] = byte(lba>>16) & 0x1f
		c[2], c[3] = byte(lba>>8), byte(lba)
		c[4] = byte(n)
	case 10:
		c[1] = flags
		put32(c[2:], uint32(lba))
		put16(c[7:], uint16(n))
	case 12:
		c[1] = flags
		put32(c[2:], uint32(lba))
		put32(c[6:], n)
	case 16:
		c[1] = flags
		put64(c[2:], lba)
		put32(c[10:], n)
	}
	return c
}

// cdbVar picks a CDB size able to address the range.
func cdbVar(kind string, v int, lba uint64, n uint32) int {
	has := map[string][]int{"read": {6, 10, 12, 16}, "write": {6, 10, 12, 16}, "wverify": {10, 12, 16}, "verify": {10, 12, 16},
		"wsame": {10, 16}, "sync": {10, 16}, "prefetch": {10, 16}, "orwrite": {16}}[kind]
	ok := func(v int) bool {
		for _, h := range has {
			if h == v {
				switch v {
				case 6:
					return lba < 1<<21 && n >= 1 && n <= 256
				case 10:
					return lba < 1<<32 && n < 1<<16
				case 12:
					return lba < 1<<32
				}
				return true
			}
		}
		return false
	}
	if ok(v) {
		return v
	}
	for _, x := range []int{10, 16} {
		if ok(x) {
			return x
		}
	}
	return 16
}

func splitComma(s string) []string { return strings.Split(s, ",") }
