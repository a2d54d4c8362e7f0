//go:build go1.25

package main

import (
	"fmt"
	"sort"
)

// mrec is one access to one block: a write of the value id, or a read that
// saw it.
type mrec struct {
	id       uint64
	w        bool
	opt      bool // may or may not have taken effect
	inv, ret int64
	who      *Cmd
}

func (w *World) rec(lu *LU, lba uint64, r mrec) { lu.hist[lba] = append(lu.hist[lba], r) }

// span is the interval in which the command can have taken effect.
func (c *Cmd) span() (inv, ret int64, certain, none bool) {
	if c.inv == 0 {
		return 0, 0, false, true
	}
	if c.s != nil && c.s.replacedAt > 0 {
		// its session has been replaced by a login that ended then
		t := c.s.replacedAt
		if c.inv > t {
			return 0, 0, false, true
		}
		defer func() { ret = min(ret, t) }()
	}
	if !c.done {
		if c.bound > 0 {
			return c.inv, c.bound, false, false
		}
		return c.inv, inf, false, false
	}
	switch {
	case c.rsp != 0 || c.status < 0:
		return c.inv, c.ret, false, false
	case c.status == stGood:
		return c.inv, c.ret, true, false
	case c.status == stConflict, c.status == stCheck && c.key == 5:
		return c.inv, c.ret, false, true
	}
	return c.inv, c.ret, false, false
}

// settle enters a finished or lost command into the histories and judges its
// outcome.
func (w *World) settle(c *Cmd) {
	if c.judged {
		return
	}
	c.judged = true
	if w.onDone != nil {
		w.onDone(c)
	}
	if c.inv == 0 {
		return
	}
	if c.noAns && c.op > 0 {
		w.never[c.op] = c
		return
	}
	if c.done && c.cdb != nil {
		w.judge(c)
	}
	lu := c.lu
	if lu == nil {
		if c.op > 0 {
			w.never[c.op] = c
		}
		return
	}
	if w.noLin {
		return
	}
	if c.bits {
		w.bitSettle(c)
		return
	}
	inv, ret, certain, none := c.span()
	certain = certain && !c.maybe
	switch c.kind {
	case "write", "wverify", "wsame":
		if none {
			w.never[c.op] = c
			return
		}
		for k, id := range c.vals {
			w.rec(lu, c.lba+uint64(k), mrec{id: id, w: true, opt: !certain, inv: inv, ret: ret, who: c})
		}
		if c.kind == "wverify" && c.done && c.status == stCheck && c.key == 0xe {
			w.misms = append(w.misms, c)
		}
		for _, d := range c.ranges {
			for k := uint64(0); k < d[1] && k < 1<<16; k++ {
				lu.zeroOK[d[0]+k] = true
			}
		}
		if c.part {
			lu.taint[c.lba+uint64(len(c.vals))] = true
		}
		if certain && (c.fua || c.kind == "wsync") {
			w.syncs = append(w.syncs, c)
		}
	case "read":
		if !certain || c.i.a.Kind == "raw" { // an attacker's own tags may be mixed up
			return
		}
		for k := 0; (k+1)*lu.BS <= c.inN && (k+1)*lu.BS <= len(c.in) && uint64(k) < uint64(c.n); k++ {
			w.sighting(lu, c.lba+uint64(k), c.in[k*lu.BS:(k+1)*lu.BS], c.inv, c.ret, c)
		}
	case "verify":
		if c.vals == nil || c.i.a.Kind == "raw" {
			return
		}
		if certain {
			for k, id := range c.vals {
				w.rec(lu, c.lba+uint64(k), mrec{id: id, inv: c.inv, ret: c.ret, who: c})
			}
		} else if c.done && c.status == stCheck && c.key == 0xe {
			w.misms = append(w.misms, c)
		}
	case "sync":
		if certain {
			w.syncs = append(w.syncs, c)
		}
	case "unmap":
		if certain || !none {
			for _, d := range c.ranges {
				for k := uint64(0); k < d[1] && k < 1<<16; k++ {
					lu.zeroOK[d[0]+k] = true
				}
			}
		}
	}
}

// sighting enters one block somebody saw.
func (w *World) sighting(lu *LU, lba uint64, b []byte, inv, ret int64, c *Cmd) {
	if lu.taint[lba] {
		return
	}
	id, ok, torn := readBlock(b)
	who := "the medium"
	if c != nil {
		who = c.i.a.Name + " " + c.what
	}
	if !ok {
		if torn {
			w.fail("lin", "%s: block %d of device %d mixes sectors of different writes", who, lba, lu.Dev)
		} else {
			w.fail("lin", "%s: block %d of device %d holds bytes nobody wrote (%x...)", who, lba, lu.Dev, b[:16])
		}
		return
	}
	if id == 0 && lu.zeroOK[lba] {
		return
	}
	w.rec(lu, lba, mrec{id: id, inv: inv, ret: ret, who: c})
}

func (w *World) medium(lu *LU, lba uint64, b []byte) bool {
	off := int64(lba) * int64(lu.BS)
	if lu.Remote {
		return off+int64(len(b)) <= int64(len(lu.mem)) && copy(b, lu.mem[off:]) == len(b)
	}
	if lu.Have >= 0 {
		clear(b)
		w.D.ReadRaw(lu.Path, b, off)
		return true
	}
	return w.D.ReadRaw(lu.Path, b, off) == len(b)
}

// probe looks at a block of the medium right now.
func (w *World) probe(lu *LU, lba uint64) {
	b := make([]byte, lu.BS)
	if !w.medium(lu, lba, b) {
		w.fail("lin", "block %d of device %d is gone from the medium", lba, lu.Dev)
		return
	}
	t := w.tick()
	w.sighting(lu, lba, b, t, t, nil)
}

func (lu *LU) initial(lba uint64) uint64 {
	if v, ok := lu.base[lba]; ok {
		return v
	}
	if lu.Sparse || lu.Have >= 0 && !lu.Remote && int64(lba)*int64(lu.BS) >= lu.Have {
		return 0
	}
	return initID(lu.Tag, lba)
}

type zone struct {
	id   uint64
	f, s int64
	wr   *mrec
	n    int
}

func describe(id uint64, w *World) string {
	if id == 0 {
		return "zeros"
	}
	if id&initBit != 0 {
		return fmt.Sprintf("the initial data of block %d, device %d", id&(1<<40-1), id&^initBit>>40)
	}
	op := idOp(id)
	if op > 0 && op < len(w.ops) {
		c := w.ops[op]
		n := "?"
		if c.i != nil {
			n = c.i.a.Name
		}
		return fmt.Sprintf("block %d of %s %s [%d..%d]", id&0xffffff, n, c.what, c.inv, c.ret)
	}
	return fmt.Sprintf("id %x", id)
}

// checkLin decides whether the accesses to every block can be explained by one
// order of atomic operations.
func (w *World) checkLin() {
	for _, lu := range w.LUs {
		for _, lba := range sortedKeys(lu.hist) {
			if lu.taint[lba] {
				continue
			}
			w.linBlock(lu, lba)
		}
	}
	w.checkMisms()
	w.misms = nil
	w.checkBits()
}

func (w *World) linBlock(lu *LU, lba uint64) {
	h := lu.hist[lba]
	zs := map[uint64]*zone{}
	var order []uint64
	init := lu.initial(lba)
	zs[init] = &zone{id: init, f: w.epoch0, s: w.epoch0}
	order = append(order, init)
	for k := range h {
		r := &h[k]
		if r.w {
			zs[r.id] = &zone{id: r.id, f: r.ret, s: r.inv, wr: r}
			order = append(order, r.id)
		}
	}
	for k := range h {
		r := &h[k]
		if r.w {
			continue
		}
		who := "the medium"
		if r.who != nil {
			who = fmt.Sprintf("%s %s [%d..%d]", r.who.i.a.Name, r.who.what, r.inv, r.ret)
		}
		z := zs[r.id]
		if z == nil {
			op := idOp(r.id)
			if r.id&initBit == 0 && w.never[op] != nil {
				w.fail("never", "block %d of device %d: %s shows %s, a command refused with %v", lba, lu.Dev, who, describe(r.id, w), w.never[op])
			} else {
				w.fail("lin", "block %d of device %d: %s shows %s, which was not written there", lba, lu.Dev, who, describe(r.id, w))
			}
			return
		}
		if z.wr != nil && r.ret < z.wr.inv {
			w.fail("lin", "block %d of device %d: %s shows %s before it was sent", lba, lu.Dev, who, describe(r.id, w))
			return
		}
		z.n++
		if r.ret < z.f {
			z.f = r.ret
		}
		if r.inv > z.s {
			z.s = r.inv
		}
	}
	var fw, bw []*zone
	for _, id := range order {
		z := zs[id]
		if z.wr != nil && z.wr.opt && z.n == 0 {
			continue // not known to have happened
		}
		if z.f < z.s {
			fw = append(fw, z)
		} else {
			bw = append(bw, z)
		}
	}
	sort.SliceStable(fw, func(a, b int) bool { return fw[a].f < fw[b].f })
	for k := 1; k < len(fw); k++ {
		if fw[k].f < fw[k-1].s {
			w.fail("lin", "block %d of device %d: no order explains the results: %s was current from %d to %d at least, %s from %d to %d%s",
				lba, lu.Dev, describe(fw[k-1].id, w), fw[k-1].f, fw[k-1].s, describe(fw[k].id, w), fw[k].f, fw[k].s, w.blockHist(lu, lba))
			return
		}
	}
	for _, b := range bw {
		// the zone that could contain it is the last one starting before it
		k := sort.Search(len(fw), func(k int) bool { return fw[k].f >= b.s })
		if k > 0 && fw[k-1].s > b.f {
			w.fail("lin", "block %d of device %d: %s took effect between %d and %d, but %s was current from %d to %d%s",
				lba, lu.Dev, describe(b.id, w), b.s, b.f, describe(fw[k-1].id, w), fw[k-1].f, fw[k-1].s, w.blockHist(lu, lba))
			return
		}
	}
}

func (w *World) blockHist(lu *LU, lba uint64) string {
	if !verbose {
		return ""
	}
	s := ""
	for _, r := range lu.hist[lba] {
		k := "R"
		if r.w {
			k = "W"
		}
		s += fmt.Sprintf("\n    %s [%d..%d] %s", k, r.inv, r.ret, describe(r.id, w))
	}
	return s
}

// checkMisms flags a MISCOMPARE of data that was on the medium all the time.
func (w *World) checkMisms() {
	for _, c := range w.misms {
		equal := true
		for k, id := range c.vals {
			if c.kind == "wverify" {
				equal = equal && w.undisturbed(c.lu, c.lba+uint64(k), c)
			} else if !w.provably(c.lu, c.lba+uint64(k), id, c.inv, c.ret) {
				equal = false
				break
			}
		}
		if equal {
			w.fail("lin", "%s %s [%d..%d] reports MISCOMPARE, but the data was on the medium all the time", c.i.a.Name, c.what, c.inv, c.ret)
		}
	}
}

// undisturbed: no other write to the block can have met the command.
func (w *World) undisturbed(lu *LU, lba uint64, c *Cmd) bool {
	if lu.taint[lba] || lu.zeroOK[lba] {
		return false
	}
	for k := range lu.hist[lba] {
		if r := &lu.hist[lba][k]; r.w && r.who != c && r.inv <= c.ret && r.ret >= c.inv {
			return false
		}
	}
	return true
}

// provably: the block held the value throughout the interval.
func (w *World) provably(lu *LU, lba uint64, id uint64, inv, ret int64) bool {
	if lu.taint[lba] || lu.zeroOK[lba] {
		return false
	}
	h := lu.hist[lba]
	var me *mrec
	if id != lu.initial(lba) {
		for k := range h {
			if h[k].w && h[k].id == id && !h[k].opt && h[k].ret < inv {
				me = &h[k]
			}
		}
		if me == nil {
			return false
		}
	}
	for k := range h {
		r := &h[k]
		if !r.w || r == me {
			continue
		}
		if r.inv > ret {
			continue
		}
		if me != nil && r.ret < me.inv {
			continue
		}
		return false
	}
	return true
}

// finalImage compares the whole medium with the history.
func (w *World) finalImage() {
	t := w.tick()
	for _, lu := range w.LUs {
		b := make([]byte, lu.BS)
		if lu.Sparse {
			for _, lba := range sortedKeys(lu.hist) {
				w.probe(lu, lba)
			}
			for _, off := range w.D.Pages(lu.Path) {
				for o := off; o < off+65536; o += int64(lu.BS) {
					lba := uint64(o) / uint64(lu.BS)
					if lu.hist[lba] == nil && w.D.ReadRaw(lu.Path, b, o) == len(b) && !zeroBytes(b) && !lu.taint[lba] {
						id, _, _ := readBlock(b)
						w.fail("lin", "block %d of device %d holds %s, nobody wrote there", lba, lu.Dev, describe(id, w))
					}
				}
			}
			continue
		}
		for lba := uint64(0); lba < lu.Blocks; lba++ {
			if !w.medium(lu, lba, b) {
				w.fail("lin", "block %d of device %d is gone from the medium", lba, lu.Dev)
				break
			}
			w.sighting(lu, lba, b, t, t, nil)
		}
		if !lu.Remote {
			sz := w.D.Size(lu.Path)
			if want := int64(lu.Blocks)*int64(lu.BS) + int64(len(lu.Extra)); sz != want && (lu.Have < 0 || sz < lu.Have || sz > want) {
				w.fail("lin", "the file of device %d has %d bytes, it had %d", lu.Dev, sz, want)
			} else if e := make([]byte, len(lu.Extra)); len(e) > 0 {
				w.D.ReadRaw(lu.Path, e, int64(lu.Blocks)*int64(lu.BS))
				if string(e) != string(lu.Extra) {
					w.fail("lin", "bytes beyond the last block of device %d changed", lu.Dev)
				}
			}
		}
	}
	w.checkFiles()
}

// judge compares the outcome of a SCSI command with what it must be.
func (w *World) judge(c *Cmd) {
	s := c.s
	if c.rsp != 0 {
		if c.rsp < 0x100 && (w.excuse == nil || !w.excuse(c)) {
			s.bad("status", "%s: iSCSI response code %d", c.what, c.rsp)
		}
		return
	}
	if c.status == stGood {
		w.checkResid(c)
	}
	if w.excuse != nil && w.excuse(c) {
		return
	}
	out := func(want string) {
		r := fmt.Sprintf("status 0x%02x", c.status)
		if c.status == stCheck {
			r += fmt.Sprintf(" sense key %x asc %04x", c.key, c.asc)
		}
		s.bad("status", "%s ended in %s, expected %s", c.what, r, want)
	}
	mis := c.status == stCheck && c.key == 0xe
	switch c.want {
	case wantGood:
		if c.kind == "wverify" && mis {
			// another write may have come between, checkMisms tells
		} else if c.status != stGood {
			out("GOOD")
		}
	case wantVerify:
		if c.status != stGood && !mis {
			out("GOOD or MISCOMPARE")
		}
	case wantRange:
		if c.status != stCheck || c.key != 5 || c.asc != 0x2100 {
			out("LOGICAL BLOCK ADDRESS OUT OF RANGE")
		}
	case wantCheck:
		if c.status != stCheck {
			out("CHECK CONDITION")
		}
	case wantConflict:
		if c.status != stConflict {
			out("RESERVATION CONFLICT")
		}
	case wantGoodOrConflict:
		if c.status != stConflict && c.status != stGood {
			out("GOOD or RESERVATION CONFLICT")
		}
	}
}

// checkResid holds a GOOD command's residual against the lengths.
func (w *World) checkResid(c *Cmd) {
	s := c.s
	if c.rd && !c.wr {
		got := c.inN
		exp := c.edtl
		if c.residU {
			exp -= c.resid
		}
		if got != exp {
			s.bad("resid", "%s: %d bytes arrived of %d expected, underflow %v, overflow %v, residual %d", c.what, got, c.edtl, c.residU, c.residO, c.resid)
			return
		}
	}
	t := c.tlen
	if t < 0 {
		t = c.paramLen()
	}
	if t < 0 {
		return
	}
	e := int64(c.edtl)
	if !c.rd && !c.wr {
		e = 0
	}
	var u, o bool
	var r int64
	if e > t {
		u, r = true, e-t
	} else if t > e {
		o, r = true, t-e
	}
	if u != c.residU || o != c.residO || r != int64(c.resid) {
		s.bad("resid", "%s: expected length %d, command length %d, but underflow %v, overflow %v, residual %d", c.what, e, t, c.residU, c.residO, c.resid)
	}
	if c.rd && int64(c.inN) != min(e, t) {
		s.bad("resid", "%s: %d bytes arrived, %d were due", c.what, c.inN, min(e, t))
	}
}

// paramLen is the length of the parameter data a command returns, by the
// allocation length it names and the length the data gives for itself; -1
// where too little of it arrived to tell.
func (c *Cmd) paramLen() int64 {
	if !c.rd || c.wr || len(c.cdb) < 16 {
		return -1
	}
	var alloc, total int64
	b := c.in[:min(c.inN, len(c.in))]
	has := func(n int) bool { return len(b) >= n }
	total = -1
	switch c.cdb[0] {
	case 0x12:
		alloc = int64(be16(c.cdb[3:]))
		switch {
		case !has(5):
		case c.cdb[1]&1 != 0:
			total = int64(be16(b[2:])) + 4
		default:
			total = int64(b[4]) + 5
		}
	case 0xa0:
		alloc = int64(be32(c.cdb[6:]))
		if has(8) {
			total = int64(be32(b)) + 8
		}
	case 0x1a:
		alloc = int64(c.cdb[4])
		if has(1) {
			total = int64(b[0]) + 1
		}
	case 0x5a:
		alloc = int64(be16(c.cdb[7:]))
		if has(2) {
			total = int64(be16(b)) + 2
		}
	case 0x03:
		alloc = int64(c.cdb[4])
		if has(8) {
			total = int64(b[7]) + 8
		}
	case 0x5e:
		alloc = int64(be16(c.cdb[7:]))
		switch {
		case !has(8) || c.cdb[1]&31 > 2:
		case c.cdb[1]&31 == 2:
			total = int64(be16(b))
		default:
			total = int64(be32(b[4:])) + 8
		}
	case 0xa3:
		alloc = int64(be32(c.cdb[6:]))
		if has(4) && c.cdb[1]&31 == 0x0c && c.cdb[2]&7 == 0 {
			total = int64(be32(b)) + 4
		}
	default:
		return -1
	}
	if total < 0 {
		return -1
	}
	return min(alloc, total)
}
