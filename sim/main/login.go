//go:build go1.25

package main

import (
	"fmt"
	"net"
	"strconv"
	"strings"
)

// loginReq describes one login attempt.
type loginReq struct {
	target string
	group  string
	name   string
	isid   uint64
	tsih   uint16
	cid    uint16
	disc   bool
	keys   [][2]string
	stage  string
	sn0    uint32
	auth   string
	noName bool
	noTgt  bool
	stop   int                  // hang up in this request (counted from one)
	part   int                  // after this many of its bytes (-1: all)
	how    string               // close, rst, halfclose
	ver    byte                 // lowest version offered
	csg    int                  // 1: a stage number there is none of
	portal string               // address of the target's host to connect to
	inject func(s *Sess, n int) // called before each request (counted from one)
}

// loginRes is how it went.
type loginRes struct {
	ok     bool
	class  int
	detail int
	closed bool
	hang   bool
	s      *Sess
	err    string
}

func (r *loginRes) String() string {
	switch {
	case r.ok:
		return "accepted"
	case r.hang:
		return "no answer"
	case r.closed:
		return "closed: " + r.err
	case r.err != "":
		return r.err
	}
	return fmt.Sprintf("refused %02x%02x", r.class, r.detail)
}

func (i *Ini) loginDefaults() *loginReq {
	q := &loginReq{portal: i.a.Portal, name: i.name, isid: i.isid, cid: i.a.CID, keys: i.a.Keys, stage: i.a.Stage, sn0: i.a.SN0, disc: i.a.Disc}
	if i.t != nil {
		q.target = i.t.Name
		q.group = i.w.P.groupOf(i.t, q.portal)
	} else {
		q.target = i.a.Target
	}
	return q
}

// dial opens a connection, waiting for the daemon to listen.
func (i *Ini) connect(q *loginReq) *Sess {
	port := i.a.Port
	if port == 0 {
		port = iscsiPort
	}
	for t := i.w.S.Now() + 60e9; ; {
		c, err := i.w.N.DialTo(i.host, q.portal, port)
		if err == nil {
			i.sess++
			s := &Sess{i: i, w: i.w, n: i.sess, c: c, out: map[uint32]*Cmd{}, disc: q.disc, cid: q.cid,
				cmdSN: q.sn0, wireSN: q.sn0, statSN: i.a.Stat0, keys: map[string]string{}, decl: map[string]string{}, offered: q.keys}
			s.itt = uint32(i.idx)<<24 | uint32(i.sess&0xff)<<16
			s.lim = Limits{MaxBurst: 262144, FirstBurst: 65536, TgtMRDSL: 8192, MyMRDSL: 8192, ImmData: true, InitR2T: true, MaxR2T: 1}
			return s
		}
		if i.w.S.Now() >= t || i.w.S.Deadlock {
			return nil
		}
		sleep(5e6)
	}
}

// stages renders the requests of a login.
type lreq struct {
	csg, nsg int
	t, c     bool
	kv       [][2]string
	raw      []byte
}

func (q *loginReq) script() []lreq {
	var id [][2]string
	if !q.noName {
		id = append(id, [2]string{"InitiatorName", q.name})
	}
	if q.disc {
		id = append(id, [2]string{"SessionType", "Discovery"})
	} else {
		if q.stage != "opmin" {
			id = append(id, [2]string{"SessionType", "Normal"})
		}
		if !q.noTgt {
			id = append(id, [2]string{"TargetName", q.target})
		}
	}
	auth := q.auth
	if auth == "" {
		auth = "None"
	}
	sec := append(append([][2]string{}, id...), [2]string{"AuthMethod", auth})
	all := append(append([][2]string{}, id...), q.keys...)
	switch q.stage {
	case "secop":
		return []lreq{{0, 1, true, false, sec, nil}, {1, 3, true, false, q.keys, nil}}
	case "secff":
		return []lreq{{0, 3, true, false, append(sec, q.keys...), nil}}
	case "split":
		h := len(q.keys) / 2
		return []lreq{{1, 0, false, false, append(append([][2]string{}, id...), q.keys[:h]...), nil}, {1, 3, true, false, q.keys[h:], nil}}
	case "secsplit":
		h := len(q.keys) / 2
		return []lreq{{0, 0, false, false, sec, nil}, {0, 1, true, false, nil, nil}, {1, 0, false, false, q.keys[:h], nil}, {1, 3, true, false, q.keys[h:], nil}}
	case "cbit":
		b := kvText(all)
		h := len(b) / 2
		return []lreq{{1, 0, false, true, nil, b[:h]}, {1, 3, true, false, nil, b[h:]}}
	}
	return []lreq{{1, 3, true, false, all, nil}}
}

// login runs the login phase to its end.
func (i *Ini) login(q *loginReq) *loginRes {
	s := i.connect(q)
	if s == nil {
		return &loginRes{err: "cannot connect"}
	}
	return i.loginOn(s, q)
}

func (i *Ini) loginOn(s *Sess, q *loginReq) *loginRes {
	w := i.w
	r := &loginRes{s: s}
	s.inv = w.tick()
	itt := s.newITT()
	first := true
	defer func() {
		if !r.ok {
			s.gone = true
			s.c.Close()
		}
	}()
	over := false
	tm := w.S.After(i.patience(), func() { over = true; s.c.Abort() })
	defer tm.Stop()
	script := q.script()
	reqs := 0
	for k := 0; k < len(script); k++ {
		x := script[k]
		for round := 0; ; round++ {
			p := &PDU{}
			p.H[0] = opLogin | 0x40
			if x.t {
				p.H[1] = 0x80 | byte(x.nsg)
			}
			if x.c {
				p.H[1] |= 0x40
			}
			p.H[1] |= byte(x.csg) << 2
			put16(p.H[8:], uint16(q.isid>>32))
			put32(p.H[10:], uint32(q.isid))
			put16(p.H[14:], q.tsih)
			put32(p.H[16:], itt)
			put16(p.H[20:], q.cid)
			put32(p.H[24:], q.sn0)
			if !first {
				put32(p.H[28:], s.statSN+1)
			}
			if round == 0 {
				p.Data = kvText(x.kv)
				if x.raw != nil {
					p.Data = x.raw
				}
			}
			p.H[2], p.H[3] = q.ver, q.ver
			if q.csg > 0 {
				p.H[1] |= 0x08
			}
			reqs++
			if q.inject != nil {
				q.inject(s, reqs)
			}
			if reqs == q.stop {
				b := p.Bytes()
				if q.part >= 0 && q.part < len(b) {
					b = b[:q.part]
				}
				s.c.Write(b)
				r.err = "given up"
				switch q.how {
				case "listen":
					i.listen(s)
				case "rst":
					s.c.Abort()
				case "halfclose":
					s.c.CloseWrite()
					for t := w.S.Now() + 3e9; !s.c.PeerGone() && w.S.Now() < t && !w.S.Deadlock; {
						sleep(20e6)
					}
				}
				return r
			}
			if _, err := s.c.Write(p.Bytes()); err != nil {
				r.closed, r.err = true, err.Error()
				return r
			}
			a, err := readPDU(s.c)
			if err != nil {
				if over {
					r.hang = true
					return r
				}
				r.closed, r.err = true, err.Error()
				return r
			}
			if a.Op() != opLoginRsp {
				if len(s.early) > 0 && a.Op() != opReject && s.unserved(a) {
					r.err = "an early request is refused"
					return r
				}
				if a.Op() == opReject {
					r.err = fmt.Sprintf("Reject (reason %d)", a.H[2])
				} else {
					r.err = "unexpected " + a.Name()
					s.bad("login", "%s during login", a.Name())
				}
				return r
			}
			if a.ITT() != itt {
				s.bad("login", "Login Response has tag %x, the request %x", a.ITT(), itt)
			}
			r.class, r.detail = int(a.H[36]), int(a.H[37])
			if r.class != 0 {
				return r
			}
			if !first && a.StatSN() != s.statSN+1 {
				s.bad("statsn", "StatSN is %x in Login Response, expected %x", a.StatSN(), s.statSN+1)
			}
			first = false
			s.statSN = a.StatSN()
			if be16(a.H[8:]) != uint16(q.isid>>32) || be32(a.H[10:]) != uint32(q.isid) {
				s.bad("sess", "Login Response has ISID %x, the request %012x", a.H[8:14], q.isid)
			}
			e, m := a.ExpCmdSN(), a.MaxCmdSN()
			if e != q.sn0 {
				s.bad("window", "Login Response has ExpCmdSN %x, the login started at %x", e, q.sn0)
			}
			if snLess(m, e-1) {
				s.bad("window", "Login Response has MaxCmdSN %x below ExpCmdSN %x - 1", m, e)
			}
			s.expSeen, s.maxSeen = e, m
			kv, ok := parseKV(a.Data)
			if !ok {
				s.bad("nego", "malformed text %q in Login Response", a.Data)
			}
			for _, x := range kv {
				if x[0] == "MaxRecvDataSegmentLength" && x[1] == "Reject" {
					continue // of a value not allowed; the target declares its own besides
				}
				if _, dup := s.keys[x[0]]; dup {
					s.bad("nego", "key %s is answered twice", x[0])
				}
				s.keys[x[0]] = x[1]
			}
			cg, ng := int(a.H[1]>>2&3), int(a.H[1]&3)
			if cg != x.csg {
				s.bad("login", "Login Response is for stage %d, the request for %d", cg, x.csg)
			}
			if x.c && len(a.Data) > 0 {
				s.bad("nego", "Login Response to a request with the continue bit carries text %q", a.Data)
			}
			if !a.Final() {
				if !x.t {
					break
				}
				if round >= 8 {
					r.err = "the login makes no progress"
					s.bad("login", "the target never agrees to leave stage %d", x.csg)
					return r
				}
				continue
			}
			if !x.t {
				s.bad("login", "Login Response with the transit bit, which the request did not have")
				r.err = "unexpected transit"
				return r
			}
			if ng != x.nsg {
				s.bad("login", "Login Response moves to stage %d, asked for %d", ng, x.nsg)
				r.err = "wrong stage"
				return r
			}
			if ng == 3 {
				s.tsih = be16(a.H[14:])
				r.ok = true
			}
			break
		}
		if r.ok {
			break
		}
	}
	if !r.ok {
		r.err = "login script ended"
		return r
	}
	s.at = w.tick()
	s.full = true
	if w.onLogin != nil {
		w.onLogin(s, q)
	}
	s.settleLimits(q)
	tm.Stop()
	w.cover("login_" + q.stage0())
	w.S.Spawn("reader", w.root, s.reader)
	w.S.Spawn("sender", w.root, s.sender)
	return r
}

func (q *loginReq) stage0() string {
	if q.disc {
		return "discovery"
	}
	if q.stage == "" {
		return "op"
	}
	return q.stage
}

func (s *Sess) settleLimits(q *loginReq) {
	num := func(k string, d int) int {
		if v, ok := s.keys[k]; ok {
			if n, err := keyNum(v); err == nil {
				return n
			}
		}
		return d
	}
	off := map[string]string{}
	for _, x := range q.keys {
		off[x[0]] = x[1]
	}
	l := &s.lim
	if v, err := keyNum(off["MaxRecvDataSegmentLength"]); err == nil && legalOffer("MaxRecvDataSegmentLength", off["MaxRecvDataSegmentLength"]) {
		l.MyMRDSL = v
	}
	l.TgtMRDSL = num("MaxRecvDataSegmentLength", 8192)
	l.MaxBurst = num("MaxBurstLength", 262144)
	l.FirstBurst = num("FirstBurstLength", 65536)
	l.MaxR2T = num("MaxOutstandingR2T", 1)
	// an AND key offered as No needs no answer, nor an OR key offered as Yes
	if v, ok := s.keys["ImmediateData"]; ok {
		l.ImmData = v == "Yes" || v == "Reject"
	} else if off["ImmediateData"] == "No" {
		l.ImmData = false
	}
	if v, ok := s.keys["InitialR2T"]; ok {
		l.InitR2T = v != "No"
	}
	if !s.disc && l.FirstBurst > l.MaxBurst {
		l.FirstBurst = l.MaxBurst
	}
	s.checkNego(q)
}

var negoRules = map[string]string{
	"HeaderDigest": "list", "DataDigest": "list", "AuthMethod": "list",
	"ImmediateData": "and", "InitialR2T": "or", "DataPDUInOrder": "or", "DataSequenceInOrder": "or", "IFMarker": "and", "OFMarker": "and",
	"MaxBurstLength": "min", "FirstBurstLength": "min", "MaxConnections": "min", "MaxOutstandingR2T": "min", "DefaultTime2Retain": "min", "ErrorRecoveryLevel": "min",
	"DefaultTime2Wait": "max", "MaxRecvDataSegmentLength": "decl", "InitiatorAlias": "decl", "TargetAlias": "decl", "InitiatorName": "decl", "TargetName": "decl",
	"SessionType": "decl", "TargetPortalGroupTag": "decl", "TargetAddress": "decl", "SendTargets": "decl",
}

var negoRange = map[string][2]int{"MaxBurstLength": {512, 1<<24 - 1}, "FirstBurstLength": {512, 1<<24 - 1}, "MaxConnections": {1, 65535}, "MaxOutstandingR2T": {1, 65535},
	"DefaultTime2Retain": {0, 3600}, "DefaultTime2Wait": {0, 3600}, "ErrorRecoveryLevel": {0, 2}, "MaxRecvDataSegmentLength": {512, 1<<24 - 1}}

// legalOffer tells whether a value may be offered for a key.
func legalOffer(k, o string) bool {
	switch negoRules[k] {
	case "and", "or":
		return o == "Yes" || o == "No"
	case "min", "max":
		n, err := strconv.ParseUint(o, 0, 64)
		r := negoRange[k]
		return err == nil && n >= uint64(r[0]) && n <= uint64(r[1])
	case "decl":
		if r, ok := negoRange[k]; ok {
			n, err := strconv.ParseUint(o, 0, 64)
			return err == nil && n >= uint64(r[0]) && n <= uint64(r[1])
		}
	}
	return true
}

// keyNum reads a number of a key, decimal or hexadecimal.
func keyNum(v string) (int, error) {
	n, err := strconv.ParseUint(v, 0, 62)
	return int(n), err
}

// checkNego judges every answer against the rule of its key.
func (s *Sess) checkNego(q *loginReq) {
	off := map[string]string{}
	var order []string
	for _, x := range q.keys {
		off[x[0]] = x[1]
		order = append(order, x[0])
	}
	if q.stage == "secop" || q.stage == "secff" || q.stage == "secsplit" {
		a := q.auth
		if a == "" {
			a = "None"
		}
		off["AuthMethod"] = a
		order = append(order, "AuthMethod")
	}
	for _, k := range order {
		o := off[k]
		a, ok := s.keys[k]
		rule := negoRules[k]
		if s.disc && a == "Irrelevant" {
			continue
		}
		if !legalOffer(k, o) {
			s.w.cover("illegal_offers")
			if a != "Reject" && rule != "decl" {
				s.bad("nego", "%s=%s, which is not allowed, is answered %q", k, o, a)
			}
			continue
		}
		switch rule {
		case "decl":
			continue
		case "":
			if !ok {
				s.bad("nego", "the unknown key %s=%s is not answered", k, o)
			} else if a != "NotUnderstood" {
				s.bad("nego", "the unknown key %s=%s is answered %q", k, o, a)
			}
		case "list":
			if !ok {
				s.bad("nego", "%s=%s is not answered", k, o)
				continue
			}
			found := false
			for _, x := range strings.Split(o, ",") {
				found = found || x == a
			}
			if a == "Reject" && !strings.Contains(","+o+",", ",None,") {
				continue
			}
			if !found {
				s.bad("nego", "%s=%s is answered with %q, which was not offered", k, o, a)
			}
			if a != "None" {
				s.bad("nego", "%s=%s: the target agrees to %q but does not implement it", k, o, a)
			}
		case "and", "or":
			dom := "No" // the value that decides
			if rule == "or" {
				dom = "Yes"
			}
			if !ok {
				if o != dom && !(k == "IFMarker" || k == "OFMarker") {
					s.bad("nego", "%s=%s is not answered", k, o)
				}
				continue
			}
			if a == "Irrelevant" || (k == "IFMarker" || k == "OFMarker") && (a == "Reject" || a == "NotUnderstood") {
				continue
			}
			if a != "Yes" && a != "No" {
				s.bad("nego", "%s=%s is answered %q", k, o, a)
			} else if o == dom && a != dom {
				s.bad("nego", "%s=%s is answered %s, against the rule of the key", k, o, a)
			}
			if k == "IFMarker" || k == "OFMarker" {
				if a == "Yes" {
					s.bad("nego", "%s=%s: the target agrees to markers but sends none", k, o)
				}
			}
		case "min", "max":
			if !ok {
				s.bad("nego", "%s=%s is not answered", k, o)
				continue
			}
			if a == "Irrelevant" && k == "FirstBurstLength" && !s.lim.ImmData && s.lim.InitR2T {
				continue
			}
			on, _ := keyNum(o)
			an, err := keyNum(a)
			if err != nil {
				s.bad("nego", "%s=%s is answered %q", k, o, a)
				continue
			}
			r := negoRange[k]
			if an < r[0] || an > r[1] {
				s.bad("nego", "%s=%s is answered %d, outside its range", k, o, an)
			} else if rule == "min" && an > on || rule == "max" && an < on {
				s.bad("nego", "%s=%s is answered %d, against the rule of the key", k, o, an)
			}
		}
	}
	if v, ok := s.keys["MaxRecvDataSegmentLength"]; ok {
		if n, err := keyNum(v); err != nil || n < 512 || n > 1<<24-1 {
			s.bad("nego", "the target declares MaxRecvDataSegmentLength=%s", v)
		}
	}
	for k, v := range s.keys {
		_, offd := off[k]
		if r := negoRules[k]; !offd && r != "decl" {
			if v == "NotUnderstood" || r == "" {
				s.bad("nego", "%s=%s is answered without having been offered", k, v)
			}
		}
	}
	if !s.disc {
		fb, ok1 := s.keys["FirstBurstLength"]
		mb, ok2 := s.keys["MaxBurstLength"]
		a, _ := keyNum(fb)
		b, _ := keyNum(mb)
		if ok1 && ok2 && a > b && a != 0 && b != 0 {
			of, _ := keyNum(off["FirstBurstLength"])
			om, _ := keyNum(off["MaxBurstLength"])
			if of <= om {
				s.bad("nego", "FirstBurstLength %d above MaxBurstLength %d", a, b)
			}
		}
		if v, ok := s.keys["TargetPortalGroupTag"]; ok && s.i.t != nil {
			ids, known := s.i.t.TPGTs[v]
			if !known {
				s.bad("nego", "TargetPortalGroupTag=%s is not a group of %s", v, s.i.t.Name)
			} else if q.portal != "" {
				has := s.w.x["portal "+q.target+" "+q.portal+","+v] != nil
				for _, id := range ids {
					has = has || s.w.P.Setup.Portals[id] == net.JoinHostPort(q.portal, fmt.Sprint(iscsiPort))
				}
				if !has {
					s.bad("nego", "TargetPortalGroupTag=%s, but the session is at %s, which is not in that group", v, q.portal)
				}
			}
		}
	}
}

// need returns a usable session, logging in when there is none.
func (i *Ini) need() *Sess {
	if i.s != nil && !i.s.gone && !i.s.closing {
		return i.s
	}
	if i.stop {
		return nil
	}
	for try := 0; try < 40 && !i.stop; try++ {
		r := i.login(i.loginDefaults())
		if r.ok && i.stop {
			r.s.closing = true
			r.s.end("stopped")
			return nil
		}
		if r.ok {
			i.s = r.s
			if r.s.tsih == 0 {
				r.s.bad("sess", "the login completed with session handle 0")
			}
			return i.s
		}
		if i.w.down || i.lax || i.lostOK || i.w.daemon.Dead {
			if i.w.daemon.Dead && !i.w.down || i.w.S.Deadlock {
				break
			}
			sleep(20e6)
			continue
		}
		if i.stop { // the daemon it spoke to has died
			break
		}
		i.w.fail("login", "%s: login to %s failed: %v", i.a.Name, i.a.Target, r)
		break
	}
	i.stop = true
	return nil
}
