//go:build go1.25

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/gostor/gotgt/pkg/scsi"
	"github.com/gostor/gotgt/zsim/rt"
)

// path26 is one way to a device.
type path26 struct {
	tgt, group string
	dev        int
}

// shown is one answer to INQUIRY.
type shown struct {
	p    path26
	who  string
	page int // 0 standard data, 0x100 and the page code
	b    []byte
	id   string // what all paths must show of it
	full bool
}

// idents keeps what INQUIRY told.
type idents struct {
	w    *World
	all  []*shown
	late map[string]bool // "target lun" mapped and unmapped at run time
}

func (d *idents) seen(c *Cmd) {
	w := d.w
	if c.kind != "inq" || c.cdb == nil || c.inv == 0 {
		return
	}
	dev, mapped := c.i.t.LUNs[fmt.Sprint(c.lun)]
	if !mapped || d.late[fmt.Sprintf("%s %d", c.i.t.Name, c.lun)] {
		c.want = wantAny
	}
	if !mapped || !c.done || c.rsp != 0 || c.status != stGood {
		return
	}
	b := c.in[:min(c.inN, len(c.in))]
	room := min(int(c.cdb[3])<<8|int(c.cdb[4]), c.edtl)
	if len(b) == 0 || b[0]>>5 != 0 {
		if len(b) == 0 && room > 0 {
			w.fail("ident", "%s %s returns nothing", c.i.a.Name, c.what)
		}
		return // nothing there, as LUN 0 without a unit says
	}
	s := &shown{p: path26{c.i.t.Name, w.P.groupOf(c.i.t, c.i.a.Portal), dev}, who: c.i.a.Name + " " + c.what, page: c.st.V, b: append([]byte(nil), b...)}
	n := -1
	if s.page == 0 && len(b) >= 5 {
		n = 5 + int(b[4])
	} else if s.page != 0 && len(b) >= 4 {
		n = 4 + int(b[2])<<8 + int(b[3])
		if int(b[1]) != s.page&0xff {
			w.fail("ident", "%s asked for page %02x and got page %02x", s.who, s.page&0xff, b[1])
		}
	}
	if n >= 0 && len(b) != min(n, room) || n < 0 && len(b) != room {
		w.fail("ident", "%s: the answer of %d bytes says it has %d, and there was room for %d", s.who, len(b), n, room)
	}
	s.full = n >= 0 && len(b) == n
	if s.full {
		w.cover("identities_seen")
	} else {
		w.cover("identities_cut_short")
	}
	d.all = append(d.all, s)
}

type designator struct {
	assoc, kind, code byte
	id                string
}

func (x designator) String() string {
	return fmt.Sprintf("association %d type %d %q", x.assoc, x.kind, x.id)
}

func designators(b []byte) (out []designator, ok bool) {
	for b = b[4:]; len(b) > 0; {
		if len(b) < 4 || len(b) < 4+int(b[3]) {
			return nil, false
		}
		out = append(out, designator{b[1] >> 4 & 3, b[1] & 15, b[0] & 15, string(b[4 : 4+int(b[3])])})
		b = b[4+int(b[3]):]
	}
	return out, true
}

// judge compares the answers with each other.
func (d *idents) judge() {
	w := d.w
	same := map[string]*shown{} // what all paths to a device show
	whole := map[string]*shown{}
	owner := map[string]*shown{} // who has a name
	ports := map[string]*shown{}
	claim := func(m map[string]*shown, key, what string, s *shown, other func(a, b path26) bool) {
		o := m[key]
		if o == nil {
			m[key] = s
		} else if other(o.p, s.p) {
			w.fail("ident", "%s (device %d, %s group %s) shows %s, which %s (device %d, %s group %s) had", s.who, s.p.dev, s.p.tgt, s.p.group, what, o.who, o.p.dev, o.p.tgt, o.p.group)
		}
	}
	devs := func(a, b path26) bool { return a.dev != b.dev }
	for _, s := range d.all {
		if !s.full {
			continue
		}
		if o := whole[fmt.Sprint(s.p, s.page)]; o == nil {
			whole[fmt.Sprint(s.p, s.page)] = s
		} else if !bytes.Equal(o.b, s.b) {
			w.fail("ident", "%s: page %03x of device %d is %x, and was %x for %s on the same path", s.who, s.page, s.p.dev, s.b, o.b, o.who)
			continue
		} else {
			continue
		}
		id := string(s.b)
		switch s.page {
		case 0x180:
			claim(owner, "serial "+string(s.b[4:]), fmt.Sprintf("the unit serial number %q", s.b[4:]), s, devs)
		case 0x183:
			l, ok := designators(s.b)
			if !ok {
				w.fail("ident", "%s: malformed designators %x", s.who, s.b)
				continue
			}
			var unit []string
			for _, x := range l {
				if x.assoc == 0 {
					unit = append(unit, x.String())
					if x.kind >= 1 && x.kind <= 3 || x.kind == 8 {
						claim(owner, x.String(), "the designator "+x.String(), s, devs)
					}
					continue
				}
				switch {
				case x.kind == 4:
					claim(ports, s.p.tgt+x.String(), "the target port "+x.String(), s, func(a, b path26) bool { return a.group != b.group })
				case x.kind == 8 && x.assoc == 1 && s.p.group != "":
					name := strings.TrimRight(x.id, "\x00")
					n, g, ok := strings.Cut(name, ",t,0x")
					v, err := strconv.ParseUint(g, 16, 16)
					if !ok || n != s.p.tgt || err != nil || fmt.Sprint(v) != s.p.group {
						w.fail("ident", "%s came in through group %s of %s and is told of the port %q", s.who, s.p.group, s.p.tgt, name)
					}
				default:
					for k := range w.P.Setup.Targets {
						if n := w.P.Setup.Targets[k].Name; n != s.p.tgt && n == strings.TrimRight(x.id, "\x00") {
							w.fail("ident", "%s came in through %s and is told of %s", s.who, s.p.tgt, n)
						}
					}
				}
			}
			if len(unit) == 0 {
				w.fail("ident", "%s: device %d has no designator of the unit", s.who, s.p.dev)
			}
			sort.Strings(unit)
			id = strings.Join(unit, ", ")
		}
		s.id = id
		k := fmt.Sprint(s.p.dev, " ", s.page)
		o := same[k]
		if o == nil {
			same[k] = s
			continue
		}
		if o.p != s.p {
			w.cover("paths_compared")
		}
		if o.id != s.id {
			w.fail("ident", "%s (%s group %s) shows device %d in page %03x as %q, and %s (%s group %s) as %q", s.who, s.p.tgt, s.p.group, s.p.dev, s.page, s.id, o.who, o.p.tgt, o.p.group, o.id)
		}
	}
	for _, s := range d.all {
		if o := whole[fmt.Sprint(s.p, s.page)]; o != nil && !s.full && !bytes.HasPrefix(o.b, s.b) {
			w.fail("ident", "%s: the cut answer %s of page %03x is not the beginning of %s", s.who, hex.EncodeToString(s.b), s.page, hex.EncodeToString(o.b))
		}
	}
}

func (d *idents) step(i *Ini, st *Step) bool {
	w := d.w
	if st.Op != "map" && st.Op != "unmap" && st.Op != "reread" || i.a.Kind != "admin" {
		return false
	}
	m := scsi.LUNMapping{TargetName: st.S, LUN: uint64(st.LUN), DeviceID: uint64(st.Arg)}
	d.late[fmt.Sprintf("%s %d", st.S, st.LUN)] = true
	w.inDaemon(st.Op, func() {
		switch st.Op {
		case "map":
			scsi.AddLUNMapping(m)
		case "unmap":
			scsi.DelLUNMapping(m)
		default:
			w.lib.svc.RereadTargetLUNMap()
		}
	})
	w.cover("mgmt_" + st.Op)
	return true
}

// genDevIDs draws device numbers that differ in one digit or one bit.
func genDevIDs(r *rt.RNG, n int) (out []uint64) {
	base := []uint64{1, 7, 100, 255, 1000, 65535, 123456789, 1<<31 - 1, 1 << 32, 1<<48 + 5, 999999999999, 1<<59 + 3}[r.Intn(12)]
	used := map[uint64]bool{0: true}
	for len(out) < n {
		v := base
		switch r.Intn(4) {
		case 1:
			v = base ^ 1<<uint(r.Intn(60))
		case 2:
			p := uint64(1)
			for k := r.Intn(17); k > 0; k-- {
				p *= 10
			}
			v = base + p*uint64(r.Range(1, 9))
		case 3:
			v = base * 10
		}
		if v >>= 0; v < 1<<60 && !used[v] {
			used[v] = true
			out = append(out, v)
		}
	}
	return
}

func inqStep(r *rt.RNG, lun int) Step {
	st := Step{Op: "inq", LUN: lun, V: r.Pick(0x183, 0x183, 0x183, 0x180, 0x180, 0, 0x100, 0x1b0, 0x1b2), Arg: int64(r.Pick(255, 255, 512, 1024, 4096, 65535)), Async: r.P(1, 2)}
	if r.P(1, 5) {
		st.Arg = int64(r.Range(1, 120))
	}
	if r.P(1, 8) {
		st.ED = r.Range(-int(min(st.Arg, 200)), 100)
	}
	return st
}

func init() {
	addProp(&Prop{id: "C26", tags: []string{"ident", "login", "hang", "connlost", "status", "answer", "boot"},
		run: func(w *World) {
			d := &idents{w: w, late: map[string]bool{}}
			w.onDone = d.seen
			w.stepHook = d.step
			for k := range w.P.Actors {
				for _, st := range w.P.Actors[k].Steps {
					if st.Op == "map" || st.Op == "unmap" {
						d.late[fmt.Sprintf("%s %d", st.S, st.LUN)] = true
					}
				}
			}
			if runPhases(w) {
				w.finish(nil)
				d.judge()
			}
		},
		rule: "2 to 6 devices whose numbers differ in one digit or one bit are mapped behind several LUNs of 1 to 3 targets with 1 or 2 portal groups; 2 to 6 initiators ask for INQUIRY data and the device identification pages with room for all, or part, of them, beside I/O, mappings that come and go, and up to two deaths of the daemon or losses of power; all answers of the run are compared with each other: one device shows one identity on every path and at every time, two devices share none, and each path names its own target and portal group.",
		gen: func(r *rt.RNG, p *Plan) {
			if r.P(1, 2) {
				p.Setup.Mode = "lib"
			}
			for k, id := range genDevIDs(r, r.Range(2, 6)) {
				p.Setup.Storages = append(p.Setup.Storages, Storage{Dev: id, Blocks: uint64(r.Range(2, 12) + k), BShift: genShift(r), Thin: r.P(1, 4)})
			}
			var names []string
			nt := r.Range(1, 3)
			for k := 0; k < nt; k++ {
				n := genName(r, k)
				if k > 0 && r.P(1, 3) && len(names[0]) < 220 {
					n = names[0] + fmt.Sprint(k) // one name begins with the other
				}
				names = append(names, n)
				p.Setup.Targets = append(p.Setup.Targets, Target{Name: n, TPGTs: map[string][]int{"1": {0}}, LUNs: map[string]int{}})
			}
			for k := range p.Setup.Storages {
				for n := r.Range(1, 3); n > 0; n-- {
					t := &p.Setup.Targets[r.Intn(nt)]
					l := fmt.Sprint(r.Pick(0, 1, 2, 3, 4, 5, 10, 64, 200, 255, 256, 300))
					if _, used := t.LUNs[l]; !used {
						t.LUNs[l] = int(p.Setup.Storages[k].Dev)
					}
				}
			}
			for k := range p.Setup.Targets {
				if t := &p.Setup.Targets[k]; len(t.LUNs) == 0 {
					t.LUNs["0"] = int(p.Setup.Storages[0].Dev)
				}
			}
			portal := genGroups(r, p)
			phases := r.Pick(0, 0, 1, 1, 2)
			isids := genISIDs(r, 40)
			for ph := 0; ph <= phases; ph++ {
				for n := r.Range(2, 6); n > 0; n-- {
					t := &p.Setup.Targets[r.Intn(nt)]
					a := Actor{Kind: "ini", Target: t.Name, Portal: portal(), Phase: ph, Depth: r.Pick(1, 2, 4, 8), ISID: isids[0], SN0: uint32(r.Uint64()), Keys: genKeys(r)}
					isids = isids[1:]
					luns := lunsOf(t)
					for m := r.Range(3, 14); m > 0; m-- {
						lun := luns[r.Intn(len(luns))]
						st := inqStep(r, lun)
						switch r.Intn(14) {
						case 0:
							st = Step{Op: []string{"tur", "rcap16", "rluns"}[r.Intn(3)], LUN: lun, Want: wantAny}
						case 1:
							st = rwStep(r, lun, p.storage(t, lun).Blocks, 4, 2)
							st.Want = wantAny
						case 2:
							st = Step{Op: []string{"logout", "close", "rst"}[r.Intn(3)]}
						}
						st.Gap = int64(r.Pick(0, 0, 0, r.Intn(100000)))
						a.Steps = append(a.Steps, st)
					}
					p.Actors = append(p.Actors, a)
				}
				if p.Setup.Mode == "lib" && r.P(2, 3) {
					adm := Actor{Kind: "admin", Name: fmt.Sprintf("admin%d", ph), Target: p.Setup.Targets[0].Name, Phase: ph}
					for n := r.Range(1, 3); n > 0; n-- {
						t := &p.Setup.Targets[r.Intn(nt)]
						luns := lunsOf(t)
						l := luns[r.Intn(len(luns))]
						dev := int64(t.LUNs[fmt.Sprint(l)])
						for m := r.Range(1, 4); m > 0; m-- {
							adm.Steps = append(adm.Steps, Step{Op: "unmap", S: t.Name, LUN: l, Arg: dev, Gap: int64(r.Intn(300000))},
								Step{Op: "map", S: t.Name, LUN: l, Arg: dev, Gap: int64(r.Intn(100000))})
						}
						if r.P(1, 3) {
							adm.Steps = append(adm.Steps, Step{Op: "reread"})
						}
					}
					p.Actors = append(p.Actors, adm)
				}
				if ph < phases && r.P(1, 2) {
					p.Faults = append(p.Faults, Fault{Kind: []string{"killat", "powerat"}[r.Intn(2)], Arg: int64(ph), At: int64(r.Intn(4000000))})
				}
			}
		}})
}
