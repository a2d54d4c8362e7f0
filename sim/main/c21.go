//go:build go1.25

package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"reflect"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/zsim/boot"
	"github.com/gostor/gotgt/zsim/rt"
	"github.com/gostor/gotgt/zsim/simdisk"
)

// confState is what a configuration file holds: the version a reader sees and
// the version a power failure would leave.
type confState struct{ vis, dur int16 }

const (
	confNone = 0    // there is no file
	confBad  = -1   // a file which is no configuration
	confReal = 1000 // what the deployment is served from
)

// confDirs are the directories configurations are kept in; the first is the
// daemon's, the last ones do not exist at the start.
var confDirs = []string{"/etc/gotgt", "/var/lib/gotgt/a/b", "/root/.gotgt"}

// confRun is what the runs of C21 keep.
type confRun struct {
	vers    map[int16]*config.Config
	ops     map[string][]*linOp[confState] // of each directory
	first   map[string]confState
	nop     int // file operations so far
	hits    int // faults so far
	nloads  int
	loading int
	running []*confOp
}

// confOp is a call in progress.
type confOp struct {
	dir  string
	inv  int64
	v    int16
	save bool
	done bool
	died bool // the program ended first
}

// confVersion makes the configuration with the given number.
func (w *World) confVersion(v int16) *config.Config {
	c := &config.Config{}
	if v == confReal {
		if err := json.Unmarshal(w.configJSON(), c); err != nil {
			panic(err)
		}
		return c
	}
	r := rt.NewRNG(rt.Hash64(0, fmt.Sprintf("configuration %d", v)))
	name := func(k int) string {
		s := fmt.Sprintf("n%d", k)
		for n := r.Pick(0, 0, 3, 40, 300); n > 0; n-- {
			s += string([]rune{'a', 'z', '0', '.', ':', '-', '/', ' ', '"', '\\', '<', '&', '>', '\'', '\n', '\t', 0, 0x7f, 'é', 0x2028, 0x1f600, 0xfffd}[r.Intn(22)])
		}
		return s
	}
	u64 := func() uint64 {
		switch r.Intn(4) {
		case 0:
			return r.Uint64()
		case 1:
			return 1<<53 + uint64(r.Intn(3))
		}
		return uint64(r.Intn(5000))
	}
	// the first storage tells the version
	c.Storages = []config.BackendStorage{{DeviceID: uint64(v), Path: "file:/data/" + name(0)}}
	for n := r.Pick(0, 1, 3, 60); n > 0; n-- {
		c.Storages = append(c.Storages, config.BackendStorage{DeviceID: u64(), Path: name(n), Online: r.P(1, 2), ThinProvisioning: r.P(1, 2), BlockShift: uint(r.Pick(0, 9, 12, 1<<40))})
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		c.ISCSIPortals = []config.ISCSIPortalInfo{}
	default:
		for n := r.Range(1, 4); n > 0; n-- {
			c.ISCSIPortals = append(c.ISCSIPortals, config.ISCSIPortalInfo{ID: uint16(r.Intn(65536)), Portal: name(n)})
		}
	}
	if r.P(1, 5) {
		return c
	}
	c.ISCSITargets = map[string]config.ISCSITarget{}
	for n := r.Pick(0, 1, 2, 12); n > 0; n-- {
		t := config.ISCSITarget{}
		if r.P(3, 4) {
			t.TPGTs = map[string][]uint64{}
			for k := r.Intn(3); k > 0; k-- {
				var l []uint64
				for j := r.Intn(3); j > 0; j-- {
					l = append(l, u64())
				}
				t.TPGTs[fmt.Sprint(k)] = l
			}
		}
		if r.P(3, 4) {
			t.LUNs = map[string]uint64{}
			for k := r.Pick(0, 1, 5, 30); k > 0; k-- {
				t.LUNs[fmt.Sprint(r.Intn(300))] = u64()
			}
		}
		c.ISCSITargets[name(n)] = t
	}
	if r.P(1, 12) { // not representable
		bad := []string{"file:/data/\xff", "\xc3", "a\xed\xa0\x80"}[r.Intn(3)]
		switch r.Intn(3) {
		case 0:
			c.Storages[0].Path = bad
		case 1:
			c.ISCSIPortals = append(c.ISCSIPortals, config.ISCSIPortalInfo{Portal: bad})
		default:
			c.ISCSITargets["x"+bad] = config.ISCSITarget{LUNs: map[string]uint64{"0": uint64(v)}}
		}
	}
	return c
}

// plain tells whether the text format can hold the configuration.
func plainConf(c *config.Config) bool {
	b, err := json.Marshal(c)
	if err != nil {
		return false
	}
	d := &config.Config{}
	return json.Unmarshal(b, d) == nil && reflect.DeepEqual(c, d)
}

// of finds the version a loaded configuration is, -2 when it is none.
func (c *confRun) of(l *config.Config) int16 {
	if l == nil {
		return -2
	}
	if reflect.DeepEqual(l, &config.Config{ISCSITargets: map[string]config.ISCSITarget{}}) {
		return confNone
	}
	for v := int16(1); v <= confReal; v++ {
		if k := c.vers[v]; k != nil && reflect.DeepEqual(k, l) {
			return v
		}
	}
	return -2
}

func (w *World) conf() *confRun { return w.x["conf"].(*confRun) }

// confSave saves a version as a task of the program.
func (w *World) confSave(dir string, v int16) {
	c := w.conf()
	vc := c.vers[v]
	if vc == nil {
		vc = w.confVersion(v)
		c.vers[v] = w.confVersion(v)
	}
	o := &confOp{dir: dir, v: v, save: true, inv: w.tick()}
	c.running = append(c.running, o)
	hits := c.hits
	var err error
	w.inDaemon("Save", func() { err = vc.Save(filepath.Join(dir, config.ConfigFileName)); o.done = true })
	if !o.done || o.died {
		return // it never returned: what it did is settled where the program ended
	}
	set := func(s confState) (confState, bool) { return confState{v, v}, true }
	op := &linOp[confState]{inv: o.inv, ret: w.tick(), what: fmt.Sprintf("Save of version %d: %v", v, err), apply: set}
	if err != nil {
		w.maybeSaved(op, v)
		if hits == c.hits && plainConf(vc) {
			w.fail("conf", "saving version %d in %s fails, nothing is wrong with it: %v", v, dir, err)
		}
		w.cover("save_failed")
	} else {
		w.cover("save_ok")
	}
	c.ops[dir] = append(c.ops[dir], op)
	if !reflect.DeepEqual(vc, c.vers[v]) {
		w.fail("conf", "saving version %d changed the configuration in memory", v)
	}
}

// maybeSaved makes the operation one that happened or not.
func (w *World) maybeSaved(op *linOp[confState], v int16) {
	op.apply = func(s confState) (confState, bool) { return s, true }
	op.alt = func(s confState) (confState, bool) { return confState{v, v}, true }
	op.alt2 = func(s confState) (confState, bool) { return confState{v, s.dur}, true }
}

// confLoad loads as a task of the program.
func (w *World) confLoad(dir string, viaDefault bool) {
	c := w.conf()
	o := &confOp{dir: dir, inv: w.tick()}
	c.running = append(c.running, o)
	hits := c.hits
	var err error
	var l, before, after *config.Config
	c.nloads++
	n, alone := c.nloads, c.loading == 0
	c.loading++
	w.inDaemon("Load", func() {
		d := dir
		if viaDefault {
			d = ""
		}
		before = config.GetConfig()
		l, err = config.Load(d)
		after = config.GetConfig()
		o.done = true
	})
	c.loading--
	if !o.done || o.died {
		return
	}
	alone = alone && c.nloads == n
	op := &linOp[confState]{inv: o.inv, ret: w.tick(), pure: true}
	if err != nil {
		w.cover("load_failed")
		if alone && after != before {
			w.fail("conf", "after a failed load (%v) another configuration is current", err)
		}
		if l != nil {
			w.fail("conf", "a load that fails (%v) returns a configuration", err)
		}
		if hits != c.hits {
			return
		}
		op.what = fmt.Sprintf("Load from %s fails: %v", dir, err)
		op.apply = func(s confState) (confState, bool) { return s, s.vis == confBad }
	} else {
		w.cover("load_ok")
		v := c.of(l)
		if v < 0 {
			b, _ := json.Marshal(l)
			w.fail("conf", "loading from %s returns success with a configuration nobody saved: %.300s", dir, b)
			return
		}
		if alone && after != l {
			w.fail("conf", "the configuration last loaded is not the current one")
		}
		op.what = fmt.Sprintf("Load from %s returns version %d", dir, v)
		op.apply = func(s confState) (confState, bool) { return s, s.vis == v }
	}
	c.ops[dir] = append(c.ops[dir], op)
}

// confCrash ends the program, with the power if asked to.
func (w *World) confCrash(power bool) {
	c := w.conf()
	w.kill(false)
	t := w.tick()
	for _, o := range c.running {
		if o.save && !o.done {
			op := &linOp[confState]{inv: o.inv, ret: t, what: fmt.Sprintf("Save of version %d, interrupted", o.v)}
			w.maybeSaved(op, o.v)
			c.ops[o.dir] = append(c.ops[o.dir], op)
			w.cover("save_interrupted")
		}
		o.died = !o.done
	}
	c.running = nil
	if power {
		w.D.PowerLoss()
		w.cover("fault:power_loss")
		for _, d := range confDirs {
			c.ops[d] = append(c.ops[d], &linOp[confState]{inv: w.tick(), ret: w.tick(), what: "the power fails",
				apply: func(s confState) (confState, bool) { return confState{s.vis, s.vis}, true },
				alt:   func(s confState) (confState, bool) { return confState{s.dur, s.dur}, true }})
		}
	}
}

// confFaults decides the fate of a file operation.
func (w *World) confFaults(op *simdisk.Op) *simdisk.Fault {
	c := w.conf()
	if w.quiet {
		return nil
	}
	for _, lu := range w.LUs {
		if lu.Path == op.Path {
			return nil
		}
	}
	c.nop++
	k, _ := w.x["opkind"].(map[string]int)
	if k == nil {
		k = map[string]int{}
		w.x["opkind"] = k
	}
	k[op.Kind]++
	for j := range w.P.Faults {
		f := &w.P.Faults[j]
		if f.Kind != "conf" && f.Kind != "killop" && f.Kind != "powerop" {
			continue
		}
		if f.Op != "" && f.Op != op.Kind || f.Op == "" && f.N != c.nop || f.Op != "" && f.N != k[op.Kind] {
			continue
		}
		if f.Kind != "conf" {
			if !w.killed {
				w.killed = true
				w.x["power"] = f.Kind == "powerop"
				w.killq.WakeAll()
				if f.Delay > 0 {
					return &simdisk.Fault{Delay: f.Delay}
				}
			}
			continue
		}
		r := &simdisk.Fault{Part: f.Part, Delay: f.Delay, Lose: f.Lose}
		if f.Short {
			if op.Kind == "read" && op.Len > 1 || op.Kind == "write" && op.Len > 0 {
				r.Short = true
				r.Part = f.Part % op.Len
				if op.Kind == "read" {
					r.Part = max(1, r.Part) // nothing at all is the end of the file
				} else {
					c.hits++
				}
				w.cover("fault:disk_" + op.Kind + "_short")
			}
			return r
		}
		if f.Errno != "" {
			r.Err = errnos[f.Errno]
			if op.Len > 0 {
				r.Part = f.Part % op.Len
			}
			c.hits++
			w.cover("fault:disk_" + op.Kind + "_" + f.Errno)
		} else if f.Delay > 0 {
			w.cover("fault:disk_" + op.Kind + "_slow")
		}
		return r
	}
	return nil
}

// checkConf looks for an order of all that was done with each file.
func (w *World) checkConf() {
	c := w.conf()
	for _, d := range confDirs {
		bad, n := linearize(c.first[d], c.ops[d])
		w.cov["conf_states"] += int64(max(0, n))
		if bad != nil {
			s := ""
			for _, o := range c.ops[d] {
				s += fmt.Sprintf("; [%d..%d] %s", o.inv, o.ret, o.what)
			}
			w.fail("conf", "%s: not possible after what was saved before: it began with version %d%s", bad.what, c.first[d].vis, s)
		}
		if n < 0 {
			w.cover("conf_undecided")
		}
	}
}

// program starts a process which uses the library.
func (w *World) program() {
	w.gen++
	p := w.S.NewProc(fmt.Sprintf("program%d", w.gen))
	p.OnDeath = func() { w.N.ProcDied(p); w.D.ProcDied(p); w.crashed(p) }
	w.daemon = p
	w.inDaemon("start", func() { boot.Reset(); quietLogs() })
	w.down = false
}

func runConf(w *World) {
	c := &confRun{vers: map[int16]*config.Config{}, ops: map[string][]*linOp[confState]{}, first: map[string]confState{}}
	w.x["conf"] = c
	c.vers[confReal] = w.confVersion(confReal)
	w.D.Inject = w.confFaults
	if c.of(c.vers[confReal]) != confReal {
		panic("configurations")
	}
	c.first[confDirs[0]] = confState{confReal, confReal}
	switch w.P.Kind {
	case "absent":
		w.quiet = true
		w.D.Drop("/etc/gotgt/config.json")
		w.quiet = false
		c.first[confDirs[0]] = confState{}
	case "cut", "empty", "garbled":
		b := w.D.Bytes("/etc/gotgt/config.json")
		n := len(b) * int(w.P.Index%97) / 98
		x := append([]byte(nil), b[:n]...)
		if w.P.Kind == "empty" {
			x = nil
		} else if w.P.Kind == "garbled" {
			x = []byte([]string{"]", "\x00\x00\x00\x00", `{"storages": 7}`, `{"storages":[{"deviceID":"a"}]}`, `[]`, `{"iscsitargets":{"a":{"luns":{"0":-1}}}}`, `{"storages":[{"deviceID":1}`, `"x"`, `{"iscsiportals":[{"id":70000}]}`}[w.P.Index%9])
		}
		w.D.Put("/etc/gotgt/config.json", x, 0o600)
		c.first[confDirs[0]] = confState{confBad, confBad}
	}
	phases := 0
	for k := range w.P.Actors {
		if w.P.Actors[k].Kind == "admin" {
			phases = max(phases, w.P.Actors[k].Phase)
		}
	}
	for ph := 0; ph <= phases; ph++ {
		w.program()
		w.phase, w.killed = ph, false
		delete(w.x, "power")
		left := 0
		for k := range w.P.Actors {
			a := &w.P.Actors[k]
			if a.Kind != "admin" || a.Phase != ph {
				continue
			}
			left++
			w.S.Spawn("actor", w.root, func() {
				for j := range a.Steps {
					s := &a.Steps[j]
					if w.killed || w.daemon.Dead {
						break
					}
					if s.Gap > 0 {
						rt.Sleep(s.Gap)
					}
					if w.killed || w.daemon.Dead {
						break
					}
					switch s.Op {
					case "save":
						w.confSave(confDirs[s.LUN%len(confDirs)], int16(s.V))
					case "load":
						w.confLoad(confDirs[s.LUN%len(confDirs)], s.I && s.LUN == 0)
					}
				}
				left--
				w.killq.WakeAll()
			})
		}
		for left > 0 && !w.killed {
			if w.S.Deadlock || w.daemon.Dead {
				return
			}
			w.killq.WaitFor("crash", 3600e9)
		}
		power := false
		for k := range w.P.Faults {
			if f := &w.P.Faults[k]; f.Kind == "endpower" && f.Arg == int64(ph) {
				power = true
			}
		}
		if p, ok := w.x["power"]; ok {
			power = p.(bool)
		}
		w.confCrash(power)
		for left > 0 {
			w.killq.WaitFor("crash", 3600e9)
		}
		// what is there now
		w.quiet = true
		w.program()
		for _, d := range confDirs {
			w.confLoad(d, false)
		}
		w.confCrash(false)
		w.quiet = false
	}
	w.checkConf()
	w.quiet = true
	if len(w.V) > 0 {
		return
	}
	// the daemon serves what was saved, or nothing
	w.program()
	w.confSave(confDirs[0], confReal)
	w.confCrash(w.P.Index&1 == 0)
	w.quiet = false
	hits := c.hits
	delete(w.x, "opkind")
	c.nop = 0
	fs := w.P.Faults
	w.P.Faults = nil
	for _, f := range fs {
		if f.Kind == "bootconf" {
			f.Kind = "conf"
			w.P.Faults = append(w.P.Faults, f)
		}
	}
	defer func() { w.P.Faults = fs }()
	ok := w.boot()
	if !ok && (w.daemon.Dead || hits != c.hits) {
		w.cover("daemon_refused_to_start")
	}
	w.quiet = true
	if !ok {
		if hits == c.hits {
			w.fail("boot", "the daemon does not start on the configuration saved: %v", w.x["booterr"])
			return
		}
		if w.daemon.Crash != nil {
			return
		}
		w.kill(false)
		if !w.boot() {
			w.fail("boot", "the daemon does not start on the configuration saved: %v", w.x["booterr"])
			return
		}
	}
	var fns []func()
	for k := range w.P.Actors {
		if w.P.Actors[k].Kind == "ini" {
			i := w.newIni(&w.P.Actors[k])
			fns = append(fns, i.run)
		}
	}
	w.finish(fns)
}

func init() {
	addProp(&Prop{id: "C21", tags: []string{"conf", "boot", "login", "lin", "status", "hang"}, run: runConf,
		rule: "a program saves up to 12 different configurations (any strings, numbers, nil and empty lists) in three directories, some new, and loads them back, from up to 3 tasks at once; file operations fail, are cut short or lose unsynced data at chosen points and the program is killed or the host loses power at chosen operations up to three times, also long after; at the start the file is there, absent or damaged. All saves, loads, deaths and power failures of each file must have an order in which a load returns exactly what was last saved; finally the daemon boots, with faults on its configuration file, and serves every target of it or does not start.",
		gen: func(r *rt.RNG, p *Plan) {
			spreadTargets(r, p, r.Range(1, 3), func(k int) Storage { return Storage{Blocks: 16} })
			p.Kind = []string{"", "", "", "", "absent", "absent", "cut", "garbled", "empty"}[r.Intn(9)]
			p.PageY = r.Pick(64, 512, 4096)
			phases := r.Intn(4)
			for ph := 0; ph <= phases; ph++ {
				ops := 0
				for n := r.Pick(1, 1, 1, 2, 3); n > 0; n-- {
					a := Actor{Kind: "admin", Phase: ph, Name: fmt.Sprintf("admin%d.%d", ph, n)}
					for c := r.Range(1, 6); c > 0; c-- {
						s := Step{Op: "save", LUN: r.Pick(0, 0, 0, 0, 1, 2), V: r.Range(1, 12) + 12*r.Intn(8)}
						if r.P(1, 2) {
							s.V = r.Range(1, 3)
						}
						if r.P(2, 5) {
							s = Step{Op: "load", LUN: s.LUN, I: r.P(1, 3)}
						}
						if r.P(1, 4) {
							s.Gap = int64(r.Intn(20000))
						}
						ops += 8
						a.Steps = append(a.Steps, s)
					}
					p.Actors = append(p.Actors, a)
				}
				n := 1 + r.Intn(ops+4)
				switch r.Intn(6) {
				case 0, 1:
					p.Faults = append(p.Faults, Fault{Kind: "killop", N: n + ph*ops, Delay: int64(r.Pick(0, 0, 1, 50000)), Arg: int64(ph)})
				case 2, 3:
					p.Faults = append(p.Faults, Fault{Kind: "powerop", N: n + ph*ops, Delay: int64(r.Pick(0, 0, 1, 50000)), Arg: int64(ph)})
				case 4:
					p.Faults = append(p.Faults, Fault{Kind: "endpower", Arg: int64(ph)})
				}
			}
			kinds := []string{"", "open", "write", "write", "sync", "close", "rename", "syncdir", "read", "stat", "mkdir", "remove"}
			fault := func() Fault {
				f := Fault{Kind: "conf", Op: kinds[r.Intn(len(kinds))], N: r.Range(1, 12), Errno: "EIO"}
				switch f.Op {
				case "":
					f.N = r.Range(1, 60)
				case "open":
					f.Errno = []string{"EMFILE", "EACCES", "ENOSPC", "EIO", "EROFS"}[r.Intn(5)]
				case "write":
					f.Errno = []string{"EIO", "ENOSPC", "EDQUOT"}[r.Intn(3)]
					f.Part = r.Intn(4000)
					f.Short = r.P(1, 3)
				case "read":
					f.Short = r.P(1, 2)
					f.Part = r.Intn(4000)
				case "sync", "close":
					f.Errno = []string{"EIO", "ENOSPC", "EDQUOT"}[r.Intn(3)]
					f.Lose = r.P(1, 2)
				case "stat":
					f.Errno = []string{"EIO", "EACCES"}[r.Intn(2)]
				case "mkdir", "rename":
					f.Errno = []string{"EIO", "ENOSPC", "EROFS", "EACCES"}[r.Intn(4)]
				}
				return f
			}
			for n := r.Pick(0, 0, 1, 2, 4); n > 0; n-- {
				p.Faults = append(p.Faults, fault())
			}
			if r.P(1, 3) {
				f := fault()
				f.Kind, f.Op, f.N = "bootconf", []string{"stat", "open", "read", "close"}[r.Intn(4)], r.Pick(1, 1, 2)
				f.Errno = []string{"EIO", "EACCES", "EMFILE"}[r.Intn(3)]
				p.Faults = append(p.Faults, f)
			}
			for k := range p.Setup.Targets {
				t := &p.Setup.Targets[k]
				a := Actor{Kind: "ini", Target: t.Name, Depth: 2, SN0: uint32(r.Uint64())}
				for _, lun := range lunsOf(t) {
					a.Steps = append(a.Steps, Step{Op: "read", LUN: lun, N: 4, V: 10})
				}
				p.Actors = append(p.Actors, a)
			}
		}})
}
