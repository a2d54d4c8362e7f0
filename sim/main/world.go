//go:build go1.25

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"syscall"

	"github.com/gostor/gotgt/cmd"
	"github.com/gostor/gotgt/zsim/boot"
	"github.com/gostor/gotgt/zsim/rt"
	"github.com/gostor/gotgt/zsim/simdisk"
	"github.com/gostor/gotgt/zsim/simnet"
	"github.com/sirupsen/logrus"
	"github.com/spf13/viper"
)

const (
	iscsiPort = 3260
	apiPort   = 23457
	hangAfter = int64(60e9) // an answer that takes longer never comes
	inf       = int64(1) << 62
)

// Violation is one observed breach.
type Violation struct {
	Tag string `json:"tag"`
	Msg string `json:"msg"`
	At  int64  `json:"at"`
}

// LU is the model of one backing store.
type LU struct {
	Dev    uint64
	Tag    uint64 // stands for the device in its initial data
	Path   string
	Blocks uint64
	BS     int
	Shift  uint
	Thin   bool
	Extra  []byte
	Remote bool
	Sparse bool
	Have   int64 // bytes at the start, -1: all
	mem    []byte
	opN    map[string]int
	base   map[uint64]uint64 // values at the start of the epoch
	hist   map[uint64][]mrec
	taint  map[uint64]bool
	zeroOK map[uint64]bool
	bits   map[uint64][]*linOp[bitState]
	nbit   int
}

// World is one simulated deployment.
type World struct {
	S        *rt.Sim
	N        *simnet.Net
	D        *simdisk.Disk
	P        *Plan
	daemon   *rt.Proc
	gen      int
	seq      int64
	V        []Violation
	LUs      []*LU
	byDev    map[uint64]*LU
	inis     []*Ini
	cmds     []*Cmd
	ops      []*Cmd // write op id -> command
	never    map[int]*Cmd
	down     bool // the daemon is being killed or is not up: lost connections are expected
	crash0   int64
	cov      map[string]int64
	files0   map[string]string
	faults   []hit
	lib      *libDaemon
	quiet    bool // end phase
	x        map[string]any
	endw     []func()
	dead     bool
	killq    rt.WaitList
	killed   bool
	root     *rt.Proc
	misms    []*Cmd
	syncs    []*Cmd
	epoch0   int64 // history before this is closed
	onDone   func(c *Cmd)
	excuse   func(c *Cmd) bool // an unexpected status is explained
	noLin    bool
	phase    int // crashes so far
	onFault  func(h *hit)
	luOfDyn  func(i *Ini, lun int) *LU
	stepHook func(i *Ini, st *Step) bool
	onLogin  func(s *Sess, q *loginReq)
}

// hit is one injected disk fault.
type hit struct {
	f    *Fault
	op   simdisk.Op
	seq  int64
	used bool
	part int
}

func (w *World) tick() int64 { w.seq++; return w.seq }

func (w *World) fail(tag, f string, a ...any) {
	if len(w.V) < 40 {
		w.V = append(w.V, Violation{tag, fmt.Sprintf(f, a...), w.S.Now()})
	}
}

func (w *World) cover(k string) { w.cov[k]++ }

func devPath(dev uint64) string { return fmt.Sprintf("/data/disk%d", dev) }

func (w *World) makeMedia() {
	w.byDev = map[uint64]*LU{}
	for _, st := range w.P.Setup.Storages {
		sh := st.BShift
		if sh == 0 {
			sh = 9
		}
		lu := &LU{Dev: st.Dev, Tag: st.Dev, Path: devPath(st.Dev), Blocks: st.Blocks, BS: 1 << sh, Shift: sh, Thin: st.Thin, Remote: st.Remote, Have: st.Have - 1,
			hist: map[uint64][]mrec{}, taint: map[uint64]bool{}, zeroOK: map[uint64]bool{}, bits: map[uint64][]*linOp[bitState]{}}
		if lu.Tag >= 1<<20 {
			lu.Tag = 1<<20 + uint64(len(w.LUs))
		}
		w.LUs = append(w.LUs, lu)
		w.byDev[lu.Dev] = lu
		if st.Sparse {
			lu.Sparse = true
			w.D.PutSparse(lu.Path, int64(lu.Blocks)<<sh+int64(st.Extra))
			continue
		}
		b := make([]byte, int(lu.Blocks)*lu.BS+st.Extra)
		for i := uint64(0); i < lu.Blocks; i++ {
			fillBlock(b[int(i)*lu.BS:int(i+1)*lu.BS], initID(lu.Tag, i))
		}
		lu.Extra = b[int(lu.Blocks)*lu.BS:]
		for i := range lu.Extra {
			lu.Extra[i] = byte(0xe0 + i%16)
		}
		lu.Extra = append([]byte(nil), lu.Extra...)
		if st.Remote {
			lu.mem = b[:len(b)-st.Extra]
			continue
		}
		if lu.Have >= 0 {
			b = b[:lu.Have]
			if lu.Have%int64(lu.BS) != 0 {
				lu.taint[uint64(lu.Have)>>sh] = true
			}
		}
		w.D.Put(lu.Path, b, 0o644)
	}
	for i := 0; i < 2; i++ {
		p := fmt.Sprintf("/data/bystander%d", i)
		b := make([]byte, 8192)
		fillBlock(b, initID(uint64(90000+i), 0))
		w.D.Put(p, b, 0o644)
		w.files0[p] = string(b)
	}
}

// configJSON renders the configuration file of the daemon.
func (w *World) configJSON() []byte {
	type bs struct {
		DeviceID         uint64 `json:"deviceID"`
		Path             string `json:"path"`
		Online           bool   `json:"online"`
		ThinProvisioning bool   `json:"thinProvisioning"`
		BlockShift       uint   `json:"blockShift"`
	}
	type portal struct {
		ID     int    `json:"id"`
		Portal string `json:"portal"`
	}
	type tgt struct {
		TPGTs map[string][]int `json:"tpgts"`
		LUNs  map[string]int   `json:"luns"`
	}
	c := struct {
		Storages []bs           `json:"storages"`
		Portals  []portal       `json:"iscsiportals"`
		Targets  map[string]tgt `json:"iscsitargets"`
	}{Targets: map[string]tgt{}}
	for _, s := range w.P.Setup.Storages {
		if s.Remote || s.Late {
			continue
		}
		c.Storages = append(c.Storages, bs{s.Dev, "file:" + devPath(s.Dev), !s.Off, s.Thin, s.BShift})
	}
	for i, p := range w.P.Setup.Portals {
		c.Portals = append(c.Portals, portal{i, p})
	}
	for _, t := range w.P.Setup.Targets {
		if t.Late {
			continue
		}
		luns := map[string]int{}
		for l, d := range t.LUNs {
			if lu := w.byDev[uint64(d)]; lu == nil || !lu.Remote {
				luns[l] = d
			}
		}
		c.Targets[t.Name] = tgt{t.TPGTs, luns}
	}
	b, err := json.MarshalIndent(c, "", " ")
	if err != nil {
		panic(err)
	}
	return b
}

func quietLogs() {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.ErrorLevel)
	if os.Getenv("SIM_LOG") != "" {
		logrus.SetOutput(os.Stderr)
	}
	logrus.StandardLogger().ExitFunc = func(c int) { rt.Exit(c) }
}

// boot starts the daemon and waits until it listens.
func (w *World) boot() bool {
	w.gen++
	p := w.S.NewProc(fmt.Sprintf("daemon%d", w.gen))
	p.OnDeath = func() { w.N.ProcDied(p); w.D.ProcDied(p); w.crashed(p) }
	w.daemon = p
	st := w.P.Setup
	w.S.Spawn("main", p, func() {
		boot.Reset()
		viper.Reset()
		quietLogs()
		if st.Mode == "lib" {
			if l, err := logrus.ParseLevel(st.Log); err == nil {
				logrus.SetLevel(l)
			}
			w.libMain()
			return
		}
		lv := st.Log
		if lv == "" {
			lv = "error"
		}
		args := []string{"daemon", "--host", fmt.Sprintf("tcp://0.0.0.0:%d", apiPort), "--log", lv}
		if st.Block {
			args = append(args, "--block-multiple-hosts")
		}
		c := cmd.NewCommand()
		c.SilenceUsage, c.SilenceErrors = true, true
		c.SetArgs(args)
		if err := c.Execute(); err != nil {
			w.x["booterr"] = err.Error()
		}
		w.x["returned"] = w.S.Now()
	})
	for t := w.S.Now() + 20e9; w.S.Now() < t; {
		if w.N.Listening(iscsiPort) && (st.Mode == "lib" && !st.API || w.N.Listening(apiPort)) {
			w.down = false
			return true
		}
		if p.Dead || w.S.Deadlock {
			break
		}
		rt.Sleep(1e6)
	}
	return false
}

// kill ends the daemon; with power set the host loses power too.
func (w *World) kill(power bool) {
	w.down = true
	w.crash0 = w.tick()
	w.S.Kill(w.daemon)
	if power {
		w.D.PowerLoss()
		w.cover("fault:power_loss")
	} else {
		w.cover("fault:daemon_kill")
	}
}

// crashed reports a process that ended by a panic or an error of the runtime.
func (w *World) crashed(p *rt.Proc) {
	if c := p.Crash; c != nil && c.Kind != "exit" {
		w.fail("crash", "the daemon terminated (%s): %s [%s]", c.Kind, c.Msg, c.Stack)
	}
}

// exited reports a daemon that has ended although nobody told it to.
func (w *World) exited() {
	if w.down || w.daemon == nil || w.daemon.Crash == nil {
		return
	}
	if c := w.daemon.Crash; c.Kind == "exit" {
		w.fail("crash", "the daemon terminated (%s): %s [%s]", c.Kind, c.Msg, c.Stack)
	}
}

// injector applies the disk faults of the plan.
func (w *World) injector(op *simdisk.Op) *simdisk.Fault {
	for k := range w.P.Faults {
		f := &w.P.Faults[k]
		if f.Kind != "disk" && f.Kind != "killop" && f.Kind != "powerop" {
			continue
		}
		if w.quiet || f.Op != op.Kind || f.Path != "" && f.Path != op.Path {
			continue
		}
		n := f.Count
		if n == 0 {
			n = 1
		}
		if op.N < f.N || op.N >= f.N+n {
			continue
		}
		if f.Kind != "disk" {
			if !w.killed && f.Arg == int64(w.phase) {
				w.killed = true
				w.x["power"] = f.Kind == "powerop"
				w.killq.WakeAll()
				return &simdisk.Fault{Delay: 1 + f.Delay}
			}
			continue
		}
		r := &simdisk.Fault{Part: f.Part, Delay: f.Delay, Lose: f.Lose, Short: f.Short}
		if f.Errno != "" {
			r.Err = errnos[f.Errno]
		}
		if (r.Err != nil || r.Short) && r.Part >= op.Len {
			r.Part = max(0, op.Len-1)
		}
		if r.Err != nil || r.Short && op.Len > 0 {
			w.faults = append(w.faults, hit{f: f, op: *op, seq: w.tick(), part: r.Part})
			if w.onFault != nil {
				w.onFault(&w.faults[len(w.faults)-1])
			}
			if r.Err != nil {
				w.cover("fault:disk_" + op.Kind + "_" + f.Errno)
			} else {
				w.cover("fault:disk_" + op.Kind + "_short")
			}
		} else if r.Delay > 0 {
			w.cover("fault:disk_" + op.Kind + "_slow")
		}
		return r
	}
	return nil
}

// acceptError applies the plan's failures to accept a connection.
func (w *World) acceptError(port int) error {
	k, _ := w.x["accepts"].(map[int]int)
	if k == nil {
		k = map[int]int{}
		w.x["accepts"] = k
	}
	n := k[port]
	k[port]++
	for j := range w.P.Faults {
		f := &w.P.Faults[j]
		if f.Kind == "accept" && !w.quiet && int(f.Arg) == port && n >= f.N && n < f.N+max(1, f.Count) {
			w.cover("fault:accept_" + f.Errno)
			return errnos[f.Errno]
		}
	}
	return nil
}

var errnos = map[string]error{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EDQUOT": syscall.EDQUOT, "EINTR": syscall.EINTR,
	"EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "ECONNABORTED": syscall.ECONNABORTED, "EAGAIN": syscall.EAGAIN, "ENOMEM": syscall.ENOMEM, "EACCES": syscall.EACCES, "EROFS": syscall.EROFS}

// Result is what one run showed.
type Result struct {
	V       []Violation      `json:"v,omitempty"`
	Hash    uint64           `json:"hash"`
	Steps   uint64           `json:"steps"`
	Switch  uint64           `json:"switches"`
	SimNs   int64            `json:"sim_ns"`
	Cov     map[string]int64 `json:"cov"`
	Devs    []rt.Deviation   `json:"-"`
	Capped  bool             `json:"capped,omitempty"`
	Net     map[string]int64 `json:"net"`
	Disk    map[string]int64 `json:"disk"`
	Cmds    int              `json:"cmds"`
	History []string         `json:"history,omitempty"`
	Digest  uint64           `json:"digest"`
}

var verbose bool

// execute runs one plan from boot to the end checks.
func execute(p *Plan) *Result {
	res := &Result{Cov: map[string]int64{}}
	var w *World
	s := rt.Run(p.Seed, p.Sched, func(s *rt.Sim) {
		w = &World{S: s, P: p, cov: res.Cov, never: map[int]*Cmd{}, files0: map[string]string{}, x: map[string]any{}, ops: []*Cmd{nil}}
		w.root = rt.Cur().Proc
		w.N = simnet.New(p.Net)
		w.D = simdisk.New()
		if p.PageY > 0 {
			w.D.PageY = p.PageY
		}
		for k := range p.Faults {
			if f := &p.Faults[k]; f.Kind == "clock" {
				s.Jumps = append(s.Jumps, rt.Jump{At: f.At, Delta: f.Delay})
			}
		}
		s.Env["GOSTOR_CONFIG"] = "/etc/gotgt"
		w.makeMedia()
		w.D.Put("/etc/gotgt/config.json", w.configJSON(), 0o600)
		w.D.Inject = w.injector
		w.N.AcceptErr = w.acceptError
		propOf(p.Prop).run(w)
		w.quiet = true
		w.exited()
		for _, hp := range s.HandlerPanics {
			w.fail("apipanic", "an HTTP handler panicked: %s", hp)
		}
		for _, r := range s.Races {
			w.fail("maprace", "concurrent map access that ends the daemon when hit: %s", r)
		}
		res.Disk, res.Net = w.D.Stats, w.N.Stats
		for _, c := range w.cmds {
			if verbose {
				res.History = append(res.History, c.String())
			}
			res.Digest = rt.Hash64(res.Digest, fmt.Sprintf("%s|%d|%d|%d|%v", c.what, c.inv, c.ret, c.status, c.lost))
		}
	})
	res.V = w.V
	res.Hash, res.Steps, res.Switch, res.SimNs, res.Devs, res.Capped = s.SchedHash, s.Steps, s.Switches, s.Now(), s.Devs, s.Capped
	res.Cmds = len(w.cmds)
	for _, j := range s.Jumps {
		if j.At <= res.SimNs {
			res.Cov["fault:clock_jump"]++
		}
	}
	if n := s.Stats["stall"]; n > 0 {
		res.Cov["fault:task_stall"] += n
	}
	for k, v := range res.Net {
		switch k {
		case "cut_fin", "cut_rst", "hold", "blackhole", "accept_error", "backpressure", "short_read":
			res.Cov["fault:net_"+k] += v
		}
	}
	if verbose {
		fmt.Printf("run: steps=%d switches=%d sim=%dms cmds=%d deadlock=%v capped=%v\n", s.Steps, s.Switches, s.Now()/1e6, len(w.cmds), s.Deadlock, s.Capped)
	}
	return res
}

// tasks runs the functions as concurrent world tasks and waits for them all.
func (w *World) tasks(limit int64, fns ...func()) bool {
	var wl rt.WaitList
	left := len(fns)
	for k, f := range fns {
		f := f
		w.S.Spawn(fmt.Sprintf("actor%d", k), rt.Cur().Proc, func() {
			f()
			left--
			wl.WakeAll()
		})
	}
	end := w.S.Now() + limit
	for left > 0 {
		if w.S.Deadlock || w.S.Now() >= end {
			return false
		}
		wl.WaitFor("actors", end-w.S.Now())
	}
	return true
}

// target finds the name served for an actor.
func (w *World) targetOf(a *Actor) *Target {
	for i := range w.P.Setup.Targets {
		if w.P.Setup.Targets[i].Name == a.Target {
			return &w.P.Setup.Targets[i]
		}
	}
	if a.Target == "" && len(w.P.Setup.Targets) > 0 {
		return &w.P.Setup.Targets[0]
	}
	return nil
}

// luOf is the unit behind a LUN of a target, nil when there is none.
func (w *World) luOf(t *Target, lun int) *LU {
	if t == nil {
		return nil
	}
	d, ok := t.LUNs[fmt.Sprint(lun)]
	if !ok {
		return nil
	}
	return w.byDev[uint64(d)]
}

// checkFiles compares everything that is not a backing store, and the bytes
// beyond the last whole block.
func (w *World) checkFiles() {
	for p, c := range w.files0 {
		if string(w.D.Bytes(p)) != c {
			w.fail("otherfile", "file %s changed", p)
		}
	}
	known := map[string]bool{"/etc/gotgt/config.json": true}
	for p := range w.files0 {
		known[p] = true
	}
	if w.x["conf"] != nil {
		for _, p := range w.D.List() {
			known[p] = true // what a save leaves behind is judged by loading it
		}
	}
	for _, lu := range w.LUs {
		known[lu.Path] = true
	}
	for _, p := range w.D.List() {
		if !known[p] && !strings.HasPrefix(p, "/cwd/") && !strings.HasPrefix(p, "/dev/") {
			w.fail("otherfile", "file %s appeared", p)
		}
	}
}

func sortedKeys[V any](m map[uint64]V) []uint64 {
	var out []uint64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
