//go:build go1.25

package rt

import (
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

const (
	stNew = iota
	stRunnable
	stRunning
	stBlocked
	stDone
)

// Proc is a simulated operating system process: the daemon, or the world of
// initiators and the test conductor.
type Proc struct {
	Name    string
	Dead    bool
	Crash   *CrashInfo // panic, fatal error or os.Exit
	Tasks   []*Task
	OnDeath func()
	Signal  func(os.Signal)
	Out     io.Writer // standard output
	Host    string    // the address it connects from
}

type CrashInfo struct {
	Kind  string // "panic", "fatal", "exit"
	Msg   string
	Stack string
}

// Task is one simulated goroutine.
type Task struct {
	ID     int
	Name   string
	Proc   *Proc
	gate   chan struct{}
	state  uint8
	killed bool
	dying  bool
	slot   int
	vc     VC
	lastA  uint32
	prio   uint64
	Wait   string // what it is blocked on
	WaitAt uint32 // last site seen
	woken  *bool
}

// Deviation is one scheduling decision that differs from the default policy
// (keep running; when blocked, run the task that became runnable first).
type Deviation struct {
	D uint64 `json:"d"`           // decision index
	P int    `json:"p"`           // index into the run queue
	S int64  `json:"s,omitempty"` // the preempted task is stalled for this long (ns)
}

type event struct {
	at  int64
	seq uint64
	fn  func()
	pos int
}

// Timer is a cancellable virtual-time event.
type Timer struct{ e *event }

type SchedCfg struct {
	Mode     string      `json:"mode"` // coop, rand, pct, replay
	Seed     uint64      `json:"seed"`
	Gap      int         `json:"gap,omitempty"`       // mean statements between preemptions (rand)
	StallPct int         `json:"stall_pct,omitempty"` // chance that a preempted task is stalled
	StallMax int64       `json:"stall_max,omitempty"` // ns
	StepNs   int64       `json:"step_ns"`             // virtual cost of one statement
	Points   int         `json:"points,omitempty"`    // priority change points (pct)
	MaxSteps uint64      `json:"max_steps,omitempty"`
	Devs     []Deviation `json:"devs,omitempty"` // replay
	Random   bool        `json:"random,omitempty"`
}

type Sim struct {
	Cfg     SchedCfg
	Seed    uint64
	now     int64
	runq    []*Task
	all     []*Task
	events  []*event
	evseq   uint64
	nextEv  int64
	Steps   uint64
	dec     uint64
	gap     int64
	rng     *RNG
	streams map[string]*RNG
	nextID  int
	root    *Task
	killer  *Task

	Devs      []Deviation // recorded
	replay    map[uint64]Deviation
	stalled   int64
	Switches  uint64
	SchedHash uint64
	Capped    bool
	pctPts    map[uint64]bool
	pctLow    uint64

	freeSlots []int
	slotLast  []uint32
	slotClock []uint32
	shadows   map[uintptr]*shadow
	Races     []string
	raceSeen  map[string]bool
	chans     map[uintptr]*simChan

	Deadlock      bool
	Unsupported   string
	Env           map[string]string
	Stats         map[string]int64
	Jumps         []Jump // steps of the daemon's wall clock
	HandlerPanics []string
	atomics       map[uintptr]*atomicClock
}

// S is the simulation in progress (one per OS process).
var S *Sim
var cur *Task

// Beat is watched by the real-time watchdog.
var Beat atomic.Uint64

const maxTime = int64(1) << 62

// Run executes fn as the root task of a fresh simulation.
func Run(seed uint64, cfg SchedCfg, fn func(*Sim)) *Sim {
	if cfg.StepNs <= 0 {
		cfg.StepNs = 20
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20_000_000
	}
	s := &Sim{Cfg: cfg, Seed: seed, nextEv: maxTime, streams: map[string]*RNG{}, SchedHash: 14695981039346656037,
		shadows: map[uintptr]*shadow{}, atomics: map[uintptr]*atomicClock{}, raceSeen: map[string]bool{}, chans: map[uintptr]*simChan{}, Env: map[string]string{}, Stats: map[string]int64{}}
	s.rng = NewRNG(Hash64(cfg.Seed, "sched"))
	switch cfg.Mode {
	case "rand":
		if cfg.Gap < 1 {
			s.Cfg.Gap = 16
		}
		s.gap = s.drawGap()
	case "pct":
		s.pctPts = map[uint64]bool{}
		for i := 0; i < cfg.Points; i++ {
			// change points are spread over several magnitudes of run length
			k := uint64(1) << uint(s.rng.Range(8, 18))
			s.pctPts[k+uint64(s.rng.Int63n(int64(k)))] = true
		}
		s.pctLow = 1 << 20
		s.gap = 1 << 62
	default:
		s.gap = 1 << 62
	}
	if cfg.Mode == "replay" || len(cfg.Devs) > 0 {
		s.replay = map[uint64]Deviation{}
		for _, d := range cfg.Devs {
			s.replay[d.D] = d
		}
	}
	S = s
	done := make(chan struct{})
	p := &Proc{Name: "world"}
	t := s.newTask("root", p, nil)
	s.root = t
	go func() {
		defer close(done)
		cur = t
		t.state = stRunning
		fn(s)
		s.shutdown(t)
	}()
	<-done
	cur = nil
	S = nil
	return s
}

func (s *Sim) drawGap() int64 {
	// geometric-ish: uniform in [1, 2*gap]
	return 1 + s.rng.Int63n(int64(2*s.Cfg.Gap))
}

func (s *Sim) newTask(name string, p *Proc, parent *Task) *Task {
	s.nextID++
	t := &Task{ID: s.nextID, Name: name, Proc: p, gate: make(chan struct{}, 1)}
	if s.Cfg.Mode == "pct" {
		t.prio = s.rng.Uint64()>>8 | 1<<40
	}
	s.initVC(t, parent)
	p.Tasks = append(p.Tasks, t)
	s.all = append(s.all, t)
	return t
}

// Cur is the running task (nil outside a simulation).
func Cur() *Task { return cur }

// Dying reports whether the running task is being unwound.
func Dying() bool { return cur == nil || cur.dying }

func (s *Sim) Now() int64 { return s.now }

// Stream returns the named random stream of this run.
func (s *Sim) Stream(name string) *RNG {
	r := s.streams[name]
	if r == nil {
		r = NewRNG(Hash64(s.Seed, name))
		s.streams[name] = r
	}
	return r
}

// NewProc creates a simulated process.
func (s *Sim) NewProc(name string) *Proc { return &Proc{Name: name} }

// Go starts a task in the current task's process.
func Go(site uint32, fn func()) {
	if cur == nil {
		go fn()
		return
	}
	if cur.dying {
		return
	}
	S.Spawn(fmt.Sprintf("%s/%d", cur.Proc.Name, site), cur.Proc, fn)
	Y(site)
}

// Spawn starts a task in a process.
func (s *Sim) Spawn(name string, p *Proc, fn func()) *Task {
	if p.Dead {
		return nil
	}
	t := s.newTask(name, p, cur)
	go func() {
		<-t.gate
		defer s.taskEnd(t)
		if t.killed {
			t.dying = true
			return
		}
		fn()
	}()
	s.makeRunnable(t)
	return t
}

func (s *Sim) taskEnd(t *Task) {
	if r := recover(); r != nil && !t.dying {
		t.dying = true
		s.crash(t.Proc, &CrashInfo{Kind: "panic", Msg: fmt.Sprint(r), Stack: trimStack(debug.Stack())})
	}
	t.dying = true
	if t.Proc.Dead && s.killer == nil {
		// the process died because of this task: take the others with it
		s.killTasks(t.Proc, t)
	}
	t.state = stDone
	s.freeVC(t)
	s.dropTask(t)
	if k := s.killer; k != nil {
		cur = k
		k.gate <- struct{}{}
		return
	}
	n := s.pickNext(nil)
	cur = n
	n.state = stRunning
	n.gate <- struct{}{}
}

func (s *Sim) dropTask(t *Task) {
	for i, x := range t.Proc.Tasks {
		if x == t {
			t.Proc.Tasks = append(t.Proc.Tasks[:i], t.Proc.Tasks[i+1:]...)
			break
		}
	}
	for i, x := range s.all {
		if x == t {
			s.all = append(s.all[:i], s.all[i+1:]...)
			break
		}
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") || l == "" || strings.HasPrefix(l, "goroutine") {
			continue
		}
		if strings.Contains(l, "zsim/rt") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic(") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 && !strings.HasPrefix(l, "created by") {
			l = l[:i]
		}
		l = strings.TrimPrefix(l, "github.com/gostor/gotgt/")
		out = append(out, l)
		if len(out) >= 10 {
			break
		}
	}
	return strings.Join(out, " < ")
}

func (s *Sim) crash(p *Proc, c *CrashInfo) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.Crash = c
	if p.Name == "world" {
		fmt.Fprintf(os.Stderr, "HARNESS PANIC: %s\n%s\n", c.Msg, c.Stack)
		debug.PrintStack()
		os.Exit(3)
	}
	if p.OnDeath != nil {
		p.OnDeath()
	}
}

// Fatal ends the current process the way an unrecoverable runtime error does.
func Fatal(msg string) {
	if cur == nil {
		panic(msg)
	}
	if cur.dying {
		return
	}
	S.crash(cur.Proc, &CrashInfo{Kind: "fatal", Msg: msg, Stack: trimStack(debug.Stack())})
	cur.dying = true
	runtime.Goexit()
}

// Exit is os.Exit of a simulated process.
func Exit(code int) {
	if cur == nil {
		os.Exit(code)
	}
	if cur.dying {
		return
	}
	S.crash(cur.Proc, &CrashInfo{Kind: "exit", Msg: fmt.Sprintf("os.Exit(%d)", code), Stack: trimStack(debug.Stack())})
	cur.dying = true
	runtime.Goexit()
}

// NotSupported marks the run as not decidable by the simulator.
func NotSupported(what string) {
	if S != nil && S.Unsupported == "" {
		S.Unsupported = what
	}
	fmt.Fprintf(os.Stderr, "simulator: unsupported operation %s\n%s\n", what, debug.Stack())
	os.Exit(3)
}

// Kill ends a process at once, as SIGKILL does.
func (s *Sim) Kill(p *Proc) {
	if !p.Dead {
		p.Dead = true
		if p.OnDeath != nil {
			p.OnDeath()
		}
	}
	if cur.Proc != p {
		s.killTasks(p, cur)
	}
}

func (s *Sim) killTasks(p *Proc, me *Task) {
	saved := s.killer
	s.killer = me
	for {
		var v *Task
		for _, t := range p.Tasks {
			if t != me && t.state != stDone {
				v = t
				break
			}
		}
		if v == nil {
			break
		}
		v.killed = true
		s.unqueue(v)
		v.state = stRunning
		cur = v
		v.gate <- struct{}{}
		<-me.gate
	}
	cur = me
	s.killer = saved
}

func (s *Sim) unqueue(t *Task) {
	for i, x := range s.runq {
		if x == t {
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			return
		}
	}
}

func (s *Sim) shutdown(me *Task) {
	for {
		var v *Task
		for _, t := range s.all {
			if t != me && t.state != stDone {
				v = t
				break
			}
		}
		if v == nil {
			return
		}
		s.killTasks(v.Proc, me)
	}
}

func (s *Sim) makeRunnable(t *Task) {
	t.state = stRunnable
	s.runq = append(s.runq, t)
}

// Ready makes a blocked task runnable.
func (s *Sim) Ready(t *Task) {
	if t.state == stBlocked {
		s.makeRunnable(t)
	}
}

// fireDue runs all events due at the current virtual time.
func (s *Sim) fireDue() {
	for len(s.events) > 0 && s.events[0].at <= s.now {
		e := s.popEvent()
		e.fn()
	}
	if len(s.events) > 0 {
		s.nextEv = s.events[0].at
	} else {
		s.nextEv = maxTime
	}
}

// pickNext chooses the next task to run; me is the task giving up the
// processor because it blocked or ended.
func (s *Sim) pickNext(me *Task) *Task {
	for {
		Beat.Add(1)
		if s.nextEv <= s.now {
			s.fireDue()
		}
		if n := len(s.runq); n > 0 {
			i := 0
			s.dec++
			if s.replay != nil {
				if d, ok := s.replay[s.dec]; ok {
					i = max(d.P, 0) % n
				}
			} else if n > 1 {
				switch s.Cfg.Mode {
				case "rand":
					i = s.rng.Intn(n)
				case "pct":
					i = s.best()
				default:
					if s.Cfg.Random {
						i = s.rng.Intn(n)
					}
				}
				if i != 0 {
					s.Devs = append(s.Devs, Deviation{D: s.dec, P: i})
				}
			}
			t := s.runq[i]
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			s.noteSwitch(t)
			return t
		}
		if len(s.events) > 0 {
			if s.events[0].at > s.now {
				s.now = s.events[0].at
			}
			s.fireDue()
			continue
		}
		// nothing can ever happen again: hand control to the root task
		s.Deadlock = true
		if s.root.state == stBlocked {
			s.root.state = stRunnable
			return s.root
		}
		panic("simulator: no runnable task")
	}
}

func (s *Sim) best() int {
	b := 0
	for i, t := range s.runq {
		if t.prio > s.runq[b].prio {
			b = i
		}
	}
	return b
}

func (s *Sim) noteSwitch(t *Task) {
	s.Switches++
	s.SchedHash = (s.SchedHash ^ uint64(t.WaitAt)<<16 ^ uint64(t.ID)) * 1099511628211
}

// stallBudget bounds the time all stalls of a run take together, so that they
// alone never look like a hang.
const stallBudget = int64(5e9)

// Y is the preemption point the instrumentation puts before every statement.
func Y(site uint32) {
	t := cur
	if t == nil || t.dying {
		return
	}
	s := S
	t.WaitAt = site
	s.Steps++
	s.dec++
	s.now += s.Cfg.StepNs
	if s.nextEv <= s.now {
		s.fireDue()
	}
	if s.Steps&0xfff == 0 {
		Beat.Add(1)
		if s.Steps >= s.Cfg.MaxSteps {
			s.cap()
		}
	}
	if s.replay != nil {
		if len(s.replay) > 0 {
			if d, ok := s.replay[s.dec]; ok {
				p := d.P
				if n := len(s.runq); p >= 0 && n > 0 {
					p %= n
				}
				s.preempt(t, p, d.S)
			}
		}
		return
	}
	s.gap--
	if s.gap > 0 {
		if s.pctPts != nil {
			s.pctStep(t)
		}
		return
	}
	s.gap = s.drawGap()
	if len(s.runq) == 0 {
		// nobody to switch to; a stall may still let time pass
		if s.Cfg.StallPct > 0 && s.stalled < stallBudget && s.rng.Intn(100) < s.Cfg.StallPct && len(s.events) > 0 {
			d := 1 + s.rng.Int63n(s.Cfg.StallMax)
			s.stalled += d
			s.Devs = append(s.Devs, Deviation{D: s.dec, P: -1, S: d})
			s.stall(t, d)
		}
		return
	}
	var d int64
	if s.Cfg.StallPct > 0 && s.stalled < stallBudget && s.rng.Intn(100) < s.Cfg.StallPct {
		d = 1 + s.rng.Int63n(s.Cfg.StallMax)
		s.stalled += d
	}
	p := s.rng.Intn(len(s.runq))
	s.Devs = append(s.Devs, Deviation{D: s.dec, P: p, S: d})
	s.preempt(t, p, d)
}

func (s *Sim) cap() {
	s.Capped = true
	s.Deadlock = true
	if cur == s.root {
		return
	}
	// hand over to the root, which ends the run
	t := cur
	if s.root.state == stBlocked || s.root.state == stRunnable {
		s.unqueue(s.root)
		s.makeRunnable(t)
		s.root.state = stRunning
		s.resume(s.root, t)
	}
}

func (s *Sim) pctStep(t *Task) {
	if s.pctPts[s.Steps] {
		s.pctLow--
		t.prio = s.pctLow
	}
	if len(s.runq) > 0 {
		b := s.best()
		if s.runq[b].prio > t.prio {
			s.Devs = append(s.Devs, Deviation{D: s.dec, P: b})
			s.preempt(t, b, 0)
		}
	}
}

func (s *Sim) stall(t *Task, d int64) {
	s.Stats["stall"]++
	s.After(d, func() { s.Ready(t) })
	s.block(t, "stalled")
}

func (s *Sim) preempt(t *Task, p int, stall int64) {
	if p < 0 || len(s.runq) == 0 {
		if stall > 0 {
			s.stall(t, stall)
		}
		return
	}
	n := s.runq[p]
	s.runq = append(s.runq[:p], s.runq[p+1:]...)
	if stall > 0 {
		s.Stats["stall"]++
		t.state = stBlocked
		t.Wait = "stalled"
		s.After(stall, func() { s.Ready(t) })
	} else {
		s.makeRunnable(t)
	}
	s.noteSwitch(n)
	n.state = stRunning
	s.resume(n, t)
}

// resume runs n and parks me until somebody resumes it.
func (s *Sim) resume(n, me *Task) {
	if n == me {
		me.state = stRunning
		cur = me
		return
	}
	cur = n
	n.gate <- struct{}{}
	<-me.gate
	cur = me
	me.state = stRunning
	if me.killed && !me.dying {
		me.dying = true
		runtime.Goexit()
	}
}

func (s *Sim) block(t *Task, why string) {
	t.state = stBlocked
	t.Wait = why
	n := s.pickNext(t)
	n.state = stRunning
	s.resume(n, t)
}

// Yield lets every other runnable task go first (a scheduling decision).
func Yield() {
	t := cur
	if t == nil || t.dying {
		return
	}
	s := S
	if len(s.runq) == 0 {
		return
	}
	s.makeRunnable(t)
	n := s.pickNext(t)
	n.state = stRunning
	s.resume(n, t)
}

// ---- wait lists ----

// WaitList is a list of tasks blocked on one condition.
type WaitList struct{ q []*Task }

// Wait blocks the current task on the list until woken. It returns false if
// the task is being unwound.
func (w *WaitList) Wait(why string) bool {
	t := cur
	if t == nil {
		panic("simulator: blocking outside a simulation: " + why)
	}
	if t.dying {
		return false
	}
	w.q = append(w.q, t)
	S.block(t, why)
	w.remove(t)
	return true
}

// WaitFor blocks until woken or until the virtual time d has passed; it
// reports whether the time ran out.
func (w *WaitList) WaitFor(why string, d int64) (timeout bool) {
	t := cur
	if t == nil {
		panic("simulator: blocking outside a simulation: " + why)
	}
	if t.dying {
		return true
	}
	w.q = append(w.q, t)
	tm := S.After(d, func() {
		timeout = true
		S.Ready(t)
	})
	S.block(t, why)
	w.remove(t)
	tm.Stop()
	return timeout
}

func (w *WaitList) remove(t *Task) {
	for i, x := range w.q {
		if x == t {
			w.q = append(w.q[:i], w.q[i+1:]...)
			return
		}
	}
}

func (w *WaitList) Empty() bool { return len(w.q) == 0 }

// Register puts the current task on the list without blocking yet.
func (w *WaitList) Register() *bool {
	t := cur
	if t == nil || t.dying {
		return new(bool)
	}
	w.q = append(w.q, t)
	woken := new(bool)
	t.woken = woken
	return woken
}

// WaitRegistered blocks until the registration was woken.
func (w *WaitList) WaitRegistered(woken *bool, why string) {
	t := cur
	if t == nil || t.dying {
		return
	}
	for !*woken {
		S.block(t, why)
		if t.dying {
			return
		}
	}
	t.woken = nil
}

// WakeAll makes all waiters runnable; each re-checks its condition.
func (w *WaitList) WakeAll() {
	q := w.q
	w.q = nil
	if S == nil {
		return
	}
	for _, t := range q {
		if t.woken != nil {
			*t.woken = true
		}
		S.Ready(t)
	}
}

// WakeOne wakes one waiter chosen by the scheduler's stream.
func (w *WaitList) WakeOne() {
	if len(w.q) == 0 || S == nil {
		return
	}
	t := w.q[0]
	w.q = w.q[1:]
	if t.woken != nil {
		*t.woken = true
	}
	S.Ready(t)
}

// ---- timers ----

func (s *Sim) After(d int64, fn func()) *Timer {
	if d < 0 {
		d = 0
	}
	s.evseq++
	e := &event{at: s.now + d, seq: s.evseq, fn: fn}
	s.pushEvent(e)
	if e.at < s.nextEv {
		s.nextEv = e.at
	}
	return &Timer{e}
}

// Stop cancels the event; it reports whether it was still pending.
func (t *Timer) Stop() bool {
	e := t.e
	if e == nil || e.pos < 0 || S == nil {
		return false
	}
	S.removeEvent(e)
	return true
}

func evLess(a, b *event) bool { return a.at < b.at || a.at == b.at && a.seq < b.seq }

func (s *Sim) pushEvent(e *event) {
	s.events = append(s.events, e)
	e.pos = len(s.events) - 1
	s.up(e.pos)
}
func (s *Sim) swap(i, j int) {
	s.events[i], s.events[j] = s.events[j], s.events[i]
	s.events[i].pos = i
	s.events[j].pos = j
}
func (s *Sim) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !evLess(s.events[i], s.events[p]) {
			break
		}
		s.swap(i, p)
		i = p
	}
}
func (s *Sim) down(i int) {
	for {
		l := 2*i + 1
		if l >= len(s.events) {
			return
		}
		if r := l + 1; r < len(s.events) && evLess(s.events[r], s.events[l]) {
			l = r
		}
		if !evLess(s.events[l], s.events[i]) {
			return
		}
		s.swap(i, l)
		i = l
	}
}
func (s *Sim) popEvent() *event {
	e := s.events[0]
	s.removeEvent(e)
	return e
}
func (s *Sim) removeEvent(e *event) {
	i := e.pos
	n := len(s.events) - 1
	if i != n {
		s.swap(i, n)
	}
	s.events[n] = nil
	s.events = s.events[:n]
	if i != n {
		s.down(i)
		s.up(i)
	}
	e.pos = -1
}

// Sleep blocks the current task for d virtual nanoseconds.
func Sleep(d int64) {
	t := cur
	if t == nil || t.dying {
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	s := S
	s.After(d, func() { s.Ready(t) })
	s.block(t, "sleep")
}

// Blocked describes all blocked tasks of a process, for diagnosis.
func (s *Sim) Blocked(p *Proc) string {
	var out []string
	for _, t := range p.Tasks {
		if t.state == stBlocked {
			out = append(out, t.Wait)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// Watchdog ends the OS process with an error exit if the simulation makes no
// progress for the given real time.
func Watchdog(d time.Duration) {
	go func() {
		last := Beat.Load()
		lastT := time.Now()
		for {
			time.Sleep(d / 10)
			b := Beat.Load()
			if b != last || S == nil {
				last, lastT = b, time.Now()
				continue
			}
			if time.Since(lastT) > d {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "simulator watchdog: no progress for %v\n%s\n", d, buf[:n])
				os.Exit(3)
			}
		}
	}()
}

// Jump is a step of the wall clock.
type Jump struct{ At, Delta int64 }

// WallOffset is by how much the wall clock is off.
func (s *Sim) WallOffset() (d int64) {
	for _, j := range s.Jumps {
		if j.At <= s.now {
			d += j.Delta
		}
	}
	return d
}

// stamp has the layout of time.Time.
type stamp struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// Clock is time.Now in the simulation: wall clock and monotonic reading.
func Clock() time.Time {
	if S == nil {
		return Epoch
	}
	t := Epoch.Add(time.Duration(S.now + S.WallOffset()))
	sec := t.Unix() + 2682288000 // since 1885
	if sec < 0 || sec >= 1<<33 {
		return t
	}
	m := stamp{wall: 1<<63 | uint64(sec)<<30 | uint64(t.Nanosecond()), ext: S.now + 1}
	return *(*time.Time)(unsafe.Pointer(&m))
}

// Mono is the instant on the simulated clock at which t will be reached.
func Mono(t time.Time) int64 { return S.now + int64(t.Sub(Clock())) }

// Epoch is the wall-clock time at which every simulation starts.
var Epoch = time.Date(2030, 1, 2, 3, 4, 5, 0, time.UTC)

type atomicClock struct {
	keep unsafe.Pointer
	vc   VC
}

// AtomicOp orders an atomic operation on the given word after all earlier ones.
func AtomicOp(p unsafe.Pointer) {
	if cur == nil || cur.dying {
		return
	}
	Y(0)
	a := S.atomics[uintptr(p)]
	if a == nil {
		a = &atomicClock{keep: p}
		S.atomics[uintptr(p)] = a
	}
	a.vc.Acquire()
	a.vc.Release()
}
