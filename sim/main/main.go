//go:build go1.25

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/gostor/gotgt/zsim/rt"
)

const workers = 8

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: sim check PROP quick|thorough | worker ... | replay FILE | show FILE | run PROP INDEX | det PROP N")
	}
	rt.Watchdog(100 * time.Second)
	switch os.Args[1] {
	case "check":
		check(os.Args[2], os.Args[3])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2])
	case "shrink":
		shrinkMain(os.Args[2], os.Args[3])
	case "run":
		runOne(os.Args[2], os.Args[3:])
	case "det":
		determinism(os.Args[2], os.Args[3])
	default:
		die("unknown command %s", os.Args[1])
	}
}

func baseSeed() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		s = "1"
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		die("VERIF_SEED=%s", s)
	}
	return uint64(n)
}

// ---- worker ----

// report is what a worker tells its coordinator.
type report struct {
	Type    string           `json:"type"` // progress, violation, done
	Runs    int              `json:"runs,omitempty"`
	Steps   uint64           `json:"steps,omitempty"`
	Switch  uint64           `json:"switches,omitempty"`
	SimNs   int64            `json:"sim_ns,omitempty"`
	Cmds    int              `json:"cmds,omitempty"`
	Cov     map[string]int64 `json:"cov,omitempty"`
	Disk    map[string]int64 `json:"disk,omitempty"`
	Hashes  []uint64         `json:"hashes,omitempty"`
	Samples []string         `json:"samples,omitempty"`
	Other   map[string]int   `json:"other,omitempty"`
	Plan    *Plan            `json:"plan,omitempty"`
	V       []Violation      `json:"v,omitempty"`
}

func relevant(pr *Prop, vs []Violation) (out []Violation) {
	for _, v := range vs {
		if pr.has(v.Tag) {
			out = append(out, v)
		}
	}
	return
}

func worker(a []string) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(200)
	if f := os.Getenv("SIM_CPUPROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	id := a[0]
	k, _ := strconv.Atoi(a[1])
	stride, _ := strconv.Atoi(a[2])
	sec, _ := strconv.ParseFloat(a[3], 64)
	maxRuns, _ := strconv.Atoi(a[4])
	pr := propOf(id)
	end := time.Now().Add(time.Duration(sec * float64(time.Second)))
	seed := baseSeed()
	rep := &report{Type: "done", Cov: map[string]int64{}, Disk: map[string]int64{}, Other: map[string]int{}}
	enc := json.NewEncoder(os.Stdout)
	for i := k; i < maxRuns && time.Now().Before(end); i += stride {
		p := makePlan(id, seed, i)
		res := execute(p)
		rep.Runs++
		rep.Steps += res.Steps
		rep.Switch += res.Switch
		rep.SimNs += res.SimNs
		rep.Cmds += res.Cmds
		for c, n := range res.Cov {
			addCov(rep.Cov, c, n)
		}
		for c, n := range res.Disk {
			rep.Disk[c] += n
		}
		if res.Cmds > 1 || res.Switch > 50 {
			rep.Hashes = append(rep.Hashes, res.Hash)
		}
		if len(rep.Samples) < 2 {
			rep.Samples = append(rep.Samples, fmt.Sprintf("run %d seed %d: %s scheduler, %d actors, %d commands, %d statements, %d task switches, %d ms simulated, schedule hash %x",
				i, p.Seed, p.Sched.Mode, len(p.Actors), res.Cmds, res.Steps, res.Switch, res.SimNs/1e6, res.Hash))
		}
		for _, v := range res.V {
			if !pr.has(v.Tag) {
				rep.Other[v.Tag]++
			}
		}
		if vs := unknown(id, relevant(pr, res.V)); len(vs) > 0 {
			enc.Encode(&report{Type: "violation", Plan: p, V: vs})
			break
		}
	}
	enc.Encode(rep)
}

// ---- known findings ----

type finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
	Tag      string `json:"tag,omitempty"`
	Match    string `json:"match,omitempty"`
	Fixed    string `json:"fixed,omitempty"` // commit
	Replay   string `json:"replay,omitempty"`
}

var known []finding
var knownLoaded bool

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown() []finding {
	if knownLoaded {
		return known
	}
	knownLoaded = true
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var f finding
		if err := json.Unmarshal([]byte(l), &f); err != nil {
			die("known-findings.jsonl: %v", err)
		}
		known = append(known, f)
	}
	return known
}

// unknown filters out what the known-findings file lists.
func unknown(id string, vs []Violation) (out []Violation) {
	for _, v := range vs {
		ok := true
		for _, f := range loadKnown() {
			if f.Fixed == "" && f.Property == id && f.Tag == v.Tag && regexp.MustCompile(f.Match).MatchString(v.Msg) {
				ok = false
			}
		}
		if ok {
			out = append(out, v)
		}
	}
	return
}

// ---- coordinator ----

func check(id, tier string) {
	t0 := time.Now()
	pr := propOf(id)
	sec := 50.0
	if tier == "thorough" {
		sec = 720
	}
	if s := os.Getenv("SIM_SECONDS"); s != "" {
		sec, _ = strconv.ParseFloat(s, 64)
	}
	type msg struct {
		k   int
		rep *report
		err error
	}
	ch := make(chan msg)
	var procs []*exec.Cmd
	self, _ := os.Executable()
	for k := 0; k < workers; k++ {
		c := exec.Command(self, "worker", id, strconv.Itoa(k), strconv.Itoa(workers), fmt.Sprint(sec), "100000000")
		c.Stderr = os.Stderr
		c.Env = append(os.Environ(), "GOTRACEBACK=all")
		out, err := c.StdoutPipe()
		if err != nil {
			die("%v", err)
		}
		if err := c.Start(); err != nil {
			die("%v", err)
		}
		procs = append(procs, c)
		go func(k int) {
			sc := bufio.NewReaderSize(out, 1<<20)
			dec := json.NewDecoder(sc)
			n := 0
			for {
				r := &report{}
				if err := dec.Decode(r); err != nil {
					break
				}
				n++
				ch <- msg{k: k, rep: r}
			}
			ch <- msg{k: k, err: c.Wait()}
		}(k)
	}
	tot := &report{Cov: map[string]int64{}, Disk: map[string]int64{}, Other: map[string]int{}}
	hashes := map[uint64]bool{}
	nontrivial := 0
	var viols []*report
	var bad error
	killing := false
	dones := 0
	for left := workers; left > 0; {
		m := <-ch
		if m.rep == nil {
			left--
			if m.err != nil && !killing {
				bad = m.err
			}
			continue
		}
		if m.rep.Type == "violation" {
			viols = append(viols, m.rep)
			if !killing {
				// the others finish what they are doing a little longer, then stop
				killing = true
				go func() {
					time.Sleep(300 * time.Millisecond)
					for k, p := range procs {
						if k != m.k {
							p.Process.Kill()
						}
					}
				}()
			}
			continue
		}
		r := m.rep
		dones++
		tot.Runs += r.Runs
		tot.Steps += r.Steps
		tot.Switch += r.Switch
		tot.SimNs += r.SimNs
		tot.Cmds += r.Cmds
		for k, v := range r.Cov {
			addCov(tot.Cov, k, v)
		}
		for k, v := range r.Disk {
			tot.Disk[k] += v
		}
		for k, v := range r.Other {
			tot.Other[k] += v
		}
		for _, h := range r.Hashes {
			nontrivial++
			hashes[h] = true
		}
		if len(tot.Samples) < 6 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
	}
	if bad != nil && len(viols) == 0 {
		die("a worker failed: %v", bad)
	}
	searchS := time.Since(t0).Seconds()
	var lines []string
	exit := 0
	if len(viols) > 0 {
		sort.Slice(viols, func(a, b int) bool { return viols[a].Plan.Index < viols[b].Plan.Index })
		v := viols[0]
		path := minimise(self, id, v)
		if path == "" {
			die("a violation of run %d (seed %d) does not reproduce: %v", v.Plan.Index, v.Plan.Seed, v.V)
		}
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", id, path))
		exit = 1
	}
	writeEvidence(id, tier, pr, tot, hashes, nontrivial, len(viols), searchS, time.Since(t0).Seconds())
	for _, f := range loadKnown() {
		if f.Fixed == "" && f.Property == id && exit == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
		}
	}
	fmt.Printf("%s: %d runs, %d distinct schedules, %d commands, %.1f s simulated, %.1f s\n", id, tot.Runs, len(hashes), tot.Cmds, float64(tot.SimNs)/1e9, time.Since(t0).Seconds())
	if len(tot.Other) > 0 {
		fmt.Printf("%s: observations outside this property: %v\n", id, tot.Other)
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	os.Exit(exit)
}

func writeEvidence(id, tier string, pr *Prop, tot *report, hashes map[uint64]bool, nontrivial, nviol int, searchS, wall float64) {
	faults, cmds, other := map[string]int64{}, map[string]int64{}, map[string]int64{}
	for k, v := range tot.Cov {
		switch {
		case strings.HasPrefix(k, "fault:"):
			faults[k[6:]] += v
		case strings.HasPrefix(k, "cmd_"):
			cmds[k[4:]] += v
		default:
			other[k] += v
		}
	}
	rph := 0.0
	if searchS > 0 {
		rph = float64(tot.Runs) / searchS * 3600
	}
	samples := []any{}
	for _, s := range tot.Samples {
		samples = append(samples, s)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": baseSeed(), "level": "exploration", "wall_s": wall, "violations": nviol,
		"coverage": map[string]any{
			"evaluations":         tot.Runs,
			"distinct_nontrivial": len(hashes),
			"rule": "one evaluation is one simulated run of the whole daemon, derived from (VERIF_SEED, property, run index): " + pr.rule +
				" A run counts as distinct by the hash of its sequence of task switches (which task ran from which statement) and as non-trivial when more than one command or more than 50 task switches happened.",
			"samples":                   samples,
			"runs_per_hour":             int64(rph),
			"seeds_per_hour":            int64(rph),
			"simulated_seconds":         float64(tot.SimNs) / 1e9,
			"statements_executed":       tot.Steps,
			"task_switches":             tot.Switch,
			"commands":                  tot.Cmds,
			"commands_by_kind":          cmds,
			"faults_injected":           faults,
			"events":                    other,
			"disk_operations":           tot.Disk,
			"observations_out_of_scope": tot.Other,
			"real_components":           []string{"cmd", "pkg/api/client", "pkg/apiserver", "pkg/config", "pkg/scsi", "pkg/scsi/backingstore", "pkg/port/iscsit", "pkg/util", "pkg/api"},
			"simulated_components": append([]string{"goroutine scheduling, channels, select, sync, sync/atomic (instrumented source, seeded scheduler)", "time, timers (virtual clock)",
				"net (TCP byte streams)", "os files and fsync (page cache over a disk with power loss)", "net/http server loop and client (handlers, request writing, answer parsing are real)", "math/rand, crypto/rand, uuid (seeded)", "os/signal, process exit"}, pr.stub...),
		},
		"assumptions": []string{"the instrumented copy of the source behaves like the original under some schedule of the Go runtime",
			"the initiators are simulated: they are written from RFC 7143 and SPC/SBC, not from the code under test"},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

// addCov sums counters and keeps the largest of what is a maximum.
func addCov(m map[string]int64, k string, v int64) {
	if strings.HasPrefix(k, "max:") {
		m[k] = max(m[k], v)
		return
	}
	m[k] += v
}

// ---- replay files ----

type replayFile struct {
	Property   string      `json:"property"`
	Violation  Violation   `json:"violation"`
	All        []Violation `json:"all"`
	Seed       uint64      `json:"seed"`
	Hash       uint64      `json:"schedule_hash"`
	Digest     uint64      `json:"history_digest"`
	Note       string      `json:"note,omitempty"`
	Plan       *Plan       `json:"plan"`
	History    []string    `json:"history,omitempty"`
	OrigSteps  int         `json:"original_steps"`
	FinalSteps int         `json:"final_steps"`
}

func stepsOf(p *Plan) int {
	n := len(p.Faults)
	for _, a := range p.Actors {
		n += len(a.Steps)
	}
	return n
}

func loadReplay(path string) *replayFile {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	f := &replayFile{}
	if err := json.Unmarshal(b, f); err != nil {
		die("%s: %v", path, err)
	}
	return f
}

func replay(path string) {
	runtime.GOMAXPROCS(2)
	f := loadReplay(path)
	verbose = os.Getenv("SIM_VERBOSE") != ""
	res := execute(f.Plan)
	for _, h := range res.History {
		fmt.Println(h)
	}
	vs := relevant(propOf(f.Property), res.V)
	for _, v := range vs {
		fmt.Printf("[%s] at %.3f ms: %s\n", v.Tag, float64(v.At)/1e6, v.Msg)
	}
	same := res.Hash == f.Hash && res.Digest == f.Digest
	fmt.Printf("schedule hash %x, recorded %x; history digest %x, recorded %x\n", res.Hash, f.Hash, res.Digest, f.Digest)
	for _, v := range vs {
		if v.Tag == f.Violation.Tag {
			if same {
				fmt.Println("reproduced exactly")
			} else {
				fmt.Println("reproduced, but not with the recorded schedule (the code differs)")
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
			os.Exit(1)
		}
	}
	fmt.Println("no violation")
}

// minimise shrinks in a child process, so that a harness failure there does
// not lose the violation, and confirms the result in another one.
func minimise(self, id string, v *report) string {
	dir := filepath.Join(verifDir(), "out")
	os.MkdirAll(dir, 0o755)
	raw := filepath.Join(dir, fmt.Sprintf("%s-%d-raw.json", id, v.Plan.Index))
	small := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, v.Plan.Index))
	os.Remove(small)
	b, _ := json.Marshal(&replayFile{Property: id, Violation: v.V[0], All: v.V, Seed: v.Plan.Seed, Plan: v.Plan})
	if err := os.WriteFile(raw, b, 0o644); err != nil {
		die("%v", err)
	}
	c := exec.Command(self, "shrink", raw, small)
	c.Stderr = os.Stderr
	done := make(chan error, 1)
	c.Start()
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		c.Process.Kill()
		<-done
	}
	for _, f := range []string{small, raw} {
		if _, err := os.Stat(f); err != nil {
			continue
		}
		out, err := exec.Command(self, "replay", f).CombinedOutput()
		if e, ok := err.(*exec.ExitError); ok && e.ExitCode() == 1 {
			lines := strings.Split(strings.TrimSpace(string(out)), "\n")
			for k, l := range lines {
				if k < 12 && !strings.HasPrefix(l, "VIOLATION") {
					fmt.Println("  " + l)
				}
			}
			if f == small {
				os.Remove(raw)
			}
			return f
		}
	}
	return ""
}

func runOne(id string, a []string) {
	runtime.GOMAXPROCS(2)
	verbose = true
	i, _ := strconv.Atoi(a[0])
	p := makePlan(id, baseSeed(), i)
	if os.Getenv("SIM_PLAN") != "" {
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
	}
	t := time.Now()
	res := execute(p)
	for _, h := range res.History {
		fmt.Println(h)
	}
	for _, v := range res.V {
		fmt.Printf("[%s] at %.3f ms: %s\n", v.Tag, float64(v.At)/1e6, v.Msg)
	}
	b, _ := json.Marshal(res.Cov)
	fmt.Printf("%s\nhash %x digest %x real %v\n", b, res.Hash, res.Digest, time.Since(t))
}

// determinism runs each of n plans twice, in this and in a fresh process, and
// compares them.
func determinism(id, n string) {
	runtime.GOMAXPROCS(2)
	cnt, _ := strconv.Atoi(n)
	if os.Getenv("SIM_DETCHILD") != "" {
		runtime.GOMAXPROCS(4)
	}
	for i := 0; i < cnt; i++ {
		p := makePlan(id, baseSeed(), i)
		res := execute(p)
		b, _ := json.Marshal(res.V)
		fmt.Printf("%d %x %x %d %d %s\n", i, res.Hash, res.Digest, res.Steps, res.SimNs, b)
		if os.Getenv("SIM_DETREC") != "" {
			p.Sched.Mode = "replay"
			p.Sched.Devs = res.Devs
			r2 := execute(p)
			if r2.Hash != res.Hash || r2.Digest != res.Digest || r2.Steps != res.Steps {
				fmt.Printf("DIFF replay of %d\n", i)
			}
		}
	}
}
