//go:build go1.25

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"

	"github.com/gostor/gotgt/cmd"
	"github.com/gostor/gotgt/pkg/version"
	"github.com/gostor/gotgt/zsim/rt"
	"github.com/gostor/gotgt/zsim/simnet"
)

const stubPort = 23999

// tool runs the command line tool.
type tool struct {
	w    *World
	idle map[*Ini]int64 // since when an initiator has no session
	cut  map[*rt.Proc]*Step
	left int
	wl   rt.WaitList
}

// toolRun is one run of the command line tool.
type toolRun struct {
	out       string
	err       error
	ok, hang  bool
	inv, ret  int64
	cut, lost bool
}

func (t *tool) run(st *Step, port int, args ...string) *toolRun {
	w := t.w
	r := &toolRun{inv: w.S.Now()}
	p := w.S.NewProc("gotgt")
	var out bytes.Buffer
	p.Out, p.Host = &out, "10.0.7.7"
	p.OnDeath = func() {
		w.N.ProcDied(p)
		if c := p.Crash; c != nil && c.Kind != "exit" {
			w.fail("crash", "gotgt %v terminated (%s): %s [%s]", args, c.Kind, c.Msg, c.Stack)
		}
	}
	t.cut[p] = st
	done := false
	var wl rt.WaitList
	w.S.Spawn("gotgt", p, func() {
		version.Version = w.P.Kind
		c := cmd.NewCommand()
		c.SilenceUsage, c.SilenceErrors = true, true
		c.SetOut(io.Discard)
		c.SetErr(io.Discard)
		c.SetArgs(append([]string{"--host", fmt.Sprintf("tcp://10.0.0.1:%d", port)}, args...))
		r.err = c.Execute()
		done = true
		wl.WakeAll()
	})
	limit := r.inv + hangAfter + st.Slow*int64(st.N+2)
	for !done && !p.Dead && !w.S.Deadlock && w.S.Now() < limit {
		wl.WaitFor("gotgt", 1e9)
	}
	r.ret = w.S.Now()
	switch {
	case w.S.Deadlock:
		r.hang = true
	case p.Crash != nil:
		r.err = fmt.Errorf("%s: %s", p.Crash.Kind, p.Crash.Msg)
	case !done:
		r.hang = true
		if !w.S.Capped {
			w.fail("hang", "gotgt %v has not ended after %d s", args, (limit-r.inv)/1e9)
		}
	}
	r.cut = t.cut[p] != nil && t.cut[p].V > 0
	delete(t.cut, p)
	r.ok = !r.hang && r.err == nil
	r.out = out.String()
	w.S.Kill(p)
	w.cover("tool_runs")
	return r
}

// dialled breaks or stalls the tool's connections where the step says so.
func (t *tool) dialled(c *simnet.Conn) {
	st := t.cut[rt.Cur().Proc]
	if st == nil {
		return
	}
	switch st.V {
	case 1, 2:
		c.CutRecv(st.Arg2, st.V == 2)
		t.w.cover("fault:tool_answer_cut")
	case 3, 4:
		c.CutSend(st.Arg2, st.V == 4)
		t.w.cover("fault:tool_request_cut")
	}
	if st.V == 0 && st.Slow > 0 {
		c.Hold(true, true, st.Slow)
		t.w.cover("fault:tool_held_up")
	}
}

// toolTable is what "list target" printed.
func toolTable(out string) (rows [][]string, err error) {
	lines := strings.Split(strings.TrimRight(out, "\n"), "\n")
	for k, l := range lines {
		f := strings.Fields(l)
		if k == 0 {
			if len(f) == 0 || strings.Contains(l, "iqn.") {
				return nil, fmt.Errorf("no heading in %q", out)
			}
			continue
		}
		if len(f) != 3 {
			return nil, fmt.Errorf("odd line %q", l)
		}
		rows = append(rows, f)
	}
	return rows, nil
}

func (i *Ini) busyNow(w *World) *Sess {
	if s := i.s; s != nil && !s.disc && s.certain() {
		return s
	}
	return nil
}

// listDaemon asks the daemon for its targets.
func (t *tool) listDaemon(st *Step, exact bool) {
	w := t.w
	gen, up := w.gen, !w.down && w.daemon != nil && w.N.Listening(apiPort)
	sure := map[*Ini]*Sess{}
	idle := map[*Ini]int64{}
	inv := w.S.Now()
	known := map[*Ini]bool{}
	for _, i := range w.inis {
		known[i] = true
		if s := i.busyNow(w); s != nil && up {
			sure[i] = s
		}
		idle[i] = t.idle[i]
	}
	args := []string{"list", "target"}
	if st.S != "" {
		args = append(args, st.S)
	}
	r := t.run(st, apiPort, args...)
	if r.hang {
		return
	}
	up = up && !w.down && w.gen == gen && !w.daemon.Dead
	what := fmt.Sprintf("gotgt %s", strings.Join(args, " "))
	if !r.ok {
		w.cover("tool_errors")
		if up && !r.cut {
			w.fail("tool", "%s ends with %v while the daemon serves", what, r.err)
		}
		return
	}
	rows, err := toolTable(r.out)
	if err != nil {
		w.fail("tool", "%s succeeds and prints %q: %v", what, r.out, err)
		return
	}
	w.cover("tool_lists")
	have := map[string]string{}
	for _, f := range rows {
		if _, dup := have[f[0]]; dup {
			w.fail("tool", "%s shows %s twice", what, f[0])
		}
		have[f[0]] = f[2]
	}
	for k := range w.P.Setup.Targets {
		tg := &w.P.Setup.Targets[k]
		n, ok := have[tg.Name]
		if !ok {
			w.fail("tool", "%s succeeds and does not show target %s: %q", what, tg.Name, r.out)
			continue
		}
		delete(have, tg.Name)
		if w.gen != gen || w.down {
			continue
		}
		lo, hi := 0, 0
		for _, i := range w.inis {
			if i.t != tg || i.a.Kind != "ini" {
				continue
			}
			if s := sure[i]; s != nil && i.busyNow(w) == s && s.at > 0 && up {
				lo++
			}
			if !known[i] || idle[i] == 0 || idle[i] != t.idle[i] || idle[i]+5e9 > inv {
				hi++
			}
		}
		v := -1
		fmt.Sscan(n, &v)
		if v < lo || v > hi {
			w.fail("tool", "%s shows %s sessions of %s, there are %d to %d", what, n, tg.Name, lo, hi)
		}
		if lo == hi {
			w.cover("tool_counts_exact")
		}
		if exact && lo != hi {
			w.fail("tool", "the sessions of %s are not known: %d to %d", tg.Name, lo, hi)
		}
	}
	for _, n := range sortedStrS(have) {
		w.fail("tool", "%s shows target %q, which does not exist", what, n)
	}
}

func sortedStrS(m map[string]string) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// change asks the daemon to create or to remove a target.
func (t *tool) change(st *Step) {
	w := t.w
	gen := w.gen
	if st.Op == "tcreate" {
		r := t.run(st, apiPort, "create", "target", "--name", st.S)
		if r.hang || !r.ok || w.down || gen != w.gen {
			return
		}
		l := w.targetList("10.0.7.8")
		for k := range l {
			if l[k].Name == st.S {
				return
			}
		}
		if l != nil && gen == w.gen && !w.down {
			w.fail("tool", "gotgt create target %s succeeds and prints %q, and there is no such target", st.S, r.out)
		}
		return
	}
	args := []string{"rm", "target", "--name", st.S}
	if st.Arg&1 != 0 {
		args = append(args, "--force")
	}
	r := t.run(st, apiPort, args...)
	if r.hang || !r.ok || w.down || gen != w.gen {
		return
	}
	l := w.targetList("10.0.7.8")
	for k := range l {
		if l[k].Name == st.S && gen == w.gen && !w.down {
			w.fail("tool", "gotgt rm target %s succeeds and prints %q, and the target is still there", st.S, r.out)
		}
	}
	// the target serves on
}

// stubbed runs the tool against a peer that answers as the step says.
func (t *tool) stubbed(st *Step) {
	w := t.w
	r := rt.NewRNG(uint64(st.Arg))
	l, err := w.N.Listen(stubPort)
	if err != nil {
		return
	}
	name := "iqn.2020-01.org.sim:" + []string{"a", "b:c", "new-1", "x.y"}[r.Intn(4)]
	var args []string
	var body any
	type ent = map[string]any
	mk := func(k int) ent {
		nx := ent{}
		for n := r.Intn(4); n > 0; n-- {
			id := fmt.Sprintf("%08x-0000-4000-8000-%012x", r.Uint64()&0xffffffff, n)
			nx[id] = ent{"id": id, "Tag": fmt.Sprintf("iqn.x,i0x%012x,%s,t,0x01", n, name)}
		}
		return ent{"name": fmt.Sprintf("iqn.2020-01.org.sim:stub%d", k), "tid": k, "lid": 0, "state": r.Intn(3), "tpg": nil, "itnexus": nx}
	}
	verb := []string{"list", "list", "list", "create", "rm"}[r.Intn(5)]
	var want []ent
	switch verb {
	case "list":
		args = []string{"list", "target"}
		for n := r.Pick(0, 0, 1, 1, 2, 2, 3, 3, 10, 10, 40, 40, 300, 2000); n > 0; n-- {
			want = append(want, mk(n))
		}
		body = want
		if len(want) == 0 && r.P(1, 2) {
			body = []ent{}
		}
	case "create":
		args = []string{"create", "target", "--name", name}
		body = ent{"name": name, "tid": 1}
	case "rm":
		args = []string{"rm", "target", "--name", name}
		body = nil
	}
	b, _ := json.Marshal(body)
	b = append(b, '\n')
	if verb == "rm" {
		b = nil
	}
	good, whole := true, true
	code := 200
	chunked := r.P(1, 3)
	kind := st.ED
	switch kind {
	case 1: // an error with a message
		code, b = r.Pick(400, 403, 404, 409, 500, 503), []byte("the disk is on fire\n")
		good = false
	case 2:
		code, b, good = r.Pick(400, 401, 404, 500, 502), nil, false
	case 3: // the answer ends before it is complete
		whole = false
		good = false
	case 4: // something else answers
		b, good = []byte("<html><body>It works!</body></html>\n"), verb == "rm"
	case 5: // success, and nothing with it
		b, good = nil, verb == "rm"
		if r.P(1, 3) {
			code = 204
		}
	}
	var q bytes.Buffer
	fmt.Fprintf(&q, "HTTP/1.1 %d %s\r\nContent-Type: application/json\r\n", code, http.StatusText(code))
	if code == 204 {
		b, chunked = nil, false
		q.WriteString("\r\n")
	} else if chunked {
		q.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for p := b; len(p) > 0; {
			n := min(len(p), r.Range(1, 200))
			fmt.Fprintf(&q, "%x\r\n%s\r\n", n, p[:n])
			p = p[n:]
		}
		q.WriteString("0\r\n\r\n")
	} else {
		fmt.Fprintf(&q, "Content-Length: %d\r\n\r\n", len(b))
		q.Write(b)
	}
	text := q.Bytes()
	head := bytes.Index(text, []byte("\r\n\r\n")) + 4
	if !whole {
		// up to the last byte that matters
		end := len(text) - 1
		if verb == "rm" {
			end = head - 1
		} else if k := bytes.LastIndexAny(text, "}]l"); k > 0 {
			end = k
		}
		n := r.Intn(end)
		if r.P(1, 2) && end > head {
			n = r.Range(head, end)
		}
		text = text[:n]
	}
	switch kind {
	case 6:
		text, good = []byte("SSH-2.0-OpenSSH_8.9\r\n"), false
	case 7:
		text, good = nil, false
	case 8: // redirected to nowhere
		text, good = []byte("HTTP/1.1 301 Moved Permanently\r\nContent-Length: 0\r\n\r\n"), false
	}
	rst := r.P(1, 2) && !good && kind != 1
	asked := ""
	w.S.Spawn("stub", w.root, func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		br := bufio.NewReader(c)
		req, err := http.ReadRequest(br)
		if err == nil {
			x, _ := io.ReadAll(req.Body)
			asked = req.Method + " " + req.URL.Path + " " + string(x)
			sleep(st.Slow)
			for p := text; len(p) > 0; {
				n := len(p)
				if st.N > 0 {
					n = (len(text) + st.N8()) / st.N8()
				}
				n = max(1, min(n, len(p)))
				if _, err := c.Write(p[:n]); err != nil {
					break
				}
				p = p[n:]
				sleep(st.Slow)
			}
			if good || kind == 1 {
				// the tool ends the connection, or waits for this end to do so
				sleep(1e9)
			}
		}
		if rst {
			c.Abort()
		} else {
			c.Close()
		}
	})
	what := fmt.Sprintf("gotgt %s (answered %q)", strings.Join(args, " "), cutText(string(text)))
	res := t.run(&Step{Slow: st.Slow, N: uint32(st.N8())}, stubPort, args...)
	l.Close()
	if res.hang {
		return
	}
	w.cover(fmt.Sprintf("fault:odd_peer_%d", kind))
	if !strings.HasPrefix(asked, map[string]string{"list": "GET ", "create": "POST ", "rm": "DELETE "}[verb]) {
		w.fail("tool", "%s asks %q", what, asked)
	}
	if verb != "list" && !strings.Contains(asked, name) {
		w.fail("tool", "%s asks %q, without the name", what, asked)
	}
	switch {
	case good && !res.ok:
		w.fail("tool", "%s ends with %v", what, res.err)
	case !good && res.ok:
		w.fail("tool", "%s succeeds and prints %q", what, res.out)
	case !good && kind == 1 && !strings.Contains(res.err.Error(), "the disk is on fire"):
		w.fail("tool", "%s ends with %v, without the reason it was given", what, res.err)
	}
	if !good || !res.ok {
		return
	}
	if verb != "list" {
		if !strings.Contains(res.out, name) {
			w.fail("tool", "%s prints %q", what, res.out)
		}
		return
	}
	rows, err := toolTable(res.out)
	if err != nil || len(rows) != len(want) {
		w.fail("tool", "%s prints %q: %v", what, res.out, err)
		return
	}
	seen := map[string][]string{}
	for _, f := range rows {
		seen[f[0]] = f
	}
	for _, e := range want {
		f := seen[e["name"].(string)]
		if f == nil || f[2] != fmt.Sprint(len(e["itnexus"].(ent))) || (f[1] == "ready") != (e["state"] == 2) {
			w.fail("tool", "%s prints %v for %v", what, f, e)
		}
	}
}

func cutText(s string) string {
	if len(s) > 300 {
		return s[:200] + "…" + s[len(s)-80:]
	}
	return s
}

// N8 is into how many pieces an answer is cut.
func (st *Step) N8() int { return int(max(1, st.N)) }

func (t *tool) steps(a *Actor) {
	sleep(a.Start)
	for k := range a.Steps {
		if t.w.S.Deadlock {
			return
		}
		st := &a.Steps[k]
		sleep(st.Gap)
		switch st.Op {
		case "tlist":
			t.listDaemon(st, false)
		case "tcreate", "trm":
			t.change(st)
		case "tstub":
			t.stubbed(st)
		case "tnobody":
			if r := t.run(st, stubPort+1, "list", "target"); r.ok {
				t.w.fail("tool", "gotgt list target succeeds with nobody there and prints %q", r.out)
			}
			t.w.cover("fault:nobody_there")
		}
	}
}

func runTool(w *World) {
	t := &tool{w: w, idle: map[*Ini]int64{}, cut: map[*rt.Proc]*Step{}}
	w.N.OnDial = t.dialled
	w.stepHook = func(i *Ini, st *Step) bool {
		if st.Op != "rest" {
			return false
		}
		if s := i.s; s == nil || s.gone {
			t.idle[i] = w.S.Now()
		}
		sleep(st.Arg)
		delete(t.idle, i)
		return true
	}
	var as []Actor
	for k := range w.P.Actors {
		a := &w.P.Actors[k]
		if a.Kind != "tool" {
			as = append(as, *a)
			continue
		}
		t.left++
		w.S.Spawn("tool", w.root, func() {
			t.steps(a)
			t.left--
			t.wl.WakeAll()
		})
	}
	p := *w.P
	p.Actors = as
	if !w.phases(&p) {
		return
	}
	for t.left > 0 && !w.S.Deadlock {
		t.wl.WaitFor("the tool", 1e9)
	}
	if !w.S.Deadlock && !w.S.Capped {
		for _, i := range w.inis {
			i.stop = true
		}
		sleep(10e9)
		for _, i := range w.inis {
			if i.s == nil || i.s.gone {
				t.idle[i] = w.S.Now()
			}
		}
		sleep(6e9)
		t.listDaemon(&Step{}, true)
	}
	w.finish(nil)
}

func init() {
	addProp(&Prop{id: "C27", tags: []string{"tool", "boot"}, run: runTool,
		rule: "1 or 2 users run gotgt list, create and rm 2 to 8 times each, built as one of 7 versions, against a daemon of 1 to 4 targets with up to 6 initiators that log in and out and up to two deaths, their connections cut or held up at any byte, against peers that answer in 9 ways in pieces of any size, and against nobody; every run must end, and say what is the case or fail for a fault it met.",
		gen: func(r *rt.RNG, p *Plan) {
			p.Kind = []string{"Not provided.", "v0.2.2", "v0.2.2-14-g8eab19c", "v0.2.2-dirty", "8eab19c-dirty", "8eab19c", "0.3"}[r.Intn(7)]
			nt := r.Range(1, 4)
			for k := 0; k < nt; k++ {
				p.Setup.Storages = append(p.Setup.Storages, Storage{Dev: uint64(1000 + k), Blocks: 32})
				p.Setup.Targets = append(p.Setup.Targets, Target{Name: genName(r, k), TPGTs: map[string][]int{"1": {0}}, LUNs: map[string]int{"0": 1000 + k}})
			}
			phases := r.Pick(0, 0, 0, 1, 2)
			isids := genISIDs(r, 60)
			for ph := 0; ph <= phases; ph++ {
				for n := r.Range(0, 6); n > 0; n-- {
					a := Actor{Kind: "ini", Target: p.Setup.Targets[r.Intn(nt)].Name, Phase: ph, Depth: 2, ISID: isids[0], Start: int64(r.Pick(0, r.Intn(3000000), r.Intn(2000000000)))}
					isids = isids[1:]
					for m := r.Range(1, 6); m > 0; m-- {
						switch r.Intn(5) {
						case 0, 1, 2:
							a.Steps = append(a.Steps, Step{Op: "tur", Want: wantAny, Gap: int64(r.Pick(0, r.Intn(1000000), r.Intn(2000000000)))})
						default:
							a.Steps = append(a.Steps, Step{Op: []string{"logout", "close", "rst"}[r.Intn(3)]},
								Step{Op: "rest", Arg: int64(r.Pick(1000, r.Intn(1000000000), 7000000000, 9000000000))})
						}
					}
					p.Actors = append(p.Actors, a)
				}
				if ph < phases {
					p.Faults = append(p.Faults, Fault{Kind: []string{"killat", "powerat"}[r.Intn(2)], Arg: int64(ph), At: int64(r.Pick(r.Intn(4000000), r.Intn(3000000000)))})
				}
			}
			for n := r.Range(1, 2); n > 0; n-- {
				a := Actor{Kind: "tool", Name: fmt.Sprintf("tool%d", n), Start: int64(r.Pick(0, r.Intn(5000000), r.Intn(1000000000)))}
				for m := r.Range(2, 8); m > 0; m-- {
					st := Step{Op: "tlist", Gap: int64(r.Pick(0, r.Intn(1000000), r.Intn(1000000000), r.Intn(4000000000)))}
					switch r.Intn(12) {
					case 0, 1, 2:
						st.Op, st.Arg, st.ED = "tstub", int64(r.Uint64()>>2), r.Intn(9)
						st.N = uint32(r.Pick(0, 1, 2, 5, 20))
						st.Slow = int64(r.Pick(0, 0, 1000000, r.Intn(1000000000)))
					case 3:
						st.Op = "tnobody"
					case 4:
						st.Op, st.S = "tcreate", genName(r, 7)
					case 5:
						st.Op, st.S, st.Arg = "trm", p.Setup.Targets[r.Intn(nt)].Name, int64(r.Intn(2))
					case 6, 7:
						st.V, st.Arg2 = r.Range(1, 4), int64(r.Pick(0, 1, r.Intn(60), r.Intn(400), r.Intn(3000)))
					case 8:
						st.Slow = int64(r.Intn(2000000000))
					case 9:
						st.S = "--verbose"
					}
					a.Steps = append(a.Steps, st)
				}
				p.Actors = append(p.Actors, a)
			}
		}})
}
