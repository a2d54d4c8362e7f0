//go:build go1.25

package main

import (
	"fmt"
	"io"

	"github.com/gostor/gotgt/pkg/apiserver"
	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/port/iscsit"
	"github.com/gostor/gotgt/pkg/scsi"
	"github.com/gostor/gotgt/pkg/scsi/backingstore/remote"
	"github.com/gostor/gotgt/zsim/rt"
	"github.com/gostor/gotgt/zsim/simdisk"
)

// libDaemon is the service as a program embeds it: the library's own calls,
// in the order cmd/daemon.go makes them, with the handles kept.
type libDaemon struct {
	conf *config.Config
	svc  *scsi.SCSITargetService
	drv  scsi.SCSITargetDriver
	ran  bool // Run has returned
	err  error
}

const libPath = "/etc/gotgt"

func (w *World) libMain() {
	st := &w.P.Setup
	d := &libDaemon{}
	boot := func(err error) bool {
		if err != nil {
			w.x["booterr"] = err.Error()
		}
		return err != nil
	}
	var err error
	d.conf, err = config.Load(config.ConfigDir())
	if boot(err) || boot(scsi.InitSCSILUMap(d.conf)) {
		return
	}
	iscsit.EnableStats = st.Stats
	d.svc = scsi.NewSCSITargetService()
	d.drv, err = scsi.NewTargetDriver("iscsi", d.svc)
	if boot(err) {
		return
	}
	for _, t := range st.Targets {
		for _, l := range sortedStr(t.LUNs) {
			lu := w.byDev[uint64(t.LUNs[l])]
			if lu == nil || !lu.Remote || t.Late {
				continue
			}
			if boot(w.addRemote(&t, lu, l)) {
				return
			}
		}
	}
	if st.Cluster != "" {
		d.drv.SetClusterIP(st.Cluster)
	}
	if st.Block {
		d.drv.EnableBlockMultipleHostLogin()
	}
	for _, t := range st.Targets {
		if !t.Late {
			if boot(d.drv.NewTarget(t.Name, d.conf)) {
				return
			}
		}
	}
	w.lib = d
	if st.API {
		s, err := apiserver.New(&apiserver.Config{Addrs: []apiserver.Addr{{Proto: "tcp", Addr: fmt.Sprintf("0.0.0.0:%d", apiPort)}}})
		if boot(err) {
			return
		}
		s.InitRouters()
		rt.Go(0, func() { s.Wait(make(chan error, 1)) })
	}
	rt.Go(0, func() {
		d.err = d.drv.Run(iscsiPort)
		d.ran = true
	})
}

func (w *World) addRemote(t *Target, lu *LU, lun string) error {
	n := 0
	fmt.Sscan(lun, &n)
	remote.Size = uint64(len(lu.mem))
	if lu.Have >= 0 {
		remote.Size = uint64(lu.Have)
	}
	b := &config.BackendStorage{DeviceID: lu.Dev, Path: "RemBs:" + t.Name, Online: true, ThinProvisioning: lu.Thin, BlockShift: lu.Shift}
	return scsi.InitSCSILUMapEx(b, t.Name, uint64(n), &memBS{w, lu})
}

func sortedStr[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// memBS is the program's own store behind a unit. Its calls take time.
type memBS struct {
	w  *World
	lu *LU
}

func (m *memBS) pause() { rt.Sleep(int64(500 + m.w.S.Stream("membs").Intn(40000))) }

// fault asks the plan what happens to an operation of the store.
func (m *memBS) fault(kind string, off int64, n int) *simdisk.Fault {
	if m.lu.opN == nil {
		m.lu.opN = map[string]int{}
	}
	m.lu.opN[kind]++
	f := m.w.injector(&simdisk.Op{Kind: kind, Path: m.lu.Path, Off: off, Len: n, N: m.lu.opN[kind]})
	if f != nil && f.Delay > 0 {
		rt.Sleep(f.Delay)
	}
	return f
}

func (m *memBS) ReadAt(b []byte, off int64) (int, error) {
	m.pause()
	f := m.fault("read", off, len(b))
	if off < 0 || off+int64(len(b)) > int64(len(m.lu.mem)) {
		m.w.fail("otherfile", "the store of device %d is read at %d..%d of %d", m.lu.Dev, off, off+int64(len(b)), len(m.lu.mem))
		return 0, fmt.Errorf("out of range")
	}
	if f != nil && (f.Err != nil || f.Short) {
		b = b[:f.Part]
	}
	for k := 0; k < len(b); {
		n := min(m.lu.BS, len(b)-k)
		copy(b[k:k+n], m.lu.mem[off+int64(k):])
		k += n
		if k < len(b) && m.w.S.Stream("membs").P(1, 8) {
			m.pause()
		}
	}
	switch {
	case f != nil && f.Err != nil:
		return len(b), f.Err
	case f != nil && f.Short:
		if m.w.S.Stream("membs").P(1, 2) {
			return len(b), io.EOF
		}
	case off+int64(len(b)) == int64(len(m.lu.mem)) && m.w.S.Stream("membs").P(1, 2):
		return len(b), io.EOF // and all of the data
	}
	return len(b), nil
}

func (m *memBS) WriteAt(b []byte, off int64) (int, error) {
	m.pause()
	f := m.fault("write", off, len(b))
	if off < 0 || off+int64(len(b)) > int64(len(m.lu.mem)) {
		m.w.fail("otherfile", "the store of device %d is written at %d..%d of %d", m.lu.Dev, off, off+int64(len(b)), len(m.lu.mem))
		return 0, fmt.Errorf("out of range")
	}
	if f != nil && (f.Err != nil || f.Short) {
		b = b[:f.Part]
	}
	for k := 0; k < len(b); {
		n := min(m.lu.BS, len(b)-k)
		copy(m.lu.mem[off+int64(k):], b[k:k+n])
		k += n
		if k < len(b) && m.w.S.Stream("membs").P(1, 8) {
			m.pause()
		}
	}
	if f != nil && f.Err != nil {
		return len(b), f.Err
	}
	return len(b), nil
}

func (m *memBS) Sync() (int, error) {
	m.pause()
	if f := m.fault("sync", 0, 0); f != nil && f.Err != nil {
		return 0, f.Err
	}
	return 0, nil
}

func (m *memBS) Unmap(off, n int64) (int, error) { return 0, nil }

// inDaemon runs f as a task of the daemon process and waits for it.
func (w *World) inDaemon(name string, f func()) bool {
	done := false
	var wl rt.WaitList
	p := w.daemon
	w.S.Spawn(name, p, func() {
		f()
		done = true
		wl.WakeAll()
	})
	for t := w.S.Now() + hangAfter; !done && !p.Dead && !w.S.Deadlock; {
		if w.S.Now() >= t {
			if !w.S.Capped {
				w.fail("hang", "%s does not return within %d s", name, hangAfter/1e9)
			}
			return false
		}
		wl.WaitFor(name, 1e9)
	}
	return done
}

// daemonTasks lists what the daemon is running.
func (w *World) daemonTasks() (out []string) {
	for _, t := range w.daemon.Tasks {
		out = append(out, t.Name+" ("+t.Wait+")")
	}
	return
}
