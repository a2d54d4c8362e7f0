package iscsit_test

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/port/iscsit"
	"github.com/gostor/gotgt/pkg/scsi"
	_ "github.com/gostor/gotgt/pkg/scsi/backingstore"
	"github.com/gostor/gotgt/pkg/scsi/backingstore/remote"
	"github.com/sirupsen/logrus"
)

// server is a target driver serving one file on LUN 0 and, if asked, more.
type server struct {
	t    *testing.T
	drv  scsi.SCSITargetDriver
	svc  *scsi.SCSITargetService
	port int
	dir  string
	conf *config.Config
}

const iqn = "iqn.2020-01.org.demo:t0"

func freePort(t *testing.T) int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// serve starts a driver for files of the given sizes on LUN 0, 1, ...
func serve(t *testing.T, sizes ...int64) *server { return serveWith(t, nil, sizes...) }

func serveWith(t *testing.T, prepare func(c *config.Config, d scsi.SCSITargetDriver), sizes ...int64) *server {
	logrus.SetOutput(io.Discard)
	s := &server{t: t, port: freePort(t), dir: os.Getenv("DEMO_DIR")}
	if s.dir == "" {
		s.dir = t.TempDir()
	}
	c := &config.Config{ISCSITargets: map[string]config.ISCSITarget{}}
	tg := config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{}}
	c.ISCSIPortals = []config.ISCSIPortalInfo{{ID: 0, Portal: "127.0.0.1:" + strconv.Itoa(s.port)}}
	for k, n := range sizes {
		p := filepath.Join(s.dir, fmt.Sprintf("disk%d", k))
		f, err := os.Create(p)
		if err != nil {
			t.Fatal(err)
		}
		f.Truncate(n)
		f.Close()
		c.Storages = append(c.Storages, config.BackendStorage{DeviceID: uint64(1000 + k), Path: "file:" + p, Online: true, BlockShift: 9})
		tg.LUNs[strconv.Itoa(k)] = uint64(1000 + k)
	}
	c.ISCSITargets[iqn] = tg
	if err := scsi.InitSCSILUMap(c); err != nil {
		t.Fatal(err)
	}
	s.conf = c
	s.svc = scsi.NewSCSITargetService()
	d, err := scsi.NewTargetDriver("iscsi", s.svc)
	if err != nil {
		t.Fatal(err)
	}
	if prepare != nil {
		prepare(c, d)
	}
	for n := range c.ISCSITargets {
		if err := d.NewTarget(n, c); err != nil {
			t.Fatal(err)
		}
	}
	s.drv = d
	go d.Run(s.port)
	for k := 0; k < 200; k++ {
		x, err := net.Dial("tcp", s.addr())
		if err == nil {
			x.Close()
			time.Sleep(50 * time.Millisecond)
			return s
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Fatal("the driver does not listen")
	return nil
}

func (s *server) addr() string { return "127.0.0.1:" + strconv.Itoa(s.port) }

var _ = iscsit.EnableStats

// client is a minimal initiator.
type client struct {
	t      *testing.T
	c      net.Conn
	itt    uint32
	sn     uint32
	statSN uint32
	tsih   uint16
	login  map[string]string
	imm    bool // send immediate data
}

type pdu struct {
	h    [48]byte
	data []byte
}

func (p *pdu) bytes() []byte {
	n := len(p.data)
	p.h[5], p.h[6], p.h[7] = byte(n>>16), byte(n>>8), byte(n)
	b := append(append([]byte{}, p.h[:]...), p.data...)
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	return b
}

func be32(b []byte) uint32     { return binary.BigEndian.Uint32(b) }
func put32(b []byte, v uint32) { binary.BigEndian.PutUint32(b, v) }
func (p *pdu) op() byte        { return p.h[0] & 0x3f }
func (c *client) send(p *pdu)  { c.c.Write(p.bytes()) }
func (c *client) next() uint32 { c.itt++; return c.itt }
func (c *client) close()       { c.c.Close() }
func kv(s ...string) (b []byte) {
	for _, x := range s {
		b = append(append(b, x...), 0)
	}
	return
}

// recv reads one PDU; nil when the connection ended or nothing came in time.
func (c *client) recv() *pdu {
	p := &pdu{}
	c.c.SetReadDeadline(time.Now().Add(8 * time.Second))
	if _, err := io.ReadFull(c.c, p.h[:]); err != nil {
		return nil
	}
	n := int(p.h[4])*4 + (int(p.h[5])<<16|int(p.h[6])<<8|int(p.h[7])+3)&^3
	b := make([]byte, n)
	if _, err := io.ReadFull(c.c, b); err != nil {
		return nil
	}
	p.data = b[int(p.h[4])*4:][:int(p.h[5])<<16|int(p.h[6])<<8|int(p.h[7])]
	return p
}

func dial(t *testing.T, s *server) *client {
	x, err := net.Dial("tcp", s.addr())
	if err != nil {
		t.Fatal(err)
	}
	return &client{t: t, c: x, sn: 100, login: map[string]string{}, imm: true}
}

// open logs in; nil if the target refuses.
func open(t *testing.T, s *server, name string, isid byte, keys ...string) *client {
	c := dial(t, s)
	if !c.doLogin(name, isid, 0, append([]string{"SessionType=Normal", "TargetName=" + iqn}, keys...)...) {
		c.close()
		return nil
	}
	return c
}

func (c *client) doLogin(name string, isid byte, tsih uint16, keys ...string) bool {
	p := &pdu{data: kv(append([]string{"InitiatorName=" + name}, keys...)...)}
	p.h[0], p.h[1] = 0x43, 0x87
	p.h[8], p.h[13] = 0x80, isid
	binary.BigEndian.PutUint16(p.h[14:], tsih)
	put32(p.h[16:], c.next())
	put32(p.h[24:], c.sn)
	c.send(p)
	r := c.recv()
	if r == nil || r.op() != 0x23 || r.h[36] != 0 || r.h[1]&0x83 != 0x83 {
		return false
	}
	c.statSN = be32(r.h[24:])
	c.tsih = binary.BigEndian.Uint16(r.h[14:])
	for _, f := range splitKV(r.data) {
		c.login[f[0]] = f[1]
	}
	return true
}

func splitKV(b []byte) (out [][2]string) {
	for len(b) > 0 {
		k := 0
		for k < len(b) && b[k] != 0 {
			k++
		}
		for j := 0; j < k; j++ {
			if b[j] == '=' {
				out = append(out, [2]string{string(b[:j]), string(b[j+1 : k])})
				break
			}
		}
		b = b[min(k+1, len(b)):]
	}
	return
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// result of a command
type result struct {
	status byte
	sense  []byte
	data   []byte
	resid  uint32
	flags  byte
	ins    []*pdu
	r2ts   []*pdu
}

func (r *result) key() byte {
	if len(r.sense) < 3 {
		return 0
	}
	return r.sense[2] & 15
}

// start sends a command PDU and returns its tag.
func (c *client) start(lun byte, cdb []byte, read, write bool, edtl int, imm []byte) uint32 {
	p := &pdu{data: imm}
	p.h[0], p.h[1] = 0x01, 0x80
	if read {
		p.h[1] |= 0x40
	}
	if write {
		p.h[1] |= 0x20
	}
	p.h[9] = lun
	t := c.next()
	put32(p.h[16:], t)
	put32(p.h[20:], uint32(edtl))
	put32(p.h[24:], c.sn)
	put32(p.h[28:], c.statSN+1)
	c.sn++
	copy(p.h[32:], cdb)
	c.send(p)
	return t
}

// finish collects the response to a command, sending data as asked for.
func (c *client) finish(out []byte) *result {
	r := &result{}
	for {
		p := c.recv()
		if p == nil {
			return nil
		}
		switch p.op() {
		case 0x25:
			c.statSN = be32(p.h[24:])
			r.ins = append(r.ins, p)
			r.data = append(r.data, p.data...)
			if p.h[1]&1 != 0 {
				r.status, r.flags, r.resid = p.h[3], p.h[1], be32(p.h[44:])
				return r
			}
		case 0x31:
			r.r2ts = append(r.r2ts, p)
			off, n := int(be32(p.h[40:])), int(be32(p.h[44:]))
			for o, k := 0, 0; o < n; k++ {
				m := min(8192, n-o)
				d := &pdu{data: out[off+o : off+o+m]}
				d.h[0] = 0x05
				if o+m == n {
					d.h[1] = 0x80
				}
				copy(d.h[8:16], p.h[8:16])
				copy(d.h[16:24], p.h[16:24])
				put32(d.h[28:], c.statSN+1)
				put32(d.h[36:], uint32(k))
				put32(d.h[40:], uint32(off+o))
				c.send(d)
				o += m
			}
		case 0x21:
			c.statSN = be32(p.h[24:])
			r.status, r.flags, r.resid = p.h[3], p.h[1], be32(p.h[44:])
			if len(p.data) > 2 {
				r.sense = p.data[2:]
			}
			return r
		default:
			return nil
		}
	}
}

func (c *client) read(lun byte, cdb []byte, n int) *result {
	c.start(lun, cdb, true, false, n, nil)
	return c.finish(nil)
}

func (c *client) write(lun byte, cdb []byte, out []byte) *result {
	var imm []byte
	if c.imm {
		imm = out[:min(len(out), 8192)]
	}
	c.start(lun, cdb, false, true, len(out), imm)
	return c.finish(out)
}

func (c *client) none(lun byte, cdb ...byte) *result {
	b := make([]byte, 16)
	copy(b, cdb)
	c.start(lun, b, false, false, 0, nil)
	return c.finish(nil)
}

// rw10 is a READ(10) or WRITE(10).
func rw10(op byte, lba, n int) []byte {
	b := make([]byte, 16)
	b[0] = op
	put32(b[2:], uint32(lba))
	b[7], b[8] = byte(n>>8), byte(n)
	return b
}

func fill(n int, v byte) []byte {
	b := make([]byte, n)
	for k := range b {
		b[k] = v + byte(k/512)
	}
	return b
}

// tmf sends a task management function and returns the response code.
func (c *client) tmf(fn byte, lun byte, rtt uint32) int {
	p := &pdu{}
	p.h[0], p.h[1] = 0x42, 0x80|fn
	p.h[9] = lun
	put32(p.h[16:], c.next())
	put32(p.h[20:], rtt)
	put32(p.h[24:], c.sn)
	put32(p.h[28:], c.statSN+1)
	c.send(p)
	for {
		r := c.recv()
		if r == nil {
			return -1
		}
		c.statSN = be32(r.h[24:])
		if r.op() == 0x22 {
			return int(r.h[2])
		}
	}
}

// ping sends a NOP-Out and returns the data that came back.
func (c *client) ping(data []byte) ([]byte, bool) {
	p := &pdu{data: data}
	p.h[0], p.h[1] = 0x40, 0x80
	put32(p.h[16:], c.next())
	put32(p.h[20:], 0xffffffff)
	put32(p.h[24:], c.sn)
	put32(p.h[28:], c.statSN+1)
	c.send(p)
	r := c.recv()
	if r == nil || r.op() != 0x20 {
		return nil, false
	}
	c.statSN = be32(r.h[24:])
	return r.data, true
}

func (c *client) logout() bool {
	p := &pdu{}
	p.h[0], p.h[1] = 0x46, 0x80
	put32(p.h[16:], c.next())
	put32(p.h[24:], c.sn)
	put32(p.h[28:], c.statSN+1)
	c.send(p)
	r := c.recv()
	return r != nil && r.op() == 0x26
}

// memStore is a remote store that counts what is asked of it.
type memStore struct {
	mu     sync.Mutex
	data   []byte
	reads  int
	writes int
	syncs  int
	hook   func(op string, off int64, n int) error
}

func (m *memStore) call(op string, off int64, n int) error {
	m.mu.Lock()
	h := m.hook
	m.mu.Unlock()
	if h != nil {
		return h(op, off, n)
	}
	return nil
}

func (m *memStore) ReadAt(b []byte, off int64) (int, error) {
	if err := m.call("read", off, len(b)); err != nil {
		return 0, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reads++
	return copy(b, m.data[off:]), nil
}

func (m *memStore) WriteAt(b []byte, off int64) (int, error) {
	if err := m.call("write", off, len(b)); err != nil {
		return 0, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.writes++
	return copy(m.data[off:], b), nil
}

func (m *memStore) Sync() (int, error) {
	if err := m.call("sync", 0, 0); err != nil {
		return 0, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.syncs++
	return 0, nil
}

func (m *memStore) Unmap(off, n int64) (int, error) { return 0, nil }

// serveMem is a driver whose LUN 0 is the store given.
func serveMem(t *testing.T, m *memStore) *server {
	return serveWith(t, func(c *config.Config, d scsi.SCSITargetDriver) {
		remote.Size = uint64(len(m.data))
		b := config.BackendStorage{DeviceID: 9000, Path: "RemBs:" + iqn, Online: true, BlockShift: 9}
		if err := scsi.InitSCSILUMapEx(&b, iqn, 0, m); err != nil {
			t.Fatal(err)
		}
	})
}
