//go:build go1.25

package main

import (
	"encoding/json"

	"github.com/gostor/gotgt/zsim/rt"
	"github.com/gostor/gotgt/zsim/simnet"
)

// Plan is one simulated execution in full: what is configured, what every
// actor does, which faults are injected and how the scheduler decides.
type Plan struct {
	Prop   string      `json:"prop"`
	Index  int         `json:"index"`
	Seed   uint64      `json:"seed"`
	Sched  rt.SchedCfg `json:"sched"`
	Net    simnet.Cfg  `json:"net"`
	Setup  Setup       `json:"setup"`
	Actors []Actor     `json:"actors"`
	Faults []Fault     `json:"faults,omitempty"`
	Kind   string      `json:"kind,omitempty"` // flavour within the property
	PageY  int         `json:"page_y,omitempty"`
}

type Storage struct {
	Dev    uint64 `json:"dev"`
	Blocks uint64 `json:"blocks"`
	BShift uint   `json:"bshift"`
	Thin   bool   `json:"thin,omitempty"`
	Off    bool   `json:"off,omitempty"`
	Extra  int    `json:"extra,omitempty"` // file bytes beyond the last whole block
	Remote bool   `json:"remote,omitempty"`
	Sparse bool   `json:"sparse,omitempty"`
	Late   bool   `json:"late,omitempty"` // not configured, there is only the file
	Have   int64  `json:"have,omitempty"` // bytes at the start when the unit will be resized (plus one), up to its blocks
}

type Target struct {
	Name  string           `json:"name"`
	TPGTs map[string][]int `json:"tpgts"`
	LUNs  map[string]int   `json:"luns"`
	Late  bool             `json:"late,omitempty"` // created at run time
	Pool  []int            `json:"pool,omitempty"` // LUNs mapped at some time
}

type Setup struct {
	Storages []Storage `json:"storages"`
	Portals  []string  `json:"portals"`
	Targets  []Target  `json:"targets"`
	Mode     string    `json:"mode,omitempty"` // daemon, lib
	Stats    bool      `json:"stats,omitempty"`
	Block    bool      `json:"block,omitempty"`
	Log      string    `json:"log,omitempty"`
	Cluster  string    `json:"cluster,omitempty"`
	API      bool      `json:"api,omitempty"` // the embedding program serves the management API too
}

// Actor is one initiator, management client or raw peer.
type Actor struct {
	Kind   string      `json:"kind"` // ini, http, admin, raw
	Name   string      `json:"name,omitempty"`
	Host   string      `json:"host,omitempty"`
	Port   int         `json:"port,omitempty"`
	Target string      `json:"target,omitempty"`
	Portal string      `json:"portal,omitempty"` // address to connect to
	ISID   uint64      `json:"isid,omitempty"`
	CID    uint16      `json:"cid,omitempty"`
	Keys   [][2]string `json:"keys,omitempty"`
	Stage  string      `json:"stage,omitempty"`
	Disc   bool        `json:"disc,omitempty"`
	SN0    uint32      `json:"sn0,omitempty"`
	Stat0  uint32      `json:"stat0,omitempty"` // status number the first login says it has seen
	Depth  int         `json:"depth,omitempty"`
	Phase  int         `json:"phase,omitempty"` // crashes so far when it starts
	Start  int64       `json:"start,omitempty"`
	Lax    bool        `json:"lax,omitempty"` // failures of this actor's session are not judged
	Steps  []Step      `json:"steps"`
}

// Step is one action of an actor.
type Step struct {
	Op    string      `json:"op"`
	LUN   int         `json:"lun,omitempty"`
	LBA   uint64      `json:"lba,omitempty"`
	N     uint32      `json:"n,omitempty"`
	V     int         `json:"v,omitempty"`
	ED    int         `json:"ed,omitempty"`  // expected data length minus command length
	Imm   int         `json:"imm,omitempty"` // immediate data bytes; -1 as much as allowed
	PDU   int         `json:"pdu,omitempty"` // Data-Out PDU size
	FUA   bool        `json:"fua,omitempty"`
	DPO   bool        `json:"dpo,omitempty"`
	I     bool        `json:"i,omitempty"` // immediate delivery
	Async bool        `json:"async,omitempty"`
	Gap   int64       `json:"gap,omitempty"` // pause before the step
	Arg   int64       `json:"arg,omitempty"`
	Arg2  int64       `json:"arg2,omitempty"`
	S     string      `json:"s,omitempty"`
	Hex   string      `json:"hex,omitempty"`
	Keys  [][2]string `json:"keys,omitempty"`
	Hold  int         `json:"hold,omitempty"` // send after this many later commands were sent
	ID    int         `json:"id,omitempty"`
	Of    int         `json:"of,omitempty"`   // refers to the step with this id
	Slow  int64       `json:"slow,omitempty"` // pause before each Data-Out PDU
	Keep  int         `json:"keep,omitempty"` // keep back Data-Outs after this many bytes (minus one)
	Want  int         `json:"want,omitempty"`
	Attr  byte        `json:"attr,omitempty"`
	Like  bool        `json:"like,omitempty"` // verify with matching data
	Bits  bool        `json:"bits,omitempty"` // its data is one bit (bits.go)
}

// Fault is injected by the simulator.
type Fault struct {
	Kind  string `json:"kind"` // disk, kill, power, accept, clock, fin, rst, hold, black
	Op    string `json:"op,omitempty"`
	Path  string `json:"path,omitempty"`
	N     int    `json:"n,omitempty"`     // ordinal of the operation
	Count int    `json:"count,omitempty"` // how many in a row (0: one)
	Errno string `json:"errno,omitempty"`
	Part  int    `json:"part,omitempty"`
	Delay int64  `json:"delay,omitempty"`
	Lose  bool   `json:"lose,omitempty"`
	Short bool   `json:"short,omitempty"`
	At    int64  `json:"at,omitempty"`
	Actor int    `json:"actor,omitempty"`
	Arg   int64  `json:"arg,omitempty"`
}

func clonePlan(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}
