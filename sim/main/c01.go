//go:build go1.25

package main

import (
	"fmt"

	"github.com/gostor/gotgt/zsim/rt"
)

const tgt0 = "iqn.2020-01.org.sim:t0"

// oneTarget configures a target with the given units on LUNs 0..n-1.
func oneTarget(p *Plan, st ...Storage) {
	t := Target{Name: tgt0, TPGTs: map[string][]int{"1": {0}}, LUNs: map[string]int{}}
	for k := range st {
		st[k].Dev = uint64(1000 + k)
		t.LUNs[fmt.Sprint(k)] = 1000 + k
		p.Setup.Storages = append(p.Setup.Storages, st[k])
	}
	p.Setup.Targets = append(p.Setup.Targets, t)
}

func genShift(r *rt.RNG) uint { return uint(r.Pick(9, 9, 9, 9, 10, 12)) }

// genKeys draws a conforming set of operational parameters.
func genKeys(r *rt.RNG) (k [][2]string) {
	add := func(n, v string) { k = append(k, [2]string{n, v}) }
	if r.P(1, 3) {
		return nil
	}
	add("HeaderDigest", []string{"None", "None", "CRC32C,None", "None,CRC32C"}[r.Intn(4)])
	add("DataDigest", []string{"None", "None", "CRC32C,None", "None,CRC32C"}[r.Intn(4)])
	mb := r.Pick(512, 1024, 4096, 8192, 65536, 262144, 1<<20, 16776192)
	fb := r.Pick(512, 1024, 4096, 8192, 65536, 262144)
	if fb > mb {
		fb = mb
	}
	if r.P(2, 3) {
		add("MaxRecvDataSegmentLength", fmt.Sprint(r.Pick(512, 1024, 2048, 4096, 8192, 65536, 262144)))
	}
	if r.P(2, 3) {
		add("MaxBurstLength", fmt.Sprint(mb))
		add("FirstBurstLength", fmt.Sprint(fb))
	}
	if r.P(1, 2) {
		add("ImmediateData", []string{"Yes", "No"}[r.Intn(2)])
	}
	if r.P(1, 2) {
		add("InitialR2T", []string{"Yes", "No"}[r.Intn(2)])
	}
	if r.P(1, 3) {
		add("MaxOutstandingR2T", fmt.Sprint(r.Range(1, 8)))
	}
	if r.P(1, 3) {
		add("DataPDUInOrder", "Yes")
		add("DataSequenceInOrder", "Yes")
	}
	if r.P(1, 3) {
		add("ErrorRecoveryLevel", fmt.Sprint(r.Intn(3)))
	}
	if r.P(1, 3) {
		add("DefaultTime2Wait", fmt.Sprint(r.Pick(0, 2, 5)))
		add("DefaultTime2Retain", fmt.Sprint(r.Pick(0, 20)))
	}
	if r.P(1, 3) {
		add("MaxConnections", "1")
	}
	if r.P(1, 4) {
		add("InitiatorAlias", "sim")
	}
	return
}

// rwStep draws one read, write or verify inside a small area, so that
// concurrent commands meet.
func rwStep(r *rt.RNG, lun int, blocks uint64, hot uint64, maxN int) Step {
	if hot > blocks {
		hot = blocks
	}
	st := Step{LUN: lun, V: r.Pick(6, 10, 10, 12, 16), Imm: r.Pick(-1, -1, 0, 512, 4096), PDU: r.Pick(0, 0, 512, 1024, 3000, 8192)}
	n := 1 + r.Intn(maxN)
	if r.P(1, 2) {
		n = 1 + r.Intn(min(4, maxN))
	}
	if uint64(n) > blocks {
		n = int(blocks)
	}
	st.LBA = uint64(r.Intn(int(hot)))
	if st.LBA+uint64(n) > blocks {
		st.LBA = blocks - uint64(n)
	}
	st.N = uint32(n)
	switch k := r.Intn(20); {
	case k < 8:
		st.Op = "read"
		st.FUA = r.P(1, 8)
	case k < 16:
		st.Op = "write"
		st.FUA = r.P(1, 8)
	case k < 17:
		st.Op = "wverify"
	case k < 18:
		st.Op = "wsame"
		st.V = r.Pick(10, 16)
	default:
		st.Op = "verify"
		st.V = -r.Pick(10, 12, 16)
		st.Like = r.P(2, 3)
	}
	return st
}

func init() {
	addProp(&Prop{id: "C01", tags: []string{"lin", "status", "login", "hang", "connlost", "boot"},
		rule: "1 to 4 initiators send overlapping reads, writes, verifies and write-sames with queue depths 1 to 8 to one or two small units, under a random scheduler and network; every block's history is checked for linearizability as a register, with the final medium as the last read; in the last blocks of a unit writes and ORWRITEs of one bit each are mixed and the sets of bits read are explained by one order of them.",
		gen: func(r *rt.RNG, p *Plan) {
			var st []Storage
			for k := r.Range(1, 2); k > 0; k-- {
				st = append(st, Storage{Blocks: uint64(r.Range(16, 256)), BShift: genShift(r), Thin: r.P(1, 4), Extra: r.Pick(0, 0, 100, 511)})
			}
			oneTarget(p, st...)
			alias(r, p, false)
			luns := lunsOf(&p.Setup.Targets[0])
			p.PageY = r.Pick(4096, 4096, 8192, 65536)
			hot := uint64(r.Pick(2, 4, 8, 32))
			maxN := r.Pick(2, 8, 8, 32)
			or := uint64(r.Pick(0, 1, 2, 3)) // blocks at the end for commands whose data is a bit
			bits, many := map[uint64]int{}, r.Pick(3, 3, 9)
			for k := r.Range(1, 4); k > 0; k-- {
				a := Actor{Kind: "ini", Depth: r.Pick(1, 2, 4, 8), Keys: genKeys(r), Stage: []string{"", "secop", "split"}[r.Intn(3)], SN0: uint32(r.Uint64())}
				async := r.P(3, 4)
				for n := r.Range(4, 30); n > 0; n-- {
					lun := luns[r.Intn(len(luns))]
					su := p.storage(&p.Setup.Targets[0], lun)
					s := rwStep(r, lun, su.Blocks-or, hot, maxN)
					s.Async = async && r.P(4, 5)
					if or > 0 && bits[su.Dev] < maxBits && r.P(many, 10) {
						s = bitStep(r, lun, su.Blocks-or, int(or))
						bits[su.Dev]++
					}
					if r.P(1, 10) {
						s.Gap = int64(r.Intn(500000))
					}
					a.Steps = append(a.Steps, s)
				}
				p.Actors = append(p.Actors, a)
			}
		}})
}
