//go:build go1.24

package main

import (
	"hash/fnv"
)

// Stats is what one worker did.
type Stats struct {
	Runs      int64             `json:"runs"`
	Evals     int64             `json:"evals"`
	Faults    map[string]int64  `json:"faults"`
	Probes    map[string]int64  `json:"probes"`
	Kinds     map[string]int64  `json:"kinds"`
	Outcomes  map[string]int64  `json:"outcomes"`
	Steps     int64             `json:"steps"`
	SimNS     int64             `json:"simNS"`
	Switches  int64             `json:"switches"`
	Stalls    int64             `json:"stalls"`
	Crashed   int64             `json:"crashed"`
	Schedules []uint64          `json:"schedules"`
	Distinct  []uint64          `json:"distinct"`
	Samples   []string          `json:"samples"`
	Sites     int               `json:"sites"`
	SiteBits  []byte            `json:"siteBits"`
	HostReads map[string]int64  `json:"hostReads"`
	Digests   map[uint64]uint64 `json:"digests"`
	Race      bool              `json:"race"`
}

type statsT struct {
	runs, evals                             int64
	faults, probes, kinds, outcomes         map[string]int64
	steps, simNS, switches, stalls, crashed int64
	sched, distinct                         map[uint64]struct{}
	samples                                 []string
	sig                                     uint64 // of the current run
}

var stats = newStats()

func newStats() *statsT {
	return &statsT{faults: map[string]int64{}, probes: map[string]int64{}, kinds: map[string]int64{}, outcomes: map[string]int64{},
		sched: map[uint64]struct{}{}, distinct: map[uint64]struct{}{}}
}

func countFault(k string) { stats.faults[k]++ }
func probe(k string)      { stats.probes[k]++ }

func (s *statsT) sawSchedule(h uint64) {
	if len(s.sched) < 2_000_000 {
		s.sched[h] = struct{}{}
	}
	s.mix(h)
}

func (s *statsT) nontrivial(h uint64) {
	if len(s.distinct) < 2_000_000 {
		s.distinct[h] = struct{}{}
	}
}

// mix adds something observed to the digest of the run.
func (s *statsT) mix(h uint64) { s.sig = (s.sig ^ h) * 1099511628211 }

func (s *statsT) see(o Outcome) {
	s.outcomes[o.Kind]++
	h := hashStr(o.Kind + "\x00" + o.Exprs + "\x00" + o.Out)
	if o.V {
		h++
	}
	s.mix(h + uint64(o.Status)<<8 + uint64(o.Steps)<<16)
}

func hashStr(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}
