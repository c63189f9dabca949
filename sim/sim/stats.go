package sim

import (
	"fmt"

	"gitdiffsim/simrt"
)

// Stats is what one process measured over its runs.
type Stats struct {
	Runs         int64              `json:"runs"`
	NonTrivial   int64              `json:"nontrivial"`
	Steps        int64              `json:"steps"`
	SimNS        int64              `json:"sim_ns"`
	IOOps        int64              `json:"io_ops"`
	Events       int64              `json:"events"`
	Choices      int64              `json:"choices"`
	Switches     int64              `json:"switches"`
	Preemptions  int64              `json:"preemptions"`
	Faults       map[string]int64   `json:"faults"`
	Probes       map[string]int64   `json:"probes"`
	FaultedRuns  int64              `json:"faulted_runs"`
	Maxima       map[string]float64 `json:"maxima,omitempty"`
	Distinct     map[uint64]bool    `json:"-"`
	Schedules    map[uint64]bool    `json:"-"`
	Samples      []string           `json:"samples"`
	XorHash      uint64             `json:"xor_hash"`
	DistinctList []uint64           `json:"distinct,omitempty"`
	SchedList    []uint64           `json:"schedules,omitempty"`
	Extra        map[string]string  `json:"extra,omitempty"`
}

func NewStats() *Stats {
	return &Stats{Faults: map[string]int64{}, Probes: map[string]int64{}, Distinct: map[uint64]bool{}, Schedules: map[uint64]bool{}, Extra: map[string]string{}, Maxima: map[string]float64{}}
}

// Max records the largest value seen of a measure.
func (s *Stats) Max(what string, v float64) {
	if v > s.Maxima[what] {
		s.Maxima[what] = v
	}
}

func (s *Stats) wantSample() bool { return len(s.Samples) < 2 }

func (s *Stats) finish(r *Run) {
	s.Runs++
	s.Steps += simrt.Steps - r.stepBase
	s.SimNS += r.Clock
	s.Events += r.events
	s.Choices += int64(len(r.Rec))
	if len(r.faultLog) > 0 {
		s.FaultedRuns++
	}
	if r.nontriv {
		s.NonTrivial++
		s.Distinct[r.hash] = true
		if r.sample != "" && s.wantSample() {
			fl := ""
			if len(r.faultLog) > 0 {
				fl = fmt.Sprintf("; faults fired: %v", r.faultLog)
			}
			s.Samples = append(s.Samples, r.sample+fl)
		}
	}
	if r.Sched != nil {
		s.Switches += r.Sched.Switches
		s.Preemptions += r.Sched.Preempts
		s.Schedules[r.Sched.sig] = true
	}
	s.XorHash = (s.XorHash ^ r.hash) * 1099511628211
}

// Merge adds another process's measurements.
func (s *Stats) Merge(o *Stats) {
	s.Runs += o.Runs
	s.NonTrivial += o.NonTrivial
	s.Steps += o.Steps
	s.SimNS += o.SimNS
	s.IOOps += o.IOOps
	s.Events += o.Events
	s.Choices += o.Choices
	s.Switches += o.Switches
	s.Preemptions += o.Preemptions
	s.FaultedRuns += o.FaultedRuns
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Maxima {
		s.Max(k, v)
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
	for _, h := range o.DistinctList {
		s.Distinct[h] = true
	}
	for _, h := range o.SchedList {
		s.Schedules[h] = true
	}
	for _, x := range o.Samples {
		if len(s.Samples) < 6 {
			s.Samples = append(s.Samples, x)
		}
	}
	s.XorHash ^= o.XorHash
}
