// Package props contains one simulated scenario per property.
package props

import (
	"sort"

	"gitdiffsim/sim"
)

// Prop is a property and how it is searched.
type Prop struct {
	ID       string
	Body     sim.Scenario
	Quick    int // runs
	Thorough int // runs
	// RacePercent is the share of the runs repeated with the race-detecting build.
	RacePercent int
	Rule        string // how cases are made and what makes one non-trivial
	Real        string // components that ran real code
	Stub        string // components that were simulated
	Assume      []string
}

var registry = map[string]*Prop{}

func register(p *Prop) {
	if p.Real == "" {
		p.Real = "the whole gitdiff package, rebuilt from /repo (statement-instrumented copy), with the standard library below it (bufio, compress/zlib, strconv, time)"
	}
	if p.Stub == "" {
		p.Stub = "patch streams, sources and destinations (simulated readers and writers), the clock, package sync (simulated)"
	}
	registry[p.ID] = p
}

// Get finds a property.
func Get(id string) *Prop { return registry[id] }

// IDs lists all properties.
func IDs() []string {
	var out []string
	for id := range registry {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}
