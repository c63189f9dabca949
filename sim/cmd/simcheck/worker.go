package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	"gitdiffsim/choice"
	"gitdiffsim/props"
	"gitdiffsim/sim"
)

// Found is a violation as a worker reports it.
type Found struct {
	Property  string   `json:"property"`
	Class     string   `json:"class"`
	Detail    string   `json:"detail"`
	Seed      uint64   `json:"seed"`
	Index     int64    `json:"run"`
	Choices   []uint32 `json:"choices"`
	Original  []uint32 `json:"original_choices,omitempty"`
	Hash      string   `json:"event_hash"`
	Prelude   []int64  `json:"prelude,omitempty"` // runs executed before in the same process
	Tries     int      `json:"minimisation_runs"`
	Crash     bool     `json:"crash,omitempty"`
	Race      bool     `json:"race_build,omitempty"` // found by the race-detecting build
	Note      string   `json:"note,omitempty"`
	SeedBase  uint64   `json:"verif_seed"`
	Narrative []string `json:"trace,omitempty"`
	Faults    []string `json:"faults,omitempty"`
}

type workerReport struct {
	Stats *sim.Stats `json:"stats"`
	Found *Found     `json:"found,omitempty"`
	Error string     `json:"error,omitempty"`
	Next  int64      `json:"next"`
}

func runSeed(prop string, base uint64, i int64) uint64 {
	h := uint64(0)
	for _, c := range prop {
		h = h*131 + uint64(c)
	}
	return choice.Derive(base, h, uint64(i))
}

func workerMain(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	from := fs.Int64("from", 0, "")
	stride := fs.Int64("stride", 1, "")
	runs := fs.Int64("runs", 1, "")
	limit := fs.Float64("limit", 600, "seconds")
	progress := fs.String("progress", "", "")
	shrink := fs.Float64("shrink", 40, "seconds")
	listHashes := fs.Bool("hashes", false, "print the event hash of each run")
	fs.Parse(args)
	p := props.Get(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	var pf *os.File
	if *progress != "" {
		var err error
		if pf, err = os.Create(*progress); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	st := sim.NewStats()
	rep := workerReport{Stats: st}
	start := time.Now()
	var done []int64
	i := *from
	for ; i < *runs; i += *stride {
		if time.Since(start).Seconds() > *limit {
			break
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		}
		seed := runSeed(*prop, *base, i)
		v, r, herr := sim.Execute(choice.New(seed), st, false, p.Body)
		if herr != nil {
			rep.Error = fmt.Sprintf("run %d (seed %d): %s", i, seed, herr.Msg)
			break
		}
		if *listHashes {
			fmt.Fprintf(os.Stderr, "%d %016x %d\n", i, r.Hash(), len(r.Rec))
		}
		if v != nil {
			rep.Found = minimise(p, v, r, *base, i, seed, done, *shrink)
			i += *stride
			break
		}
		done = append(done, i)
	}
	rep.Next = i
	for h := range st.Distinct {
		st.DistinctList = append(st.DistinctList, h)
	}
	for h := range st.Schedules {
		st.SchedList = append(st.SchedList, h)
	}
	if err := json.NewEncoder(os.Stdout).Encode(rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

// minimise shrinks the list of choices while the violation class persists.
func minimise(p *props.Prop, v *sim.Violation, r *sim.Run, base uint64, i int64, seed uint64, prelude []int64, secs float64) *Found {
	f := &Found{Property: p.ID, Class: v.Class, Detail: v.Detail, Seed: seed, Index: i, SeedBase: base, Hash: fmt.Sprintf("%016x", r.Hash())}
	best := append([]uint32(nil), r.Rec...)
	f.Original = append([]uint32(nil), best...)
	f.Choices = best
	f.Prelude = prelude
	start := time.Now()
	try := func(c []uint32) bool {
		f.Tries++
		w, q, herr := sim.Execute(choice.Replay(c), sim.NewStats(), false, p.Body)
		if herr != nil || w == nil || w.Class != v.Class {
			return false
		}
		// keep what was actually consumed
		rec := q.Rec
		if len(rec) > len(c) {
			rec = rec[:len(c)]
		}
		best = trimZeros(append([]uint32(nil), rec...))
		return true
	}
	over := func() bool { return time.Since(start).Seconds() > secs }
	if !try(trimZeros(best)) {
		f.Note = "did not recur when repeated in the same process"
		return f
	}
	for improved := true; improved && !over(); {
		improved = false
		// remove blocks
		for size := len(best) / 2; size >= 1 && !over(); size /= 2 {
			for at := 0; at+size <= len(best) && !over(); {
				c := append(append([]uint32(nil), best[:at]...), best[at+size:]...)
				if n := len(best); try(c) && len(best) < n {
					improved = true
				} else {
					at += size
				}
			}
		}
		// zero blocks
		for size := len(best) / 2; size >= 1 && !over(); size /= 2 {
			for at := 0; at+size <= len(best) && !over(); at += size {
				c := append([]uint32(nil), best...)
				ch := false
				for k := at; k < at+size; k++ {
					ch = ch || c[k] != 0
					c[k] = 0
				}
				if ch && try(c) {
					improved = true
				}
			}
		}
		// lower values
		for at := 0; at < len(best) && !over(); at++ {
			for at < len(best) && best[at] > 0 && !over() {
				old := best[at]
				lowered := false
				for _, nv := range []uint32{old / 2, old - 1} {
					c := append([]uint32(nil), best...)
					c[at] = nv
					if try(c) {
						lowered = true
						break
					}
				}
				if !lowered {
					break
				}
				improved = true
				if at < len(best) && best[at] >= old {
					break
				}
			}
		}
	}
	f.Choices = best
	w, q, herr := sim.Execute(choice.Replay(best), sim.NewStats(), true, p.Body)
	if herr == nil && w != nil {
		f.Class, f.Detail, f.Hash = w.Class, w.Detail, fmt.Sprintf("%016x", q.Hash())
		f.Narrative = q.Lines
		f.Faults = q.FaultLog()
	}
	return f
}

func trimZeros(c []uint32) []uint32 {
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}
