package main

import (
	"encoding/json"
	"fmt"
	"os"

	"gitdiffsim/choice"
	"gitdiffsim/props"
	"gitdiffsim/sim"
)

type replayResult struct {
	Violated bool
	Class    string
	Detail   string
	Hash     string
	Lines    []string
	Faults   []string
}

// replayMain repeats a recorded execution. With -json it prints the outcome
// for the parent; otherwise it prints a report and exits 1 if the violation
// recurred exactly.
func replayMain(args []string) int {
	asJSON, verbose := false, true
	var file string
	for _, a := range args {
		switch a {
		case "-json":
			asJSON = true
		case "-q":
			verbose = false
		default:
			file = a
		}
	}
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f Found
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if f.Race && !sim.RaceBuild {
		fmt.Fprintln(os.Stderr, "this execution needs the race-detecting build (use check.sh replay)")
		return 2
	}
	p := props.Get(f.Property)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", f.Property)
		return 2
	}
	for _, i := range f.Prelude {
		sim.Execute(choice.New(runSeed(f.Property, f.SeedBase, i)), sim.NewStats(), false, p.Body)
	}
	src := choice.Replay(f.Choices)
	if f.Crash || f.Choices == nil {
		src = choice.New(f.Seed)
	}
	v, r, herr := sim.Execute(src, sim.NewStats(), true, p.Body)
	if herr != nil {
		fmt.Fprintln(os.Stderr, herr.Msg)
		return 2
	}
	res := replayResult{Violated: v != nil, Hash: fmt.Sprintf("%016x", r.Hash()), Lines: r.Lines, Faults: r.FaultLog()}
	if v != nil {
		res.Class, res.Detail = v.Class, v.Detail
	}
	if asJSON {
		json.NewEncoder(os.Stdout).Encode(res)
		return 0
	}
	if verbose {
		for _, l := range r.Lines {
			fmt.Println(l)
		}
	}
	if v == nil {
		fmt.Printf("no violation of %s (events %s)\n", f.Property, res.Hash)
		return 0
	}
	fmt.Printf("property %s violated: %s\n  %s\n  faults fired: %v\n", f.Property, v.Class, v.Detail, res.Faults)
	if v.Class == f.Class && v.Detail == f.Detail && res.Hash == f.Hash {
		fmt.Printf("identical to the recorded execution (events %s)\n", res.Hash)
	} else {
		fmt.Printf("DIFFERS from the recorded execution: recorded %s (events %s), now events %s\n", f.Class, f.Hash, res.Hash)
	}
	return 1
}
