package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"gitdiffsim/props"
	"gitdiffsim/sim"
)

type known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Contains string `json:"contains"` // in the detail
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"` // informational; suppresses nothing
}

// loadKnown reads the known findings: lines of JSON; lines starting with
// "fixed:" or "#" are for people.
func loadKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			return nil, err
		}
		out = append(out, k)
	}
	return out, nil
}

func (k known) matches(f *Found) bool {
	return k.Property == f.Property && k.Class == f.Class && k.Contains != "" && strings.Contains(f.Detail, k.Contains)
}

func runMain(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	out := fs.String("out", ".", "directory for evidence/ and replays/")
	runs := fs.Int64("runs", 0, "")
	workers := fs.Int("workers", 0, "")
	limit := fs.Float64("limit", 0, "seconds per worker")
	tmp := fs.String("tmp", "", "scratch directory")
	note := fs.String("note", "", "")
	raceBin := fs.String("race-bin", "", "race-detecting build of this program")
	raceRuns := fs.Int64("race-runs", 0, "")
	fs.Parse(args)
	p := props.Get(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	if *runs == 0 {
		*runs = int64(p.Quick)
		if *tier == "thorough" {
			*runs = int64(p.Thorough)
		}
	}
	if *raceRuns == 0 {
		*raceRuns = *runs * int64(p.RacePercent) / 100
	}
	if *limit == 0 {
		*limit = 300
		if *tier == "thorough" {
			*limit = 3000
		}
	}
	if *workers == 0 {
		*workers = min(runtime.NumCPU(), 8)
	}
	if *tmp == "" {
		d, err := os.MkdirTemp("", "simcheck")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		defer os.RemoveAll(d)
		*tmp = d
	}
	kn, err := loadKnown(filepath.Join(*out, "KNOWN_FINDINGS.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 2
	}

	fmt.Printf("property %s: %s tier, VERIF_SEED=%d, %d runs, %d worker processes\n", *prop, *tier, *seed, *runs, *workers)
	start := time.Now()
	total := sim.NewStats()
	var mu sync.Mutex
	var found []*Found
	var knownHits = map[string]int{}
	var problems []string
	// search performs runs 0..runs-1 with worker processes of one build.
	search := func(bin string, runs int64, race bool, total *sim.Stats, limit float64) {
		stop := make(chan struct{})
		var stopOnce sync.Once
		halt := func() { stopOnce.Do(func() { close(stop) }) }
		begin := time.Now()
		var wg sync.WaitGroup
		for w := 0; w < *workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				next := int64(w)
				for next < runs {
					left := limit - time.Since(begin).Seconds()
					if left <= 0 {
						return
					}
					rep, crash, err := spawn(bin, race, *prop, *seed, next, int64(*workers), runs, left, *tmp, w, stop)
					mu.Lock()
					if rep != nil {
						total.Merge(rep.Stats)
					}
					switch {
					case err == errStopped:
						mu.Unlock()
						return
					case crash != nil:
						crash.Race = race
						found = append(found, crash)
						halt()
						mu.Unlock()
						return
					case err != nil:
						problems = append(problems, err.Error())
						halt()
						mu.Unlock()
						return
					case rep.Error != "":
						problems = append(problems, rep.Error)
						halt()
						mu.Unlock()
						return
					case rep.Found != nil:
						isKnown := false
						for _, k := range kn {
							if k.matches(rep.Found) {
								isKnown = true
								knownHits[k.What]++
							}
						}
						if !isKnown {
							rep.Found.Race = race
							found = append(found, rep.Found)
							halt()
							mu.Unlock()
							return
						}
					}
					next = rep.Next
					mu.Unlock()
				}
			}(w)
		}
		wg.Wait()
	}
	search(os.Args[0], *runs, false, total, *limit)
	var raceStats *sim.Stats
	if *raceBin != "" && *raceRuns > 0 && len(found) == 0 && len(problems) == 0 {
		raceStats = sim.NewStats()
		search(*raceBin, *raceRuns, true, raceStats, *limit)
	}

	// settle the violation: the lowest run that reproduces in a fresh process
	sort.Slice(found, func(i, j int) bool { return found[i].Index < found[j].Index })
	var violation *Found
	for _, f := range found {
		if g := confirm(f, *raceBin, *tmp); g != nil {
			violation = g
			break
		}
		problems = append(problems, fmt.Sprintf("run %d: violation %q (%s) did not recur in a fresh process", f.Index, f.Class, f.Detail))
	}
	wall := time.Since(start).Seconds()
	nviol := 0
	if violation != nil {
		nviol = 1
	}
	if err := writeEvidence(p, *tier, *seed, *out, total, raceStats, wall, nviol, *workers, *runs, *note, knownHits); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range kn {
		if k.Property == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
		}
	}
	if violation != nil {
		os.MkdirAll(filepath.Join(*out, "replays"), 0o755)
		path := filepath.Join(*out, "replays", fmt.Sprintf("%s-%d-%d.json", *prop, *seed, violation.Index))
		b, _ := json.MarshalIndent(violation, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s: %s\n  %s\n  run %d, seed %d; %d choices (originally %d); faults fired: %v\n", *prop, violation.Class, violation.Detail, violation.Index, violation.Seed, len(violation.Choices), len(violation.Original), violation.Faults)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		return 1
	}
	if len(problems) > 0 {
		for _, s := range problems {
			fmt.Fprintln(os.Stderr, "simcheck: error:", s)
		}
		return 2
	}
	fmt.Printf("property %s held in %d runs (%d non-trivial, %d distinct, %d with faults) in %.1f s\n", *prop, total.Runs, total.NonTrivial, len(total.Distinct), total.FaultedRuns, wall)
	return 0
}

var errStopped = fmt.Errorf("stopped")

// spawn runs one worker process to its end.
func spawn(bin string, race bool, prop string, seed uint64, from, stride, runs int64, limit float64, tmp string, w int, stop chan struct{}) (*workerReport, *Found, error) {
	progress := filepath.Join(tmp, fmt.Sprintf("progress%d", w))
	cmd := exec.Command(bin, "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-stride", fmt.Sprint(stride), "-runs", fmt.Sprint(runs), "-limit", fmt.Sprint(limit), "-progress", progress)
	cmd.Env = workerEnv(race, filepath.Join(tmp, fmt.Sprintf("race%d", w)))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &capped{b: &se}
	if err := cmd.Start(); err != nil {
		return nil, nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-stop:
		cmd.Process.Kill()
		<-done
		return nil, nil, errStopped
	case <-time.After(time.Duration((limit + 120) * 1e9)):
		cmd.Process.Kill()
		<-done
		b, _ := os.ReadFile(progress)
		return nil, nil, fmt.Errorf("worker for runs %d+%dk did not finish (last run started: %s)", from, stride, strings.TrimSpace(string(b)))
	}
	if err == nil {
		var rep workerReport
		if jerr := json.Unmarshal(so.Bytes(), &rep); jerr != nil {
			return nil, nil, fmt.Errorf("worker output: %v\n%s", jerr, se.String())
		}
		return &rep, nil, nil
	}
	// The process died. A fatal error raised by the Go runtime inside library
	// code is a violation if it recurs in a fresh process.
	b, _ := os.ReadFile(progress)
	var idx int64
	if _, serr := fmt.Sscan(string(b), &idx); serr == nil {
		if c := fatalClass(se.String()); c != "" {
			return nil, &Found{Property: prop, Class: c, Detail: firstLines(se.String(), 3), Seed: runSeed(prop, seed, idx), Index: idx, SeedBase: seed, Crash: true}, nil
		}
	}
	return nil, nil, fmt.Errorf("worker failed: %v\n%s", err, se.String())
}

// workerEnv is the environment of a worker process.
func workerEnv(race bool, log string) []string {
	env := append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all")
	if race {
		env = append(env, "RACE_LOG="+log, "GORACE=log_path="+log+" exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0")
	}
	return env
}

// fatalClass recognises deaths caused by library code.
func fatalClass(stderr string) string {
	for _, m := range []string{"stack overflow", "out of memory", "concurrent map", "all goroutines are asleep"} {
		if strings.Contains(stderr, m) && strings.Contains(stderr, "go-gitdiff/gitdiff.") {
			return "process death: " + m
		}
	}
	if strings.Contains(stderr, "goroutine stack exceeds") && strings.Contains(stderr, "go-gitdiff/gitdiff.") {
		return "process death: stack overflow"
	}
	return ""
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

type capped struct{ b *bytes.Buffer }

func (c *capped) Write(p []byte) (int, error) {
	if room := 1<<16 - c.b.Len(); room > 0 {
		c.b.Write(p[:min(room, len(p))])
	}
	return len(p), nil
}

// confirm replays a violation in a fresh process, falling back to less
// minimised forms. It returns the form that recurs exactly.
func confirm(f *Found, raceBin, tmp string) *Found {
	bin := os.Args[0]
	if f.Race {
		bin = raceBin
	}
	forms := []*Found{}
	if f.Crash {
		forms = append(forms, f)
	} else {
		a := *f
		a.Prelude, a.Original = nil, f.Original
		forms = append(forms, &a)
		b := *f
		b.Prelude, b.Choices = nil, f.Original
		forms = append(forms, &b)
		c := *f
		c.Choices = f.Original
		forms = append(forms, &c)
	}
	for i, g := range forms {
		path := filepath.Join(tmp, fmt.Sprintf("confirm-%d-%d.json", f.Index, i))
		b, _ := json.Marshal(g)
		if os.WriteFile(path, b, 0o644) != nil {
			return nil
		}
		cmd := exec.Command(bin, "replay", "-json", path)
		cmd.Env = workerEnv(f.Race, filepath.Join(tmp, "race-confirm"))
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &capped{b: &se}
		err := cmd.Run()
		if f.Crash {
			if err != nil && fatalClass(se.String()) == f.Class {
				return g
			}
			continue
		}
		var res replayResult
		if err != nil || json.Unmarshal(so.Bytes(), &res) != nil || !res.Violated {
			continue
		}
		if i > 0 || res.Class == g.Class {
			h := *g
			h.Class, h.Detail, h.Hash, h.Narrative, h.Faults = res.Class, res.Detail, res.Hash, res.Lines, res.Faults
			return &h
		}
	}
	return nil
}

func writeEvidence(p *props.Prop, tier string, seed uint64, out string, st, race *sim.Stats, wall float64, viol, workers int, runs int64, note string, knownHits map[string]int) error {
	perHour := func(n float64) int64 {
		if wall <= 0 {
			return 0
		}
		return int64(n / wall * 3600)
	}
	samples := []any{}
	for _, s := range st.Samples {
		samples = append(samples, s)
	}
	cov := map[string]any{
		"evaluations":                           st.Runs,
		"distinct_nontrivial":                   len(st.Distinct),
		"rule":                                  p.Rule + " Distinct means a different event sequence (hash over every simulated I/O operation, its data and result, faults and results).",
		"samples":                               samples,
		"runs_planned":                          runs,
		"nontrivial_runs":                       st.NonTrivial,
		"simulated_runs_per_hour_one_seed_each": perHour(float64(st.Runs)),
		"simulated_seconds":                     float64(st.SimNS) / 1e9,
		"simulated_io_operations":               st.IOOps,
		"events":                                st.Events,
		"choices_drawn":                         st.Choices,
		"library_statements":                    st.Steps,
		"runs_with_faults":                      st.FaultedRuns,
		"faults_injected":                       st.Faults,
		"probes":                                st.Probes,
		"task_switches":                         st.Switches,
		"preemptions":                           st.Preemptions,
		"distinct_schedules":                    len(st.Schedules),
		"components_real":                       p.Real,
		"components_stubbed":                    p.Stub,
		"worker_processes":                      workers,
		"known_findings_hit":                    knownHits,
		"measure_of_distinct_state":             "event-sequence hash per run; for concurrent runs also the hash of the sequence of (task, statement count) switch points",
	}
	if len(st.Maxima) > 0 {
		cov["maxima"] = st.Maxima
	}
	if race != nil {
		cov["race_detecting_build"] = map[string]any{
			"runs": race.Runs, "nontrivial_runs": race.NonTrivial, "library_statements": race.Steps,
			"task_switches": race.Switches, "preemptions": race.Preemptions, "distinct_schedules": len(race.Schedules),
			"what": "the first runs again, with library and standard library compiled for the race detector and hand-overs between tasks hidden from it: any two unsynchronised accesses to the same memory by different tasks, one of them a write, are reported whatever the interleaving",
		}
	}
	if note != "" {
		cov["build"] = note
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": append([]string{"seeded search samples executions; a clean batch is evidence, not proof"}, p.Assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(out, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}
