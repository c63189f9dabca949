package main

import (
	"bytes"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"

	"gitdiffsim/props"
)

// selftestMain executes the same runs in many processes, with different
// numbers of workers and GOMAXPROCS, and compares every run's event hash.
func selftestMain(args []string) int {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	only := fs.String("prop", "", "")
	runs := fs.Int("runs", 60, "")
	seeds := fs.Int("seeds", 3, "")
	fs.Parse(args)
	bad := 0
	for _, id := range props.IDs() {
		if *only != "" && id != *only {
			continue
		}
		compared := 0
		for seed := 1; seed <= *seeds; seed++ {
			var ref map[string]string
			for _, cfg := range [][2]int{{1, 1}, {1, 4}, {3, 2}, {7, 1}} {
				got := map[string]string{}
				for w := 0; w < cfg[0]; w++ {
					cmd := exec.Command(os.Args[0], "worker", "-hashes", "-prop", id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(w), "-stride", fmt.Sprint(cfg[0]), "-runs", fmt.Sprint(*runs), "-shrink", "0")
					cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", cfg[1]), fmt.Sprintf("GOGC=%d", 20+80*(w%3)))
					var se, so bytes.Buffer
					cmd.Stderr, cmd.Stdout = &se, &so
					if err := cmd.Run(); err != nil {
						fmt.Fprintf(os.Stderr, "%s: worker: %v %s\n", id, err, se.String())
						return 2
					}
					for _, l := range strings.Split(se.String(), "\n") {
						if f := strings.Fields(l); len(f) == 3 {
							got[f[0]] = f[1] + "/" + f[2]
						}
					}
				}
				if ref == nil {
					ref = got
					continue
				}
				var keys []string
				for k := range ref {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					compared++
					if g, ok := got[k]; ok && g != ref[k] || !ok {
						bad++
						fmt.Printf("%s seed %d run %s: %s then %s\n", id, seed, k, ref[k], got[k])
					}
				}
			}
		}
		fmt.Printf("%s: %d comparisons\n", id, compared)
	}
	if bad > 0 {
		fmt.Printf("%d differences\n", bad)
		return 1
	}
	return 0
}
