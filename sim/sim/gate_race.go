//go:build race

package sim

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strings"
)

// gate hands control from one goroutine to another without telling the race
// detector: for it, simulated tasks stay unordered unless the library orders
// them. The simulator itself is compiled without race instrumentation (see
// check.sh).
type gate chan struct{}

func newGate() gate { return make(chan struct{}) }

func (g gate) open() {
	runtime.RaceDisable()
	g <- struct{}{}
	runtime.RaceEnable()
}

func (g gate) wait() {
	runtime.RaceDisable()
	<-g
	runtime.RaceEnable()
}

func raceErrors() int { return runtime.RaceErrors() }

// RaceBuild tells whether data races are looked for.
const RaceBuild = true

var frame = regexp.MustCompile(`^  (github\.com/bluekeyes/go-gitdiff/\S+)\(\)$`)

// raceReport names the library functions of the last report; GORACE's log_path
// must be in RACE_LOG.
func raceReport() string {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("RACE_LOG"), os.Getpid()))
	if err != nil {
		return ""
	}
	t := string(b)
	t = t[max(0, strings.LastIndex(t, "WARNING: DATA RACE")):]
	what, out, seen := "", []string{}, false
	for _, l := range strings.Split(t, "\n") {
		for _, w := range []string{"Read at", "Write at", "Previous read at", "Previous write at"} {
			if strings.HasPrefix(l, w) {
				what, seen = strings.TrimSuffix(strings.ToLower(w), " at"), false
			}
		}
		if m := frame.FindStringSubmatch(l); m != nil && what != "" && !seen {
			seen = true
			out = append(out, what+" in "+strings.TrimPrefix(m[1], "github.com/bluekeyes/go-gitdiff/"))
		}
		if strings.HasPrefix(l, "Goroutine ") {
			break
		}
	}
	return strings.Join(out, ", ")
}
