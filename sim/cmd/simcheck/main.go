// simcheck runs simulated executions of one property.
//
//	simcheck run -prop C01 -tier quick -seed 1 -out DIR   search, with worker processes
//	simcheck replay FILE                                  repeat a recorded execution
//	simcheck worker ...                                   internal
//	simcheck selftest ...                                 determinism measurement
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"syscall"

	"gitdiffsim/sim"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	// a runaway library call must end this process, not the machine
	debug.SetMaxStack(64 << 20)
	switch os.Args[1] {
	case "run":
		os.Exit(runMain(os.Args[2:]))
	case "worker":
		limitMemory()
		os.Exit(workerMain(os.Args[2:]))
	case "replay":
		limitMemory()
		os.Exit(replayMain(os.Args[2:]))
	case "selftest":
		os.Exit(selftestMain(os.Args[2:]))
	}
	usage()
}

func limitMemory() {
	if sim.RaceBuild {
		return // its shadow memory is address space
	}
	const lim = 6 << 30
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: simcheck run|replay|selftest ...")
	os.Exit(2)
}
