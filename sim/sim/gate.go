//go:build !race

package sim

// gate hands control from one goroutine to another.
type gate chan struct{}

func newGate() gate  { return make(chan struct{}) }
func (g gate) open() { g <- struct{}{} }
func (g gate) wait() { <-g }

func raceErrors() int { return 0 }

// RaceBuild tells whether data races are looked for.
const RaceBuild = false

func raceReport() string { return "" }
