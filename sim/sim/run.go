// Package sim is the simulator: one Run is one simulated execution, decided
// entirely by one choice.Source.
package sim

import (
	"fmt"
	"math"
	"runtime/debug"
	"strings"
	"time"

	"gitdiffsim/choice"
	"gitdiffsim/simrt"
)

// Violation is a broken property.
type Violation struct {
	Class  string // stable identification, kept while minimising
	Detail string
}

func (v *Violation) Error() string { return v.Class + ": " + v.Detail }

// HarnessError is a defect of the machinery itself; never a violation.
type HarnessError struct{ Msg string }

// stepLimit unwinds a library call that exceeded its work budget.
type stepLimit struct{ n int64 }

// abortSentinel is thrown by seams to simulate a caller callback panicking.
type AbortSentinel struct{ Where string }

// Run is one simulated execution.
type Run struct {
	*choice.Source
	St      *Stats
	Clock   int64 // simulated nanoseconds
	Verbose bool
	Lines   []string
	Sched   *Sched
	OnIO    func() // called at each I/O operation

	nested   int
	hash     uint64
	events   int64
	nontriv  bool
	sample   string
	faultLog []string
	stepBase int64
	limit    int64 // step count at which the work budget ends
	budget   int64
	alarm    int64 // step count at which alarmF is called
	alarmF   func()
}

// NewRun prepares a run; all package-level state of the library is reset.
func NewRun(src *choice.Source, st *Stats, verbose bool) *Run {
	simrt.Trip = math.MaxInt64
	simrt.Wait = nil
	simrt.ResetPackages()
	time.Local = time.UTC
	r := &Run{Source: src, St: st, Verbose: verbose, hash: 14695981039346656037, limit: math.MaxInt64, alarm: math.MaxInt64}
	r.stepBase = simrt.Steps
	return r
}

func (r *Run) mixByte(b byte) { r.hash = (r.hash ^ uint64(b)) * 1099511628211 }
func (r *Run) mixInt(v uint64) {
	for i := 0; i < 8; i++ {
		r.mixByte(byte(v))
		v >>= 8
	}
}

// Ev records an event of the execution. It draws nothing and reads no clock.
func (r *Run) Ev(op string, args ...any) {
	r.events++
	for i := 0; i < len(op); i++ {
		r.mixByte(op[i])
	}
	for _, a := range args {
		switch a := a.(type) {
		case int:
			r.mixInt(uint64(a))
		case int64:
			r.mixInt(uint64(a))
		case bool:
			if a {
				r.mixByte(1)
			} else {
				r.mixByte(2)
			}
		case string:
			for i := 0; i < len(a); i++ {
				r.mixByte(a[i])
			}
		case []byte:
			for _, b := range a {
				r.mixByte(b)
			}
		default:
			s := fmt.Sprint(a)
			for i := 0; i < len(s); i++ {
				r.mixByte(s[i])
			}
		}
	}
	if r.Verbose && len(r.Lines) < 4000 {
		who := ""
		if r.Sched != nil && r.Sched.cur != nil {
			who = "[" + r.Sched.cur.Name + "] "
		}
		var b strings.Builder
		fmt.Fprintf(&b, "t=%dus #%d %s%s", r.Clock/1000, r.events, who, op)
		for _, a := range args {
			switch a := a.(type) {
			case string:
				fmt.Fprintf(&b, " %s", trunc(fmt.Sprintf("%q", a)))
			case []byte:
				fmt.Fprintf(&b, " %s", trunc(fmt.Sprintf("%q", a)))
			default:
				fmt.Fprintf(&b, " %v", a)
			}
		}
		r.Lines = append(r.Lines, b.String())
	}
}

func trunc(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%s...(%d chars)", s[:400], len(s))
	}
	return s
}

// Hash identifies the execution (its event sequence).
func (r *Run) Hash() uint64 { return r.hash }

// Fault counts an injected fault that actually fired.
func (r *Run) Fault(kind string) {
	if !RaceBuild { // the runtime reports maps used by several tasks
		r.St.Faults[kind]++
	}
	r.Ev("FAULT " + kind)
	if len(r.faultLog) < 20 {
		r.faultLog = append(r.faultLog, kind)
	}
}

// Probe counts that a rare condition was reached.
func (r *Run) Probe(name string) {
	if !RaceBuild {
		r.St.Probes[name]++
	}
}

// NonTrivial marks the run as one that exercised the property.
func (r *Run) NonTrivial() { r.nontriv = true }

// Sample describes the run in words, for the evidence file.
func (r *Run) Sample(format string, args ...any) {
	if r.St.wantSample() || r.Verbose {
		r.sample = fmt.Sprintf(format, args...)
	}
}

// Fail reports a violation and ends the run.
func (r *Run) Fail(class, format string, args ...any) {
	panic(&Violation{class, fmt.Sprintf(format, args...)})
}

// Nested runs f, which calls the library, from within a callback.
func (r *Run) Nested(f func()) {
	r.nested++
	f()
	r.nested--
}

// Tick advances the simulated clock by one I/O operation's latency and, with a
// scheduler, lets other tasks run meanwhile.
func (r *Run) Tick(what string, lat int64) {
	r.St.IOOps++
	if r.OnIO != nil {
		r.OnIO()
	}
	if r.Sched != nil && r.Sched.cur != nil {
		r.Sched.park(what, lat)
		return
	}
	r.Clock += lat
}

// Budget limits the instrumented statements until the next call of Budget.
// n <= 0 removes the limit. Exceeding it is a "no-progress" violation.
func (r *Run) Budget(n int64) {
	if r.Sched != nil {
		r.Sched.limit = simrt.Steps + n
		return
	}
	r.limit, r.budget = math.MaxInt64, n
	if n > 0 {
		r.limit = simrt.Steps + n
	}
	r.arm()
}

// After calls f when the library has executed n more statements (only without
// a scheduler).
func (r *Run) After(n int64, f func()) {
	r.alarm, r.alarmF = simrt.Steps+n, f
	r.arm()
}

// NoAlarm cancels After.
func (r *Run) NoAlarm() {
	r.alarm = math.MaxInt64
	r.arm()
}

func (r *Run) arm() {
	simrt.Trip = min(r.limit, r.alarm)
	simrt.OnTrip = func() {
		if simrt.Steps >= r.limit {
			n := r.budget
			r.limit, r.alarm = math.MaxInt64, math.MaxInt64
			r.arm()
			panic(stepLimit{n})
		}
		f := r.alarmF
		r.alarm = math.MaxInt64
		r.arm()
		f()
	}
}

// Outcome of a guarded library call.
type Outcome int

const (
	Returned Outcome = iota
	Aborted          // a seam's AbortSentinel passed through
)

const defaultBudget = 60_000_000

// Call runs a library operation under a work budget; panics raised by the
// library are violations.
func (r *Run) Call(what string, budget int64, f func()) (out Outcome, steps int64) {
	if budget <= 0 {
		budget = defaultBudget
	}
	if r.Sched == nil {
		// calls made by a caller's callback have a budget of their own
		outer, size, start := r.limit, r.budget, simrt.Steps
		r.Budget(budget)
		defer func() {
			r.Budget(0)
			if r.nested > 0 && outer != math.MaxInt64 {
				r.limit, r.budget = outer+simrt.Steps-start, size
				r.arm()
			}
		}()
	}
	base := simrt.Steps
	defer func() {
		steps = simrt.Steps - base
		if x := recover(); x != nil {
			if _, ok := x.(AbortSentinel); ok {
				out = Aborted
				return
			}
			panic(r.classify(what, x))
		}
	}()
	f()
	return
}

// classify turns a recovered panic value into what must be thrown on.
func (r *Run) classify(what string, x any) any {
	switch x := x.(type) {
	case *Violation, *HarnessError, killTask:
		return x
	case stepLimit:
		return &Violation{"no-progress: " + what, fmt.Sprintf("%s executed more than %d statements without finishing", what, x.n)}
	case simrt.Deadlock:
		return &Violation{"deadlock: " + what, fmt.Sprintf("%s waits forever in %s", what, x.What)}
	}
	frames := panicFrames(string(debug.Stack()))
	for _, f := range frames {
		switch {
		case strings.Contains(f, "bluekeyes/go-gitdiff"):
			fn := f
			if i := strings.LastIndex(fn, "("); i > 0 && strings.HasSuffix(fn, ")") {
				fn = fn[:i]
			}
			fn = strings.TrimPrefix(fn, "github.com/bluekeyes/go-gitdiff/")
			return &Violation{"panic in " + fn, fmt.Sprintf("%s: panic: %v", what, x)}
		case strings.HasPrefix(f, "gitdiffsim/simrt."), strings.HasPrefix(f, "gitdiffsim/simsync."):
			continue
		case strings.HasPrefix(f, "gitdiffsim/"), strings.HasPrefix(f, "main."):
			return &HarnessError{fmt.Sprintf("panic in harness (%s): %v\n%s", what, x, debug.Stack())}
		}
	}
	return &HarnessError{fmt.Sprintf("panic with unknown origin (%s): %v\n%s", what, x, debug.Stack())}
}

// panicFrames lists the function names of a stack trace below the innermost
// panic, innermost first.
func panicFrames(stack string) []string {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.gopanic") || strings.HasPrefix(l, "runtime.sigpanic") {
			start = i
		}
	}
	var out []string
	for _, l := range lines[start:] {
		if l == "" || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		out = append(out, l)
	}
	return out
}

// Scenario is the body of a property's simulated execution.
type Scenario func(*Run)

// Execute performs one run and returns the violation found, if any.
func Execute(src *choice.Source, st *Stats, verbose bool, body Scenario) (v *Violation, r *Run, herr *HarnessError) {
	races := raceErrors()
	r = NewRun(src, st, verbose)
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch y := r.classify("scenario", x).(type) {
				case *Violation:
					v = y
				case *HarnessError:
					herr = y
				default:
					herr = &HarnessError{fmt.Sprintf("unexpected panic value %T", y)}
				}
			}
		}()
		body(r)
	}()
	if r.Sched != nil {
		r.Sched.shutdown()
	}
	simrt.Trip = math.MaxInt64
	simrt.Wait = nil
	if RaceBuild && v == nil && herr == nil && raceErrors() > races {
		if where := raceReport(); where != "" {
			v = &Violation{"data race", "tasks access the same memory, one of them writing, without any synchronisation between them: " + where}
		} else {
			herr = &HarnessError{"data race outside the library"}
		}
	}
	st.finish(r)
	return
}

// FaultLog lists the faults that fired, in order.
func (r *Run) FaultLog() []string { return r.faultLog }
