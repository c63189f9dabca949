package sim

import (
	"fmt"
	"math"
	"sync"

	"gitdiffsim/simrt"
)

// Sched runs tasks one at a time. Which task runs is decided only at I/O
// operations, waits for locks, task ends and statement pre-emptions, always
// from the run's choice source.
type Sched struct {
	r        *Run
	tasks    []*Task
	cur      *Task
	back     gate
	join     sync.WaitGroup
	limit    int64 // simrt.Steps at which the whole run is out of budget
	next     int64 // simrt.Steps at which to pre-empt
	mode     int
	maxGap   int
	maxPre   int64
	Switches int64
	Preempts int64
	sig      uint64
	finished bool
}

type killTask struct{}

// Task is one simulated caller.
type Task struct {
	ID     int
	Name   string
	resume gate
	wake   int64
	cond   func() bool
	what   string
	done   bool
	killed bool
	fail   any
}

// NewSched installs a scheduler in the run. Pre-emption between statements is
// drawn per run: none, sparse or dense.
func NewSched(r *Run) *Sched {
	s := &Sched{r: r, back: newGate(), limit: math.MaxInt64, sig: 14695981039346656037}
	s.mode = r.Pick(1, 2, 2, 1)
	switch s.mode {
	case 0: // only at I/O
	case 1:
		s.maxGap, s.maxPre = 4096, 40
	case 2:
		s.maxGap, s.maxPre = 256, 100
	case 3:
		s.maxGap, s.maxPre = 12, 300
	}
	s.next = math.MaxInt64
	r.Sched = s
	return s
}

// Go adds a task.
func (s *Sched) Go(name string, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, resume: newGate(), wake: s.r.Clock}
	s.tasks = append(s.tasks, t)
	s.join.Add(1)
	go func() {
		defer s.join.Done()
		t.resume.wait()
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(killTask); !ok {
					t.fail = s.r.classify(name, x)
				}
			}
			t.done = true
			s.back.open()
		}()
		if t.killed {
			panic(killTask{})
		}
		f()
	}()
	return t
}

func (s *Sched) mix(v uint64) {
	for i := 0; i < 4; i++ {
		s.sig = (s.sig ^ (v & 0xff)) * 1099511628211
		v >>= 8
	}
}

func (s *Sched) setGap() {
	s.next = math.MaxInt64
	if s.mode > 0 && s.Preempts < s.maxPre {
		if g := s.r.N(s.maxGap + 1); g > 0 {
			s.next = simrt.Steps + int64(g)
		}
	}
	s.arm()
}

func (s *Sched) arm() {
	simrt.Trip = min(s.next, s.limit)
	simrt.OnTrip = s.trip
}

// trip is called by library code when a pre-emption or the budget is due.
func (s *Sched) trip() {
	if s.cur == nil {
		simrt.Trip = math.MaxInt64
		return
	}
	if simrt.Steps >= s.limit {
		simrt.Trip = math.MaxInt64
		panic(stepLimit{s.limit})
	}
	s.Preempts++
	s.switchOut("preempt", 0, nil)
}

// park lets simulated time pass for the current task.
func (s *Sched) park(what string, lat int64) { s.switchOut(what, lat, nil) }

func (s *Sched) switchOut(what string, lat int64, cond func() bool) {
	t := s.cur
	t.wake, t.cond, t.what = s.r.Clock+lat, cond, what
	s.back.open()
	t.resume.wait()
	if t.killed {
		panic(killTask{})
	}
}

// Run executes all tasks to completion.
func (s *Sched) Run() {
	simrt.Wait = func(what string, cond func() bool) { s.switchOut(what, 0, cond) }
	for {
		var ready []*Task
		pending, minWake := 0, int64(math.MaxInt64)
		for _, t := range s.tasks {
			if t.done {
				continue
			}
			pending++
			if t.cond != nil && !t.cond() {
				continue
			}
			if t.wake <= s.r.Clock {
				ready = append(ready, t)
			} else if t.wake < minWake {
				minWake = t.wake
			}
		}
		if pending == 0 {
			break
		}
		if len(ready) == 0 {
			if minWake == math.MaxInt64 {
				what := ""
				for _, t := range s.tasks {
					if !t.done {
						what += fmt.Sprintf(" %s waits in %s;", t.Name, t.what)
					}
				}
				s.cur = nil
				s.r.Fail("deadlock", "no task can proceed:%s", what)
			}
			s.r.Clock = minWake
			continue
		}
		t := ready[s.r.N(len(ready))]
		if s.cur != t {
			s.Switches++
			s.r.Ev("switch", t.ID)
		}
		s.mix(uint64(t.ID)<<20 ^ uint64(len(t.what)) ^ uint64(simrt.Steps-s.r.stepBase)<<3)
		s.cur, t.cond = t, nil
		s.setGap()
		t.resume.open()
		s.back.wait()
		simrt.Trip = math.MaxInt64
		if t.fail != nil {
			f := t.fail
			s.cur = nil
			panic(f)
		}
	}
	s.join.Wait()
	s.cur = nil
	s.finished = true
	simrt.Wait = nil
}

// shutdown ends tasks left over after a violation.
func (s *Sched) shutdown() {
	if s.finished {
		return
	}
	simrt.Trip = math.MaxInt64
	for _, t := range s.tasks {
		if !t.done {
			t.killed = true
			s.cur = t
			t.resume.open()
			s.back.wait()
		}
	}
	s.join.Wait()
	s.cur = nil
}
