package props

import (
	"fmt"
	"strings"

	"gitdiffsim/model"
	"gitdiffsim/sim"
	"gitdiffsim/simrt"
)

func init() {
	register(&Prop{
		ID: "C11", Quick: 50000, Thorough: 2500000, RacePercent: 10,
		Rule:   "Each run draws a patch and shared sources, and two to five tasks of up to three operations each (applying, formatting, validating, reading data of the shared patch, parsing and formatting others, some of them failing); every operation is first executed alone in a fresh state, then all run under the seeded scheduler with switches at I/O and pre-emption between statements of the library; results are compared and the shared patch and sources checked for changes. A share of the runs is repeated with a race-detecting build. Non-trivial: at least two tasks were switched between.",
		Body:   c11,
		Assume: []string{"interleavings are at the granularity of source statements; below that, unsynchronised accesses are reported by the race-detecting build rather than executed"},
	})
	register(&Prop{
		ID: "C12", Quick: 50000, Thorough: 2500000,
		Rule: "Each run draws a history of two to nine operations (applying, parsing, formatting, reading data, headers, identities, dates, and objects reused with new content: sources, fragments and files that keep their identity), of which some fail from I/O errors, are rejected, are abandoned half-way, paused and continued later, or aborted by a panic in the caller's reader or writer; some operations are carried out within the callbacks of others, some histories repeat few operations up to thousands of times; every operation's result is compared with the same operation executed alone in a fresh state. Non-trivial: always.",
		Body: c12,
	})
}

func c11(r *sim.Run) {
	spec := genWorldSpec(r)
	nt := 2 + r.Pick(5, 3, 2, 1)
	type item struct {
		o    *op
		want string
	}
	tasks := make([][]item, nt)
	for i := range tasks {
		for n := 1 + r.Pick(4, 2, 1); n > 0; n-- {
			tasks[i] = append(tasks[i], item{o: genOp(r, spec, false, false)})
		}
	}
	if r.Chance(1, 4) { // all tasks do the same
		for i := range tasks {
			tasks[i] = tasks[0]
		}
	}
	for i := range tasks {
		for k := range tasks[i] {
			if tasks[i][k].want == "" {
				tasks[i][k].want = tasks[i][k].o.alone(r, spec)
			}
		}
	}
	w := spec.open(r)
	if w == nil {
		return
	}
	before := cloneFiles(w.files)
	simrt.ResetPackages()
	s := sim.NewSched(r)
	r.Budget(1_000_000_000)
	var names []string
	for i := range tasks {
		var n []string
		for _, it := range tasks[i] {
			n = append(n, it.o.name)
		}
		names = append(names, strings.Join(n, "+"))
		s.Go(fmt.Sprintf("task %d", i), func() {
			for _, it := range tasks[i] {
				got, cont := it.o.run(w)
				if cont != nil {
					got += cont()
				}
				r.Ev("result", len(got))
				if got != it.want {
					r.Fail("result differs under concurrency: "+it.o.name, "%s; tasks: %v", diffAt(it.want, got), names)
				}
			}
		})
	}
	r.Sample("tasks %v on a patch of %s", names, spec.p.Kinds())
	s.Run()
	if s.Switches > 1 {
		r.NonTrivial()
	}
	if d := model.DiffFiles(before, w.files); d != "" {
		r.Fail("shared patch was changed", "%s; tasks: %v", d, names)
	}
	for _, l := range w.lines {
		if l.Changed() {
			r.Fail("shared source was changed", "tasks: %v", names)
		}
	}
}

// c12long repeats few operations very often.
func c12long(r *sim.Run) {
	spec := genWorldSpec(r)
	ops := make([]*op, 1+r.N(3))
	want := make([]string, len(ops))
	var names []string
	for i := range ops {
		ops[i] = genOp(r, spec, r.Bool(), false)
		want[i] = ops[i].alone(r, spec)
		names = append(names, ops[i].name)
	}
	w := spec.open(r)
	if w == nil {
		return
	}
	r.NonTrivial()
	simrt.ResetPackages()
	n := []int{300, 1100, 4200, 70_000}[r.Pick(4, 4, 2, 1)]
	base, events := simrt.Steps, 0
	for k := range n {
		for i, o := range ops {
			got, cont := o.run(w)
			if cont != nil {
				got += cont()
			}
			if got != want[i] {
				r.Fail("result depends on earlier operations: "+o.name, "after %d times %v: %s", k, names, diffAt(want[i], got))
			}
		}
		events = k + 1
		if simrt.Steps-base > 30_000_000 {
			break
		}
	}
	r.Probe("long history")
	r.Sample("%d times %v", events, names)
}

func c12(r *sim.Run) {
	if r.Chance(1, 400) {
		c12long(r)
		return
	}
	spec := genWorldSpec(r)
	spec.reuse = true
	n := 2 + r.N(8)
	ops := make([]*op, n)
	want := make([]string, n)
	for i := range ops {
		if i > 0 && r.Chance(1, 5) { // the same again
			ops[i] = ops[r.N(i)]
			continue
		}
		ops[i] = genOp(r, spec, r.Chance(2, 3), r.Chance(1, 2))
	}
	for i, o := range ops {
		want[i] = o.alone(r, spec)
	}
	// operations carried out by the caller's readers and writers while others
	// use them
	type inner struct {
		o    *op
		want string
		wait int
	}
	var inside []*inner
	if r.Chance(1, 4) {
		reuse := spec.reuse
		spec.reuse = false
		for n := 1 + r.N(3); n > 0; n-- {
			o := genOp(r, spec, false, false)
			inside = append(inside, &inner{o, o.alone(r, spec), 1 + r.N(12)})
		}
		spec.reuse = reuse
	}
	w := spec.open(r)
	if w == nil {
		return
	}
	w.keeps = true
	r.NonTrivial()
	simrt.ResetPackages()
	var names []string
	type open struct {
		i    int
		s    string
		cont func() string
	}
	var held []open
	judge := func(i int, got string) {
		r.Ev("result", i, len(got))
		if got != want[i] {
			r.Fail("result depends on earlier operations: "+ops[i].name, "operation %d: %s; history: %v", i+1, diffAt(want[i], got), names)
		}
	}
	unchanged := func() {
		for _, k := range w.kept {
			if now := k.now(); now != k.was {
				r.Fail("result changed by later operations", "%s; history: %v", diffAt(k.was, now), names)
			}
		}
	}
	if len(inside) > 0 {
		r.OnIO = func() {
			in := inside[0]
			if in.wait--; in.wait > 0 {
				return
			}
			inside = inside[1:]
			again := r.OnIO
			r.OnIO = nil
			names = append(names, "within it "+in.o.name)
			r.Nested(func() {
				got, cont := in.o.run(w)
				if cont != nil {
					got += cont()
				}
				if got != in.want {
					r.Fail("result differs within a callback: "+in.o.name, "%s; history: %v", diffAt(in.want, got), names)
				}
			})
			r.Probe("library used within a callback")
			if len(inside) > 0 {
				r.OnIO = again
			}
		}
	}
	for i, o := range ops {
		names = append(names, o.name)
		got, cont := o.run(w)
		if cont == nil {
			judge(i, got)
		} else {
			held = append(held, open{i, got, cont})
		}
		for len(held) > 0 && r.Chance(1, 3) {
			k := r.N(len(held))
			h := held[k]
			held = append(held[:k], held[k+1:]...)
			names = append(names, "continue "+ops[h.i].name)
			judge(h.i, h.s+h.cont())
		}
	}
	for _, h := range held {
		names = append(names, "continue "+ops[h.i].name)
		judge(h.i, h.s+h.cont())
	}
	unchanged()
	r.Sample("history %v", names)
}
