package props

import (
	"io"
	"math"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Prop{
		ID: "C13", Quick: 250000, Thorough: 12500000,
		Rule: "Each run draws a source and patch and a sequence of up to twelve calls on one applier: hunks in order, skipped, repeated, out of order, invalid, reaching beyond the end of the source, creating a file that has content, closes in between and calls after closing (for binary appliers: valid, nil, refused and further fragments and closes), with write faults during closes; after every call its result and the destination are compared with a small state machine. Non-trivial: at least one call was accepted and one rejected.",
		Body: c13,
	})
	register(&Prop{
		ID: "C14", Quick: 250000, Thorough: 12500000,
		Rule: "Each run draws a text patch and a source that fails at drawn reads (no, partial or all data with the error) or during drawn periods of simulated time; a client applies hunk after hunk, retrying a hunk that failed from a read error after a drawn back-off, and closes once reads work; the output is compared at every write and at the end, and a try during which no read failed must succeed. Non-trivial: at least one hunk was retried.",
		Body: c14,
	})
}

// ---------------------------------------------------------------- C13

func c13(r *sim.Run) {
	if r.Chance(1, 4) {
		c13binary(r)
		return
	}
	c := genTextCase(r, true)
	lines := c.old
	src, _, ra := sourceFor(r, "src", c.src())
	snk := seam.NewSink(r, "dst")
	dst := snk.As(r.N(seam.DstKinds))
	a := gitdiff.NewTextApplier(dst, ra)
	next, closed, accepted, rejected := int64(0), false, 0, 0
	want := ""
	history := ""
	fi := 0 // next hunk in order
	check := func(what string, err error, ok bool) {
		history += what + "; "
		switch {
		case ok && err != nil:
			r.Fail("call refused: "+what, "%v; calls: %s", err, history)
		case !ok && err == nil:
			r.Fail("call accepted: "+what, "calls: %s", history)
		case string(snk.Buf) != want && ok:
			r.Fail("wrong output after: "+what, "got %s, want %s; calls: %s", quoteClip(string(snk.Buf)), quoteClip(want), history)
		case string(snk.Buf) != want:
			r.Fail("refused call wrote: "+what, "got %s, want %s; calls: %s", quoteClip(string(snk.Buf)), quoteClip(want), history)
		}
	}
	apply := func(what string, f *gitdiff.TextFragment, valid bool) {
		start := int64(0)
		ok := valid && !closed
		if valid {
			start = f.OldPosition - 1
			if f.OldLines == 0 {
				start = f.OldPosition
			}
			start = max(start, 0)
			if start < next {
				ok = false
				what += " (overlapping)"
			} else if f.OldPosition == 0 && len(lines) > 0 {
				ok = false
			} else if start > math.MaxInt64-f.OldLines || start+f.OldLines > int64(len(lines)) {
				ok = false
			}
		}
		if ok {
			want += model.Join(lines[next:start])
			for _, l := range f.Lines {
				if l.New() {
					want += l.Line
				}
			}
			next = start + f.OldLines
			accepted++
		} else {
			rejected++
		}
		if closed {
			what += " after close"
		}
		var err error
		r.Call("ApplyFragment", 0, func() { err = a.ApplyFragment(f) })
		r.Ev("call", what, errStr(err))
		check(what, err, ok)
	}
	for n := 1 + r.N(12); n > 0; n-- {
		switch r.Pick(8, 2, 2, 2, 1, 2, 2) {
		case 0: // the next hunk
			if fi < len(c.frags) {
				if !closed {
					apply("hunk in order", c.frags[fi], true)
				} else {
					apply("hunk", c.frags[fi], true)
				}
				fi++
			}
		case 1: // any hunk
			k := r.N(len(c.frags))
			f := c.frags[k]
			if k < fi && f.OldLines == 0 && !closed {
				continue // inserting twice at one place: not defined
			}
			apply("hunk out of turn", f, true)
			if k >= fi && !closed {
				fi = k + 1
			}
		case 2: // an invalid one
			f, _ := breakFragment(r, c.frags[r.N(len(c.frags))])
			if r.Chance(1, 10) {
				f = nil
			}
			apply("invalid hunk", f, false)
		case 3: // beyond the end
			f := *c.frags[r.N(len(c.frags))]
			d := int64(len(lines)) - f.OldPosition - f.OldLines + 2 + int64(r.N(3))
			switch r.N(6) {
			case 4:
				d += int64(r.N(5000))
			case 5:
				d = math.MaxInt64 - max(f.OldPosition, f.NewPosition) - int64(r.N(3))
			}
			if d <= 0 || f.OldPosition+d == 0 || f.NewPosition == 0 && f.NewLines == 0 {
				continue
			}
			f.OldPosition += d
			f.NewPosition += d
			apply("hunk beyond the end", &f, true)
		case 4: // creation of a file that exists
			f := &gitdiff.TextFragment{NewPosition: 1, NewLines: 1, LinesAdded: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpAdd, Line: "new\n"}}}
			if len(lines) == 0 {
				continue
			}
			if r.Chance(1, 4) { // with nothing to write
				f = &gitdiff.TextFragment{NewPosition: int64(r.N(2))}
			}
			apply("creation of an existing file", f, true)
		case 5: // close
			var err error
			if closed {
				r.Call("Close", 0, func() { err = a.Close() })
				rejected++
				check("close again", err, true)
				continue
			}
			closed = true
			rest := model.Join(lines[next:])
			if r.Chance(1, 3) && len(rest) > 0 { // the close itself fails
				snk.Cap = snk.N + int64(r.N(len(rest)))
				snk.CapErr = seam.NewErr(r, "no space left on device")
				want += rest[:snk.Cap-snk.N]
				r.Call("Close", 0, func() { err = a.Close() })
				if err == nil {
					r.Fail("failed close reported as success", "calls: %s", history)
				}
				snk.Cap, snk.Failed = -1, false
				check("failing close", nil, true)
				continue
			}
			want += rest
			r.Call("Close", 0, func() { err = a.Close() })
			accepted++
			check("close", err, true)
		case 6: // a hunk that is too long for the source by a few lines
			k := r.N(len(c.frags))
			f := *c.frags[k]
			if f.NewPosition == 0 || f.OldPosition == 0 {
				continue
			}
			more := int64(len(lines)) - (f.OldPosition - 1 + f.OldLines) + 1 + int64(r.N(3))
			if f.OldLines == 0 {
				more = int64(len(lines)) - f.OldPosition + 2
			}
			f.Lines = append([]gitdiff.Line(nil), f.Lines...)
			for i := int64(0); i < more; i++ {
				at := f.OldPosition - 1 + f.OldLines + i
				if f.OldLines == 0 {
					at = f.OldPosition + i
				}
				l := "missing\n"
				if at < int64(len(lines)) {
					l = lines[at]
				}
				f.Lines = append(f.Lines, gitdiff.Line{Op: gitdiff.OpContext, Line: l})
			}
			g := &gitdiff.TextFragment{OldPosition: f.OldPosition, NewPosition: f.NewPosition, OldLines: f.OldLines + more, NewLines: f.NewLines + more}
			if f.OldLines == 0 {
				g.OldPosition++
			}
			if f.NewLines == 0 {
				g.NewPosition++
			}
			model.Fill(g, f.Lines)
			if more > 300 {
				continue
			}
			apply("hunk reaching beyond the end", g, true)
		}
	}
	if accepted > 0 && rejected > 0 {
		r.NonTrivial()
	}
	r.Sample("%s; calls: %s%d reads", c, history, src.Ops)
}

func c13binary(r *sim.Run) {
	j := binaryJob(r, false)
	src := seam.NewSource(r, "src", j.src)
	snk := seam.NewSink(r, "dst")
	dst := snk.As(r.N(seam.DstKinds))
	limited := r.Bool()
	var opts []gitdiff.ApplyOption
	const limit = 1 << 20
	if limited {
		opts = append(opts, gitdiff.WithMaxBinaryFragmentBytes(limit))
	}
	a := gitdiff.NewBinaryApplier(dst, src, opts...)
	given, closed, accepted, rejected := false, false, 0, 0
	old := model.ReadAll(j.src)
	want := ""
	history := ""
	for n := 1 + r.N(6); n > 0; n-- {
		if r.Chance(1, 4) {
			what := "close"
			if closed {
				what = "close again"
			} else if !given {
				want += string(old)
			}
			closed = true
			var err error
			r.Call("Close", 0, func() { err = a.Close() })
			history += what + "; "
			if err != nil {
				r.Fail("call refused: "+what, "%v; calls: %s", err, history)
			}
			if string(snk.Buf) != want {
				r.Fail("wrong output after: "+what, "%d bytes, want %d; calls: %s", len(snk.Buf), len(want), history)
			}
			continue
		}
		f := j.file.BinaryFragment
		what, ok := "fragment", true
		counts := true
		switch r.Pick(5, 1, 1, 1, 1) {
		case 1:
			f, what, ok, counts = nil, "nil fragment", false, false
		case 2:
			g := *f
			g.Method = gitdiff.BinaryPatchMethod(7)
			f, what, ok = &g, "fragment of an unknown method", false
		case 3:
			if limited {
				g := *f
				g.Size = limit + 1
				f, what, ok = &g, "fragment above the limit", false
			}
		case 4:
			if f.Method == gitdiff.BinaryPatchDelta {
				g := *f
				d := model.EncodeDelta(choice.NewBulk(1), 0, j.src.Len()+1, 5, nil)
				g.Size, g.RawData = int64(len(d)), model.Deflate(d, -1)
				f, what, ok = &g, "fragment for another source", false
			}
		}
		if given || closed {
			ok = false
			what = "further " + what
			if closed {
				what += " after close"
			}
		}
		if ok {
			want += string(model.ReadAll(j.want))
			accepted++
		} else {
			rejected++
		}
		if counts && !closed {
			given = true
		}
		var err error
		r.Call("ApplyFragment", 0, func() { err = a.ApplyFragment(f) })
		history += what + "; "
		switch {
		case ok && err != nil:
			r.Fail("call refused: "+what, "%v; calls: %s", err, history)
		case !ok && err == nil:
			r.Fail("call accepted: "+what, "calls: %s", history)
		case ok && string(snk.Buf) != want:
			r.Fail("wrong output after: "+what, "%d bytes, want %d; calls: %s", len(snk.Buf), len(want), history)
		case string(snk.Buf) != want:
			r.Fail("refused call wrote: "+what, "%d bytes, want %d; calls: %s", len(snk.Buf), len(want), history)
		}
	}
	if accepted > 0 && rejected > 0 {
		r.NonTrivial()
	}
	r.Sample("%s; calls: %s", j, history)
}

// ---------------------------------------------------------------- C14

func c14(r *sim.Run) {
	c := genTextCase(r, true)
	src, ls, ra := sourceFor(r, "src", c.src())
	src.Lat = max(src.Lat, 1000)
	// count the reads of an undisturbed application
	cnt := 0
	{
		p := src.Clone()
		var ra io.ReaderAt = p
		var l *seam.LineSource
		if ls != nil {
			l = &seam.LineSource{Source: p, Lines: ls.Lines}
			ra = l
		}
		w := &seam.Sink{R: r, Name: "dst", Cap: -1}
		var err error
		r.Call("apply", 0, func() {
			a := gitdiff.NewTextApplier(w, ra)
			for _, f := range c.frags {
				if err = a.ApplyFragment(f); err != nil {
					return
				}
			}
		})
		if err != nil {
			return
		}
		cnt = p.Ops
		if l != nil {
			cnt += l.LOps
		}
	}
	if cnt == 0 {
		return
	}
	mode := r.N(2)
	var last int64 // end of the last outage
	if mode == 0 { // single reads fail
		for n := 1 + r.N(6); n > 0; n-- {
			k := []seam.FaultKind{seam.None, seam.Partial, seam.Full}[r.N(3)]
			f := seam.Fault{Op: r.N(cnt + 4), Kind: k, Frac: r.N(1000), Err: seam.NewReadErr(r, "read error")}
			if ls != nil && r.Chance(3, 4) {
				ls.LFaults = append(ls.LFaults, f)
			} else {
				src.Faults = append(src.Faults, f)
			}
		}
	} else { // the source is unavailable at times
		t := r.Clock
		for n := 1 + r.N(4); n > 0; n-- {
			k := []seam.FaultKind{seam.None, seam.Partial, seam.Full}[r.N(3)]
			from := t + int64(r.N(cnt*1000))*src.Lat/500
			to := from + int64(1+r.N(30))*1_000_000
			src.Outages = append(src.Outages, seam.Outage{From: from, To: to, Kind: k, Err: seam.NewReadErr(r, "source unavailable")})
			t = to
		}
		last = t
	}
	snk := seam.NewSink(r, "dst")
	snk.Keep, snk.Want, snk.WantCls = false, seam.Bytes(c.want), "wrong output after a retry"
	dst := snk.As(r.N(seam.DstKinds))
	a := gitdiff.NewTextApplier(dst, ra)
	retries := 0
	for i, f := range c.frags {
		for try := 0; ; try++ {
			before := len(src.Fired)
			var err error
			r.Call("ApplyFragment", 0, func() { err = a.ApplyFragment(f) })
			r.Ev("try", i, try, errStr(err))
			if err == nil {
				break
			}
			if len(src.Fired) == before {
				if f.NewPosition == 0 && f.NewLines == 0 && try > 0 {
					return // the lines had been consumed when the read failed
				}
				r.Fail("hunk refused although reads work again", "hunk %d, try %d: %v (%s)", i+1, try+1, err, c)
			}
			retries++
			if try > 200 {
				r.Fail("no-progress: retries", "hunk %d still fails at try %d: %v", i+1, try+1, err)
			}
			r.Clock += int64(1+r.N(8)) * 1_000_000
			if mode == 1 && try > 50 {
				r.Clock = max(r.Clock, last)
			}
		}
	}
	src.Outages, src.Faults = nil, nil
	if ls != nil {
		ls.LFaults = nil
	}
	var err error
	r.Call("Close", 0, func() { err = a.Close() })
	if err != nil {
		r.Fail("close refused although reads work again", "%v (%s)", err, c)
	}
	if snk.N != int64(len(c.want)) {
		r.Fail("wrong output after a retry", "%d of %d bytes (%s)", snk.N, len(c.want), c)
	}
	if retries > 0 {
		r.NonTrivial()
	}
	r.Sample("%s; %d retries, %s", c, retries, []string{"single reads failing", "outages"}[mode])
}
