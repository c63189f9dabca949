package props

import (
	"errors"
	"fmt"
	"io"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// job is one application of a patch that can be repeated under different
// faults with the same surroundings.
type job struct {
	file    *gitdiff.File
	text    *textCase
	src     seam.Content
	lines   []string // for sources that read lines themselves
	want    seam.Content
	how     int // 0 Apply, 1 applier, 2 close a text applier without fragments, 3 same for binary
	dstKind int
	srcKind int
	proto   *seam.Source
	sinkLat *seam.Sink
	opts    []gitdiff.ApplyOption
	desc    string

	// instead of the simulated source and destination
	ra     io.ReaderAt
	dst    io.Writer
	finish func()
}

var hows = []string{"Apply", "applier", "TextApplier.Close", "BinaryApplier.Close"}

func (j *job) String() string { return j.desc + " through " + hows[j.how] }

// surround draws the behaviour of source and destination.
func (j *job) surround(r *sim.Run) {
	j.proto = seam.NewSource(r, "src", j.src)
	if j.lines != nil && !r.Chance(1, 4) {
		j.lines = nil
	}
	j.sinkLat = seam.NewSink(r, "dst")
	j.dstKind = r.N(seam.DstKinds)
	j.srcKind = r.Pick(6, 2, 1)
}

// world returns fresh instances of the source and destination.
func (j *job) world() (src *seam.Source, ls *seam.LineSource, snk *seam.Sink) {
	src = j.proto.Clone()
	if j.lines != nil {
		ls = &seam.LineSource{Source: src, Lines: j.lines}
	}
	c := *j.sinkLat
	snk = &c
	snk.Keep = false
	return
}

func (j *job) run(r *sim.Run, src *seam.Source, ls *seam.LineSource, snk *seam.Sink) (err error) {
	var ra io.ReaderAt = src
	if ls != nil {
		ra = ls
	}
	ra = seam.Offer(j.srcKind, src, ra)
	dst := snk.As(j.dstKind)
	if j.ra != nil {
		ra, dst = j.ra, j.dst
	}
	r.Call("apply", 0, func() {
		switch j.how {
		case 2:
			err = gitdiff.NewTextApplier(dst, ra, j.opts...).Close()
			r.Ev("closed", errStr(err))
		case 3:
			err = gitdiff.NewBinaryApplier(dst, ra, j.opts...).Close()
			r.Ev("closed", errStr(err))
		default:
			err = applyHow(r, j.how, dst, ra, j.file, j.opts...)
		}
	})
	if j.finish != nil && err == nil {
		j.finish()
	}
	return err
}

// genJob draws a patch and the content it was made from.
func genJob(r *sim.Run, text, binary, copyOnly int) *job {
	switch r.Pick(text, binary, copyOnly) {
	case 0:
		return textJob(genTextCase(r, true), r)
	case 1:
		return binaryJob(r, false)
	}
	old := model.GenSource(r, true)
	data := model.Join(old)
	j := &job{file: &gitdiff.File{OldName: "f", NewName: "f", OldMode: 0o100644, NewMode: 0o100755}, src: seam.Bytes(data), want: seam.Bytes(data), lines: old}
	j.how = []int{0, 2, 3}[r.N(3)]
	j.desc = fmt.Sprintf("patch without content on a source of %d bytes", len(data))
	return j
}

func textJob(c *textCase, r *sim.Run) *job {
	return &job{file: c.file(), text: c, src: seam.Bytes(c.src()), want: seam.Bytes(c.want), lines: c.old, how: r.Pick(3, 1), desc: c.String()}
}

// binaryJob draws a binary patch. big allows large sources and outputs.
func binaryJob(r *sim.Run, big bool) *job {
	j := &job{how: r.Pick(3, 1)}
	f := &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true}
	j.file = f
	maxOut := int64(1 << 17)
	maxOps := 40
	var src seam.Content
	switch r.Pick(6, 2, 2) {
	case 0:
		src = seam.Bytes(model.GenBytes(r, 20000))
	case 1:
		src = seam.Bytes(model.GenBytes(r, 200000))
	case 2:
		n := []int64{0x10000, 0x10001, 0xffff, 0x7fff, 0x8000, 127, 128, 16383, 16384}[r.N(9)]
		src = seam.Virtual{N: n, Seed: r.Seed()}
	}
	if big && r.Chance(1, 4) {
		n := []int64{1 << 21, 1<<21 - 1, 1 << 24, 1<<24 + 1, 1 << 28, 1<<28 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 1, 1 << 32, 1<<32 + 1<<20, 1 << 35}[r.N(12)]
		src = seam.Virtual{N: n, Seed: r.Seed()}
		maxOut = 1 << 20
		maxOps = 12
		if r.Chance(1, 6) {
			maxOut, maxOps = 40<<20, 3
		}
		r.Probe("source larger than 2 MiB")
		if n > 1<<32 {
			r.Probe("source larger than 4 GiB")
		}
	}
	j.src = src
	level := model.GenLevel(r, []int{-1, 0, 1, 9, -2}[r.Pick(4, 1, 1, 1, 1)])
	if r.Chance(1, 4) {
		var want []byte
		if big && r.Chance(1, 10) {
			want = make([]byte, 30000+r.N(150000))
			choice.NewBulk(r.Seed()).Fill(want)
			if r.Bool() {
				for i := range want {
					want[i] &= 1
				}
			}
		} else {
			want = model.GenBytes(r, 6000)
		}
		f.BinaryFragment = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: int64(len(want)), RawData: model.Deflate(want, level)}
		j.want = seam.Bytes(want)
		j.desc = fmt.Sprintf("binary literal of %d bytes on a source of %d bytes", len(want), src.Len())
		return j
	}
	ops := model.GenDelta(r, src, maxOps, maxOut)
	if big && r.Chance(1, 30) {
		// whole blocks of 64 KiB, moved about
		n := 1 + r.N(4)
		src = seam.Virtual{N: int64(n) << 16, Seed: r.Seed()}
		j.src = src
		ops = nil
		for k := n - r.N(2) + r.N(2); k > 0; k-- {
			ops = append(ops, model.DeltaOp{Off: int64(r.N(n)) << 16, Size: 1 << 16})
		}
	}
	if big && r.Chance(1, 400) {
		// many small instructions
		r.Probe("delta of more than 4000 instructions")
		b := choice.NewBulk(r.Seed())
		for n := []int{4095, 16383, 32767, 65535}[r.N(4)] + r.N(5); n > 0; n-- {
			if n == 1 || src.Len() == 0 || b.N(2) == 0 {
				d := make([]byte, 1+b.N(3)*b.N(2))
				b.Fill(d)
				ops = append(ops, model.DeltaOp{Data: d})
			} else {
				ops = append(ops, model.DeltaOp{Off: int64(b.N(int(min(src.Len(), 1<<16)))), Size: 1})
			}
		}
	}
	target := model.DeltaTarget(src, ops)
	style := r.N(3)
	d := model.EncodeDelta(choice.NewBulk(r.Seed()), style, src.Len(), target.Len(), ops)
	f.BinaryFragment = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(d)), RawData: model.Deflate(d, level)}
	j.want = target
	j.desc = fmt.Sprintf("binary delta of %d instructions (encoding style %d) from %d to %d bytes", len(ops), style, src.Len(), target.Len())
	return j
}

// counts are the operations of a fault-free execution.
type counts struct{ reads, lines, writes int }

// dry executes the job without faults to learn where faults can be placed.
func (j *job) dry(r *sim.Run) (counts, error) {
	src, ls, snk := j.world()
	err := j.run(r, src, ls, snk)
	c := counts{reads: src.Ops, writes: snk.Ops}
	if ls != nil {
		c.lines = ls.LOps
	}
	return c, err
}

// place draws an operation index, biased towards the ends.
func place(r *sim.Run, n int) int {
	switch r.Pick(4, 1, 1) {
	case 1:
		return n - 1
	case 2:
		return max(0, n-1-r.N(4))
	}
	return r.N(n)
}

// planFaults draws which operations of the job fail, and how. At least one
// does if the job performs any operation of an allowed type.
func (j *job) planFaults(r *sim.Run, c counts, src *seam.Source, ls *seam.LineSource, snk *seam.Sink, reads, writes bool) int {
	planned := 0
	n := 1 + r.Pick(6, 2, 1)
	for i := 0; i < n; i++ {
		wr, ww, wl, wf := 0, 0, 0, 0
		if reads && c.reads > 0 {
			wr = 3
		}
		if reads && c.lines > 0 {
			wl = 3
		}
		if writes && c.writes > 0 {
			ww, wf = 4, 1
		}
		if wr+ww+wl+wf == 0 {
			return planned
		}
		planned++
		sticky := r.Bool()
		frac := r.N(1000)
		switch r.Pick(wr, wl, ww, wf) {
		case 0:
			k := []seam.FaultKind{seam.None, seam.Partial, seam.Full}[r.N(3)]
			src.Faults = append(src.Faults, seam.Fault{Op: place(r, c.reads), Kind: k, Frac: frac, Sticky: sticky, Err: seam.NewReadErr(r, "read error")})
		case 1:
			k := []seam.FaultKind{seam.None, seam.Partial}[r.N(2)]
			ls.LFaults = append(ls.LFaults, seam.Fault{Op: place(r, c.lines), Kind: k, Frac: frac, Sticky: sticky, Err: seam.NewReadErr(r, "line read error")})
		case 2:
			k := []seam.FaultKind{seam.None, seam.Partial, seam.Full, seam.Short}[r.N(4)]
			snk.Faults = append(snk.Faults, seam.Fault{Op: place(r, c.writes), Kind: k, Frac: frac, Sticky: sticky, Err: seam.NewWriteErr(r, "write error")})
		case 3:
			if n := j.want.Len(); n > 0 {
				snk.Cap = int64(choice.NewBulk(r.Seed()).Uint64() % uint64(n))
				snk.CapErr = seam.NewErr(r, "no space left on device")
			}
		}
	}
	return planned
}

func fired(src *seam.Source, ls *seam.LineSource, snk *seam.Sink) []error {
	var out []error
	out = append(out, src.Fired...) // a LineSource records in its Source
	out = append(out, snk.Fired...)
	return out
}

func isConflict(err error) bool { return errors.Is(err, &gitdiff.Conflict{}) }

// coherent tells whether all documented ways to recognise a conflict agree.
func coherent(err error) bool {
	var c *gitdiff.Conflict
	if !errors.As(err, &c) {
		return !isConflict(err)
	}
	if errors.Is(err, errUnrelated) || errors.Is(err, io.ErrShortWrite) {
		return false
	}
	return isConflict(err) && errors.Is(err, c) && c.Error() != (&gitdiff.Conflict{}).Error()
}

var errUnrelated = errors.New("unrelated")

func wrapsOne(err error, of []error) bool {
	for _, e := range of {
		// the bare io.EOF some writers fail with may be reported as unexpected
		if errors.Is(err, e) || e == io.EOF && errors.Is(err, io.ErrUnexpectedEOF) {
			return true
		}
	}
	return false
}
