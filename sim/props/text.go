package props

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"slices"
	"strings"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// textCase is a text patch with its source.
type textCase struct {
	old   []string
	sc    model.Script
	frags []*gitdiff.TextFragment
	want  string
	ctx   int
}

func genTextCase(r *sim.Run, big bool) *textCase {
	c := &textCase{old: model.GenSource(r, big)}
	c.sc = model.GenScript(r, c.old)
	if big && r.Chance(1, 400) {
		c.sc = insertMany(r, c.sc)
	}
	c.ctx = model.CtxSize(r)
	c.frags = model.Hunks(r, c.sc, c.ctx)
	c.want = model.Join(c.sc.New())
	return c
}

// insertMany adds many lines to a script, all alike or all different.
func insertMany(r *sim.Run, sc model.Script) model.Script {
	r.Probe("insertion of more than 4000 lines")
	at := 0
	if len(sc) > 0 && r.Bool() {
		at = r.N(len(sc))
	}
	n := []int{4095, 9999, 16383, 32767, 65535}[r.Pick(3, 3, 2, 1, 1)] + r.N(5)
	alike := r.Bool()
	add := make(model.Script, n)
	for i := range add {
		l := "like\n"
		if !alike {
			l = fmt.Sprintf("line %d\n", i)
		}
		add[i] = gitdiff.Line{Op: gitdiff.OpAdd, Line: l}
	}
	return append(append(append(model.Script{}, sc[:at]...), add...), sc[at:]...)
}

func (c *textCase) src() string { return model.Join(c.old) }

func (c *textCase) file() *gitdiff.File {
	return &gitdiff.File{OldName: "f", NewName: "f", TextFragments: c.frags}
}

func (c *textCase) String() string {
	return fmt.Sprintf("text patch of %d hunks with %d context lines on a source of %d lines, %d bytes", len(c.frags), c.ctx, len(c.old), len(c.src()))
}

// sharedPlace reports whether two insertions follow the same line, so that only
// their new positions tell their order.
func sharedPlace(fs []*gitdiff.TextFragment) bool {
	at := map[int64]bool{}
	for _, f := range fs {
		if f.OldLines == 0 {
			if at[f.OldPosition] {
				return true
			}
			at[f.OldPosition] = true
		}
	}
	return false
}

// shuffled returns the hunks in another order.
func shuffled(r *sim.Run, f []*gitdiff.TextFragment) []*gitdiff.TextFragment {
	out := append([]*gitdiff.TextFragment(nil), f...)
	b := choice.NewBulk(r.Seed())
	n := len(out)
	switch r.Pick(4, 2, 1, 1) {
	case 1: // one neighbouring pair
		if n > 1 {
			i := b.N(n - 1)
			if r.Bool() {
				i = n - 2 - b.N(min(n-1, 3))
			}
			out[i], out[i+1] = out[i+1], out[i]
			return out
		}
	case 2: // backwards
		slices.Reverse(out)
		return out
	case 3: // a few moved to another place
		for k := 1 + b.N(3); k > 0 && n > 1; k-- {
			i := b.N(n)
			x := out[i]
			out = slices.Insert(slices.Delete(out, i, i+1), b.N(n), x)
		}
		return out
	}
	for i := n - 1; i > 0; i-- {
		j := b.N(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// sourceFor draws what kind of source the caller passes.
func sourceFor(r *sim.Run, name, data string) (*seam.Source, *seam.LineSource, io.ReaderAt) {
	s := seam.NewSource(r, name, seam.Bytes(data))
	if r.Chance(1, 4) {
		l := &seam.LineSource{Source: s, Lines: model.SplitLines(data)}
		return s, l, seam.Offer(r.Pick(6, 2), s, l)
	}
	return s, nil, seam.Offer(r.Pick(6, 2, 1), s, s)
}

// memory returns an in-memory source and destination of the standard library,
// both used before, and what hands the output on to the sink.
func memory(r *sim.Run, data string, snk *seam.Sink) (src io.ReaderAt, dst io.Writer, finish func()) {
	at := int64(r.N(4)) * int64(len(data)) / 3
	if r.Bool() {
		s := bytes.NewReader([]byte(data))
		s.Seek(at, io.SeekStart)
		src = s
	} else {
		s := strings.NewReader(data)
		s.Seek(at, io.SeekStart)
		src = s
	}
	const before = "already there"
	switch r.N(3) {
	case 0:
		b := bytes.NewBufferString(before)
		dst, finish = b, func() {
			if !strings.HasPrefix(b.String(), before) {
				r.Fail("earlier content of the destination lost", "%q", b.String()[:min(40, b.Len())])
			}
			snk.Write(b.Bytes()[len(before):])
		}
	case 1:
		var b strings.Builder
		b.WriteString(before)
		dst, finish = &b, func() {
			if !strings.HasPrefix(b.String(), before) {
				r.Fail("earlier content of the destination lost", "%q", b.String()[:min(40, b.Len())])
			}
			snk.Write([]byte(b.String()[len(before):]))
		}
	case 2:
		b := bufio.NewWriterSize(snk, 16+r.N(5000))
		dst, finish = b, func() { b.Flush() }
	}
	return
}

// applyHow applies a file in one of the ways the API offers, stopping at the
// first error.
func applyHow(r *sim.Run, how int, dst io.Writer, src io.ReaderAt, f *gitdiff.File, opts ...gitdiff.ApplyOption) (err error) {
	if how == 0 || f.IsBinary && f.BinaryFragment == nil {
		err = gitdiff.Apply(dst, src, f, opts...)
	} else if f.IsBinary {
		a := gitdiff.NewBinaryApplier(dst, src, opts...)
		if err = a.ApplyFragment(f.BinaryFragment); err == nil {
			err = a.Close()
		}
	} else {
		a := gitdiff.NewTextApplier(dst, src, opts...)
		for _, h := range f.TextFragments {
			if err = a.ApplyFragment(h); err != nil {
				break
			}
		}
		if err == nil {
			err = a.Close()
		}
	}
	r.Ev("applied", how, errStr(err))
	return err
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 400000, Thorough: 20000000,
		Rule: "Each run draws a source (sizes and line shapes around the internal buffers, missing final newline, CRLF, binary bytes, patch-like lines), an edit script, a context size, hunk order, a source behaviour (end-of-data style, scratch use, own line reader), a destination behaviour (optional interfaces) and the API used, applies without faults and compares every accepted byte. Non-trivial: at least one hunk was applied to completion.",
		Body: c01,
	})
}

func c01(r *sim.Run) {
	c := genTextCase(r, true)
	f := c.file()
	if r.Chance(1, 40) {
		f.TextFragments = nil
		c.want = c.src()
	}
	how := r.Pick(3, 1)
	if how == 0 && r.Chance(1, 3) {
		f.TextFragments = shuffled(r, f.TextFragments)
		if r.Chance(1, 3) && !sharedPlace(f.TextFragments) {
			// hunks put together from several patches: where they would end
			// up in the new file is not known
			b := choice.NewBulk(r.Seed())
			for i, h := range f.TextFragments {
				if g := *h; g.NewPosition > 0 {
					g.NewPosition = 1 + int64(b.N(200))
					f.TextFragments[i] = &g
				}
			}
		}
	}
	snk := seam.NewSink(r, "dst")
	snk.Keep, snk.Want, snk.WantCls = false, seam.Bytes(c.want), "wrong output"
	_, _, ra := sourceFor(r, "src", c.src())
	dst := snk.As(r.N(seam.DstKinds))
	finish := func() {}
	if r.Chance(1, 8) {
		ra, dst, finish = memory(r, c.src(), snk)
	}
	var err error
	r.Call("apply", 0, func() { err = applyHow(r, how, dst, ra, f) })
	if err != nil {
		r.Fail("correct application fails", "%v (%s)", err, c)
	}
	finish()
	if snk.N != int64(len(c.want)) {
		r.Fail("incomplete output", "%d of %d bytes written, success reported (%s)", snk.N, len(c.want), c)
	}
	if len(f.TextFragments) > 0 {
		r.NonTrivial()
	}
	r.Sample("%s, applied through %s", c, []string{"Apply", "TextApplier"}[how])
}
