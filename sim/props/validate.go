package props

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Prop{
		ID: "C21", Quick: 150000, Thorough: 7500000,
		Rule: "Each run draws a text patch or a binary patch held by a program, damages zero to three drawn fields of one of its hunks (counts, positions, operators, lines added, lost, changed or swapped, huge and negative values) or its file description, or damages numbers and lines of its text before parsing; validation is compared with an independent recount, intact hunks before it are applied, and a refused one must leave destination and applier as they were. Non-trivial: something was damaged.",
		Body: c21,
	})
}

// consistent recounts a hunk.
func consistent(f *gitdiff.TextFragment) (bool, string) {
	if f == nil {
		return false, "nil"
	}
	var n [3]int64
	first, last := -1, -1
	for i, l := range f.Lines {
		if l.Op < 0 || l.Op > 2 {
			return false, "unknown operator"
		}
		n[l.Op]++
		if l.Op != gitdiff.OpContext {
			if first < 0 {
				first = i
			}
			last = i
		}
	}
	lead, trail := int64(first), int64(len(f.Lines)-1-last)
	if first < 0 {
		lead, trail = int64(len(f.Lines)), 0
	}
	ctx, del, add := n[gitdiff.OpContext], n[gitdiff.OpDelete], n[gitdiff.OpAdd]
	switch {
	case f.OldLines != ctx+del:
		return false, "old lines"
	case f.NewLines != ctx+add:
		return false, "new lines"
	case f.LinesAdded != add:
		return false, "added lines"
	case f.LinesDeleted != del:
		return false, "deleted lines"
	case f.LeadingContext != lead:
		return false, "leading context"
	case f.TrailingContext != trail:
		return false, "trailing context"
	case f.OldPosition == 0 && f.OldLines != 0:
		return false, "creation with old lines"
	}
	return true, ""
}

// oddOps are operators no line has.
var oddOps = []gitdiff.LineOp{3, -1, 4, 256, 1 << 30, -1 << 31, ' ', '+', '-'}

// damageHunk changes a drawn field.
func damageHunk(r *sim.Run, g *gitdiff.TextFragment) string {
	field := func(p *int64, name string) string {
		was := *p
		switch r.Pick(4, 4, 2, 1, 1, 1) {
		case 0:
			*p++
		case 1:
			*p--
		case 2:
			*p += int64(r.N(20)) - 10
		case 3:
			*p = 0
		case 4:
			*p = -*p
		case 5:
			*p = []int64{math.MaxInt64, math.MinInt64, 1 << 32, -1, *p + 1<<32}[r.N(5)]
		}
		return fmt.Sprintf("%s %d -> %d", name, was, *p)
	}
	n := len(g.Lines)
	k := 0
	if n > 0 {
		k = r.N(n)
		if r.Chance(1, 3) {
			k = []int{0, n - 1}[r.N(2)]
		}
	}
	switch c := r.N(14); {
	case c == 0:
		return field(&g.OldLines, "old lines")
	case c == 1:
		return field(&g.NewLines, "new lines")
	case c == 2:
		return field(&g.LinesAdded, "added")
	case c == 3:
		return field(&g.LinesDeleted, "deleted")
	case c == 4:
		return field(&g.LeadingContext, "leading context")
	case c == 5:
		return field(&g.TrailingContext, "trailing context")
	case c == 6:
		return field(&g.OldPosition, "old position")
	case c == 7:
		return field(&g.NewPosition, "new position")
	case c == 8 && n > 0:
		was := g.Lines[k].Op
		g.Lines[k].Op = gitdiff.LineOp(r.N(3))
		return fmt.Sprintf("line %d of %d: operator %d -> %d", k+1, n, was, g.Lines[k].Op)
	case c == 9 && n > 0:
		was := g.Lines[k].Op
		g.Lines[k].Op = oddOps[r.N(len(oddOps))]
		if r.Chance(1, 4) {
			g.Lines[k].Line = []string{"", "\n"}[r.N(2)]
		}
		return fmt.Sprintf("line %d of %d: operator %d -> %d", k+1, n, was, g.Lines[k].Op)
	case c == 10 && n > 0:
		g.Lines = append(g.Lines[:k:k], g.Lines[k+1:]...)
		return fmt.Sprintf("line %d of %d lost", k+1, n)
	case c == 11 && n > 0:
		g.Lines = append(g.Lines[:k:k], append([]gitdiff.Line{g.Lines[k]}, g.Lines[k:]...)...)
		return fmt.Sprintf("line %d of %d twice", k+1, n)
	case c == 12 && n > 1:
		i := r.N(n)
		g.Lines[i], g.Lines[k] = g.Lines[k], g.Lines[i]
		return fmt.Sprintf("lines %d and %d of %d swapped", i+1, k+1, n)
	}
	l := gitdiff.Line{Op: gitdiff.LineOp(r.N(3)), Line: []string{"extra\n", "", "\n", "extra"}[r.Pick(3, 2, 1, 1)]}
	if r.Chance(1, 2) {
		l.Op = oddOps[r.N(len(oddOps))]
	}
	k = []int{n, k}[r.Pick(2, 1)]
	g.Lines = append(g.Lines[:k:k], append([]gitdiff.Line{l}, g.Lines[k:]...)...)
	return fmt.Sprintf("line %d of %d added: operator %d, %q", k+1, n, l.Op, l.Line)
}

func c21(r *sim.Run) {
	switch r.Pick(6, 2, 2) {
	case 0:
		c21held(r)
	case 1:
		c21file(r)
	case 2:
		c21text(r)
	}
}

func judgeValidate(r *sim.Run, f *gitdiff.TextFragment, what string) bool {
	ok, why := consistent(f)
	var err error
	r.Call("Validate", 0, func() { err = f.Validate() })
	r.Ev("validate", what, errStr(err))
	if ok && err != nil {
		r.Fail("consistent hunk refused", "%s: %v", what, err)
	}
	if !ok && err == nil {
		r.Fail("inconsistent hunk validates: "+why, "%s", what)
	}
	return ok
}

// c21held damages a hunk held in memory.
func c21held(r *sim.Run) {
	c := genTextCase(r, r.Chance(1, 8))
	frags := cloneFiles([]*gitdiff.File{c.file()})[0].TextFragments
	if len(frags) == 0 {
		return
	}
	k := r.N(len(frags))
	if r.Bool() { // the longest
		for i, f := range frags {
			if len(f.Lines) > len(frags[k].Lines) {
				k = i
			}
		}
	}
	what := "intact"
	used := r.Bool()
	if used {
		// the program has worked with the hunks before they change
		useHunks(r, c, frags)
	}
	if r.Chance(7, 8) {
		what = ""
		for n := 1 + r.Pick(5, 2, 1); n > 0; n-- {
			what += damageHunk(r, frags[k]) + "; "
		}
		r.Fault("hunk: field damaged")
		r.NonTrivial()
	} else if r.Chance(1, 8) {
		frags[k], what = nil, "nil"
		r.Fault("hunk: lost")
		r.NonTrivial()
	}
	for i, f := range frags {
		w := what
		if i != k {
			w = "another hunk"
		}
		ok := judgeValidate(r, f, fmt.Sprintf("hunk %d (%s)", i+1, w))
		if i != k && !ok {
			panic("the model makes inconsistent hunks")
		}
	}
	r.Sample("hunk %d of %d: %s (used before: %v)", k+1, len(frags), what, used)
	if ok, _ := consistent(frags[k]); ok {
		return
	}
	if frags[k] != nil && r.Chance(1, 3) {
		// repaired, used and damaged again in the same way
		bad, good := *frags[k], cloneFiles([]*gitdiff.File{c.file()})[0].TextFragments[k]
		setHunk(frags[k], good)
		if !judgeValidate(r, frags[k], "repaired hunk") {
			panic("the model makes inconsistent hunks")
		}
		useHunks(r, c, frags)
		setHunk(frags[k], &bad)
		judgeValidate(r, frags[k], what+"again")
	}
	_, _, ra := sourceFor(r, "src", c.src())
	snk := seam.NewSink(r, "dst")
	a := gitdiff.NewTextApplier(snk.As(r.N(seam.DstKinds)), ra)
	for i, f := range frags[:k] {
		var err error
		r.Call("ApplyFragment", 0, func() { err = a.ApplyFragment(f) })
		if err != nil {
			r.Fail("hunk before the damaged one rejected", "hunk %d: %v", i+1, err)
		}
	}
	n := len(snk.Buf)
	var err error
	r.Call("ApplyFragment", 0, func() { err = a.ApplyFragment(frags[k]) })
	refused(r, err, what)
	if len(snk.Buf) != n {
		r.Fail("inconsistent hunk was written", "%s: %d bytes", what, len(snk.Buf)-n)
	}
	// the applier goes on with the right one
	for i, f := range c.frags[k:] {
		r.Call("ApplyFragment", 0, func() { err = a.ApplyFragment(f) })
		if err != nil {
			r.Fail("hunk refused after an inconsistent one", "hunk %d after %s: %v", k+i+1, what, err)
		}
	}
	r.Call("Close", 0, func() { err = a.Close() })
	if err != nil || !bytes.Equal(snk.Buf, []byte(c.want)) {
		r.Fail("result differs after an inconsistent hunk", "%s: %v", what, err)
	}
}

// useHunks validates, formats or applies hunks that are in order.
func useHunks(r *sim.Run, c *textCase, frags []*gitdiff.TextFragment) {
	for i, f := range frags {
		if r.Bool() {
			judgeValidate(r, f, fmt.Sprintf("hunk %d before its use", i+1))
		}
		if r.Chance(1, 4) {
			r.Call("String", 0, func() { _ = f.String() })
		}
	}
	if !r.Bool() {
		return
	}
	var err error
	snk := seam.NewSink(r, "first dst")
	_, _, ra := sourceFor(r, "first src", c.src())
	r.Call("Apply", 0, func() { err = gitdiff.Apply(snk.As(0), ra, &gitdiff.File{TextFragments: frags}) })
	if err != nil {
		r.Fail("consistent hunks refused", "%v", err)
	}
}

// setHunk gives a hunk another content by its fields, as programs do.
func setHunk(f, to *gitdiff.TextFragment) {
	f.Comment, f.Lines = to.Comment, to.Lines
	f.OldPosition, f.OldLines, f.NewPosition, f.NewLines = to.OldPosition, to.OldLines, to.NewPosition, to.NewLines
	f.LinesAdded, f.LinesDeleted = to.LinesAdded, to.LinesDeleted
	f.LeadingContext, f.TrailingContext = to.LeadingContext, to.TrailingContext
}

// refused checks the error for something that contradicts itself.
func refused(r *sim.Run, err error, what string) {
	if err == nil {
		r.Fail("inconsistent patch applied", "%s", what)
	}
	if isConflict(err) {
		r.Fail("inconsistent patch reported as a conflict", "%s: %v", what, err)
	}
	var ae *gitdiff.ApplyError
	if !errors.As(err, &ae) {
		r.Fail("refusal is not an ApplyError", "%s: %T %v", what, err, err)
	}
}

// c21file damages the description of a file.
func c21file(r *sim.Run) {
	c := genTextCase(r, false)
	text := cloneFiles([]*gitdiff.File{c.file()})[0]
	b := choice.NewBulk(r.Seed())
	data := make([]byte, b.N(200))
	b.Fill(data)
	bin, _ := model.MakeBinary(r, nil, data, 6000)
	if r.Bool() && len(text.TextFragments) > 0 {
		useHunks(r, c, text.TextFragments)
		var err error
		snk := seam.NewSink(r, "first dst")
		_, _, ra := sourceFor(r, "first src", c.src())
		r.Call("Apply", 0, func() { err = gitdiff.Apply(snk.As(0), ra, text) })
		if err != nil {
			r.Fail("consistent file refused", "%v", err)
		}
	}
	var f *gitdiff.File
	var what string
	bad := true
	switch r.N(6) {
	case 0:
		f, what = text, "text hunks and marked as binary"
		f.IsBinary = true
		bad = true
	case 1:
		f, what = text, "text hunks and binary data"
		f.BinaryFragment = bin
	case 2:
		f, what = text, "text hunks and binary data, marked as binary"
		f.IsBinary, f.BinaryFragment = true, bin
		bad = len(text.TextFragments) > 0
	case 3:
		f, what = &gitdiff.File{IsBinary: true}, "marked as binary without data"
	case 4:
		f, what = &gitdiff.File{BinaryFragment: bin}, "binary data in a file not marked as binary"
	case 5:
		f, what = &gitdiff.File{IsBinary: true, ReverseBinaryFragment: bin}, "only reverse binary data"
	}
	// whatever else is said of the file
	if r.Bool() {
		f.IsNew, f.IsDelete, f.IsCopy, f.IsRename = r.Chance(1, 4), r.Chance(1, 4), r.Chance(1, 4), r.Chance(1, 4)
		what += fmt.Sprintf(" (new %v, deleted %v, copied %v, renamed %v)", f.IsNew, f.IsDelete, f.IsCopy, f.IsRename)
		if r.Bool() {
			f.OldName, f.NewName = []string{"", "f", "a/b"}[r.N(3)], []string{"", "f", "a/c"}[r.N(3)]
		}
		f.Score = r.N(101)
	}
	if r.Chance(1, 4) {
		f.OldMode, f.NewMode = []os.FileMode{0, 0o100644, 0o120000}[r.N(3)], []os.FileMode{0, 0o100755, 0o160000}[r.N(3)]
	}
	if bin := f.ReverseBinaryFragment; bin == nil && r.Chance(1, 4) {
		f.ReverseBinaryFragment = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral}
	}
	r.Fault("file: description damaged")
	r.NonTrivial()
	r.Sample("%s", what)
	if !bad {
		return
	}
	_, _, ra := sourceFor(r, "src", c.src())
	snk := seam.NewSink(r, "dst")
	var err error
	r.Call("Apply", 0, func() { err = gitdiff.Apply(snk.As(r.N(seam.DstKinds)), ra, f) })
	refused(r, err, what)
	if len(snk.Buf) > 0 {
		r.Fail("inconsistent file was written", "%s: %d bytes", what, len(snk.Buf))
	}
}

// c21text damages hunks before they are parsed; whatever is accepted must be
// consistent.
func c21text(r *sim.Run) {
	p := model.GenPatch(r, model.Opts{Text: true, MinFiles: 1, MaxFiles: 2, Small: true})
	text := bytes.Clone(p.Text)
	for n := 1 + r.N(3); n > 0; n-- {
		lines := bytes.SplitAfter(text, []byte("\n"))
		var at []int
		for i, l := range lines {
			if bytes.HasPrefix(l, []byte("@@")) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			break
		}
		i := at[r.N(len(at))]
		switch r.N(5) {
		case 0, 1: // a digit of the header
			l := bytes.Clone(lines[i])
			var d []int
			for k, c := range l {
				if c >= '0' && c <= '9' {
					d = append(d, k)
				}
			}
			if len(d) > 0 {
				l[d[r.N(len(d))]] = byte('0' + r.N(10))
			}
			lines[i] = l
			r.Fault("transit: digit changed")
		case 2: // a line lost
			i = min(len(lines)-1, i+1+r.N(8))
			lines[i] = nil
			r.Fault("transit: line lost")
		case 3: // a line twice
			i = min(len(lines)-1, i+1+r.N(8))
			lines[i] = append(bytes.Clone(lines[i]), lines[i]...)
			r.Fault("transit: line repeated")
		case 4: // another operator
			i = min(len(lines)-1, i+1+r.N(8))
			if len(lines[i]) > 0 {
				l := bytes.Clone(lines[i])
				l[0] = " +-\\@x\n"[r.N(7)]
				lines[i] = l
			}
			r.Fault("transit: operator changed")
		}
		text = bytes.Join(lines, nil)
	}
	r.NonTrivial()
	got := parse(r, seam.NewStream(r, "patch", text), true)
	n := 0
	for _, f := range got.files {
		for _, h := range f.TextFragments {
			n++
			if ok, why := consistent(h); !ok && why != "creation with old lines" {
				if got.err != nil {
					continue // the incomplete one
				}
				r.Fail("inconsistent hunk parsed: "+why, "%+v", *h)
			}
			judgeValidate(r, h, "parsed hunk")
		}
	}
	r.Sample("%d hunks parsed, %s", n, errStr(got.err))
}
