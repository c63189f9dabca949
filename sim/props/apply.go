package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Prop{
		ID: "C02", Quick: 25000, Thorough: 1250000,
		Rule: "Each run draws a source (empty to 32 GiB, large ones procedural), delta instructions biased to size and offset boundaries or a literal, the encoding of sizes and instructions, compression level, limits, source and destination behaviour, the API used and whether the patch travels through a rendered stream, applies without faults and compares every accepted byte. Non-trivial: at least one byte was produced.",
		Body: c02,
	})
	register(&Prop{
		ID: "C03", Quick: 300000, Thorough: 15000000,
		Rule: "Each run draws a text, binary or content-free patch on its matching source, executes it once without faults to count its I/O operations, then again with one to three faults at drawn operations (reads and line reads: no, partial or all data with an error; writes: none, partial, all with an error, or a short count without one; disk full at a drawn byte; transient or permanent). Non-trivial: a fault fired.",
		Body: c03,
	})
	register(&Prop{
		ID: "C04", Quick: 300000, Thorough: 15000000,
		Rule: "As C03, with the destination compared with the right output at every write and watched for writes after the failure; one run in three applies a text patch to a source that has since changed, with and without faults, and compares with what a reference application writes before the first disagreement. Non-trivial: a fault fired or the source was stale.",
		Body: c04,
	})
	register(&Prop{
		ID: "C05", Quick: 300000, Thorough: 15000000,
		Rule: "Each run draws a history: a source, a patch made from it, and later edits of the source (none, small, overlapping the hunks, truncation, growth, emptying), also overlapping hunk lists, stale binary sources, malformed patches, limits and I/O faults, and compares success or conflict with a reference application. Non-trivial: an application was attempted.",
		Body: c05,
	})
	register(&Prop{
		ID: "C06", Quick: 300000, Thorough: 15000000,
		Rule: "Each run draws a text patch in order and either a stale source or I/O faults at drawn operations, applies it and compares the reported location with the place of the first disagreement found by a reference application, or with the position of the failing write in the expected output. Non-trivial: the application failed.",
		Body: c06,
	})
}

// ---------------------------------------------------------------- C02

func c02(r *sim.Run) {
	j := binaryJob(r, true)
	f := j.file
	switch r.Pick(4, 1, 1) {
	case 1:
		j.opts = append(j.opts, gitdiff.WithMaxBinaryFragmentBytes(-1))
	case 2: // exactly what it needs
		need := f.BinaryFragment.Size
		if f.BinaryFragment.Method == gitdiff.BinaryPatchDelta {
			need = max(need, j.want.Len())
		}
		j.opts = append(j.opts, gitdiff.WithMaxBinaryFragmentBytes(need))
	}
	if r.Chance(1, 4) { // over the wire
		f = overWire(r, f)
		j.file = f
	}
	j.surround(r)
	src, ls, snk := j.world()
	snk.Want, snk.WantCls = j.want, "wrong output"
	if j.src.Len() < 1<<20 && r.Chance(1, 8) {
		var finish func()
		j.ra, j.dst, finish = memory(r, string(model.ReadAll(j.src)), snk)
		defer func() { j.ra, j.dst = nil, nil }()
		j.finish = finish
	}
	err := j.run(r, src, ls, snk)
	if err != nil {
		r.Fail("correct application fails", "%v (%s)", err, j)
	}
	if snk.N != j.want.Len() {
		r.Fail("incomplete output", "%d of %d bytes written, success reported (%s)", snk.N, j.want.Len(), j)
	}
	if snk.N > 0 {
		r.NonTrivial()
	}
	r.Sample("%s", j)
}

// overWire renders a binary file and parses it back.
func overWire(r *sim.Run, f *gitdiff.File) *gitdiff.File {
	var b bytes.Buffer
	b.WriteString("diff --git a/f b/f\nindex 1234567..89abcde 100644\nGIT binary patch\n")
	for _, l := range model.BinaryLines(f.BinaryFragment, 52, 0, 0) {
		b.WriteString(l.Text)
	}
	st := seam.NewStream(r, "patch", b.Bytes())
	var files []*gitdiff.File
	var err error
	r.Call("parse", 0, func() { files, _, err = gitdiff.Parse(st.Reader(true)) })
	if err != nil || len(files) != 1 {
		r.Fail("correct binary patch not parsed", "%d files, error %v", len(files), err)
	}
	return files[0]
}

// ---------------------------------------------------------------- C03

func c03(r *sim.Run) {
	j := genJob(r, 7, 3, 1)
	j.surround(r)
	c, err := j.dry(r)
	if err != nil {
		return // another property's business
	}
	src, ls, snk := j.world()
	j.planFaults(r, c, src, ls, snk, true, true)
	err = j.run(r, src, ls, snk)
	fl := fired(src, ls, snk)
	r.Sample("%s; %d reads, %d line reads and %d writes without faults; ended with %v", j, c.reads, c.lines, c.writes, err)
	if len(fl) == 0 && !snk.Short {
		return
	}
	r.NonTrivial()
	if err == nil {
		what := "failed read reported as success"
		if len(snk.Fired) > 0 {
			what = "failed write reported as success"
		} else if snk.Short {
			what = "short write reported as success"
		}
		r.Fail(what, "%d of %d bytes accepted (%s)", snk.N, j.want.Len(), j)
	}
	if isConflict(err) {
		r.Fail("I/O failure reported as a conflict", "%v; the cause was %v (%s)", err, fl, j)
	}
	if !wrapsOne(err, fl) && !(snk.Short && errors.Is(err, io.ErrShortWrite)) {
		r.Fail("I/O failure not identified", "reported %q does not wrap %v (short write: %v) (%s)", err, fl, snk.Short, j)
	}
}

// ---------------------------------------------------------------- C04

func c04(r *sim.Run) {
	if r.Chance(1, 3) {
		c04stale(r)
		return
	}
	j := genJob(r, 7, 3, 1)
	j.surround(r)
	c, err := j.dry(r)
	if err != nil {
		return
	}
	src, ls, snk := j.world()
	j.planFaults(r, c, src, ls, snk, true, true)
	snk.Want, snk.WantCls = j.want, "destination holds wrong bytes"
	err = j.run(r, src, ls, snk)
	if len(fired(src, ls, snk)) > 0 || snk.Short {
		r.NonTrivial()
	}
	if snk.LateBytes() > 0 {
		r.Fail("output continues after a failed write", "%d more bytes (%s)", snk.LateBytes(), j)
	}
	r.Sample("%s; ended with %v after %d of %d bytes", j, err, snk.N, j.want.Len())
}

func c04stale(r *sim.Run) {
	c := genTextCase(r, true)
	stale, how := mutateLines(r, c)
	_, fail := model.ApplyStrict(stale, c.frags)
	out, _ := model.ApplyStrict(stale, c.frags)
	if fail != nil {
		out = fail.Out
	}
	j := textJob(c, r)
	j.src, j.lines, j.want = seam.Bytes(model.Join(stale)), stale, seam.Bytes(out)
	j.surround(r)
	src, ls, snk := j.world()
	if r.Chance(1, 3) {
		cnt, _ := j.dry(r)
		j.planFaults(r, cnt, src, ls, snk, true, true)
	}
	snk.Want, snk.WantCls = j.want, "stale source: output disagrees with the patch"
	err := j.run(r, src, ls, snk)
	if snk.LateBytes() > 0 {
		r.Fail("output continues after a failed write", "%d more bytes (%s)", snk.LateBytes(), j)
	}
	r.NonTrivial()
	r.Sample("%s, the source having changed since (%s); ended with %v after %d bytes", j, how, err, snk.N)
}

// mutateLines returns what has become of the source a patch was made from.
func mutateLines(r *sim.Run, c *textCase) ([]string, string) {
	old := c.old
	b := choice.NewBulk(r.Seed())
	lines := append([]string(nil), old...)
	fresh := func() string { return fmt.Sprintf("changed %d\n", b.N(1000)) }
	endNL := func(l []string) []string {
		for i := 0; i+1 < len(l); i++ {
			if len(l[i]) == 0 || l[i][len(l[i])-1] != '\n' {
				l[i] += "\n"
			}
		}
		return l
	}
	switch r.Pick(2, 5, 3, 3, 2, 2, 2, 2, 2, 1) {
	case 0:
		return lines, "unchanged"
	case 1: // change one line near a hunk
		if len(lines) == 0 {
			return []string{fresh()}, "content appeared"
		}
		f := c.frags[r.N(len(c.frags))]
		i := int(f.OldPosition) - 1 + r.Range(0, int(f.OldLines)+2) - 1
		if i < 0 {
			i = 0
		}
		if i >= len(lines) {
			i = len(lines) - 1
		}
		switch r.N(6) {
		case 0:
			lines[i] = fresh()
		case 4, 5: // what often goes unnoticed
			lines[i] = nearLine(r, lines[i])
		case 1: // only white space or one byte
			if k := len(lines[i]); k > 1 {
				p := []byte(lines[i])
				p[b.N(k-1)] ^= byte(1 << b.N(8))
				if bytes.IndexByte(p[:k-1], '\n') < 0 {
					lines[i] = string(p)
				}
			}
		case 2:
			if k := len(lines[i]); lines[i][k-1] == '\n' {
				lines[i] = lines[i][:k-1] + " \n"
			} else {
				lines[i] += " "
			}
		case 3:
			if k := len(lines[i]); lines[i][k-1] == '\n' && k > 1 {
				lines[i] = lines[i][:k-2] + "\r\n"
			}
		}
		return lines, fmt.Sprintf("line %d changed", i+1)
	case 2: // insert
		i := r.N(len(lines) + 1)
		n := 1 + r.N(3)
		ins := []string{}
		for k := 0; k < n; k++ {
			if len(lines) > 0 && r.Bool() {
				l := lines[b.N(len(lines))]
				if l[len(l)-1] != '\n' {
					l += "\n"
				}
				ins = append(ins, l)
			} else {
				ins = append(ins, fresh())
			}
		}
		lines = append(lines[:i:i], append(ins, lines[i:]...)...)
		return endNL(lines), fmt.Sprintf("%d lines inserted at %d", n, i)
	case 3: // delete
		if len(lines) > 0 {
			i := r.N(len(lines))
			n := min(1+r.N(3), len(lines)-i)
			lines = append(lines[:i:i], lines[i+n:]...)
			return lines, fmt.Sprintf("%d lines deleted at %d", n, i)
		}
	case 4: // truncate
		n := r.N(len(lines) + 1)
		return lines[:n], fmt.Sprintf("truncated to %d lines", n)
	case 5: // final newline
		if n := len(lines); n > 0 {
			l := lines[n-1]
			if l[len(l)-1] == '\n' && len(l) > 1 {
				lines[n-1] = l[:len(l)-1]
			} else if l[len(l)-1] != '\n' {
				lines[n-1] = l + "\n"
			}
			return lines, "final newline changed"
		}
	case 6: // appended
		if n := len(lines); n > 0 && lines[n-1][len(lines[n-1])-1] != '\n' {
			lines[n-1] += "\n"
		}
		return append(lines, fresh()), "a line appended"
	case 7: // already patched
		return model.SplitLines(c.want), "patch already applied"
	case 8: // swap
		if len(lines) > 1 {
			i := r.N(len(lines) - 1)
			lines[i], lines[i+1] = lines[i+1], lines[i]
			return endNL(lines), fmt.Sprintf("lines %d and %d swapped", i+1, i+2)
		}
	case 9:
		return nil, "emptied"
	}
	return lines, "unchanged"
}

// alike are texts that mean the same to some programs.
var alike = [][2]string{{"$Id$", "$Id: f 12 $"}, {"$Id$", "$Id: f,v 1.2 2001/02/03 04:05:06 a Exp $"}, {"$Revision: 1.2 $", "$Revision$"}, {"$Revision: 1.2 $", "$Revision: 1.3 $"}, {"$Date$", "$Date: 2001-02-03 $"}, {"é", "e\u0301"}, {"ï", "i\u0308"}, {"ﬁ", "fi"}, {"ß", "ss"}, {"'", "\u2019"}, {"\"", "'"}, {"\"", "\\\""}, {"-", "\u2013"}, {"...", "\u2026"}, {"007", "7"}, {"10", "010"}, {"10", "1e1"}, {"1.50", "1.5"}, {"True", "true"}, {"0x1F", "0x1f"}, {"0x1F", "31"}, {"colour", "color"}, {";", ""}, {"//", "#"}, {" // note", ""}, {"# note", "#note"}, {"/* c */", ""}, {"<p>", "<P>"}, {"&amp;", "&"}, {"%20", " "}, {"\\", "/"}, {"\\", "\\\\"}, {" (", "("}, {", ", ","}, {"http:", "https:"}, {"2024", "2025"}, {"12:34", "12:35"}, {"\t", "    "}, {"\t", "        "}, {"^M", "\r"}, {"^Z", "\x1a"}, {"\x1b[31m", ""}, {"TODO", ""}, {"v1.2.3", "v1.2.4"}, {"a", "b"}, {"0", "1"}, {"l", "1"}, {"O", "0"}, {"file", "File"}, {"line ", "line  "}, {"of", "0f"}, {"K", "\u212a"}, {"a", "\u0430"}, {".", ""}, {"<<<<<<< HEAD", "<<<<<<< main"}, {"\xff", "\ufffd"}, {"\x00", ""}}

// nearLine returns a line that looks like l.
func nearLine(r *sim.Run, l string) string {
	nl := ""
	if strings.HasSuffix(l, "\n") {
		l, nl = l[:len(l)-1], "\n"
	}
	b := choice.NewBulk(r.Seed())
	i := b.N(len(l) + 1)
	signs := []string{"\ufeff", "\u200b", "\u00ad", "\u00a0", "\x00", "\t", " ", "\r", "\v", "\f", "\u0301", "\u2028", "\x1a", "\x7f", "\xff", "\\", "$"}
	was := l
	switch c := signs[r.N(len(signs))]; r.N(18) {
	case 0, 1:
		l = c + l
	case 2, 3:
		l += c
	case 4:
		l = l[:i] + c + l[i:]
	case 10, 11: // bytes that change places, at times far apart
		if k := len(l); k > 1 {
			p := []byte(l)
			x := b.N(k - 1)
			y := x + 1
			if b.N(2) == 0 {
				y = b.N(k)
			}
			p[x], p[y] = p[y], p[x]
			l = string(p)
		}
	case 12: // the same sum
		if k := len(l); k > 1 {
			p := []byte(l)
			p[b.N(k)]++
			p[b.N(k)]--
			l = string(p)
		}
	case 13:
		p := []byte(l)
		slices.Reverse(p)
		l = string(p)
	case 14, 15, 16: // what means the same to somebody
		for n, k := b.N(len(alike)), 0; k < len(alike) && l == was; k++ {
			e := alike[(n+k)%len(alike)]
			x, y := e[0], e[1]
			if b.N(2) == 0 {
				x, y = y, x
			}
			if x != "" {
				l = strings.Replace(l, x, y, 1+b.N(3))
			}
		}
	case 17:
		l = strings.ToLower(l)
	case 5:
		l = strings.ToUpper(l)
	case 6:
		l = strings.TrimSpace(l)
	case 7:
		l = strings.Join(strings.Fields(l), " ")
	case 8:
		l = strings.ReplaceAll(l, " ", "\t")
	case 9:
		for _, c := range signs {
			l = strings.ReplaceAll(l, c, "")
		}
	}
	if l+nl == "" || strings.Contains(l, "\n") {
		l = was
	}
	return l + nl
}

// ---------------------------------------------------------------- C05

func c05(r *sim.Run) {
	switch r.Pick(8, 2, 2, 2) {
	case 0:
		c05text(r)
	case 1:
		c05overlap(r)
	case 2:
		c05binary(r)
	case 3:
		c05other(r)
	}
}

func c05text(r *sim.Run) {
	c := genTextCase(r, true)
	stale, how := mutateLines(r, c)
	want, fail := model.ApplyStrict(stale, c.frags)
	j := textJob(c, r)
	j.src, j.lines = seam.Bytes(model.Join(stale)), stale
	if j.how == 0 && r.Chance(1, 4) {
		j.file.TextFragments = shuffled(r, j.file.TextFragments)
	}
	j.judge(r, want, fail, how)
}

// judge applies and compares with the reference outcome.
func (j *job) judge(r *sim.Run, want string, fail *model.Fail, how string) {
	j.want = seam.Bytes(want)
	j.surround(r)
	src, ls, snk := j.world()
	snk.Keep = true
	faulted := false
	if r.Chance(1, 6) {
		cnt, _ := j.dry(r)
		j.planFaults(r, cnt, src, ls, snk, true, true)
		faulted = true
	}
	err := j.run(r, src, ls, snk)
	r.NonTrivial()
	r.Sample("%s, source since: %s; reference: %+v; ended with %v", j, how, fail, err)
	if faulted && (len(fired(src, ls, snk)) > 0 || snk.Short) {
		if fail == nil && isConflict(err) {
			r.Fail("I/O failure reported as a conflict", "%v (%s, %s)", err, j, how)
		}
		return
	}
	switch {
	case fail != nil && err == nil:
		r.Fail("stale source accepted", "%s: %s at hunk %d line %d (%s)", how, fail.Why, fail.Frag, fail.FragLine, j)
	case err != nil && !coherent(err):
		r.Fail("error is and is not a conflict", "%s: %v (%s)", how, err, j)
	case fail != nil && fail.Conflict && !isConflict(err):
		r.Fail("conflict not recognisable", "%s: %s, but the error is %v (%s)", how, fail.Why, err, j)
	case fail == nil && isConflict(err):
		r.Fail("matching source reported as a conflict", "%s: %v (%s)", how, err, j)
	case fail == nil && err == nil && string(snk.Buf) != want:
		r.Fail("stale source accepted", "%s: output is not the patched source (%s)", how, j)
	}
}

// c05overlap combines hunks that do not fit together.
func c05overlap(r *sim.Run) {
	old := model.GenSource(r, false)
	a := model.Hunks(r, model.GenScript(r, old), model.CtxSize(r))
	b := model.Hunks(r, model.GenScript(r, old), model.CtxSize(r))
	frags := append(append([]*gitdiff.TextFragment(nil), a...), b...)
	// order by position; equal positions are left out since their order is
	// not defined
	for i := 1; i < len(frags); i++ {
		for k := i; k > 0 && frags[k].OldPosition < frags[k-1].OldPosition; k-- {
			frags[k], frags[k-1] = frags[k-1], frags[k]
		}
	}
	var uniq []*gitdiff.TextFragment
	for i, f := range frags {
		if i > 0 && f.OldPosition == frags[i-1].OldPosition {
			if i+1 == len(frags) && r.Bool() {
				uniq = append(uniq, uniq[len(uniq)-1]) // the very same hunk twice
			}
			continue
		}
		uniq = append(uniq, f)
	}
	c := &textCase{old: old, frags: uniq}
	want, fail := model.ApplyStrict(old, uniq)
	j := textJob(c, r)
	j.judge(r, want, fail, "hunks of two patches combined")
}

func c05binary(r *sim.Run) {
	j := binaryJob(r, false)
	old := model.ReadAll(j.src)
	stale := append([]byte(nil), old...)
	how := ""
	b := choice.NewBulk(r.Seed())
	if isDelta := j.file.BinaryFragment.Method == gitdiff.BinaryPatchDelta; isDelta && r.Chance(1, 4) {
		// the source is what it was, but not what the delta was made from
		raw, err := model.Inflate(j.file.BinaryFragment.RawData, j.file.BinaryFragment.Size)
		if err != nil {
			panic(err)
		}
		size := int64(len(old))
		switch r.N(3) {
		case 0:
			size ^= 1 << r.N(62)
		case 1:
			size += 1 << r.N(62)
		case 2:
			size = max(0, size-1<<r.N(20))
		}
		if size == int64(len(old)) {
			size++
		}
		n := 1
		for raw[n-1] >= 0x80 {
			n++
		}
		raw = append(model.AppendVarint(nil, uint64(size), 0), raw[n:]...)
		g := *j.file.BinaryFragment
		g.Size, g.RawData = int64(len(raw)), model.Deflate(raw, 1)
		f := *j.file
		f.BinaryFragment = &g
		j.file = &f
		j.judge(r, "", &model.Fail{Why: "source has another size", Conflict: true}, fmt.Sprintf("a delta for a source of %d bytes", size))
		return
	}
	switch r.N(6) {
	case 0:
		stale, how = append(stale, byte(b.N(256))), "one byte longer"
	case 1:
		if len(stale) > 0 {
			stale, how = stale[:len(stale)-1], "one byte shorter"
		}
	case 2:
		stale, how = stale[:b.N(len(stale)+1)], "truncated"
	case 3:
		stale, how = append(stale, make([]byte, 1+b.N(100000))...), "longer"
	case 4:
		if len(stale) > 0 {
			stale[b.N(len(stale))] ^= 0x40
			how = "same size, other content"
		}
	case 5:
		stale, how = nil, "emptied"
	}
	isDelta := j.file.BinaryFragment.Method == gitdiff.BinaryPatchDelta
	j.src = seam.Bytes(stale)
	var fail *model.Fail
	want := ""
	if isDelta && len(stale) != len(old) {
		fail = &model.Fail{Why: "source has another size", Conflict: true}
	} else if isDelta {
		raw, err := model.Inflate(j.file.BinaryFragment.RawData, j.file.BinaryFragment.Size)
		if err != nil {
			panic(err)
		}
		out, err := model.DecodeDelta(stale, raw)
		if err != nil {
			panic(err)
		}
		want = string(out)
	} else {
		want = string(model.ReadAll(j.want))
	}
	j.judge(r, want, fail, "source "+how)
}

// c05other checks that failures of other kinds are not called conflicts.
func c05other(r *sim.Run) {
	r.NonTrivial()
	expect := func(what string, err error) {
		r.Sample("%s; ended with %v", what, err)
		if isConflict(err) {
			r.Fail("failure of another kind reported as a conflict", "%s: %v", what, err)
		}
	}
	if r.Bool() { // malformed text fragments
		c := genTextCase(r, false)
		f := c.file()
		k := r.N(len(f.TextFragments))
		bad, what := breakFragment(r, f.TextFragments[k])
		f.TextFragments = append([]*gitdiff.TextFragment(nil), f.TextFragments...)
		f.TextFragments[k] = bad
		if bad.OldPosition != c.frags[k].OldPosition {
			return
		}
		j := textJob(c, r)
		j.file = f
		j.surround(r)
		src, ls, snk := j.world()
		expect("malformed hunk ("+what+")", j.run(r, src, ls, snk))
		return
	}
	j := binaryJob(r, false)
	f := *j.file.BinaryFragment
	what := ""
	if f.Method == gitdiff.BinaryPatchDelta && r.Bool() { // malformed instructions for this very source
		raw, err := model.Inflate(f.RawData, f.Size)
		if err != nil {
			panic(err)
		}
		head := 1 // bytes that tell the source's size
		for raw[head-1] >= 0x80 {
			head++
		}
		at := head // first byte of instructions
		for at++; raw[at-1] >= 0x80; at++ {
		}
		size, body := raw[head:at], raw[at:]
		switch r.N(4) {
		case 0:
			size, what = model.AppendVarint(nil, uint64(j.want.Len())+1+uint64(r.N(200)), 0), "delta for a larger result"
		case 1:
			size, what = model.AppendVarint(nil, uint64(r.N(int(min(j.want.Len(), 1<<30))+1)), 0), "delta for a smaller result"
		case 2:
			body, what = damageBytes(r, body)
			what = "delta, " + what
		case 3:
			size, body, what = nil, nil, "delta that ends after its first size"
		}
		raw = append(append(append([]byte(nil), raw[:head]...), size...), body...)
		f.Size, f.RawData = int64(len(raw)), model.Deflate(raw, 1)
		j.file = &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: &f}
		j.surround(r)
		src, ls, snk := j.world()
		expect(what, j.run(r, src, ls, snk))
		return
	}
	switch r.N(5) {
	case 0:
		f.Size += int64(1 + r.N(5))
		what = "declared size too large"
	case 1:
		if f.Size == 0 {
			return
		}
		f.Size--
		what = "declared size too small"
	case 2:
		f.RawData = append([]byte(nil), f.RawData...)
		f.RawData[r.N(len(f.RawData))] ^= byte(1 << r.N(8))
		what = "damaged data"
	case 3:
		f.RawData = f.RawData[:r.N(len(f.RawData))]
		what = "truncated data"
	case 4:
		j.opts = append(j.opts, gitdiff.WithMaxBinaryFragmentBytes(max(0, f.Size-1)))
		what = "limit"
	}
	j.file = &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: &f}
	j.surround(r)
	src, ls, snk := j.world()
	expect(what, j.run(r, src, ls, snk))
}

// breakFragment returns an inconsistent copy of a hunk.
func breakFragment(r *sim.Run, f *gitdiff.TextFragment) (*gitdiff.TextFragment, string) {
	g := *f
	d := int64(1 + r.N(3))
	if r.Bool() {
		d = -d
	}
	switch r.N(9) {
	case 0:
		g.OldLines += d
		return &g, "old line count"
	case 1:
		g.NewLines += d
		return &g, "new line count"
	case 2:
		g.LinesAdded += d
		return &g, "added count"
	case 3:
		g.LinesDeleted += d
		return &g, "deleted count"
	case 4:
		g.LeadingContext += d
		return &g, "leading context count"
	case 5:
		g.TrailingContext += d
		return &g, "trailing context count"
	case 6:
		if len(f.Lines) > 0 {
			g.Lines = f.Lines[:len(f.Lines)-1]
			return &g, "missing line"
		}
	case 7:
		g.Lines = append(append([]gitdiff.Line(nil), f.Lines...), gitdiff.Line{Op: gitdiff.LineOp(r.N(3)), Line: "extra\n"})
		return &g, "extra line"
	case 8:
		if len(f.Lines) > 0 {
			g.Lines = append([]gitdiff.Line(nil), f.Lines...)
			g.Lines[r.N(len(g.Lines))].Op = gitdiff.LineOp(3 + r.N(5))
			return &g, "unknown operation"
		}
	}
	g.OldLines += d
	return &g, "old line count"
}

// ---------------------------------------------------------------- C06

func c06(r *sim.Run) {
	c := genTextCase(r, true)
	lines := c.old
	how := "unchanged"
	if r.Chance(3, 5) {
		lines, how = mutateLines(r, c)
	}
	if r.Chance(1, 12) { // hunks that overlap
		k := r.N(len(c.frags))
		c.frags = append(c.frags[:k+1:k+1], c.frags[k:]...)
		how = "hunk repeated"
	}
	out, fail := model.ApplyStrict(lines, c.frags)
	if fail != nil {
		out = fail.Out
	}
	j := textJob(c, r)
	j.how, j.src, j.lines, j.want = 0, seam.Bytes(model.Join(lines)), lines, seam.Bytes(out)
	j.surround(r)
	src, ls, snk := j.world()
	snk.Want, snk.WantCls = j.want, "harness: unexpected output"
	faults := r.Chance(1, 2)
	if faults {
		cnt, _ := j.dry(r)
		j.planFaults(r, cnt, src, ls, snk, r.Chance(1, 3), true)
	}
	var firstFail [2]int64 // byte range of the first failing write
	firstFail[0] = -1
	var prev int64
	lastLen := int64(0)
	w := &watchWriter{w: snk.As(j.dstKind), before: func(n int) { prev, lastLen = snk.N, int64(n) }, after: func(n, m int, err error) {
		if firstFail[0] < 0 && (err != nil || m < n) {
			firstFail = [2]int64{prev, prev + lastLen}
		}
	}}
	var ra io.ReaderAt = src
	if ls != nil {
		ra = ls
	}
	var err error
	snk.Want = nil
	r.Call("apply", 0, func() { err = gitdiff.Apply(w, ra, j.file) })
	r.Ev("applied", errStr(err))
	if err == nil {
		return
	}
	r.NonTrivial()
	var ae *gitdiff.ApplyError
	structured := errors.As(err, &ae)
	desc := ""
	if structured {
		desc = fmt.Sprintf("reported hunk %d, hunk line %d, source line %d (%v)", ae.Fragment, ae.FragmentLine, ae.Line, err)
	} else {
		desc = fmt.Sprintf("%v", err)
	}
	r.Sample("%s, source since: %s; %s", j, how, desc)
	bad := func(class, format string, args ...any) {
		r.Fail(class, "%s; %s (%s, source: %s)", fmt.Sprintf(format, args...), desc, j, how)
	}

	switch {
	case firstFail[0] >= 0:
		// the write began at a known place of the expected output
		spots := locate(c, lines, firstFail[0], firstFail[1])
		inTail := true
		for _, s := range spots {
			if s.frag > 0 {
				inTail = false
			}
		}
		if inTail || len(spots) == 0 {
			return // trailing copy: no hunk is concerned
		}
		if !structured {
			bad("location missing", "write failure at hunk %d", spots[0].frag)
		}
		ok := false
		for _, s := range spots {
			if s.frag == ae.Fragment && s.line == ae.Line && s.fragLine == ae.FragmentLine {
				ok = true
			}
		}
		if !ok {
			bad("wrong location of a write failure", "the failing write holds hunk %d, hunk line %d, source line %d", spots[0].frag, spots[0].fragLine, spots[0].line)
		}
	case len(fired(src, ls, snk)) > 0:
		// a read failed: only the hunk can be named. Everything written so
		// far tells which one it is.
		frag := fragAfter(c, lines, snk.N, fail)
		if frag == 0 {
			return
		}
		if !structured || ae.Fragment != frag {
			bad("wrong hunk for a read failure", "the read failed in hunk %d", frag)
		}
	case fail != nil:
		if !structured {
			bad("location missing", "%s at hunk %d", fail.Why, fail.Frag)
		}
		if ae.Fragment != fail.Frag {
			bad("wrong hunk", "%s at hunk %d", fail.Why, fail.Frag)
		}
		if fail.FragLine > 0 && ae.FragmentLine != fail.FragLine {
			bad("wrong line within the hunk", "%s at hunk line %d", fail.Why, fail.FragLine)
		}
		if fail.Line > 0 && ae.Line != fail.Line {
			bad("wrong source line", "%s at source line %d", fail.Why, fail.Line)
		}
	}
}

type watchWriter struct {
	w      io.Writer
	before func(int)
	after  func(n, m int, err error)
}

func (w *watchWriter) Write(p []byte) (int, error) {
	w.before(len(p))
	m, err := w.w.Write(p)
	w.after(len(p), m, err)
	return m, err
}

type spot struct {
	frag, fragLine int
	line           int64
}

// pieces lists, in output order, every line written by a strict application,
// with its place.
func pieces(c *textCase, src []string, visit func(text string, s spot)) {
	next := int64(0)
	for fi, f := range c.frags {
		start := f.OldPosition - 1
		if f.OldLines == 0 {
			start = f.OldPosition
		}
		if start < 0 {
			start = 0
		}
		if start < next || start+f.OldLines > int64(len(src)) || f.OldPosition == 0 && len(src) > 0 {
			return
		}
		for ; next < start; next++ {
			visit(src[next], spot{fi + 1, 0, next + 1})
		}
		for li, l := range f.Lines {
			if l.Op != gitdiff.OpAdd && src[next] != l.Line {
				return
			}
			if l.Op != gitdiff.OpDelete {
				visit(l.Line, spot{fi + 1, li + 1, next + 1})
			}
			if l.Op != gitdiff.OpAdd {
				next++
			}
		}
		visit("", spot{-(fi + 1), 0, 0}) // end of hunk
	}
	for ; next < int64(len(src)); next++ {
		visit(src[next], spot{0, 0, next + 1})
	}
}

// locate lists the places of the output bytes [lo, hi).
func locate(c *textCase, src []string, lo, hi int64) []spot {
	var out []spot
	at := int64(0)
	pieces(c, src, func(text string, s spot) {
		if s.frag >= 0 && len(text) > 0 && at < hi && at+int64(len(text)) > lo {
			out = append(out, s)
		}
		at += int64(len(text))
	})
	return out
}

// fragAfter tells which hunk was being worked on when n bytes had been
// written and a read failed; 0 if that cannot be told.
func fragAfter(c *textCase, src []string, n int64, fail *model.Fail) int {
	at := int64(0)
	done := 0
	hit := -1
	// hunks completely written by now
	pieces(c, src, func(text string, s spot) {
		if s.frag < 0 && at <= n {
			done = -s.frag
			if at == n {
				hit = done
			}
		}
		at += int64(len(text))
	})
	last := c.frags[len(c.frags)-1]
	if done == len(c.frags) || last.NewPosition == 0 && last.NewLines == 0 {
		return 0 // in the final copy, or in the check after emptying a file
	}
	// a hunk that writes nothing leaves open which of two it was
	if hit > 0 {
		empty := 0
		at = 0
		pieces(c, src, func(text string, s spot) {
			if s.frag < 0 && at == n {
				empty++
			}
			at += int64(len(text))
		})
		if empty > 1 {
			return 0
		}
	}
	if n > 0 && hit < 0 {
		return 0 // in the middle of a hunk's output: not a read of its lines
	}
	return done + 1
}
