package props

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Prop{
		ID: "C07", Quick: 150000, Thorough: 7500000,
		Rule: "Each run draws a patch (preamble, up to five files of 21 kinds in git and GNU format with drawn names, quoting, prefixes, modes, scores, ids, hunks, markers, binary encodings and text between files), renders it, and parses it from a stream with drawn splitting, stalls, end-of-data style and reader kind; the result is compared field by field with what was rendered; in a third of the runs a damaged copy is sent over two streams and both receivers must get the same result. Non-trivial: at least one file was sent.",
		Body: c07,
	})
	register(&Prop{
		ID: "C08", Quick: 200000, Thorough: 10000000,
		Rule: "As C07, with the stream failing at a drawn byte (biased to line and file boundaries), once or permanently, alone or together with data, with a drawn error value; one run in six adds lines where they do not belong. Non-trivial: the failure was delivered.",
		Body: c08,
	})
	register(&Prop{
		ID: "C09", Quick: 150000, Thorough: 7500000,
		Rule: "As C07, with the stream ending cleanly at a drawn byte (biased to hunk bodies, binary data and line boundaries). Non-trivial: something was cut.",
		Body: c09,
	})
}

type parsed struct {
	files []*gitdiff.File
	pre   string
	err   error
}

// parse runs Parse on a stream.
func parse(r *sim.Run, st *seam.Stream, withMem bool) (p parsed) {
	rd := st.Reader(withMem)
	r.Call("Parse", 0, func() { p.files, p.pre, p.err = gitdiff.Parse(rd) })
	r.Ev("parsed", len(p.files), p.pre, errStr(p.err))
	return
}

func c07(r *sim.Run) {
	p := model.GenPatch(r, model.Opts{Odd: true})
	if n := len(p.Lines); n > 0 && r.Chance(1, 4) {
		// editors drop the last newline, where nothing depends on it
		if l := p.Lines[n-1]; l.Kind == model.KMeta || l.Kind == model.KNoEOL && len(l.Text) > 12 {
			p.Text = bytes.TrimSuffix(p.Text, []byte("\n"))
			r.Fault("patch: last newline lost")
		}
	}
	st := seam.NewStream(r, "patch", p.Text)
	got := parse(r, st, true)
	if got.err != nil {
		r.Fail("well-formed patch rejected", "%v\n%s", got.err, excerpt(p, got.err))
	}
	if d := model.DiffFiles(p.Want(), got.files); d != "" {
		r.Fail("parsed files differ from those sent", "%s", d)
	}
	if got.pre != p.Pre {
		r.Fail("text before the first file differs", "got %s, sent %s", quoteClip(got.pre), quoteClip(p.Pre))
	}
	if len(p.Files) > 0 {
		r.NonTrivial()
	}
	if r.Chance(1, 3) {
		sameDelivery(r, p.Text)
	}
	r.Sample("patch of %d bytes (%s), split mode %d", len(p.Text), p.Kinds(), st.Mode)
}

// sameDelivery damages a patch and sends it twice: the receivers must see the
// same patch, or the same error.
func sameDelivery(r *sim.Run, text []byte) {
	how := ""
	for n := 1 + r.N(2); n > 0; n-- {
		var what string
		text, what = damageText(r, text)
		how += what + " "
	}
	a := parse(r, seam.NewStream(r, "damaged", text), true)
	b := parse(r, seam.NewStream(r, "damaged again", text), true)
	if errStr(a.err) != errStr(b.err) || a.pre != b.pre || dump(a.files) != dump(b.files) {
		r.Fail("damaged patch depends on the delivery", "%s: %d files, %v / %d files, %v; text before: %s / %s", how, len(a.files), a.err, len(b.files), b.err, quoteClip(a.pre), quoteClip(b.pre))
	}
}

func quoteClip(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%q...(%d bytes)", s[:200], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// excerpt shows the headers of a patch.
func excerpt(p *model.Patch, err error) string {
	var b strings.Builder
	for _, l := range p.Lines {
		if l.Kind == model.KDiff || l.Kind == model.KMeta || l.Kind == model.KHunk {
			fmt.Fprintf(&b, "%q\n", l.Text)
		}
		if b.Len() > 1500 {
			break
		}
	}
	return b.String()
}

// cutPoint draws a byte position of a patch.
func cutPoint(r *sim.Run, p *model.Patch) int {
	n := len(p.Text)
	switch r.Pick(3, 3, 2, 3) {
	case 1: // around a line boundary
		if len(p.Lines) > 0 {
			l := p.Lines[r.N(len(p.Lines))]
			return min(n, max(0, l.Pos+r.N(4)-1))
		}
	case 2: // around the end of a file
		if len(p.Files) > 0 {
			f := p.Files[r.N(len(p.Files))]
			i := f.EndLine + r.N(8) - 3
			if i >= 0 && i < len(p.Lines) {
				return p.Lines[i].Pos
			}
			return min(n, max(0, f.End+r.N(5)-2))
		}
	case 3: // within a file
		if len(p.Files) > 0 {
			f := p.Files[r.N(len(p.Files))]
			return f.Start + int(choice.NewBulk(r.Seed()).Uint64()%uint64(f.End-f.Start+1))
		}
	}
	return int(choice.NewBulk(r.Seed()).Uint64() % uint64(n+1))
}

// lookAhead is how many lines after a file may have to arrive before the file
// counts as received.
const lookAhead = 7

func c08(r *sim.Run) {
	p := model.GenPatch(r, model.Opts{})
	text, malformed := p.Text, r.Chance(1, 6)
	failAt := cutPoint(r, p)
	if malformed {
		text, failAt = strayLines(r, p)
	}
	st := seam.NewStream(r, "patch", text)
	st.FailAt = failAt
	st.FailErr = seam.NewReadErr(r, "stream error")
	st.OneShot = r.Bool()
	st.FailWith = r.Bool()
	got := parse(r, st, false)
	r.Sample("patch of %d bytes (%s), stream failing at byte %d; %d files and error %v", len(p.Text), p.Kinds(), st.FailAt, len(got.files), got.err)
	if !st.Fired {
		return
	}
	r.NonTrivial()
	where := fmt.Sprintf("stream of %d bytes (%s) failed at byte %d with %q, continuing after: %v; %d files, error: %v", len(p.Text), p.Kinds(), st.FailAt, st.FailErr, st.OneShot, len(got.files), got.err)
	if got.err == nil {
		r.Fail("stream failure reported as success", "%s", where)
	}
	if malformed {
		return
	}
	if !errors.Is(got.err, st.FailErr) {
		r.Fail("stream failure not identified", "%s", where)
	}
	checkLeading(r, p, got.files, st.FailAt, -1, where)
}

// strayLines inserts lines where they do not belong and returns the text with
// a position shortly after them.
func strayLines(r *sim.Run, p *model.Patch) ([]byte, int) {
	at := 0
	if len(p.Lines) > 0 && r.Bool() {
		at = p.Lines[r.N(len(p.Lines))].Pos
	}
	stray := []string{"@@ -1 +1 @@\n", "@@ -1,2 +1,2 @@ x\n-a\n+b\n", "diff --git a/x b/x\n", "--- a/x\n+++ b/x\n", "@@ -1,9 +1,9 @@\n", "GIT binary patch\n", "literal 5\n", "index 1..2\n"}[r.Pick(6, 2, 1, 1, 1, 1, 1, 1)]
	text := append(append(append([]byte(nil), p.Text[:at]...), stray...), p.Text[at:]...)
	// line boundaries after the insertion
	pos := at + len(stray)
	for n := r.N(5); n > 0; n-- {
		i := bytes.IndexByte(text[pos:], '\n')
		if i < 0 {
			pos = len(text)
			break
		}
		pos += i + 1
	}
	return text, max(0, min(len(text), pos-r.N(3)))
}

// checkLeading verifies that files are the leading files of the patch, none
// beyond byte k, and all that ended well before it. cut is the index of a file
// that may be present in part (-1: none).
func checkLeading(r *sim.Run, p *model.Patch, files []*gitdiff.File, k int, cut int, where string) {
	for i, f := range files {
		if i >= len(p.Files) {
			r.Fail("files were invented", "%s", where)
		}
		s := p.Files[i]
		if i == cut {
			if i+1 != len(files) {
				r.Fail("file received beyond the end", "%s", where)
			}
			continue
		}
		if s.End > k {
			r.Fail("incomplete file returned", "file %d ends at byte %d; %s", i+1, s.End, where)
		}
		if d := model.DiffFile(s.Want, f); d != "" {
			r.Fail("returned file differs from the one sent", "file %d: %s; %s", i+1, d, where)
		}
	}
	// the line that did not arrive completely
	bad := len(p.Lines)
	for i, l := range p.Lines {
		if l.Pos+len(l.Text) > k {
			bad = i
			break
		}
	}
	need := 0
	for _, s := range p.Files {
		if cut >= 0 && s.End <= k || s.EndLine+lookAhead <= bad {
			need++
		}
	}
	if len(files) < need {
		r.Fail("received file missing", "%d files were received completely; %s", need, where)
	}
}

func c09(r *sim.Run) {
	p := model.GenPatch(r, model.Opts{MinFiles: 1})
	k := cutPoint(r, p)
	if k >= len(p.Text) {
		return
	}
	st := seam.NewStream(r, "patch", bytes.Clone(p.Text[:k]))
	got := parse(r, st, true)
	r.NonTrivial()
	r.Fault("stream: cut off")
	must, why := mustFail(p, k)
	where := fmt.Sprintf("stream of %d bytes (%s) cut off after %d; %d files, error: %v", len(p.Text), p.Kinds(), k, len(got.files), got.err)
	r.Sample("%s", where)
	if must && got.err == nil {
		r.Fail("cut-off patch accepted", "cut inside %s; %s", why, where)
	}
	// the file that was cut, if any: the last one begun
	cut := len(p.Files)
	for i, f := range p.Files {
		if f.Start < k && k < f.End {
			cut = i
		}
	}
	checkLeading(r, p, got.files, k, cut, where)
}

// mustFail tells whether a clean end at byte k is inside the body of a hunk or
// inside encoded binary data.
func mustFail(p *model.Patch, k int) (bool, string) {
	for i, l := range p.Lines {
		from, to, ok := mustRange(p, i)
		if !ok {
			continue
		}
		if k >= from && k <= to {
			if l.Kind == model.KHunk {
				return true, fmt.Sprintf("hunk %d of file %d", l.Hunk+1, l.File+1)
			}
			return true, fmt.Sprintf("binary data of file %d", l.File+1)
		}
	}
	return false, ""
}
