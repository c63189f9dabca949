package props

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Prop{
		ID: "C18", Quick: 80000, Thorough: 4000000,
		Rule: "Each run draws a sender's tree and patch and a chain of one to four relays; every hop parses what arrives and formats it again for the next, over a stream that splits, stalls, fails (once or permanently) or is cut off inside a file's changes, and is asked to repeat after a reported error; each delivery is compared with what was sent, every early end must be reported, and the last host applies the files to its copy of the old tree. Non-trivial: a transmission failed or there were at least two hops.",
		Body: c18,
	})
}

// span is a byte range of a formatted patch in which an early end must be
// noticed: [From, To].
type span struct{ From, To int }

// wire is a patch in transit.
type wire struct {
	text  []byte
	ends  []int // end of each file
	start []int
	cuts  []span
}

// outgoing formats files for the next hop.
func outgoing(r *sim.Run, files []*gitdiff.File) *wire {
	w := &wire{}
	for _, f := range files {
		var s string
		r.Call("String", 0, func() { s = f.String() })
		if r.Chance(1, 4) {
			s = fromPieces(r, f, s)
		}
		base := len(w.text)
		w.start = append(w.start, base)
		w.text = append(w.text, s...)
		w.ends = append(w.ends, len(w.text))
		at := 0
		for _, h := range f.TextFragments {
			var hs string
			r.Call("String", 0, func() { hs = h.String() })
			i := strings.Index(s[at:], hs)
			head := strings.IndexByte(hs, '\n')
			if i < 0 || head < 0 {
				break // laid out in another way: no cuts here
			}
			// the start of the last counted line
			last := len(hs)
			for n, l := 0, model.SplitLines(hs); len(l) > 0 && n == 0; l = l[:len(l)-1] {
				x := l[len(l)-1]
				last -= len(x)
				if x[0] != '\\' {
					n++
				}
			}
			if last > head {
				w.cuts = append(w.cuts, span{base + at + i + head + 1, base + at + i + last})
			}
			at += i + len(hs)
		}
		if b := f.BinaryFragment; b != nil {
			var bs string
			r.Call("String", 0, func() { bs = b.String() })
			i := strings.Index(s, bs)
			head := strings.IndexByte(bs, '\n')
			if i >= 0 && head >= 0 && strings.HasSuffix(bs, "\n\n") {
				w.cuts = append(w.cuts, span{base + i + head + 1, base + i + len(bs) - 1})
			}
		}
	}
	return w
}

// fromPieces is a patch put together by a relay that keeps the hunks or the binary
// data of a file apart from its header.
func fromPieces(r *sim.Run, f *gitdiff.File, whole string) string {
	mark, text := "@@ -", ""
	byLine := r.Chance(1, 3)
	for i, h := range f.TextFragments {
		var head, hs string
		r.Call("Header", 0, func() { head = h.Header() })
		r.Call("String", 0, func() { hs = h.String() })
		if strings.TrimSuffix(head, "\n") != hs[:max(0, strings.IndexByte(hs, '\n'))] {
			r.Fail("header of a hunk is not its first line", "hunk %d: %q is not the start of %q", i+1, head, hs[:min(len(hs), 200)])
		}
		if byLine {
			hs = fromLines(r, head, h)
		}
		text += hs
	}
	if b := f.BinaryFragment; b != nil {
		mark = "GIT binary patch\n"
		text += mark
		for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
			if b == nil {
				continue
			}
			r.Call("String", 0, func() { text += b.String() })
		}
	}
	if text == "" {
		return whole
	}
	r.Probe("patch put together from pieces")
	at := strings.Index("\n"+whole, "\n"+mark)
	if at < 0 {
		r.Fail("formatted patch without its changes", "%q", whole[:min(len(whole), 300)])
	}
	return whole[:at] + text
}

// fromLines is a hunk written line by line.
func fromLines(r *sim.Run, head string, h *gitdiff.TextFragment) string {
	var b strings.Builder
	b.WriteString(strings.TrimSuffix(head, "\n") + "\n")
	noEOL := "\\ No newline at end of file\n"
	if r.Bool() {
		noEOL = "\\ Kein Zeilenumbruch am Dateiende.\n"
	}
	r.Call("Line.String", 0, func() {
		for _, l := range h.Lines {
			b.WriteString(l.String())
			if l.NoEOL() {
				b.WriteString("\n" + noEOL)
			}
		}
	})
	r.Probe("hunk written line by line")
	return b.String()
}

// c18absolute relays a patch of GNU diff with absolute names. This is a known
// finding: what String writes for it, "a//abs/...", is read as a relative name.
func c18absolute(r *sim.Run) {
	name := fmt.Sprintf("/abs/%d", r.N(100))
	text := fmt.Sprintf("--- %s\n+++ %s\n@@ -1 +1 @@\n-a\n+b\n", name, name)
	g := parse(r, seam.NewStream(r, "first", []byte(text)), true)
	if g.err != nil || len(g.files) != 1 || g.files[0].OldName != name {
		r.Fail("intact transmission rejected", "%q: %d files, error: %v", text, len(g.files), g.err)
	}
	var out string
	r.Call("File.String", 0, func() { out = g.files[0].String() })
	h := parse(r, seam.NewStream(r, "second", []byte(out)), true)
	if h.err != nil || len(h.files) != 1 {
		r.Fail("intact transmission rejected", "%q: %d files, error: %v", out, len(h.files), h.err)
	}
	if n := h.files[0].OldName; n == name[1:] && h.files[0].NewName == n {
		r.Fail("absolute names become relative", "%q comes back as %q", name, n)
	}
	if d := model.DiffFiles([]*gitdiff.File{g.files[0]}, h.files); d != "" {
		r.Fail("delivered files differ from those sent", "%s; absolute names", d)
	}
}

func c18(r *sim.Run) {
	if r.Chance(1, 5000) {
		c18absolute(r)
		return
	}
	p := model.GenPatch(r, model.Opts{Relay: true, Content: true, MinFiles: 1, MaxFiles: 4})
	w := &wire{text: p.Text}
	for _, f := range p.Files {
		w.start = append(w.start, f.Start)
		w.ends = append(w.ends, f.End)
	}
	for k := range p.Lines {
		if a, b, ok := mustRange(p, k); ok {
			w.cuts = append(w.cuts, span{a, b})
		}
	}
	hops := 1 + r.Pick(3, 3, 2, 1)
	var got []*gitdiff.File
	failures := 0
	for hop := 1; hop <= hops; hop++ {
		if hop > 1 {
			w = outgoing(r, got)
		}
		for try := 1; ; try++ {
			st := seam.NewStream(r, fmt.Sprintf("hop%d", hop), w.text)
			k, cut := len(w.text), false
			if try <= 4 && len(w.text) > 0 {
				switch r.Pick(3, 2, 2) {
				case 1:
					st.FailAt = int(choice.NewBulk(r.Seed()).Uint64() % uint64(len(w.text)+1))
					if r.Chance(1, 3) { // near the end of a file
						st.FailAt = min(len(w.text), max(0, w.ends[r.N(len(w.ends))]+r.N(5)-2))
					}
					st.FailErr = seam.NewReadErr(r, "stream error")
					st.OneShot, st.FailWith = r.Bool(), r.Bool()
					k = st.FailAt
				case 2:
					if len(w.cuts) > 0 {
						c := w.cuts[r.N(len(w.cuts))]
						k = c.From + r.N(c.To-c.From+1)
						if k < len(w.text) {
							cut = true
							st.Data = bytes.Clone(w.text[:k])
						}
					}
				}
			}
			g := parse(r, st, st.FailAt < 0)
			if cut {
				r.Fault("stream: cut off")
			}
			where := fmt.Sprintf("hop %d of %d, try %d, %d bytes (%s), ended at byte %d; %d files, error: %v", hop, hops, try, len(w.text), p.Kinds(), k, len(g.files), g.err)
			if g.err == nil {
				if st.Fired || cut {
					r.Fail("loss not reported", "%s", where)
				}
				if d := model.DiffFiles(p.Want(), g.files); d != "" {
					r.Fail("delivered files differ from those sent", "%s; %s", d, where)
				}
				got = g.files
				break
			}
			if !st.Fired && !cut {
				r.Fail("intact transmission rejected", "%s", where)
			}
			failures++
			for i, f := range g.files {
				if i >= len(p.Files) {
					r.Fail("files were invented", "%s", where)
				}
				if cut && w.start[i] < k && k < w.ends[i] {
					break // the one that was cut
				}
				if w.ends[i] > k {
					r.Fail("incomplete file delivered", "file %d; %s", i+1, where)
				}
				if d := model.DiffFile(p.Files[i].Want, f); d != "" {
					r.Fail("delivered files differ from those sent", "file %d: %s; %s", i+1, d, where)
				}
			}
		}
	}
	if failures > 0 || hops > 1 {
		r.NonTrivial()
	}
	r.Sample("patch of %d bytes (%s) through %d hops with %d failed transmissions", len(p.Text), p.Kinds(), hops, failures)

	// the last host applies what it received to its copy of the old tree
	type entry struct {
		data string
		mode os.FileMode
	}
	was, will, is := map[string]entry{}, map[string]entry{}, map[string]entry{}
	for _, f := range p.Files {
		x := f.Want
		om := x.OldMode
		nm := x.NewMode
		if nm == 0 {
			nm = om
		}
		if f.HasOld {
			was[x.OldName] = entry{string(f.Old), om}
			if f.CopySource {
				will[x.OldName] = was[x.OldName]
			}
		}
		if f.HasNew {
			will[x.NewName] = entry{string(f.New), nm}
		}
	}
	for n, e := range was {
		is[n] = e
	}
	for _, f := range got {
		if f.NewName == f.OldName || f.IsNew {
			if _, dup := is[f.NewName]; dup && f.IsNew {
				return // names of GNU diff files may coincide
			}
		}
		e := is[f.OldName]
		_, _, ra := sourceFor(r, "tree", e.data)
		snk := seam.NewSink(r, "out")
		var err error
		r.Call("apply", 0, func() { err = applyHow(r, 0, snk.As(r.N(seam.DstKinds)), ra, f) })
		if err != nil {
			r.Fail("delivered patch does not apply", "%v: %s -> %s", err, f.OldName, f.NewName)
		}
		if f.NewMode != 0 {
			e.mode = f.NewMode
		}
		if f.OldName != "" && !f.IsCopy {
			delete(is, f.OldName)
		}
		if !f.IsDelete {
			is[f.NewName] = entry{string(snk.Buf), e.mode}
		} else if len(snk.Buf) > 0 {
			r.Fail("tree differs", "%s was deleted, yet %d bytes remain", f.OldName, len(snk.Buf))
		}
	}
	var names []string
	for n := range is {
		names = append(names, n)
	}
	for n := range will {
		if _, ok := is[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		a, aok := will[n]
		b, bok := is[n]
		switch {
		case aok != bok:
			r.Fail("tree differs", "%q: expected %v, present %v", n, aok, bok)
		case a.data != b.data:
			r.Fail("tree differs", "%q has other content", n)
		case a.mode != b.mode:
			r.Fail("tree differs", "%q has mode %o, expected %o", n, b.mode, a.mode)
		}
	}
	r.Ev("tree", len(names))
}

// mustRange is the byte range after line k in which an early end must be
// noticed.
func mustRange(p *model.Patch, k int) (from, to int, ok bool) {
	l := p.Lines[k]
	if l.Kind != model.KHunk && l.Kind != model.KBinHdr {
		return
	}
	from = l.Pos + len(l.Text)
	to = from
	for _, m := range p.Lines[k+1:] {
		if m.File != l.File || m.Hunk != l.Hunk {
			break
		}
		if l.Kind == model.KHunk && m.Kind == model.KBody || l.Kind == model.KBinHdr && (m.Kind == model.KBinData || m.Kind == model.KBinEnd) {
			to = m.Pos
		} else if m.Kind != model.KNoEOL {
			break
		}
	}
	return from, to, true
}
