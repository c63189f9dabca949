package props

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"strconv"
	"strings"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"
	"gitdiffsim/simrt"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// op is one use of the library whose outcome is described by a string. run
// performs it on a world; a second phase, if any, is returned.
type op struct {
	name string
	run  func(w *world) (string, func() string)
}

// world is what operations share: parsed patches and sources.
type world struct {
	files []*gitdiff.File
	srcs  []io.ReaderAt
	lines []*seam.LineSource
	own   reused

	keeps bool // operations note what they returned
	kept  []kept
}

// reused are objects the caller uses for several operations, giving them new
// content in between.
type reused struct {
	src  *seam.Source
	line *seam.LineSource
	file gitdiff.File
	text []*gitdiff.TextFragment
	bin  gitdiff.BinaryFragment
	rd   seam.Readers
}

// set gives the objects the content of f and src, keeping their identity.
func (u *reused) set(f *gitdiff.File, src *seam.Source) {
	if u.src == nil {
		u.src = src.Clone()
		u.line = &seam.LineSource{Source: u.src}
	} else {
		*u.src = *src.Clone()
	}
	g := cloneFiles([]*gitdiff.File{f})[0]
	u.file.OldName, u.file.NewName, u.file.IsBinary = g.OldName, g.NewName, g.IsBinary
	u.file.TextFragments, u.file.BinaryFragment = nil, nil
	for i, h := range g.TextFragments {
		if i == len(u.text) {
			u.text = append(u.text, &gitdiff.TextFragment{})
		}
		k := u.text[i]
		k.Comment, k.Lines = h.Comment, append(k.Lines[:0], h.Lines...)
		k.OldPosition, k.OldLines, k.NewPosition, k.NewLines = h.OldPosition, h.OldLines, h.NewPosition, h.NewLines
		k.LinesAdded, k.LinesDeleted, k.LeadingContext, k.TrailingContext = h.LinesAdded, h.LinesDeleted, h.LeadingContext, h.TrailingContext
	}
	u.file.TextFragments = append(u.file.TextFragments, u.text[:len(g.TextFragments)]...)
	if b := g.BinaryFragment; b != nil {
		u.bin.Method, u.bin.Size, u.bin.RawData = b.Method, b.Size, append(u.bin.RawData[:0], b.RawData...)
		u.file.BinaryFragment = &u.bin
	}
}

// worldSpec describes worlds.
type worldSpec struct {
	p      *model.Patch
	protos []*seam.Source
	line   []bool
	kind   []int  // what else the sources offer
	mix    uint64 // hunk order
	reuse  bool   // operations may reuse objects with new content

	// what operations drawn so far use; later ones may use something similar
	job   *job
	texts [][]byte
	heads []string
	ids   []string
	dates []string
}

// similar returns one of the earlier texts, or a slightly changed one, or nil.
func similar[T ~string | ~[]byte](r *sim.Run, earlier []T) (T, bool) {
	var t T
	if len(earlier) == 0 || !r.Chance(1, 3) {
		return t, false
	}
	b := bytes.Clone([]byte(earlier[r.N(len(earlier))]))
	switch r.Pick(3, 2, 2) {
	case 1:
		if len(b) > 0 { // of the same length
			i := r.N(len(b))
			switch c := b[i]; {
			case c >= '0' && c <= '9':
				b[i] = '0' + byte(r.N(10))
			case c > ' ' && c < 0x7f:
				b[i] = '!' + byte(r.N(94))
			}
		}
	case 2:
		if len(b) > 0 {
			b, _ = damageText(r, b)
		}
	}
	return T(b), true
}

// vary returns a job like j in which one thing differs, usually nothing that
// changes a length.
func (j *job) vary(r *sim.Run) *job {
	k := *j
	k.file = cloneFiles([]*gitdiff.File{j.file})[0]
	flip := func(b []byte) []byte {
		b = bytes.Clone(b)
		if len(b) > 0 {
			b[r.N(len(b))] ^= 1 << r.N(8)
		}
		return b
	}
	what := r.N(3)
	if b := k.file.BinaryFragment; b != nil && what != 0 {
		switch r.Pick(3, 1, 1) {
		case 0:
			if raw, err := model.Inflate(b.RawData, b.Size); err == nil && b.Size < 1<<20 {
				b.RawData = model.Deflate(flip(raw), r.Pick(1, 1, 1)-1)
			}
		case 1:
			b.RawData = flip(b.RawData)
		case 2:
			b.Size += int64(r.N(3) - 1)
		}
		return &k
	}
	if n := len(k.file.TextFragments); n > 0 && what != 0 {
		h := k.file.TextFragments[r.N(n)]
		switch r.Pick(4, 1, 1, 1) {
		case 0:
			if len(h.Lines) > 0 {
				l := &h.Lines[r.N(len(h.Lines))]
				if m := len(l.Line) - 1; m > 0 {
					b := []byte(l.Line)
					b[r.N(m)] = 'a' + byte(r.N(26))
					l.Line = string(b)
				}
			}
		case 1:
			h.OldPosition += int64(r.N(3) - 1)
		case 2:
			h.NewPosition += int64(r.N(3) - 1)
		case 3:
			if len(h.Lines) > 0 {
				l := &h.Lines[r.N(len(h.Lines))]
				l.Op = []gitdiff.LineOp{gitdiff.OpContext, gitdiff.OpAdd, gitdiff.OpDelete}[r.N(3)]
			}
		}
		return &k
	}
	if j.src.Len() < 1<<20 {
		old := model.ReadAll(j.src)
		switch r.Pick(3, 2, 2) {
		case 0:
			old = flip(old)
		case 1: // it has grown since
			old = append(bytes.Clone(old), "appended\n"[:1+r.N(9)]...)
		case 2:
			old = old[:r.N(len(old)+1)]
		}
		k.src = seam.Bytes(old)
		if k.lines != nil {
			k.lines = model.SplitLines(string(model.ReadAll(k.src)))
		}
	}
	return &k
}

func genWorldSpec(r *sim.Run) *worldSpec {
	s := &worldSpec{p: model.GenPatch(r, model.Opts{MinFiles: 1, MaxFiles: 3})}
	for _, f := range s.p.Files {
		s.protos = append(s.protos, seam.NewSource(r, "src", seam.Bytes(f.Old)))
		s.line = append(s.line, r.Chance(1, 4) && !f.Want.IsBinary)
		s.kind = append(s.kind, r.Pick(4, 2, 1))
	}
	if r.Chance(1, 3) {
		s.mix = r.Seed() + 1
	}
	return s
}

// open makes a fresh world; nil if the patch does not parse.
func (s *worldSpec) open(r *sim.Run) *world {
	w := &world{}
	var err error
	r.Call("Parse", 0, func() { w.files, _, err = gitdiff.Parse(bytes.NewReader(s.p.Text)) })
	if err != nil || len(w.files) != len(s.p.Files) {
		return nil
	}
	if s.mix > 0 { // callers may hold hunks in any order
		b := choice.NewBulk(s.mix)
		for _, f := range w.files {
			for i := len(f.TextFragments) - 1; i > 0; i-- {
				j := b.N(i + 1)
				f.TextFragments[i], f.TextFragments[j] = f.TextFragments[j], f.TextFragments[i]
			}
		}
	}
	for i, p := range s.protos {
		c := p.Clone()
		if s.line[i] {
			l := &seam.LineSource{Source: c, Lines: model.SplitLines(string(s.p.Files[i].Old))}
			l.Share()
			w.lines = append(w.lines, l)
			w.srcs = append(w.srcs, seam.Offer(s.kind[i], c, l))
		} else {
			w.srcs = append(w.srcs, seam.Offer(s.kind[i], c, c))
		}
	}
	return w
}

// brief is data as part of a description.
func brief(b []byte) string {
	if len(b) <= 4096 {
		return strconv.Quote(string(b))
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%q... (%d bytes, hash %x)", b[:1024], len(b), h.Sum64())
}

// cloneFiles copies everything reachable from files.
func cloneFiles(files []*gitdiff.File) []*gitdiff.File {
	var out []*gitdiff.File
	for _, f := range files {
		g := *f
		g.TextFragments = nil
		for _, h := range f.TextFragments {
			k := *h
			k.Lines = append([]gitdiff.Line(nil), h.Lines...)
			for i := range k.Lines {
				k.Lines[i].Line = strings.Clone(k.Lines[i].Line)
			}
			g.TextFragments = append(g.TextFragments, &k)
		}
		cb := func(b *gitdiff.BinaryFragment) *gitdiff.BinaryFragment {
			if b == nil {
				return nil
			}
			k := *b
			k.RawData = bytes.Clone(b.RawData)
			return &k
		}
		g.BinaryFragment, g.ReverseBinaryFragment = cb(f.BinaryFragment), cb(f.ReverseBinaryFragment)
		out = append(out, &g)
	}
	return out
}

// dump describes files completely.
func dump(files []*gitdiff.File) string {
	var b strings.Builder
	for _, f := range files {
		fmt.Fprintf(&b, "%q %q %v %v %v %v %o %o %q %q %d %v\n", f.OldName, f.NewName, f.IsNew, f.IsDelete, f.IsCopy, f.IsRename, f.OldMode, f.NewMode, f.OldOIDPrefix, f.NewOIDPrefix, f.Score, f.IsBinary)
		for _, h := range f.TextFragments {
			fmt.Fprintf(&b, " %q %d %d %d %d %d %d %d %d\n", h.Comment, h.OldPosition, h.OldLines, h.NewPosition, h.NewLines, h.LinesAdded, h.LinesDeleted, h.LeadingContext, h.TrailingContext)
			for _, l := range h.Lines {
				fmt.Fprintf(&b, "  %d %q\n", l.Op, l.Line)
			}
		}
		for _, x := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
			if x != nil {
				fmt.Fprintf(&b, " %d %d %x\n", x.Method, x.Size, x.RawData)
			}
		}
	}
	return b.String()
}

// scribble changes everything reachable from files, which belong to the caller.
func scribble(files []*gitdiff.File) {
	for i, f := range files {
		for _, h := range f.TextFragments {
			for j := range h.Lines {
				h.Lines[j] = gitdiff.Line{Op: gitdiff.OpAdd, Line: "changed by the caller\n"}
			}
			h.Comment, h.OldPosition, h.NewPosition, h.OldLines, h.NewLines = "changed", 7, 7, 7, 7
			h.LinesAdded, h.LinesDeleted, h.LeadingContext, h.TrailingContext = 7, 7, 7, 7
		}
		for j := range f.TextFragments {
			f.TextFragments[j] = nil
		}
		for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
			if b != nil {
				for j := range b.RawData {
					b.RawData[j] = 'x'
				}
				_ = append(b.RawData, "changed by the caller"...)
				b.Size, b.Method = 7, 7
			}
		}
		f.OldName, f.NewName, f.OldMode, f.NewMode, f.Score = "changed", "changed", 7, 7, 7
		f.OldOIDPrefix, f.NewOIDPrefix = "7", "7"
		f.IsNew, f.IsDelete, f.IsCopy, f.IsRename, f.IsBinary = true, true, true, true, true
		files[i] = nil
	}
}

// scribbleHeader does the same to a header.
func scribbleHeader(h *gitdiff.PatchHeader) {
	for _, p := range []*gitdiff.PatchIdentity{h.Author, h.Committer} {
		if p != nil {
			p.Name, p.Email = "changed", "by the caller"
		}
	}
	*h = gitdiff.PatchHeader{SHA: "changed", Title: "changed", Body: "by the caller", SubjectPrefix: "7", BodyAppendix: "7"}
}

// errDesc describes an error by everything a caller can act on.
func errDesc(err error) string {
	if err == nil {
		return "ok"
	}
	var ae *gitdiff.ApplyError
	s := err.Error()
	if errors.As(err, &ae) {
		s += fmt.Sprintf(" [hunk %d line %d, source line %d]", ae.Fragment, ae.FragmentLine, ae.Line)
	}
	if isConflict(err) {
		s += " [conflict]"
	}
	return s
}

// kept is something an operation returned, which must not change later.
type kept struct {
	was string
	now func() string
}

func (w *world) keep(f func() string) {
	if w.keeps {
		w.kept = append(w.kept, kept{f(), f})
	}
}

// seen keeps an error.
func (w *world) seen(err error) error {
	if err != nil {
		w.keep(func() string { return errDesc(err) })
	}
	return err
}

func (w *world) err(err error) string { return errDesc(w.seen(err)) }

func identDesc(p *gitdiff.PatchIdentity) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprintf("%q %q", p.Name, p.Email)
}

func headerDesc(h *gitdiff.PatchHeader, err error) string {
	if h == nil || err != nil {
		return errDesc(err)
	}
	return fmt.Sprintf("%s %s %d %s %d %q %q %q %q", h.SHA, identDesc(h.Author), h.AuthorDate.UnixNano(), identDesc(h.Committer), h.CommitterDate.UnixNano(), h.Title, h.Body, h.SubjectPrefix, h.BodyAppendix)
}

// guarded runs f as a library call and appends how it ended.
func guarded(r *sim.Run, what string, f func() string) (s string) {
	out, _ := r.Call(what, 0, func() { s = f() })
	if out == sim.Aborted {
		s = "aborted by the caller's callback"
	}
	return s
}

// sinkPlan draws how a destination behaves.
type sinkPlan struct {
	kind   int
	faults []seam.Fault
	cap    int64
	capErr error
	lat    int64
}

func genSinkPlan(r *sim.Run, aborts bool) sinkPlan {
	p := sinkPlan{kind: r.N(seam.DstKinds), cap: -1, lat: int64(r.N(3)) * 600_000}
	switch r.Pick(6, 2, 1) {
	case 1:
		kinds := 4
		if aborts {
			kinds = 6
		}
		k := []seam.FaultKind{seam.None, seam.Partial, seam.Full, seam.Short, seam.Abort, seam.Abort}[r.N(kinds)]
		p.faults = []seam.Fault{{Op: r.N(4), Kind: k, Frac: r.N(1000), Sticky: r.Bool(), Err: seam.NewWriteErr(r, "write error")}}
	case 2:
		p.cap, p.capErr = int64(r.N(200)), seam.NewErr(r, "no space left on device")
	}
	return p
}

func (p sinkPlan) open(r *sim.Run) (*seam.Sink, io.Writer) {
	w := &seam.Sink{R: r, Name: "dst", Keep: true, Cap: p.cap, CapErr: p.capErr, Lat: p.lat, Faults: p.faults}
	return w, w.As(p.kind)
}

// genOpts draws options of an application.
func genOpts(r *sim.Run) (opts []gitdiff.ApplyOption) {
	for n := r.Pick(6, 3, 1, 1); n > 0; n-- {
		opts = append(opts, gitdiff.WithMaxBinaryFragmentBytes([]int64{-1, 0, 3, 100, 1000, 1 << 20}[r.N(6)]))
	}
	return opts
}

// genOp draws an operation. Disturbed operations may fail, abort or be
// abandoned; held ones may be carried out in two phases.
func genOp(r *sim.Run, spec *worldSpec, disturbed, held bool) *op {
	k := r.N(len(spec.p.Files))
	fs := spec.p.Files[k]
	if spec.reuse && r.Chance(1, 5) {
		return reuseOp(r, spec)
	}
	if r.Chance(1, 10) {
		return damagedOp(r)
	}
	switch r.Pick(8, 3, 2, 4, 5, 3, 1, 1) {
	case 0: // apply
		how := r.Pick(3, 1)
		plan := genSinkPlan(r, disturbed)
		opts := genOpts(r)
		var own *seam.Source
		abandon := disturbed && r.Chance(1, 5)
		if r.Chance(1, 4) { // a stale or failing source of its own
			old := bytes.Clone(fs.Old)
			if r.Bool() && len(old) > 0 {
				old[r.N(len(old))] ^= 1
			}
			own = seam.NewSource(r, "own", seam.Bytes(old))
			if r.Bool() {
				n := 4
				if disturbed {
					n = 6
				}
				kind := []seam.FaultKind{seam.None, seam.Partial, seam.Full, seam.None, seam.Abort, seam.Abort}[r.N(n)]
				own.Faults = []seam.Fault{{Op: r.N(5), Kind: kind, Frac: r.N(1000), Sticky: r.Bool(), Err: seam.NewErr(r, "read error")}}
			}
		}
		if held && !fs.Want.IsBinary && len(fs.Want.TextFragments) > 1 && r.Bool() {
			return heldApply(r, spec, k, plan)
		}
		return &op{"apply", func(w *world) (string, func() string) {
			snk, dst := plan.open(r)
			src := w.srcs[k]
			if own != nil {
				c := own.Clone()
				c.Faults = own.Faults
				src = c
			}
			f := w.files[k]
			res := guarded(r, "apply", func() string {
				if abandon && !f.IsBinary && len(f.TextFragments) > 0 {
					a := gitdiff.NewTextApplier(dst, src, opts...)
					return "abandoned after: " + w.err(a.ApplyFragment(f.TextFragments[0]))
				}
				return w.err(applyHow(r, how, dst, src, f, opts...))
			})
			return fmt.Sprintf("%s with output %s", res, brief(snk.Buf)), nil
		}}
	case 1: // format
		return &op{"format", func(w *world) (string, func() string) {
			return guarded(r, "String", func() string {
				f := w.files[k]
				s := f.String()
				for _, h := range f.TextFragments {
					s += h.String() + h.Header()
				}
				if f.BinaryFragment != nil {
					s += f.BinaryFragment.String()
				}
				return s
			}), nil
		}}
	case 2: // validate
		return &op{"validate", func(w *world) (string, func() string) {
			return guarded(r, "Validate", func() string {
				s := ""
				for _, h := range w.files[k].TextFragments {
					s += w.err(h.Validate()) + " "
				}
				return s
			}), nil
		}}
	case 3: // read data
		k = 0
		for i, f := range spec.p.Files {
			if f.Want.BinaryFragment != nil {
				k = i
			}
		}
		var damaged *gitdiff.BinaryFragment
		if b := spec.p.Files[k].Want.BinaryFragment; b == nil || r.Chance(1, 3) {
			g, _ := model.MakeBinary(r, nil, nil, 6000)
			if r.Bool() {
				g.RawData, _ = damageBytes(r, g.RawData)
			}
			damaged = g
		}
		unit := 1 + r.N(3000)
		stop := -1
		if disturbed && r.Chance(1, 3) {
			stop = r.N(3)
		}
		pause := -1
		if held {
			pause = r.N(4)
		}
		return &op{"read data", func(w *world) (string, func() string) {
			f := damaged
			if f == nil {
				f = w.files[k].BinaryFragment
			}
			var rd io.Reader
			guarded(r, "Data", func() string { rd = f.Data(); return "" })
			var got []byte
			n := 0
			step := func(until int) string {
				buf := make([]byte, unit)
				for ; n != until; n++ {
					if n == stop {
						return fmt.Sprintf("abandoned with %s", brief(got))
					}
					var m int
					var err error
					r.Call("Data.Read", 0, func() { m, err = rd.Read(buf) })
					got = append(got, buf[:m]...)
					if err != nil {
						return fmt.Sprintf("%v with %s", err, brief(got))
					}
				}
				return ""
			}
			s := step(pause)
			if s != "" || pause < 0 {
				return s, nil
			}
			return "", func() string { return step(-1) }
		}}
	case 4: // parse something else
		p := model.GenPatch(r, model.Opts{MaxFiles: 3})
		text := p.Text
		if r.Chance(1, 3) && len(text) > 0 {
			text, _ = damageText(r, text)
		}
		if t, ok := similar(r, append(spec.texts, spec.p.Text)); ok {
			text = t
		}
		spec.texts = append(spec.texts, text)
		st := seam.NewStream(r, "other", text)
		switch r.Pick(4, 2, 2) {
		case 1:
			st.FailAt, st.FailErr, st.OneShot, st.FailWith = r.N(len(text)+1), seam.NewReadErr(r, "stream error"), r.Bool(), r.Bool()
		case 2:
			if disturbed {
				st.AbortAt = r.N(len(text) + 1)
			}
		}
		kind, size := []int{0, 1, 2, 3, 6, 9}[r.Pick(4, 2, 1, 1, 1, 1)], r.N(200)
		own := r.Bool()
		again := spec.reuse && r.Bool()
		return &op{"parse", func(w *world) (string, func() string) {
			c := st.Clone()
			return guarded(r, "Parse", func() string {
				var rd io.Reader
				if again {
					rd = w.own.rd.Wrap(c, kind, size)
				} else {
					rd = c.Wrap(kind, size)
				}
				files, pre, err := gitdiff.Parse(rd)
				s := dump(files) + fmt.Sprintf("%q ", pre) + w.err(err)
				if own {
					scribble(files)
				} else {
					w.keep(func() string { return dump(files) })
				}
				return s
			}), nil
		}}
	case 5: // header
		h := model.GenHeader(r).Text
		if r.Chance(1, 4) {
			b, _ := damageText(r, []byte(h))
			h = string(b)
		}
		if t, ok := similar(r, spec.heads); ok {
			h = t
		}
		spec.heads = append(spec.heads, h)
		var opts []gitdiff.PatchHeaderOption
		for n := r.Pick(3, 5, 1); n > 0; n-- {
			opts = append(opts, gitdiff.WithSubjectCleanMode(gitdiff.SubjectCleanMode(r.N(3))))
		}
		own := r.Bool()
		return &op{"header", func(w *world) (string, func() string) {
			return guarded(r, "ParsePatchHeader", func() string {
				x, err := gitdiff.ParsePatchHeader(h, opts...)
				s := headerDesc(x, w.seen(err))
				if own && x != nil {
					s += x.Message()
					scribbleHeader(x)
				} else {
					w.keep(func() string { return headerDesc(x, err) })
				}
				return s
			}), nil
		}}
	case 6:
		s := model.GenIdent(r)
		if t, ok := similar(r, spec.ids); ok {
			s = t
		}
		spec.ids = append(spec.ids, s)
		return &op{"identity", func(w *world) (string, func() string) {
			return guarded(r, "ParsePatchIdentity", func() string {
				x, err := gitdiff.ParsePatchIdentity(s)
				return identDesc(&x) + x.String() + w.err(err)
			}), nil
		}}
	}
	d := model.GenDate(r).Text
	if r.Chance(1, 4) {
		b, _ := damageText(r, []byte(d))
		d = string(b)
	}
	if t, ok := similar(r, spec.dates); ok {
		d = t
	}
	spec.dates = append(spec.dates, d)
	return &op{"date", func(w *world) (string, func() string) {
		return guarded(r, "ParsePatchDate", func() string {
			t, err := gitdiff.ParsePatchDate(d)
			return fmt.Sprint(t.UnixNano(), w.err(err))
		}), nil
	}}
}

// reuseOp applies, formats and reads objects the caller has used before with
// other content.
func reuseOp(r *sim.Run, spec *worldSpec) *op {
	j := spec.job
	if j != nil && r.Chance(2, 3) {
		j = j.vary(r)
	} else {
		j = genJob(r, 3, 2, 0)
		spec.job = j
	}
	how := j.how
	src := seam.NewSource(r, "reused source", j.src)
	line := j.lines != nil && r.Chance(1, 4)
	plan := sinkPlan{kind: r.N(seam.DstKinds), cap: -1}
	what := r.Pick(6, 1, 3)
	opts := genOpts(r)
	if r.Chance(1, 4) {
		src.Faults = []seam.Fault{{Op: r.N(3), Kind: seam.None, Sticky: r.Bool(), Err: seam.NewErr(r, "read error")}}
	}
	return &op{"apply reused objects", func(w *world) (string, func() string) {
		u := &w.own
		u.set(j.file, src)
		snk, dst := plan.open(r)
		return guarded(r, "use", func() string {
			switch {
			case what == 1:
				return u.file.String()
			case what == 2 && u.file.IsBinary:
				b, err := io.ReadAll(u.bin.Data())
				return brief(b) + " " + w.err(err)
			}
			var from io.ReaderAt = u.src
			if line {
				u.line.Lines = j.lines
				from = u.line
			}
			return w.err(applyHow(r, how, dst, from, &u.file, opts...))
		}) + fmt.Sprintf(" with output %s", brief(snk.Buf)), nil
	}}
}

// damagedOp applies a binary fragment that may be damaged, several times.
func damagedOp(r *sim.Run) *op {
	j := genJob(r, 0, 1, 0)
	f := *j.file.BinaryFragment
	what := "intact"
	switch r.N(4) {
	case 0, 1:
		f.RawData, what = damageBytes(r, f.RawData)
	case 2:
		if f.Size < 1<<20 {
			raw, err := model.Inflate(f.RawData, f.Size)
			if err != nil {
				panic(err)
			}
			raw, what = damageBytes(r, raw)
			f.Size, f.RawData = int64(len(raw)), model.Deflate(raw, 1)
		}
	}
	file := *j.file
	file.BinaryFragment = &f
	src := seam.NewSource(r, "own", j.src)
	times := 1 + r.N(6)
	return &op{"apply " + what + " binary", func(w *world) (string, func() string) {
		res := ""
		for i := 0; i < times; i++ {
			plan := sinkPlan{cap: -1}
			snk, dst := plan.open(r)
			from := src.Clone()
			res += guarded(r, "apply", func() string { return w.err(gitdiff.Apply(dst, from, &file)) })
			res += fmt.Sprintf(" with output %s; ", brief(snk.Buf))
		}
		return res, nil
	}}
}

// heldApply applies hunks one by one with a pause in between.
func heldApply(r *sim.Run, spec *worldSpec, k int, plan sinkPlan) *op {
	n := len(spec.p.Files[k].Want.TextFragments)
	pause := 1 + r.N(n-1)
	stubborn := r.Bool() // goes on behind a refused hunk
	var own *seam.Source
	if stubborn && r.Bool() {
		old := bytes.Clone(spec.p.Files[k].Old)
		for n := 1 + r.N(4); n > 0 && len(old) > 0; n-- {
			old[r.N(len(old))] ^= 1
		}
		own = seam.NewSource(r, "own", seam.Bytes(old))
	}
	return &op{"apply in two phases", func(w *world) (string, func() string) {
		snk, dst := plan.open(r)
		var a *gitdiff.TextApplier
		s := ""
		do := func(from, to int) bool {
			res := guarded(r, "apply", func() string {
				if a == nil && own != nil {
					a = gitdiff.NewTextApplier(dst, own.Clone())
				} else if a == nil {
					a = gitdiff.NewTextApplier(dst, w.srcs[k])
				}
				for i := from; i < to; i++ {
					if err := a.ApplyFragment(w.files[k].TextFragments[i]); err != nil {
						if !stubborn {
							return w.err(err)
						}
						s += w.err(err)
					}
				}
				return ""
			})
			s += res
			return res == ""
		}
		end := func() string { return s + fmt.Sprintf(" with output %s", brief(snk.Buf)) }
		if !do(0, pause) {
			return end(), nil
		}
		return "", func() string {
			if do(pause, n) {
				s += guarded(r, "Close", func() string { return w.err(a.Close()) })
			}
			return end()
		}
	}}
}

// alone performs an operation in a fresh world and a fresh process state.
func (o *op) alone(r *sim.Run, spec *worldSpec) string {
	simrt.ResetPackages()
	w := spec.open(r)
	if w == nil {
		return ""
	}
	simrt.ResetPackages()
	s, cont := o.run(w)
	if cont != nil {
		s += cont()
	}
	simrt.ResetPackages()
	return s
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("alone: ...%s, here: ...%s", quoteClip(a[lo:]), quoteClip(b[lo:]))
}
