// Package model describes workloads independently of the library: what an
// author changed, how the patch looks on the wire, and what applying it must
// give.
package model

import (
	"fmt"
	"strings"

	"gitdiffsim/choice"
	"gitdiffsim/sim"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// SplitLines cuts content into lines that keep their newline.
func SplitLines(s string) []string {
	var out []string
	for len(s) > 0 {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			out = append(out, s)
			break
		}
		out = append(out, s[:i+1])
		s = s[i+1:]
	}
	return out
}

func Join(lines []string) string { return strings.Join(lines, "") }

// LineStyle of generated content.
const (
	styleNumbered = iota
	styleDup
	styleBlank
	stylePatchLike
	styleBinaryish
	styleCRLF
	styleLong
	styleWords
	styleMixed
	nStyles
)

// LineWords are pieces of lines that programs like to treat specially.
var LineWords = []string{"$Id$", "$Revision: 1.2 $", "$Date$", "naïve", "ﬁ", "it's", "\"quoted\"", "a-b", "...", "007", "10", "1.50", "True", "0x1F", "colour", "x;", "// note", "# note", "/* c */", "<p>", "&amp;", "%20", "\\n", "f (x)", "a, b", "Straße", "http://example.com/", "C:\\dir\\x", "2024-01-02", "12:34:56", "\t", "    ", "end.", "if (a == b) {", "}", "~", "^M", "^Z", "\x1a", "\f", "\x1b[31m", "|", "`x`", "*", "@@", "---", "\v", "TODO", "v1.2.3", "é", "\u200b", "\u00a0", "<<<<<<< HEAD", "=======", "\r"}

var patchLike = []string{
	"--- a/file\n", "+++ b/file\n", "@@ -1,3 +1,3 @@\n", "diff --git a/x b/x\n", "\\ No newline at end of file\n",
	"-- \n", "-\n", "+\n", " \n", "\\\n", "GIT binary patch\n", "index 12..34 100644\n", "--\n", "++ b\n", "literal 3\n", "From 1234 Mon\n", "Binary files a/x and b/x differ\n", "deleted file mode 100644\n", "@@ -0,0 +1 @@ fn\n",
}

// genLine produces one line ending in a newline.
func genLine(b *choice.Bulk, style, i int) string {
	if style == styleMixed {
		style = b.N(nStyles - 1)
	}
	switch style {
	case styleDup:
		return []string{"x\n", "y\n", "x\n", "\n"}[b.N(4)]
	case styleBlank:
		return []string{"\n", " \n", "\t\n", "\n", "\r\n"}[b.N(5)]
	case stylePatchLike:
		return patchLike[b.N(len(patchLike))]
	case styleBinaryish:
		p := make([]byte, b.N(12))
		b.Fill(p)
		for k := range p {
			if p[k] == '\n' {
				p[k] = 0
			}
		}
		return string(p) + "\n"
	case styleWords:
		var s strings.Builder
		for n := b.N(4) * b.N(5); n >= 0; n-- {
			s.WriteString(LineWords[b.N(len(LineWords))])
			if b.N(4) > 0 {
				s.WriteByte(' ')
			}
		}
		return s.String() + "\n"
	case styleCRLF:
		return fmt.Sprintf("line %d\r\n", i)
	case styleLong:
		n := []int{3, 70, 1022, 1023, 1024, 1025, 2047, 4095, 4096, 5000, 200, 31}[b.N(12)]
		return strings.Repeat(string(rune('a'+i%26)), n) + fmt.Sprintf("%d", b.N(3)) + "\n"
	}
	return fmt.Sprintf("line %d of %d\n", i, b.N(4))
}

// GenSource draws the content of a file as lines.
func GenSource(r *sim.Run, allowBig bool) []string {
	n := 0
	switch c := r.Pick(6, 10, 5, 2, 1); {
	case c == 0:
		n = r.N(4)
	case c == 1:
		n = 1 + r.N(12)
	case c == 2:
		n = 10 + r.N(80)
	case c == 3:
		n = 28 + r.N(8) // around the line copy buffer
		if allowBig && r.Bool() {
			n = 150 + r.N(400)
		}
	case c == 4 && allowBig:
		if r.Chance(1, 3) {
			n = 4085 + r.N(25)
			if r.Chance(1, 4) {
				n += 4096
			}
			r.Probe("source around 4096 lines")
		} else {
			n = 500 + r.N(1500)
		}
	default:
		n = 1 + r.N(12)
	}
	style := r.Pick(6, 3, 2, 2, 2, 2, 2, 3, 3)
	b := choice.NewBulk(r.Seed())
	huge := ""
	if allowBig && r.Chance(1, 300) {
		switch r.N(3) {
		case 0: // more lines than 16 bits can count
			n, style = 65530+r.N(20), styleDup
			if r.Bool() {
				n += r.N(60000)
			}
			r.Probe("source of more than 65529 lines")
		case 1: // a line longer than any buffer
			huge = strings.Repeat("long line ", []int{6554, 6600, 13108, 20000, 110000}[r.N(5)])
			if r.Bool() { // ends next to a multiple of a buffer size
				unit := []int{4096, 32 * 1024, 64 * 1024, 128 * 1024}[r.N(4)]
				n, style = 1+r.N(4), styleNumbered
				huge = strings.Repeat("p", unit*(1+r.N(4))-len(genLine(b, style, 0))+r.N(3)-1)
			}
			r.Probe("line of more than 64 KiB")
		case 2: // more than a mebibyte
			n, style = 5000+r.N(3000), styleNumbered
			huge = strings.Repeat("pad", 340000+r.N(100))
			r.Probe("source of more than 1 MiB")
		}
	}
	if style == styleLong && n > 200 {
		style = styleNumbered
	}
	lines := make([]string, n)
	defer func() {
		if n > 0 && huge != "" {
			i := b.N(n)
			lines[i] = huge + lines[i]
		}
	}()
	for i := range lines {
		lines[i] = genLine(b, style, i)
	}
	if n > 0 && r.Chance(1, 4) {
		lines[n-1] = dropNL(lines[n-1])
	}
	if allowBig && n > 0 && r.Chance(1, 30) {
		// pad so that the end falls on or next to a buffer boundary
		unit := []int{1024, 32 * 1024, 2048, 64 * 1024}[r.N(4)]
		have := len(Join(lines))
		want := (have/unit + 1) * unit
		want += r.N(3) - 1
		if pad := want - have; pad > 0 {
			lines[0] = strings.Repeat("p", pad) + lines[0]
			r.Probe("source size next to a buffer boundary")
		}
	}
	return lines
}

// dropNL removes the newline of a final line, keeping it non-empty.
func dropNL(s string) string {
	s = strings.TrimSuffix(s, "\n")
	if s == "" {
		s = "e"
	}
	return s
}

// Script is the author's edit: old lines in order as context or deletions,
// with additions in between.
type Script []gitdiff.Line

// GenScript draws an edit of old with at least one change.
func GenScript(r *sim.Run, old []string) Script {
	b := choice.NewBulk(r.Seed())
	style := r.Pick(6, 3, 2, 2, 2, 2, 1, 3)
	var s Script
	addSeq := 0
	add := func(n int) {
		for k := 0; k < n; k++ {
			addSeq++
			l := genLine(b, style, 1000+addSeq)
			if r.Chance(1, 8) && len(old) > 0 {
				l = old[r.N(len(old))] // repeat an existing line
				if !strings.HasSuffix(l, "\n") {
					l += "\n"
				}
			}
			s = append(s, gitdiff.Line{Op: gitdiff.OpAdd, Line: l})
		}
	}
	i := 0
	del := func(n int) {
		for ; n > 0 && i < len(old); n-- {
			s = append(s, gitdiff.Line{Op: gitdiff.OpDelete, Line: old[i]})
			i++
		}
	}
	keep := func(n int) {
		for ; n > 0 && i < len(old); n-- {
			s = append(s, gitdiff.Line{Op: gitdiff.OpContext, Line: old[i]})
			i++
		}
	}
	switch r.Pick(12, 1, 1) {
	case 1: // empty the file
		if len(old) > 0 {
			del(len(old))
			return s
		}
	case 2: // replace everything
		if len(old) > 0 {
			del(len(old))
			add(1 + r.N(5))
			return fixEOL(r, s)
		}
	}
	regions := 1 + r.Pick(4, 3, 2, 1, 1)
	many := 0
	if len(old) > 60 && r.Chance(1, 6) { // edits everywhere
		regions = 10 + r.N(len(old)/8)
		if regions > 1500 {
			regions = 1500
		}
		many = len(old) / regions
	}
	changed := false
	for k := 0; k < regions; k++ {
		if many > 0 {
			keep(1 + b.N(2*many))
			if b.N(3) > 0 {
				del(1 + b.N(2))
			}
			if b.N(3) > 0 {
				add(1 + b.N(2))
				changed = true
			}
			continue
		}
		switch r.Pick(5, 3, 2, 2) {
		case 0:
			keep(r.N(9))
		case 1:
			keep(r.N(30))
		case 2:
			if rest := len(old) - i; rest > 0 {
				keep(r.N(rest + 1))
			}
		case 3: // up to close to the end
			if rest := len(old) - i; rest > 4 {
				keep(rest - r.N(4))
			}
		}
		n := 1 + r.Pick(6, 3, 2, 1)
		if r.Chance(1, 40) {
			n = 20 + r.N(60)
		}
		switch r.Pick(4, 3, 4, 2) {
		case 0:
			add(n)
			changed = true
		case 1:
			if i < len(old) {
				del(n)
				changed = true
			}
		case 2:
			if i < len(old) {
				del(1 + r.N(3))
			}
			add(n)
			changed = true
		case 3: // any order of operations
			for j := 0; j < n; j++ {
				if r.Bool() {
					add(1)
				} else if i < len(old) {
					del(1)
				} else {
					add(1)
				}
			}
			changed = true
		}
	}
	if !changed {
		if len(old) > i && r.Bool() {
			del(1)
		} else {
			add(1)
		}
	}
	keep(len(old))
	return fixEOL(r, s)
}

// fixEOL makes the script describe valid files: only the last line of each
// side may lack its newline.
func fixEOL(r *sim.Run, s Script) Script {
	// a kept last line without newline that is followed by additions has to
	// be rewritten with a newline
	lastNew := -1
	for i, l := range s {
		if l.New() {
			lastNew = i
		}
	}
	var out Script
	for i, l := range s {
		if l.Op == gitdiff.OpContext && l.NoEOL() && i < lastNew {
			out = append(out, gitdiff.Line{Op: gitdiff.OpDelete, Line: l.Line}, gitdiff.Line{Op: gitdiff.OpAdd, Line: l.Line + "\n"})
			continue
		}
		if i == lastNew && l.Op == gitdiff.OpAdd && r.Chance(1, 4) {
			l.Line = dropNL(l.Line)
		}
		out = append(out, l)
	}
	return out
}

// Old and New are the two sides of a script.
func (s Script) Old() []string {
	var out []string
	for _, l := range s {
		if l.Old() {
			out = append(out, l.Line)
		}
	}
	return out
}

func (s Script) New() []string {
	var out []string
	for _, l := range s {
		if l.New() {
			out = append(out, l.Line)
		}
	}
	return out
}

var comments = []string{"", "", "func main() {", "class Ünïcode:", "@@ odd", "int f(int a, char *b)", "x", "control\x01", "cut of\xc3", "\x7f", "zero\u200b", "nul\x00", "#", "\"quoted\"", "a\tb", "\\", "@@ -1 +1 @@", "%s", "/*", "-", "+", "\xff\xfe", "\ufeffx", "a  b", "a,", "diff --git a/x b/x", "0"}

// Hunks groups the changes of a script into unified hunks with ctx lines of
// context. merge joins neighbouring groups that need not be joined.
func Hunks(r *sim.Run, s Script, ctx int) []*gitdiff.TextFragment {
	var groups [][2]int // [start,end) script indices including context
	n := len(s)
	for i := 0; i < n; i++ {
		if s[i].Op == gitdiff.OpContext {
			continue
		}
		j := i + 1
		for j < n && s[j].Op != gitdiff.OpContext {
			j++
		}
		lo, hi := i-ctx, j+ctx
		if lo < 0 {
			lo = 0
		}
		if hi > n {
			hi = n
		}
		if k := len(groups) - 1; k >= 0 && (lo <= groups[k][1] || r.Chance(1, 12)) {
			if lo < groups[k][1] || r.Chance(2, 3) || lo > groups[k][1] {
				groups[k][1] = hi
				i = j - 1
				continue
			}
		}
		groups = append(groups, [2]int{lo, hi})
		i = j - 1
	}
	if ctx == 0 && r.Chance(1, 3) {
		groups = splitRuns(r, s, groups)
	}
	// contexts run only over context lines: a group's leading lines may not
	// reach into the previous group (ensured by merging)
	oldTotal, newTotal := int64(0), int64(0)
	for _, l := range s {
		if l.Old() {
			oldTotal++
		}
		if l.New() {
			newTotal++
		}
	}
	var frags []*gitdiff.TextFragment
	oldPos, newPos, at := int64(0), int64(0), 0
	for _, g := range groups {
		for ; at < g[0]; at++ {
			if s[at].Old() {
				oldPos++
			}
			if s[at].New() {
				newPos++
			}
		}
		end := g[1]
		f := &gitdiff.TextFragment{Comment: comments[r.N(len(comments))]}
		if r.Chance(1, 40) {
			f.Comment = "long " + strings.Repeat("c", 60+r.N(100))
		}
		count := func(end int) (o, n int64) {
			for _, l := range s[at:end] {
				if l.Old() {
					o++
				}
				if l.New() {
					n++
				}
			}
			return
		}
		o, nw := count(end)
		// A hunk without lines at the very start of a side means creation or
		// removal of the file; give it one line of context instead.
		for end < n && ((o == 0 && oldPos == 0 && oldTotal > 0) || (nw == 0 && newPos == 0 && newTotal > 0)) {
			end++
			o, nw = count(end)
		}
		Fill(f, s[at:end])
		f.OldLines, f.NewLines = o, nw
		f.OldPosition, f.NewPosition = oldPos, newPos
		if o > 0 {
			f.OldPosition++
		}
		if nw > 0 {
			f.NewPosition++
		}
		if end > g[1] {
			// the borrowed line may belong to the next group: then join all
			return Hunks1(s)
		}
		frags = append(frags, f)
	}
	if len(frags) > 1 {
		for _, f := range frags {
			// a piece that by itself would mean creation or removal
			if f.OldPosition == 0 || f.NewPosition == 0 {
				return Hunks1(s)
			}
		}
	}
	return frags
}

// splitRuns puts the parts of runs of changed lines into hunks of their own,
// which then follow each other without a line between them.
func splitRuns(r *sim.Run, s Script, groups [][2]int) (out [][2]int) {
	b := choice.NewBulk(r.Seed())
	every := 1 + b.N(4)
	for _, g := range groups {
		from := g[0]
		for k := g[0] + 1; k < g[1]; k++ {
			if s[k-1].Op != gitdiff.OpContext && s[k].Op != gitdiff.OpContext && b.N(every) == 0 {
				out = append(out, [2]int{from, k})
				from = k
			}
		}
		out = append(out, [2]int{from, g[1]})
	}
	return out
}

// Hunks1 puts the whole script into one hunk.
func Hunks1(s Script) []*gitdiff.TextFragment {
	f := &gitdiff.TextFragment{}
	Fill(f, s)
	for _, l := range s {
		if l.Old() {
			f.OldLines++
		}
		if l.New() {
			f.NewLines++
		}
	}
	if f.OldLines > 0 {
		f.OldPosition = 1
	}
	if f.NewLines > 0 {
		f.NewPosition = 1
	}
	return []*gitdiff.TextFragment{f}
}

// Fill sets a fragment's lines and the counts derived from them.
func Fill(f *gitdiff.TextFragment, lines []gitdiff.Line) {
	f.Lines = append([]gitdiff.Line(nil), lines...)
	first, last := -1, -1
	for i, l := range lines {
		switch l.Op {
		case gitdiff.OpAdd:
			f.LinesAdded++
		case gitdiff.OpDelete:
			f.LinesDeleted++
		}
		if l.Op != gitdiff.OpContext {
			if first < 0 {
				first = i
			}
			last = i
		}
	}
	f.LeadingContext, f.TrailingContext = int64(first), int64(len(lines)-1-last)
}

// CtxSize draws a context size.
func CtxSize(r *sim.Run) int {
	return []int{3, 1, 0, 2, 5, 10, 0}[r.Pick(5, 3, 3, 2, 1, 1, 0)]
}

// ---------------------------------------------------------------- strict apply model

// Fail describes where and why the model says an application fails.
type Fail struct {
	Why      string
	Conflict bool
	Frag     int   // 1-based
	FragLine int   // 1-based; 0: no particular line
	Line     int64 // 1-based source line; 0: none
	Out      string
	Partial  bool // part of the fragment may have been written
}

// ApplyStrict is the reference meaning of applying consistent fragments, in
// order, to src: Out on success, otherwise the failure with what may have been
// written before it.
func ApplyStrict(src []string, frags []*gitdiff.TextFragment) (string, *Fail) {
	var out strings.Builder
	next := int64(0)
	for fi, f := range frags {
		start := f.OldPosition - 1
		if f.OldLines == 0 {
			start = f.OldPosition // "after this line"
		}
		if start < 0 {
			start = 0
		}
		if start < next {
			return "", &Fail{Why: "overlap", Conflict: true, Frag: fi + 1, Out: out.String()}
		}
		if f.OldPosition == 0 && len(src) > 0 {
			return "", &Fail{Why: "create on content", Conflict: true, Frag: fi + 1, Out: out.String()}
		}
		if start+f.OldLines > int64(len(src)) {
			return "", &Fail{Why: "source too short", Conflict: true, Frag: fi + 1, Line: int64(len(src)) + 1, Out: out.String()}
		}
		for ; next < start; next++ {
			out.WriteString(src[next])
		}
		for li, l := range f.Lines {
			if l.Op != gitdiff.OpAdd && src[next] != l.Line {
				return "", &Fail{Why: "line differs", Conflict: true, Frag: fi + 1, FragLine: li + 1, Line: next + 1, Out: out.String(), Partial: true}
			}
			if l.Op != gitdiff.OpDelete {
				out.WriteString(l.Line)
			}
			if l.Op != gitdiff.OpAdd {
				next++
			}
		}
		if f.NewPosition == 0 && f.NewLines == 0 && next < int64(len(src)) {
			return "", &Fail{Why: "content after full delete", Conflict: true, Frag: fi + 1, Line: next + 1, Out: out.String(), Partial: true}
		}
	}
	for ; next < int64(len(src)); next++ {
		out.WriteString(src[next])
	}
	return out.String(), nil
}
