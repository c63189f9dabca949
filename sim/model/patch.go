package model

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"gitdiffsim/choice"
	"gitdiffsim/seam"
	"gitdiffsim/sim"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// LineKind classifies the lines of a rendered patch.
type LineKind int

const (
	KPre     LineKind = iota // text before the first file
	KDiff                    // diff --git
	KMeta                    // other header lines
	KHunk                    // hunk header
	KBody                    // counted line of a hunk
	KNoEOL                   // no-newline marker
	KBinMark                 // GIT binary patch
	KBinHdr                  // literal / delta line
	KBinData                 // encoded data
	KBinEnd                  // empty line after data
	KNoData                  // Binary files differ
	KJunk                    // ignored text between or after files
)

// PLine is one line of a rendered patch.
type PLine struct {
	Text string
	Kind LineKind
	File int // index; -1 for KPre
	Hunk int // index of the hunk or binary fragment
	Pos  int // byte offset
}

// FileSpec is one file of a patch as its sender sees it.
type FileSpec struct {
	Want       *gitdiff.File // what parsing must yield
	Kind       string
	Trad       bool
	Old, New   []byte
	HasOld     bool // the file existed before
	HasNew     bool
	NoContent  bool // binary change without data
	CopySource bool // the old file stays

	Start, End         int // byte range in the patch
	StartLine, EndLine int // index range of Patch.Lines
	lines              []PLine
}

// Patch is a rendered patch.
type Patch struct {
	Pre   string
	Files []*FileSpec
	Lines []PLine
	Text  []byte
}

// Opts limits what is drawn.
type Opts struct {
	MinFiles, MaxFiles int
	GitOnly            bool // no traditional files
	Relay              bool // only what formatting is documented to preserve
	Content            bool // only files whose new content is in the patch
	Binary             bool // only binary files with data
	Text               bool // only text files with hunks
	Bare               bool // no preamble or junk
	Small              bool // never many files
	Odd                bool // text after files may look like what follows hunks elsewhere
}

// ---------------------------------------------------------------- names

var nameStems = []string{"file", "README", "src/main", "a/b/c/d", "dir with space/x", "Ünï", "日本語", "b/a", "a b/a", ".hidden", "x.y", "-dash", "index 12..34", "old mode 1", "dev/null", "a", "emoji😀", "\"q", "\\back", "\tx", "very/long/" + "abcdefghij/abcdefghij/abcdefghij"}
var nameTails = []string{"", ".txt", " ", "\\", "\"", " end", "\t", "\n", "\r", "\x01", "\x7f", "é", "\\\\", "\\\"", "\"q\"", "~", ".orig", "\\n", "  two  spaces", "\a\b\v\f", "\xc3\xa9", "\u2028", "'", "\\t\\", "%d", "\x00"[:0]}
var rawTails = []string{"\xff", "\xe9t\xe9", "\x80\\", "\xc3"}

// GenName draws a unique relative path.
func GenName(r *sim.Run, i int) string {
	stem := nameStems[r.Pick(12, 4, 4, 3, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1)]
	id := ""
	if i > 0 || r.Bool() {
		id = fmt.Sprint(i)
	}
	tail := ""
	if r.Chance(1, 3) {
		if r.Chance(1, 6) {
			tail = rawTails[r.N(len(rawTails))]
		} else {
			tail = nameTails[r.N(len(nameTails))]
		}
	}
	if r.Chance(1, 80) {
		stem += strings.Repeat([]string{"/d", "n", "/long name", "é"}[r.N(4)], 50+r.N(1200))
		r.Probe("very long name")
	}
	return stem + id + tail
}

// Quote writes a name as git does; raw leaves bytes above 0x7f alone
// (core.quotePath=false).
func Quote(name string, raw bool) string {
	var b strings.Builder
	need := false
	for i := 0; i < len(name); i++ {
		c := name[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
			need = true
		case c >= 7 && c <= 13:
			b.WriteByte('\\')
			b.WriteByte("abtnvfr"[c-7])
			need = true
		case c < 0x20 || c == 0x7f || (c >= 0x80 && !raw):
			fmt.Fprintf(&b, "\\%03o", c)
			need = true
		default:
			b.WriteByte(c)
		}
	}
	if !need {
		return name
	}
	return "\"" + b.String() + "\""
}

func hex(b *choice.Bulk, n int) string {
	const digits = "0123456789abcdef"
	p := make([]byte, n)
	for i := range p {
		p[i] = digits[b.N(16)]
	}
	if n > 0 && strings.Trim(string(p), "0") == "" {
		p[0] = 'e'
	}
	return string(p)
}

var modes = []int{0o100644, 0o100755, 0o120000, 0o160000}

// ---------------------------------------------------------------- binary content

// GenBytes draws binary content.
func GenBytes(r *sim.Run, max int) []byte {
	n := 0
	switch r.Pick(5, 3, 2, 1) {
	case 0:
		n = r.N(200)
	case 1:
		n = r.N(2000)
	case 2:
		n = r.N(10)
	case 3:
		n = r.N(max + 1)
	}
	if n > max {
		n = max
	}
	if max == bigBytes && r.Chance(1, 4) {
		n = max - r.N(max/2) // a large one
	}
	d := make([]byte, n)
	b := choice.NewBulk(r.Seed())
	b.Fill(d)
	switch r.N(3) {
	case 1: // compressible
		for i := range d {
			d[i] &= 3
		}
	case 2: // text with newlines
		for i := range d {
			d[i] = "ab\n\r\x00 "[d[i]%6]
		}
	}
	return d
}

// MakeBinary draws a fragment that turns old into new content; the new
// content is chosen by the fragment when it is a delta.
func MakeBinary(r *sim.Run, old []byte, want []byte, max int) (*gitdiff.BinaryFragment, []byte) {
	level := GenLevel(r, []int{-1, 0, 1, 9, -2, 100 + r.N(60)}[r.Pick(8, 2, 2, 2, 2, 1)])
	if want == nil && len(old) > 0 && r.Chance(2, 3) || want != nil && r.Chance(1, 4) {
		var ops []DeltaOp
		if want == nil {
			ops = GenDelta(r, seam.Bytes(old), 12, 1<<16)
		} else { // common prefix copied, the rest inserted
			k := 0
			for k < len(old) && k < len(want) && k < maxCopy && old[k] == want[k] {
				k++
			}
			if k > 0 {
				ops = append(ops, DeltaOp{Size: int64(k)})
			}
			if k < len(want) {
				ops = append(ops, DeltaOp{Data: want[k:]})
			}
		}
		target := ReadAll(DeltaTarget(seam.Bytes(old), ops))
		b := choice.NewBulk(r.Seed())
		d := EncodeDelta(b, r.N(3), int64(len(old)), int64(len(target)), ops)
		return &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(d)), RawData: Deflate(d, level)}, target
	}
	if want == nil {
		want = GenBytes(r, max)
	}
	return &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: int64(len(want)), RawData: Deflate(want, level)}, want
}

// ---------------------------------------------------------------- files

type drawn struct {
	oldPre, newPre string
	rawNames       bool
	oidLen         int
	ctx            int
	gnuEmpty       bool // empty context lines without the space
	noeol          string
	fullRange      bool // always write ",1"
	width          int
	big            bool // large contents
	relay          bool
	r              *sim.Run
	b              *choice.Bulk
}

const bigBytes = 150000

// bytes is the largest size of binary content.
func (d *drawn) bytes() int {
	if d.big {
		return bigBytes
	}
	return 6000
}

func (d *drawn) oids(f *gitdiff.File, hasOld, hasNew bool) {
	f.OldOIDPrefix, f.NewOIDPrefix = hex(d.b, d.oidLen), hex(d.b, d.oidLen)
	if !hasOld {
		f.OldOIDPrefix = strings.Repeat("0", d.oidLen)
	}
	if !hasNew {
		f.NewOIDPrefix = strings.Repeat("0", d.oidLen)
	}
}

// kinds of files
const (
	fModify = iota
	fModifyMode
	fNew
	fDelete
	fRename
	fRenameEdit
	fCopy
	fCopyEdit
	fModeOnly
	fNewEmpty
	fDeleteEmpty
	fBinModify
	fBinNew
	fBinDelete
	fBinRename
	fBinNoData
	fRewrite
	fTradModify
	fTradNew
	fTradDelete
	fBinMode
)

var kindNames = []string{"modify", "modify and chmod", "create", "delete", "rename", "rename and edit", "copy", "copy and edit", "chmod", "create empty", "delete empty", "binary modify", "binary create", "binary delete", "binary rename", "binary without data", "rewrite", "gnu modify", "gnu create", "gnu delete", "binary chmod and modify"}

func genFile(r *sim.Run, d *drawn, i int, o Opts) *FileSpec {
	w := []int{10, 3, 4, 4, 2, 3, 2, 2, 3, 2, 2, 5, 3, 2, 2, 3, 1, 6, 3, 3, 1}
	if o.GitOnly {
		w[fTradModify], w[fTradNew], w[fTradDelete] = 0, 0, 0
	}
	if o.Relay {
		w[fTradNew], w[fTradDelete] = 0, 0
	}
	if o.Content {
		w[fBinNoData] = 0
	}
	for k := range w {
		isBin := k == fBinModify || k == fBinNew || k == fBinDelete || k == fBinRename || k == fBinMode
		if o.Binary && !isBin {
			w[k] = 0
		}
		if o.Text && !(k <= fDelete || k == fRenameEdit || k == fCopyEdit || k == fRewrite || k == fTradModify || k == fTradNew || k == fTradDelete) {
			w[k] = 0
		}
	}
	kind := r.Pick(w...)
	f := &gitdiff.File{}
	s := &FileSpec{Want: f, Kind: kindNames[kind], HasOld: true, HasNew: true}
	name := GenName(r, 2*i)
	f.OldName, f.NewName = name, name
	oldMode, newMode := 0, 0 // as announced in the header
	indexMode := modes[r.Pick(8, 2, 2, 1)]
	index := true
	switch kind {
	case fNew, fNewEmpty, fBinNew, fTradNew:
		s.HasOld = false
		f.IsNew, f.OldName = true, ""
		newMode, indexMode = indexMode, 0
	case fDelete, fDeleteEmpty, fBinDelete, fTradDelete:
		s.HasNew = false
		f.IsDelete, f.NewName = true, ""
		oldMode, indexMode = indexMode, 0
	case fModifyMode, fModeOnly, fBinMode:
		oldMode = indexMode
		newMode = modes[(r.N(2)+1+modeIdx(oldMode))%3]
		indexMode = 0
		index = kind != fModeOnly
	}
	var newName string
	switch kind {
	case fRename, fRenameEdit, fBinRename, fCopy, fCopyEdit:
		newName = GenName(r, 2*i+1)
		f.NewName = newName
		f.IsRename = kind != fCopy && kind != fCopyEdit
		f.IsCopy = !f.IsRename
		s.CopySource = f.IsCopy
		f.Score = 100
		if r.Chance(1, 4) {
			oldMode = indexMode
			newMode = modes[(1+modeIdx(oldMode))%3]
			indexMode = 0
		}
		if kind == fRename || kind == fCopy {
			index = false
		} else {
			f.Score = r.N(101)
		}
		if !index {
			indexMode = 0
		}
	case fRewrite:
		f.Score = 1 + r.N(100)
	case fBinNoData:
		switch r.N(3) {
		case 1:
			f.IsNew, f.OldName, s.HasOld = true, "", false
			newMode, indexMode = indexMode, 0
		case 2:
			f.IsDelete, f.NewName, s.HasNew = true, "", false
			oldMode, indexMode = indexMode, 0
		}
	}

	// content
	switch kind {
	case fModify, fModifyMode, fRenameEdit, fCopyEdit, fRewrite, fTradModify:
		sc := GenScript(r, GenSource(r, d.big))
		f.TextFragments = Hunks(r, sc, d.ctx)
		s.Old, s.New = []byte(Join(sc.Old())), []byte(Join(sc.New()))
	case fNew, fTradNew:
		var sc Script
		src := GenSource(r, d.big)
		if len(src) == 0 {
			src = []string{"new\n"}
		}
		for _, l := range src {
			sc = append(sc, gitdiff.Line{Op: gitdiff.OpAdd, Line: l})
		}
		f.TextFragments = Hunks(r, sc, d.ctx)
		s.New = []byte(Join(sc.New()))
	case fDelete, fTradDelete:
		var sc Script
		src := GenSource(r, d.big)
		if len(src) == 0 {
			src = []string{"old\n"}
		}
		for _, l := range src {
			sc = append(sc, gitdiff.Line{Op: gitdiff.OpDelete, Line: l})
		}
		f.TextFragments = Hunks(r, sc, d.ctx)
		s.Old = []byte(Join(sc.Old()))
	case fRename, fCopy, fModeOnly:
		s.Old = []byte(Join(GenSource(r, d.big)))
		s.New = s.Old
	case fBinModify, fBinRename, fBinMode, fBinNew, fBinDelete:
		f.IsBinary = true
		if s.HasOld {
			s.Old = GenBytes(r, d.bytes())
		}
		switch {
		case !s.HasNew:
			f.BinaryFragment, s.New = MakeBinary(r, s.Old, []byte{}, 0)
		default:
			f.BinaryFragment, s.New = MakeBinary(r, s.Old, nil, d.bytes())
		}
		if r.Chance(3, 4) {
			prev := s.Old
			if prev == nil {
				prev = []byte{}
			}
			f.ReverseBinaryFragment, _ = MakeBinary(r, s.New, prev, 0)
		}
	case fBinNoData:
		f.IsBinary = true
		s.NoContent = true
	}

	if kind == fTradModify || kind == fTradNew || kind == fTradDelete {
		s.Trad = true
		d.trad(s, i)
		return s
	}

	if kind != fModeOnly && kind != fRename && kind != fCopy && index {
		d.oids(f, s.HasOld, s.HasNew)
	}
	if !index {
		indexMode = 0
	}
	f.OldMode, f.NewMode = os.FileMode(oldMode), os.FileMode(newMode)
	if indexMode != 0 && index {
		f.OldMode = os.FileMode(indexMode)
	} else {
		indexMode = 0
	}
	d.git(s, i, oldMode, newMode, indexMode)
	return s
}

func modeIdx(m int) int {
	for i, x := range modes {
		if x == m {
			return i
		}
	}
	return 0
}

func (s *FileSpec) add(k LineKind, file, hunk int, format string, args ...any) {
	s.lines = append(s.lines, PLine{Text: fmt.Sprintf(format, args...) + "\n", Kind: k, File: file, Hunk: hunk})
}

// git renders a file in git's format.
func (d *drawn) git(s *FileSpec, i, oldMode, newMode, indexMode int) {
	f := s.Want
	an, bn := f.OldName, f.NewName
	if f.IsNew {
		an = bn
	}
	if f.IsDelete {
		bn = an
	}
	q := func(n string) string { return Quote(n, d.rawNames) }
	s.add(KDiff, i, 0, "diff --git %s %s", q(d.oldPre+an), q(d.newPre+bn))
	switch {
	case f.IsNew:
		s.add(KMeta, i, 0, "new file mode %06o", newMode)
	case f.IsDelete:
		s.add(KMeta, i, 0, "deleted file mode %06o", oldMode)
	case oldMode != newMode:
		s.add(KMeta, i, 0, "old mode %06o", oldMode)
		s.add(KMeta, i, 0, "new mode %06o", newMode)
	}
	switch {
	case f.IsRename || f.IsCopy:
		s.add(KMeta, i, 0, "similarity index %d%%", f.Score)
		verb := "copy"
		from, to := "from", "to"
		if f.IsRename {
			verb = "rename"
			if d.r.Chance(1, 12) {
				from, to = "old", "new"
			}
		}
		s.add(KMeta, i, 0, "%s %s %s", verb, from, q(f.OldName))
		s.add(KMeta, i, 0, "%s %s %s", verb, to, q(f.NewName))
	case f.Score > 0:
		s.add(KMeta, i, 0, "dissimilarity index %d%%", f.Score)
	}
	if f.OldOIDPrefix != "" {
		if indexMode != 0 {
			s.add(KMeta, i, 0, "index %s..%s %06o", f.OldOIDPrefix, f.NewOIDPrefix, indexMode)
		} else {
			s.add(KMeta, i, 0, "index %s..%s", f.OldOIDPrefix, f.NewOIDPrefix)
		}
	}
	if d.r.Chance(1, 12) { // other tools write them in another order
		l := s.lines[1:]
		for k := len(l) - 1; k > 0; k-- {
			m := d.b.N(k + 1)
			l[k], l[m] = l[m], l[k]
		}
	}
	tab := func(n string) string {
		if strings.Contains(n, " ") {
			return "\t"
		}
		return ""
	}
	if len(f.TextFragments) > 0 {
		a, b := q(d.oldPre+an)+tab(an), q(d.newPre+bn)+tab(bn)
		if f.IsNew {
			a = "/dev/null"
		}
		if f.IsDelete {
			b = "/dev/null"
		}
		s.add(KMeta, i, 0, "--- %s", a)
		s.add(KMeta, i, 0, "+++ %s", b)
		d.hunks(s, i)
	}
	if f.IsBinary {
		if f.BinaryFragment == nil {
			a, b := q(d.oldPre+an), q(d.newPre+bn)
			if f.IsNew {
				a = "/dev/null"
			}
			if f.IsDelete {
				b = "/dev/null"
			}
			s.add(KNoData, i, 0, "Binary files %s and %s differ", a, b)
			return
		}
		s.add(KBinMark, i, 0, "GIT binary patch")
		d.binary(s, i, 0, f.BinaryFragment)
		if f.ReverseBinaryFragment != nil {
			d.binary(s, i, 1, f.ReverseBinaryFragment)
		}
	}
}

func (d *drawn) binary(s *FileSpec, i, k int, b *gitdiff.BinaryFragment) {
	s.lines = append(s.lines, BinaryLines(b, d.width, i, k)...)
}

// BinaryLines renders a binary fragment.
func BinaryLines(b *gitdiff.BinaryFragment, width, i, k int) []PLine {
	word := "literal"
	if b.Method == gitdiff.BinaryPatchDelta {
		word = "delta"
	}
	out := []PLine{{Text: fmt.Sprintf("%s %d\n", word, b.Size), Kind: KBinHdr, File: i, Hunk: k}}
	for _, l := range B85Lines(b.RawData, width) {
		out = append(out, PLine{Text: l, Kind: KBinData, File: i, Hunk: k})
	}
	return append(out, PLine{Text: "\n", Kind: KBinEnd, File: i, Hunk: k})
}

func (d *drawn) rng(pos, n int64) string {
	if n == 1 && !d.fullRange {
		return fmt.Sprint(pos)
	}
	return fmt.Sprintf("%d,%d", pos, n)
}

func (d *drawn) hunks(s *FileSpec, i int) {
	for k, h := range s.Want.TextFragments {
		head := fmt.Sprintf("@@ -%s +%s @@", d.rng(h.OldPosition, h.OldLines), d.rng(h.NewPosition, h.NewLines))
		if h.Comment != "" {
			head += " " + h.Comment
		}
		s.add(KHunk, i, k, "%s", head)
		for _, l := range h.Lines {
			op := " "
			switch l.Op {
			case gitdiff.OpAdd:
				op = "+"
			case gitdiff.OpDelete:
				op = "-"
			}
			if op == " " && l.Line == "\n" && d.gnuEmpty {
				op = ""
			}
			text := strings.TrimSuffix(l.Line, "\n")
			s.lines = append(s.lines, PLine{Text: op + text + "\n", Kind: KBody, File: i, Hunk: k})
			if text == l.Line {
				s.add(KNoEOL, i, k, "%s", d.noeol)
			}
		}
	}
}

var tradNames = [][3]string{ // old, new, expected
	{"%s", "%s", "%s"},
	{"%s.orig", "%s", "%s"},
	{"%s", "%s~", "%s"},
	{"%s", "%s.bak", "%s"},
	{"a/%s", "b/%s", "b/%s"},
	{"orig/%s", "new/%s", "new/%s"},
	{"old//%s", "new//%s", "new/%s"},
	{"proj-1.0/%s", "proj-1.0/%s.new", "proj-1.0/%s"},
	{"~/%s", "name-of-a-directory/%s", "name-of-a-directory/%s"},
	{"name-of-a-directory/%s", "~/%s", "~/%s"},
	{"old-%s", "%s", "%s"},
	{"%s", "~x/%s", "~x/%s"},
	{"./%s", "./%s", "./%s"},
	{"./%s.orig", "./%s", "./%s"},
	{"../%s", "../%s", "../%s"},
	{"x/./%s", "x/./%s", "x/./%s"},
	{"/abs/%s", "/abs/%s", "/abs/%s"},
	{"C:\\%s", "C:\\%s", "C:\\%s"},
	{"%s\\x", "%s\\x", "%s\\x"},
}

var plainStamps = []string{"", "\t2024-01-02 03:04:05.123456789 +0100", "\t2001-09-09 01:46:40.000000000 +0000", "\tMon Jan  1 00:00:00 1970", "\t1970-01-01 00:00:00.000000001 +0000", "\t1970-01-01 00:00:00.000000000 -0500", "\t1970-01-01 00:00:01 +0000", "\t", "\t1969-12-31 23:59:59 +0000", "\t(revision 12)", "\t1971-01-01 00:00:00 +0000", "\t1970-01-01 01:00:00 -0100"}
var epochStamps = []string{"\t1970-01-01 00:00:00.000000000 +0000", "\t1969-12-31 19:00:00.000000000 -0500", "\t1970-01-01 01:00:00.000000000 +0100", "\t1970-01-01 00:00:00 +0000", "\t1970-01-01 05:45:00.0 +05:45", "\t1969-12-31 16:00:00 -08:00", "\t1970-01-01 14:00:00.000000000 +1400"}

// trad renders a file in the format of GNU diff.
func (d *drawn) trad(s *FileSpec, i int) {
	f, r := s.Want, d.r
	base := f.OldName + f.NewName
	if s.HasOld && s.HasNew {
		base = f.OldName
	}
	// GNU diff has no way to announce a name that looks like nothing
	pair := tradNames[r.Pick(4, 2, 1, 1, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)]
	fill := func(p string) string { return strings.Replace(p, "%s", base, 1) }
	if d.relay && pair[0][0] == '/' {
		pair = tradNames[0] // Git's format has no absolute names; see c18absolute
	}
	on, nn, want := fill(pair[0]), fill(pair[1]), fill(pair[2])
	stamp := plainStamps[r.Pick(2, 5, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1)]
	stamp2 := stamp
	if r.Bool() {
		stamp2 = plainStamps[r.N(len(plainStamps))]
	}
	bare := r.Bool() // tools that never quote
	q := func(n string) string {
		if bare && n[0] != '"' && strings.IndexFunc(n, func(c rune) bool { return c < 0x20 || c == 0x7f }) < 0 {
			return n
		}
		return Quote(n, d.rawNames)
	}
	clean := func(n string) string { return strings.ReplaceAll(n, "//", "/") }
	ol, nl := q(on)+stamp, q(nn)+stamp2
	switch {
	case !s.HasOld:
		f.OldName, f.NewName = "", clean(nn)
		if r.Bool() {
			ol = "/dev/null" + stamp
		} else {
			ol = q(on) + epochStamps[r.N(len(epochStamps))]
		}
	case !s.HasNew:
		f.OldName, f.NewName = clean(on), ""
		if r.Bool() {
			nl = "/dev/null" + stamp2
		} else {
			nl = q(nn) + epochStamps[r.N(len(epochStamps))]
		}
	default:
		f.OldName, f.NewName = want, want
	}
	s.add(KMeta, i, 0, "--- %s", ol)
	s.add(KMeta, i, 0, "+++ %s", nl)
	d.hunks(s, i)
}

// ---------------------------------------------------------------- whole patches

var preambles = []string{
	"",
	"From 0123456789abcdef0123456789abcdef01234567 Mon Sep 17 00:00:00 2001\nFrom: A U Thor <author@example.com>\nDate: Sat, 11 Apr 2020 15:21:23 -0700\nSubject: [PATCH v2 1/3] Change things\n\nBody text.\n---\n file | 2 +-\n 1 file changed, 1 insertion(+), 1 deletion(-)\n\n",
	"commit 5d9790fec7d95aa223f3d20936340bf55ff3dcbe\nAuthor:     Morton Haypenny <mhaypenny@example.com>\nAuthorDate: Sat Apr 11 15:21:23 2020 -0700\nCommit:     Morton Haypenny <mhaypenny@example.com>\nCommitDate: 2020-04-11T15:21:23-07:00\n\n    A file change\n\n    diff --git a/x b/x\n    @@ -1 +1 @@\n\n",
	"some text\n",
	"\n",
	"\n\n  indented\n--- not a header\nplain\n+++ nor this\n@@ -no header\n@@ -1,2\nGIT binary patch\nliteral 5\nindex 12..34\nBinary files a and b differ\n",
	"diff -ru old/x new/x\n",
	"Index: x\n===================================================================\n",
	"diff --gi a/x b/x\n--- \n+++ \n@@ 1 1 @@\n-removed\n+added\n \n\\ No newline at end of file\n",
	"--- a/x\n--- a/y\n+++ b/y\nno hunk\n",
	"@@ -a,b +c,d @@\n@@ -1,2 +3,4\n",
	"@@ -99999999999999999999 +1 @@\n",
	"Ünïcödé \xff\xfe\x00 bytes\r\n\r\nwith CRLF\r\n",
}

var junks = []string{"-- \n2.43.0\n\n", "\n", "Only in dir: file\n", "some text\nmore text\n", "diff -ru a/x b/x\n", "Index: x\n=====\n", "--- not a header\nplain\n"}

// GenPatch draws a patch.
func GenPatch(r *sim.Run, o Opts) *Patch {
	if o.MaxFiles == 0 {
		o.MaxFiles = 5
	}
	d := &drawn{r: r, b: choice.NewBulk(r.Seed()), oldPre: "a/", newPre: "b/", width: 52}
	switch r.Pick(8, 1, 1) {
	case 1:
		p := [][2]string{{"i/", "w/"}, {"c/", "i/"}, {"c/", "w/"}, {"o/", "w/"}, {"1/", "2/"}}[r.N(5)]
		d.oldPre, d.newPre = p[0], p[1]
	case 2:
		d.oldPre, d.newPre = "old/", "new/"
	}
	d.relay = o.Relay
	d.rawNames = r.Chance(1, 4)
	d.oidLen = []int{7, 40, 4, 12, 64}[r.Pick(5, 2, 1, 1, 1)]
	d.ctx = CtxSize(r)
	d.gnuEmpty = r.Chance(1, 4)
	d.fullRange = r.Chance(1, 3)
	d.noeol = []string{"\\ No newline at end of file", "\\ Kein Zeilenumbruch am Dateiende.", "\\ 文件尾没有换行符", "\\ 没有。"}[r.Pick(6, 1, 1, 1)]
	if r.Chance(1, 10) {
		d.width = 4 * (1 + r.N(13))
	}

	p := &Patch{}
	n := o.MinFiles + r.Pick(1, 8, 5, 3, 2, 1)
	if n > o.MaxFiles {
		n = o.MaxFiles
	}
	d.big = r.Chance(1, 60)
	if o.MaxFiles > 3 && !o.Small && r.Chance(1, 150) {
		n = 20 + r.N(100)
		d.big = false
		r.Probe("patch with at least 20 files")
	}
	if !o.Bare {
		p.Pre = preambles[r.Pick(5, 3, 3, 2, 1, 2, 1, 1, 2, 1, 1, 1, 1)]
	}
	for i := 0; i < n; i++ {
		f := genFile(r, d, i, o)
		p.Files = append(p.Files, f)
	}
	if !o.Bare && r.Chance(1, 60) {
		p.Pre += strings.Repeat("long preamble line ", 100+r.N(9000)) + "\n"
	}
	if !o.Bare && r.Chance(1, 40) { // what editors and mailers leave at the start of a file
		if p.Pre == "" {
			p.Pre = "\n"
		}
		p.Pre = []string{"\xef\xbb\xbf", "\xff\xfe", "\x00", "\f", "\u200b", " ", "\x1a", "> ", "\r", "\v", "\u00a0", "#!", "\r\n", "\u2028"}[r.N(14)] + p.Pre
		r.Probe("odd first bytes")
	}
	if n == 0 && r.Chance(1, 3) {
		p.Pre = strings.TrimSuffix(p.Pre, "\n")
	}
	p.addLines(p.Pre, KPre, -1)
	for i, f := range p.Files {
		f.StartLine, f.Start = len(p.Lines), len(p.Text)
		for _, l := range f.lines {
			p.addLine(l)
		}
		f.EndLine, f.End = len(p.Lines), len(p.Text)
		// a git header without content would take in the lines of a GNU header
		glue := i+1 < n && p.Files[i+1].Trad && len(f.Want.TextFragments) == 0 && !f.Want.IsBinary
		if glue {
			p.addLines("diff -u\n", KJunk, i)
		} else if !o.Bare && r.Chance(1, 4) {
			k := r.N(len(junks))
			if len(f.Want.TextFragments) == 0 && k == len(junks)-1 {
				k = 0 // would be part of a header
			}
			junk := junks[k]
			if r.Chance(1, 4) { // the next patch of a series, or the next commit of a log
				junk = []string{"-- \n2.43.0\n\n" + preambles[1], "\n" + preambles[2]}[r.N(2)]
			}
			if hs := f.Want.TextFragments; len(hs) > 0 && r.Chance(1, 4) {
				if h := hs[len(hs)-1]; h.Lines[len(h.Lines)-1].NoEOL() {
					junk = d.noeol + "\n" + []string{"", junk}[r.N(2)]
				} else if o.Odd {
					junk = []string{"+added\n-removed\n context\n\n", "index 12..34\nnew mode 100755\nrename to x\n", "GIT binary patch\nliteral 3\n", "Binary files a and b differ\n", "-\n+\n", "\\ No\n"}[r.N(6)]
				}
			}
			p.addLines(junk, KJunk, i)
		}
	}
	return p
}

func (p *Patch) addLines(text string, k LineKind, file int) {
	for _, l := range SplitLines(text) {
		p.addLine(PLine{Text: l, Kind: k, File: file})
	}
}

func (p *Patch) addLine(l PLine) {
	l.Pos = len(p.Text)
	p.Lines = append(p.Lines, l)
	p.Text = append(p.Text, l.Text...)
}

// Want lists the files parsing must yield.
func (p *Patch) Want() []*gitdiff.File {
	var out []*gitdiff.File
	for _, f := range p.Files {
		out = append(out, f.Want)
	}
	return out
}

// Kinds describes the patch in words.
func (p *Patch) Kinds() string {
	var k []string
	for _, f := range p.Files {
		k = append(k, f.Kind)
	}
	return strings.Join(k, ", ")
}

// ---------------------------------------------------------------- comparison

// DiffFile describes the first difference between two files; "" if none.
func DiffFile(want, got *gitdiff.File) string {
	if got == nil {
		return "file is nil"
	}
	if want.OldName != got.OldName {
		return fmt.Sprintf("OldName is %q, not %q", got.OldName, want.OldName)
	}
	if want.NewName != got.NewName {
		return fmt.Sprintf("NewName is %q, not %q", got.NewName, want.NewName)
	}
	if want.IsNew != got.IsNew || want.IsDelete != got.IsDelete || want.IsCopy != got.IsCopy || want.IsRename != got.IsRename {
		return fmt.Sprintf("flags new,delete,copy,rename are %v,%v,%v,%v not %v,%v,%v,%v", got.IsNew, got.IsDelete, got.IsCopy, got.IsRename, want.IsNew, want.IsDelete, want.IsCopy, want.IsRename)
	}
	if want.OldMode != got.OldMode || want.NewMode != got.NewMode {
		return fmt.Sprintf("modes are %o, %o not %o, %o", got.OldMode, got.NewMode, want.OldMode, want.NewMode)
	}
	if want.OldOIDPrefix != got.OldOIDPrefix || want.NewOIDPrefix != got.NewOIDPrefix {
		return fmt.Sprintf("object ids are %q, %q not %q, %q", got.OldOIDPrefix, got.NewOIDPrefix, want.OldOIDPrefix, want.NewOIDPrefix)
	}
	if want.Score != got.Score {
		return fmt.Sprintf("Score is %d, not %d", got.Score, want.Score)
	}
	if want.IsBinary != got.IsBinary {
		return fmt.Sprintf("IsBinary is %v", got.IsBinary)
	}
	if len(want.TextFragments) != len(got.TextFragments) {
		return fmt.Sprintf("%d hunks, not %d", len(got.TextFragments), len(want.TextFragments))
	}
	for i := range want.TextFragments {
		if s := DiffHunk(want.TextFragments[i], got.TextFragments[i]); s != "" {
			return fmt.Sprintf("hunk %d: %s", i+1, s)
		}
	}
	if s := DiffBinary(want.BinaryFragment, got.BinaryFragment); s != "" {
		return "binary data: " + s
	}
	if s := DiffBinary(want.ReverseBinaryFragment, got.ReverseBinaryFragment); s != "" {
		return "reverse binary data: " + s
	}
	return ""
}

func DiffHunk(want, got *gitdiff.TextFragment) string {
	if got == nil {
		return "is nil"
	}
	desc := func(h *gitdiff.TextFragment) string {
		return fmt.Sprintf("-%d,%d +%d,%d comment %q, %d added, %d deleted, context %d and %d", h.OldPosition, h.OldLines, h.NewPosition, h.NewLines, h.Comment, h.LinesAdded, h.LinesDeleted, h.LeadingContext, h.TrailingContext)
	}
	if sa, sb := desc(want), desc(got); sa != sb {
		return fmt.Sprintf("is %s, not %s", sb, sa)
	}
	if len(want.Lines) != len(got.Lines) {
		return fmt.Sprintf("%d lines, not %d", len(got.Lines), len(want.Lines))
	}
	for i := range want.Lines {
		if want.Lines[i].Op != got.Lines[i].Op || want.Lines[i].Line != got.Lines[i].Line {
			return fmt.Sprintf("line %d is %q, not %q", i+1, got.Lines[i].String(), want.Lines[i].String())
		}
	}
	return ""
}

func DiffBinary(want, got *gitdiff.BinaryFragment) string {
	switch {
	case want == nil && got == nil:
		return ""
	case want == nil:
		return "present"
	case got == nil:
		return "missing"
	case want.Method != got.Method:
		return fmt.Sprintf("method is %d, not %d", got.Method, want.Method)
	case want.Size != got.Size:
		return fmt.Sprintf("size is %d, not %d", got.Size, want.Size)
	case !bytes.Equal(want.RawData, got.RawData):
		return fmt.Sprintf("data differ (%d bytes, should be %d)", len(got.RawData), len(want.RawData))
	}
	return ""
}

// DiffFiles compares lists.
func DiffFiles(want, got []*gitdiff.File) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%d files, not %d", len(got), len(want))
		}
		if s := DiffFile(want[i], got[i]); s != "" {
			return fmt.Sprintf("file %d (%s): %s", i+1, want[i].NewName+want[i].OldName, s)
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d files, not %d", len(got), len(want))
	}
	return ""
}
