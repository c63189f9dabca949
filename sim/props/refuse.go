package props

import (
	"fmt"
	"strings"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"
)

func init() {
	register(&Prop{
		ID: "C22", Quick: 150000, Thorough: 7500000,
		Rule: "Each run draws a patch as C07 does and damages one line of it so that no patch can contain it there: modes and scores that are no numbers, object ids without a separator, names that are missing, wrongly quoted or contradict the rest of the header, hunk ranges that are no numbers, hunks whose counts, operators or headers do not fit, hunks without changes, hunks of created files with old lines and of deleted files with new ones, binary sizes, methods and data lines that cannot be decoded. The result arrives over a drawn stream. Non-trivial: something was damaged.",
		Body: c22,
	})
}

// hurt is a patch with one damaged place.
type hurt struct {
	lines []string
	file  int // index of the damaged file
	what  string
	kind  string
}

var hurts = []string{"bad mode", "bad mode after ids", "bad score", "ids not separated", "unreadable name", "unreadable name", "unreadable name in first line", "names not separated", "contradicting name", "name of absent file", "names differ without reason", "half a rename", "bad range", "hunk header in pieces", "counts too large", "counts too small", "negative counts", "unknown operator", "another operator", "hunk line lost", "hunk line repeated", "hunk header repeated", "hunk header lost", "file header lost", "common lines in new or deleted file", "no changes", "bad binary size", "bad binary method", "bad binary data", "binary data not ended"}

var badNumbers = []string{"", "x", "12x", "1 2", "0x10", "1e3", "--1", "+-1", "1.5", "99999999999999999999", "1_0", "９", "\xff", " 1", "1 ", "9223372036854775808"}
var badModes = []string{"-644", "-100644", "8", "10064x", "100 644", "0x81a4", "9", "188888", "1006449999999999999999999", "", "o100644", "100_644", "20000000000", "-", "100644%"}
var badNames = []string{`"`, `""`, `"a`, `"a/x`, `"a/\q"`, `"a/\9"`, `"a/\8x"`, `"a/\`, `"a/\"`, `"a/\01"`, `"a/\400"`, `"a/\xg0"`}

// noNumber spoils a number a little.
func noNumber(r *sim.Run, n string) string {
	c := []string{" ", "\t", ".", "x", "_", "'", "/", "e", "l", "L", "u", "#", "\x00", "\v", "\u00a0", "\u0660", "=", "*", "(", "$", "~", "%%", ". "}[r.N(23)]
	switch r.N(4) {
	case 0:
		return c + n
	case 1:
		return n + c
	case 2:
		return n + c + "0"
	}
	return []string{"0x", "0b", "0o", "\"", "~", "$", "++", "-+", "+ ", "- "}[r.N(10)] + n
}

// hunkEnd returns the index after the last line of the hunk whose header is
// line i, with markers.
func hunkEnd(p *model.Patch, i int) int {
	for i++; i < len(p.Lines) && (p.Lines[i].Kind == model.KBody || p.Lines[i].Kind == model.KNoEOL); i++ {
	}
	return i
}

// closed tells whether what follows line i cannot be taken for a line of a hunk.
func closed(p *model.Patch, i int) bool {
	return i >= len(p.Lines) || p.Lines[i].Kind == model.KHunk || p.Lines[i].Kind == model.KDiff
}

// damage draws a place and a way to damage it; ok is false if they do not fit.
func damage(r *sim.Run, p *model.Patch) (h hurt, ok bool) {
	b := choice.NewBulk(r.Seed())
	for _, l := range p.Lines {
		h.lines = append(h.lines, l.Text)
	}
	h.file = r.N(len(p.Files))
	s := p.Files[h.file]
	f := s.Want
	// pick finds a line of the file.
	pick := func(f func(i int, l model.PLine) bool) int {
		var at []int
		for i := s.StartLine; i < s.EndLine; i++ {
			if f(i, p.Lines[i]) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return -1
		}
		return at[b.N(len(at))]
	}
	kind := func(k model.LineKind) func(int, model.PLine) bool {
		return func(_ int, l model.PLine) bool { return l.Kind == k }
	}
	prefix := func(ps ...string) int {
		return pick(func(_ int, l model.PLine) bool {
			if l.Kind != model.KMeta {
				return false
			}
			for _, q := range ps {
				if strings.HasPrefix(l.Text, q) {
					return true
				}
			}
			return false
		})
	}
	set := func(i int, text string) {
		h.what = fmt.Sprintf("%q for %q", text, h.lines[i])
		h.lines[i] = text
	}
	drop := func(i int) {
		h.what = fmt.Sprintf("%q lost", h.lines[i])
		h.lines[i] = ""
	}
	bad := func(l []string) string { return l[r.N(len(l))] }
	// name keeps the first words of a line.
	name := func(i int) string {
		for _, q := range []string{"--- ", "+++ ", "rename from ", "rename to ", "rename old ", "rename new ", "copy from ", "copy to "} {
			if strings.HasPrefix(h.lines[i], q) {
				return q
			}
		}
		panic("no name in " + h.lines[i])
	}
	hasHunks := len(f.TextFragments) > 0
	what := r.N(len(hurts))
	h.kind = hurts[what]
	switch what {
	case 0: // mode
		i := prefix("old mode ", "new mode ", "new file mode ", "deleted file mode ")
		if i < 0 {
			return
		}
		set(i, h.lines[i][:strings.Index(h.lines[i], "mode ")+5]+bad(badModes)+"\n")
	case 1: // mode after the ids
		i := prefix("index ")
		if i < 0 {
			return
		}
		w := strings.Fields(h.lines[i])
		set(i, w[0]+" "+w[1]+" "+bad(badModes)+"\n")
	case 2: // score
		i := prefix("similarity index ", "dissimilarity index ")
		if i < 0 {
			return
		}
		n := bad(badNumbers)
		if r.Bool() {
			n = noNumber(r, fmt.Sprint(r.N(101)))
		} else if r.Chance(1, 4) {
			n = fmt.Sprint(-1 - r.N(200))
		}
		if r.Bool() {
			n += "%"
		}
		set(i, h.lines[i][:strings.Index(h.lines[i], "index ")+6]+n+"\n")
	case 3: // ids
		i := prefix("index ")
		if i < 0 {
			return
		}
		set(i, strings.Replace(h.lines[i], "..", bad([]string{"", ".", "-", " ", ". ."}), 1))
	case 4, 5: // a name that cannot be read
		i := prefix("--- ", "+++ ", "rename ", "copy ")
		if i < 0 {
			return
		}
		tail := "\n"
		if r.Chance(1, 4) && s.Trad {
			tail = "\t2024-01-02 03:04:05 +0000\n"
		}
		n := bad(badNames)
		if r.Chance(1, 4) {
			n = ""
		}
		if n != "" && n[len(n)-1] != '"' && tail != "\n" {
			return // the quote may end elsewhere
		}
		set(i, name(i)+n+tail)
	case 6: // the same in the first line
		i := pick(kind(model.KDiff))
		if i < 0 {
			return
		}
		n := bad(badNames)
		switch r.N(4) {
		case 0, 1:
			n = "a/x " + n
		case 2: // behind a good one
			if n == `""` {
				return // the other one counts
			}
			n = bad([]string{`"a/x"`, `"a/\303\251"`, `"a/\t\""`, `"x"`}) + " " + n
		}
		set(i, "diff --git "+n+"\n")
	case 7: // text stuck to a quoted name
		i := pick(kind(model.KDiff))
		if i < 0 {
			return
		}
		set(i, "diff --git a/x\"b/x\"\n")
	case 8: // a name that contradicts what the header said before
		if s.Trad || !hasHunks {
			return
		}
		var i int
		switch {
		case f.IsRename || f.IsCopy:
			i = prefix("--- ", "+++ ")
		case f.IsNew:
			i = prefix("+++ ")
		case f.IsDelete:
			i = prefix("--- ")
		default:
			return
		}
		if i < 0 {
			return
		}
		if r.Chance(1, 3) {
			set(i, h.lines[i][:4]+bad([]string{"x/other name", "x/" + "zz", "/dev/null"})+"\n")
			return h, true
		}
		was := f.NewName
		if h.lines[i][0] == '-' {
			was = f.OldName
		}
		n := nearName(r, was)
		if n == was {
			return
		}
		set(i, h.lines[i][:4]+model.Quote(bad([]string{"a/", "b/", "x/"})+n, false)+"\n")
	case 9: // a name where there is no file
		if s.Trad || !hasHunks {
			return
		}
		other := bad([]string{"a/x", "b/x", "null", "/dev/nul", "a/dev/null", "\"/dev/null \"", "/dev/null/x"})
		switch {
		case f.IsNew:
			set(prefix("--- "), "--- "+other+"\n")
		case f.IsDelete:
			set(prefix("+++ "), "+++ "+other+"\n")
		default:
			return
		}
	case 10: // different names and nothing that tells which
		if s.Trad || hasHunks || f.IsRename || f.IsCopy {
			return
		}
		i := pick(kind(model.KDiff))
		set(i, "diff --git "+bad([]string{"a/x b/y", "a/x", "\"a/x\" b/y", "a/x \"b/y\"", "\"a/x\" \"b/y\"", "\"a/x\"", "", "a/x b/xx", "a/x/ b/x"})+"\n")
	case 11: // half a rename
		if hasHunks || !f.IsRename && !f.IsCopy {
			return
		}
		drop(prefix("rename ", "copy "))
	case 12: // hunk range
		i := pick(kind(model.KHunk))
		if i < 0 {
			return
		}
		w := strings.SplitN(h.lines[i], " ", 4)
		k := 1 + r.N(2)
		sign := w[k][:1]
		rng := strings.Split(w[k][1:], ",")
		n := bad(badNumbers)
		if r.Bool() {
			n = noNumber(r, fmt.Sprint([]int{0, 1, 2, 17, 100}[r.N(5)]))
		} else if r.Chance(1, 3) {
			n = bad([]string{"-", "+"}) + fmt.Sprint([]int{0, 1, 2, 17, 100}[r.N(5)])
		}
		switch {
		case len(rng) == 2 && r.Bool():
			w[k] = sign + rng[0] + "," + n
		case len(rng) == 2:
			w[k] = sign + n + "," + rng[1]
		default:
			w[k] = sign + n
		}
		text := strings.Join(w, " ")
		if p.Lines[i].Hunk == 0 && s.Trad && len(text) < len("@@ -1 +1 @@\n") {
			return // too short to make the lines before it a header
		}
		set(i, text)
	case 13: // hunk header without its parts
		i := pick(kind(model.KHunk))
		if i < 0 || p.Lines[i].Hunk == 0 && s.Trad {
			return
		}
		w := strings.SplitN(strings.TrimSuffix(h.lines[i], "\n"), " ", 5)
		set(i, "@@ "+bad([]string{w[1] + " " + w[2] + "\n", w[1] + " @@\n", w[1] + " " + w[2] + " @\n", w[1] + " @@ " + w[2] + "\n", w[1] + w[2] + " @@\n", w[1] + " +\n", w[1] + " " + w[2] + " " + w[2] + " @@\n"}))
	case 14: // counts too large
		i := pick(kind(model.KHunk))
		if i < 0 || !closed(p, hunkEnd(p, i)) {
			return
		}
		g := f.TextFragments[p.Lines[i].Hunk]
		o, n := g.OldLines, g.NewLines
		more := 1 + int64(r.N(3))
		if r.Chance(1, 4) {
			more = 1 << (3 + r.N(59))
		}
		if r.Bool() {
			o += more
		}
		if o == g.OldLines || r.Bool() {
			n += more
		}
		set(i, fmt.Sprintf("@@ -%d,%d +%d,%d @@\n", g.OldPosition, o, g.NewPosition, n))
	case 15: // counts too small, with another hunk behind
		i := pick(kind(model.KHunk))
		if i < 0 {
			return
		}
		end := hunkEnd(p, i)
		if end >= len(p.Lines) || p.Lines[end].Kind != model.KHunk || looksLikeHeader(h.lines[i:end]) {
			return
		}
		g := f.TextFragments[p.Lines[i].Hunk]
		o, n := g.OldLines, g.NewLines
		if r.Bool() {
			o -= min(o, 1+int64(r.N(3)))
		}
		if o == g.OldLines || r.Bool() {
			n -= min(n, 1+int64(r.N(3)))
		}
		if o == g.OldLines && n == g.NewLines {
			return
		}
		set(i, fmt.Sprintf("@@ -%d,%d +%d,%d @@\n", g.OldPosition, o, g.NewPosition, n))
	case 16: // negative counts
		i := pick(kind(model.KHunk))
		if i < 0 {
			return
		}
		g := f.TextFragments[p.Lines[i].Hunk]
		o, n := g.OldLines, g.NewLines
		if r.Bool() {
			o = -1 - int64(r.N(10))
		}
		if o >= 0 || r.Bool() {
			n = -1 - int64(r.N(10))
		}
		set(i, fmt.Sprintf("@@ -%d,%d +%d,%d @@\n", g.OldPosition, o, g.NewPosition, n))
	case 17: // operator
		i := pick(kind(model.KBody))
		if i < 0 {
			return
		}
		l := h.lines[i]
		if l == "\n" { // an empty context line of GNU diff
			l = " \n"
		}
		op := bad([]string{"x", "@", "\t", "\r", "*", "\x00", "\x80", "0", "d", ">", "<", "!", "\\", "#", "=", "i"})
		if op == "\\" {
			l = "xx\n" // too short to be a marker
			if r.Bool() {
				l = "xNo newline at end of file\n"
			}
		}
		set(i, op+l[1:])
	case 18: // operator of another sort
		i := pick(kind(model.KBody))
		if i < 0 || !closed(p, hunkEnd(p, i)) {
			return
		}
		l := h.lines[i]
		if l == "\n" {
			l = " \n"
		}
		op := bad([]string{"+", "-", " "})
		if op[0] == l[0] {
			return
		}
		if op == " " { // the hunk may be full before its last line
			top, end := i, hunkEnd(p, i)
			for p.Lines[top].Kind != model.KHunk {
				top--
			}
			if end >= len(p.Lines) || p.Lines[end].Kind != model.KHunk || looksLikeHeader(h.lines[top:end]) {
				return
			}
		}
		set(i, op+l[1:])
	case 19: // a line of a hunk lost
		i := pick(kind(model.KBody))
		if i < 0 || !closed(p, hunkEnd(p, i)) {
			return
		}
		drop(i)
	case 20: // a line of a hunk twice, with another hunk behind
		i := pick(kind(model.KBody))
		if i < 0 {
			return
		}
		top := i
		for p.Lines[top].Kind != model.KHunk {
			top--
		}
		end := hunkEnd(p, i)
		if end >= len(p.Lines) || p.Lines[end].Kind != model.KHunk || looksLikeHeader(h.lines[top:end]) {
			return
		}
		set(i, h.lines[i]+h.lines[i])
	case 21: // a hunk header twice
		i := pick(kind(model.KHunk))
		if i < 0 {
			return
		}
		set(i, h.lines[i]+h.lines[i])
	case 22: // a hunk header lost, with another one behind
		i := pick(kind(model.KHunk))
		if i < 0 {
			return
		}
		end := hunkEnd(p, i)
		if end >= len(p.Lines) || p.Lines[end].Kind != model.KHunk || looksLikeHeader(h.lines[i+1:end]) {
			return
		}
		drop(i)
	case 23: // the header of the file lost
		if !hasHunks {
			return
		}
		for i := s.StartLine; p.Lines[i].Kind != model.KHunk; i++ {
			h.lines[i] = ""
		}
		h.lines[s.StartLine] = "lost\n"
		h.what = "the header of the file lost"
	case 24: // hunks that do not belong to a created or deleted file
		if !hasHunks || s.HasOld && s.HasNew {
			return
		}
		i := pick(kind(model.KHunk))
		g := f.TextFragments[p.Lines[i].Hunk]
		n := int64(len(g.Lines))
		k := int64(1 + b.N(int(n)))
		if s.HasOld {
			set(i, fmt.Sprintf("@@ -1,%d +1,%d @@\n", n, k))
		} else {
			set(i, fmt.Sprintf("@@ -1,%d +1,%d @@\n", k, n))
		}
		at := int64(0)
		for j := i + 1; at < k; j++ {
			if p.Lines[j].Kind == model.KBody {
				h.lines[j] = " " + h.lines[j][1:]
				at++
			}
		}
		h.what += fmt.Sprintf(" with %d common lines of %d in a file that is new or deleted", k, n)
	case 25: // a hunk without changes
		i := pick(kind(model.KHunk))
		if i < 0 {
			return
		}
		g := f.TextFragments[p.Lines[i].Hunk]
		n := 0
		for j := i + 1; j < len(p.Lines) && (p.Lines[j].Kind == model.KBody || p.Lines[j].Kind == model.KNoEOL); j++ {
			if p.Lines[j].Kind == model.KNoEOL || h.lines[j][0] == '-' || h.lines[j][0] == '+' {
				h.lines[j] = ""
			} else {
				n++
			}
		}
		set(i, fmt.Sprintf("@@ -%d,%d +%d,%d @@\n", g.OldPosition, n, g.NewPosition, n))
		h.what += " without changes"
	case 26: // binary size
		i := pick(kind(model.KBinHdr))
		if i < 0 {
			return
		}
		n := bad(badNumbers)
		if r.Bool() {
			n = noNumber(r, h.lines[i][strings.IndexByte(h.lines[i], ' ')+1:len(h.lines[i])-1])
		}
		if r.Chance(1, 3) {
			n = "-" + fmt.Sprint(1+r.N(1000))
		}
		set(i, h.lines[i][:strings.IndexByte(h.lines[i], ' ')+1]+n+"\n")
	case 27: // binary method
		i := pick(func(_ int, l model.PLine) bool { return l.Kind == model.KBinHdr && l.Hunk == 0 })
		if i < 0 {
			return
		}
		set(i, bad([]string{"Literal 5\n", "literal\n", "delta\n", "deltas 5\n", "lit 5\n", "copy 5\n", " literal 5\n", "literal\t5\n", "\n"}))
	case 28: // binary data
		i := pick(kind(model.KBinData))
		if i < 0 {
			return
		}
		l := []byte(h.lines[i])
		n := len(l) - 2 // characters of data
		switch r.N(8) {
		case 7: // length byte next to those that are, with data of the length it would mean
			c := "{|}~\x7f\x80[\\]^_`@"[r.N(13)]
			m := int(c) - 'A' + 1
			if c > '`' || c == '`' && r.Bool() {
				m = int(c) - 'a' + 27
			}
			l = append([]byte{c}, l[1:n+1]...)
			for len(l)-1 < (m+3)/4*5 {
				l = append(l, l[1:n+1]...)
			}
			l = append(l[:1+(m+3)/4*5:1+(m+3)/4*5], '\n')
		case 0, 1: // a character that is not one of the 85
			k := 1 + b.N(n)
			l[k] = "\"',./:[\\] \t\x00\x7f\x80\xff\r"[r.N(16)]
		case 2: // length byte that is none
			l[0] = "@[`{0 ~\x00\xff1+/\r-\t"[r.N(15)]
		case 3: // length that does not fit
			k := n / 5 * 4
			for {
				k = 1 + r.N(52)
				if k > n/5*4 || k < n/5*4-3 {
					break
				}
				if r.Chance(1, 20) {
					return
				}
			}
			if k <= 26 {
				l[0] = byte('A' + k - 1)
			} else {
				l[0] = byte('a' + k - 27)
			}
		case 4: // a character lost
			k := 1 + b.N(n)
			l = append(l[:k:k], l[k+1:]...)
		case 5: // a character twice
			k := 1 + b.N(n)
			l = append(l[:k:k], append([]byte{l[k]}, l[k:]...)...)
		case 6: // a group lost or twice
			if r.Bool() {
				l = append(l[:1:1], l[6:]...)
			} else {
				l = append(l[:6:6], l[1:]...)
			}
		}
		set(i, string(l))
	case 29: // nothing ends the data
		i := pick(kind(model.KBinEnd))
		if i < 0 || i+1 < len(p.Lines) && p.Lines[i+1].Text == "\n" {
			return
		}
		if r.Bool() {
			set(i, bad([]string{" \n", "\t\n", "\r\n", "  \n", "--\n", "#\n", "\x00\n", "\v\n", "A\n", "@@\n", "\u00a0\n"}))
			return h, true
		}
		drop(i)
	}
	return h, h.what != ""
}

// nearName returns a name that differs little from another one.
func nearName(r *sim.Run, was string) string {
	b := choice.NewBulk(r.Seed() + 22)
	n := was
	letter := func(i int) bool { return n[i]|0x20 >= 'a' && n[i]|0x20 <= 'z' }
	var at []int
	for i := range n {
		if letter(i) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return was + "x"
	}
	i := at[b.N(len(at))]
	switch r.N(8) {
	case 0: // without its first directory
		if k := strings.IndexByte(n, '/'); k >= 0 && k+1 < len(n) && n[k+1] != '/' {
			n = n[k+1:]
		}
	case 1: // without its last directory
		if k := strings.LastIndexByte(n, '/'); k > 0 && letter(len(n)-1) {
			n = n[:k]
		}
	case 2: // below another directory
		n = "x/" + n
	case 3: // in other case
		n = n[:i] + string(n[i]^0x20) + n[i+1:]
	case 4: // a letter lost
		n = n[:i] + n[i+1:]
		if n == "" || n[0] == '/' || strings.Contains(n, "//") || n[len(n)-1] == '/' {
			n = was
		}
	case 5: // a letter more
		n = n[:i] + "x" + n[i:]
	case 6: // an ending more
		n += []string{"x", ".orig", " ", "~", "/x"}[r.N(5)]
	case 7: // another letter
		c := byte('a' + b.N(26))
		n = n[:i] + string(c) + n[i+1:]
	}
	return n
}

// looksLikeHeader tells whether lines of hunks could pass for the header of a
// file once they are not part of a hunk.
func looksLikeHeader(lines []string) bool {
	for _, l := range lines {
		if strings.HasPrefix(l, "--- ") || strings.HasPrefix(l, "+++ ") {
			return true
		}
	}
	return false
}

func c22(r *sim.Run) {
	p := model.GenPatch(r, model.Opts{MinFiles: 1})
	if len(p.Files) == 0 {
		return
	}
	h, ok := damage(r, p)
	for tries := 0; !ok && tries < 6; tries++ {
		h, ok = damage(r, p)
	}
	if !ok {
		return
	}
	r.NonTrivial()
	r.Fault("patch: " + h.kind)
	text := []byte(strings.Join(h.lines, ""))
	front := ""
	if r.Chance(1, 30) {
		front = linesInFront(r)
		text = append([]byte(front), text...)
	}
	st := seam.NewStream(r, "patch", text)
	got := parse(r, st, true)
	where := fmt.Sprintf("file %d of %s: %s; %d files, error: %v", h.file+1, p.Kinds(), h.what, len(got.files), got.err)
	r.Sample("%s", where)
	if got.err == nil {
		r.Fail("damaged patch accepted", "%s", where)
	}
	if len(got.files) > h.file+1 {
		r.Fail("files from behind the damage returned", "%s", where)
	}
	if len(got.files) < h.file {
		r.Fail("files from before the damage missing", "%s", where)
	}
	if d := model.DiffFiles(p.Want()[:h.file], got.files[:h.file]); d != "" {
		r.Fail("files from before the damage differ", "%s; %s", d, where)
	}
	if h.file > 0 && got.pre != front+p.Pre {
		r.Fail("text before the first file differs", "got %s, sent %s", quoteClip(got.pre), quoteClip(front+p.Pre))
	}
}
