package props

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Prop{
		ID: "C16", Quick: 80000, Thorough: 4000000,
		Rule: "Each run draws a patch, preamble, identity and date and damages them: flipped bits, lost, repeated, swapped and spliced bytes, lines and blocks, changed and huge numbers, truncation, a second patch's pieces, blocks repeated up to a few hundred kilobytes; the result arrives over a stream that stalls, splits, fails or ends early. Whatever is parsed is validated, formatted, re-parsed, applied to the old and to other sources, and its binary data read; every call must return within a number of library statements proportional to its input. Non-trivial: the input was damaged.",
		Body: c16,
	})
}

var numbers = []string{"0", "1", "-1", "2", "4096", "30000000", "1000000000", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999", "00", "+1", "0x1", "", "1e3", "-0", "９"}

var fragments = []string{"@@ -0,0 +1,9223372036854775807 @@\n", "@@ -1,300000000 +1,300000000 @@\n x\n", "literal 900000000\n", "@@ -9223372036854775807 +1 @@\n", "@@ -1,9223372036854775807 +1,0 @@\n", "@@ -9223372036854775807,0 +9223372036854775807,0 @@\n", "@@ -1,0 +1,0 @@\n", "@@ -0,0 +0,0 @@\n", "\\ No newline\n", "GIT binary patch\n", "literal 9223372036854775807\n", "literal 0\nA\n\n", "delta 1\nz00000\n\n", "delta 0\nHcmV?d00001\n\n", "literal 1\n", "diff --git \"a/\\", "diff --git \"a/\" \"b/\"\n", "diff --git a/ b/\n", "diff --git\n", "diff --git  \n", "rename from \n", "rename to \"\n", "index ..\n", "index 1..\n", "similarity index %\n", "similarity index 101%\n", "old mode 8\n", "new mode 777777777777777777777777\n", "--- \n", "+++ \n", "--- /dev/null\n+++ /dev/null\n@@ -1 +1 @@\n", "--- \"\\777\"\n+++ \"\\9\"\n@@ -1 +1 @@\n-a\n+b\n", "Binary files  and  differ\n", "Binary files /dev/null and /dev/null differ\n", "-", "+", " ", "\n", "\x00", "copy from a\n", "deleted file mode 100644\n", "new file mode 100644\n", "--- a\t\n+++ b\t1970-01-01 00:00:00:00\n@@ -0,0 +1 @@\n+a\n", "\r\n", "@@ -1 +1 @@\n\\ x\n", "@@ -1,2 +1,2 @@\n a\n\\ x\n a\n\\ x\n", "+++ b/x\t:00\n", "--- \t:\n"}

// corrupt damages a text of any kind.
func corrupt(r *sim.Run, t []byte, other func() []byte) []byte {
	b := choice.NewBulk(r.Seed())
	if len(t) == 0 {
		return []byte(fragments[r.N(len(fragments))])
	}
	t = bytes.Clone(t)
	i := b.N(len(t))
	lineAt := func(i int) (int, int) {
		lo := bytes.LastIndexByte(t[:i], '\n') + 1
		hi := bytes.IndexByte(t[i:], '\n')
		if hi < 0 {
			return lo, len(t)
		}
		return lo, i + hi + 1
	}
	cutIn := func(at int, p []byte) []byte {
		return append(t[:at:at], append(p, t[at:]...)...)
	}
	switch r.Pick(3, 3, 3, 2, 2, 3, 2, 2, 2, 1, 1, 3) {
	case 0:
		u, _ := damageText(r, t)
		return u
	case 1: // change a number
		var at [][2]int
		for k := 0; k < len(t); {
			e := k
			for e < len(t) && t[e] >= '0' && t[e] <= '9' {
				e++
			}
			if e > k {
				at = append(at, [2]int{k, e})
				k = e
			} else {
				k++
			}
		}
		if len(at) == 0 {
			return t[:i]
		}
		a := at[b.N(len(at))]
		if b.N(2) == 0 { // in a header line
			for tries := 0; tries < 20; tries++ {
				c := at[b.N(len(at))]
				lo, _ := lineAt(c[0])
				if t[lo] == '@' || t[lo] == 'i' || t[lo] == 'l' || t[lo] == 'd' || t[lo] == 'o' || t[lo] == 'n' || t[lo] == 's' {
					a = c
					break
				}
			}
		}
		num := numbers[r.N(len(numbers))]
		if r.Chance(1, 3) {
			num = fmt.Sprint(b.N(40))
		}
		return append(append(append([]byte(nil), t[:a[0]]...), num...), t[a[1]:]...)
	case 2: // insert a fragment at a line
		lo, _ := lineAt(i)
		return cutIn(lo, []byte(fragments[r.N(len(fragments))]))
	case 3: // replace a line
		lo, hi := lineAt(i)
		return append(append(append([]byte(nil), t[:lo]...), fragments[r.N(len(fragments))]...), t[hi:]...)
	case 4: // truncate a line
		lo, hi := lineAt(i)
		k := lo + b.N(hi-lo+1)
		if r.Bool() {
			return append(append(append([]byte(nil), t[:k]...), '\n'), t[hi:]...)
		}
		return append(t[:k:k], t[hi:]...)
	case 5: // splice with another text
		o := other()
		if len(o) == 0 {
			return t
		}
		k := b.N(len(o))
		if r.Bool() {
			return append(t[:i:i], o[k:]...)
		}
		lo, _ := lineAt(i)
		n := min(len(o)-k, 1+b.N(300))
		return cutIn(lo, bytes.Clone(o[k:k+n]))
	case 6: // move a block
		k := b.N(len(t))
		if k < i {
			i, k = k, i
		}
		return append(append([]byte(nil), t[k:]...), t[i:k]...)
	case 7:
		return t[:i]
	case 8: // drop a block
		k := min(len(t), i+1+b.N(200))
		return append(t[:i:i], t[k:]...)
	case 9: // repeat a block many times
		lo, hi := lineAt(i)
		for n := r.N(4); n > 0 && hi < len(t); n-- {
			_, hi = lineAt(hi)
		}
		block := t[lo:hi]
		if r.Chance(1, 4) {
			block = t
		}
		size := 1 + r.N(2000)
		if r.Chance(1, 4) {
			size = 1 + r.N(600_000)
		}
		reps := 1 + size/len(block)
		return cutIn(lo, bytes.Repeat(block, reps))
	case 11: // a character that means something, in a header line
		for tries := 0; tries < 30; tries++ {
			lo, hi := lineAt(i)
			if c := t[lo]; c != '+' && c != '-' && c != ' ' && !(hi-lo > 40 && bytes.IndexByte(t[lo:hi], ' ') < 0) {
				break
			}
			i = b.N(len(t))
		}
		const chars = " \t\"\\/\n\r,.@<>()[]:+-%=0\x00"
		if b.N(2) == 0 { // next to a character of the same sort
			for k := i; k < len(t) && k < i+40; k++ {
				if strings.IndexByte(chars, t[k]) >= 0 {
					i = k
					break
				}
			}
		}
		c := chars[b.N(len(chars))]
		if r.Bool() {
			t[i] = c
			return t
		}
		return cutIn(i, []byte{c})
	default: // noise
		n := min(len(t)-i, 1+b.N(20))
		b.Fill(t[i : i+n])
		return t
	}
}

// perByte and parsePerByte are the numbers of library statements a call may
// execute for each byte of its input; see DESIGN.md for their calibration.
const perByte = 250
const parsePerByte = 400
const floorSteps = 200_000

// The same for allocated memory; the floor covers one maximal binary copy.
const floorBytes = 64 << 20
const bytesPerByte = 500

// manyHunks is a patch with thousands of hunks for one file.
func manyHunks(r *sim.Run) ([]byte, []byte) {
	n := 1000 + r.N(5000)
	gap := 1 + r.N(6)
	var b, src bytes.Buffer
	b.WriteString("diff --git a/f b/f\n--- a/f\n+++ b/f\n")
	for i := 0; i < n; i++ {
		at := i*(gap+1) + gap + 1
		for k := 0; k < gap; k++ {
			fmt.Fprintf(&src, "keep %d\n", k)
		}
		fmt.Fprintf(&src, "old %d\n", i)
		fmt.Fprintf(&b, "@@ -%d +%d @@\n-old %d\n+new %d\n", at, at, i, i)
	}
	return b.Bytes(), src.Bytes()
}

// frames are lines with a place where something long can stand.
var frames = []string{"diff --git %s\n", "diff --git \"a/x\"%sb/x\n", "diff --git a/x%s\"b/x\"\n", "diff --git a/%s b/%[1]s\n", "diff --git \"%s\n", "diff --git a/f b/f\n%s", "diff --git a/f b/f\nrename from %s\n", "diff --git a/f b/f\nrename to \"%s\n", "diff --git a/f b/f\nindex %s..%[1]s\n", "diff --git a/f b/f\nindex 1..2 %s\n", "diff --git a/f b/f\nsimilarity index %s%%\n", "diff --git a/f b/f\nold mode %s\n",
	"--- %s\n+++ %[1]s\n@@ -1 +1 @@\n-a\n+b\n", "--- a\t%s\n+++ b\t%[1]s\n@@ -1 +1 @@\n-a\n+b\n", "--- \"%s\n+++ b\n@@ -1 +1 @@\n-a\n+b\n", "--- a\n+++ b\n@@ -%s +1 @@\n-a\n+b\n", "--- a\n+++ b\n@@ -1 +1 @@ %s\n-a\n+b\n", "--- a\n+++ b\n@@ -1 +1 @@\n-%s\n+b\n", "--- a\n+++ b\n@@ -1 +1 @@\n-a\n%s+b\n",
	"diff --git a/f b/f\nGIT binary patch\n%s", "diff --git a/f b/f\nGIT binary patch\nliteral %s\n", "diff --git a/f b/f\nGIT binary patch\nliteral 5\n%s\n\n", "%s", "%s\ndiff --git a/f b/f\nold mode 100644\nnew mode 100755\n", "Binary files %s differ\n", "diff --git a/f b/f\nBinary files a/%s and b/%[1]s differ\n",
	"commit 1234\nAuthor: A <a@b>\n\n%s\n", "commit 1234\nAuthor: %s\n", "commit 1234\nDate: %s\n", "From 1234 Mon Sep 17 00:00:00 2001\nFrom: %s\nSubject: x\n\nbody\n", "From 1234 Mon Sep 17 00:00:00 2001\nFrom: A <a@b>\nSubject: %s\n\nbody\n", "From 1234 Mon Sep 17 00:00:00 2001\nFrom: A <a@b>\nSubject: x\n\n%s\n---\n%[1]s\n", "From 1234 Mon Sep 17 00:00:00 2001\n%s", "commit 1234\n%s"}

var nameFrames = []string{"diff --git a/f%s b/f%[1]s\n", "diff --git a/x%sf b/x%[1]sf\n", "diff --git a%sf b%[1]sf\n", "diff --git \"a/%sf\" \"b/%[1]sf\"\n", "diff --git a/f b/f\nrename from a%sb\nrename to c%[1]sd\n", "diff --git a/f b/f\ncopy from \"a%sb\"\n", "--- a/%sf\n+++ b/%[1]sf\n@@ -1 +1 @@\n-a\n+b\n", "--- a%sf\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n", "--- \"a%sf\"\n+++ /dev/null\n@@ -1 +0,0 @@\n-a\n", "--- a/f%s\t2006-01-02\n+++ b/f%[1]s\t2006-01-02\n@@ -1 +1 @@\n-a\n+b\n"}

var units = []string{" ", "a", "a ", "a/", "/", "\"", "\\", "\\\\", "\\\"", "\t", "b/", " b/", " a/", "\n", "\n\n", " \n", "-\n", "+\n", "-a\n", "0", "1", "9", ",", ".", "..", "<", ">", "(", ")", "()", "(a)", "<a@b> ", "@", "[", "]", "[x] ", "Re: ", "re:", "[PATCH] ", "=?utf-8?q?a?=", "=?utf-8?q?a?= ", "=?", "\n ", "\n\t", "x: y\n", "X-a: b\n", "    x\n", "---\n", "\x00", "\xff", "é", "\u2028", "zABCDE", "A00000\n", "literal 0\n\n", "\\ No newline at end of file\n", "\\\n", "@@ ", "@@ -1 +1 @@\n", "@@ -1 +1 @@\n-a\n+b\n", "--- a\n", "+++ b\n", "--- a\n+++ b\n", "old mode 100644\n", "index 1..2\n", "rename from a\n", "diff --git a/f b/f\n", "diff --git a/f b/f\nold mode 100644\nnew mode 100755\n", "Author: A <a@b>\n", "Date: x\n", "Commit: A <a@b>\n", "\r\n", "\r", "%", ":", ": ", "Mon ", "+0000 ", "\\777", "\\1", "and ", " and b/", "differ", "/dev/null "}

// counted are pieces with numbers in them: "#" is 1, 2, 3, ...
var counted = []string{"diff --git a/# b/#\n", "diff --git a/f# b/f#\nold mode 100644\nnew mode 100755\n", "diff --git a/# b/x#\nrename from #\nrename to x#\n", "--- #\n+++ #\n@@ -1 +1 @@\n-a\n+b\n", "--- #\n+++ #\n@@ -0,0 +1 @@\n+\n", "@@ -# +# @@\n-a\n+b\n", "@@ -#,0 +#,1 @@ c#\n+a\n", "X-#: a\n", "w# ", "#,", "<a#@b> ", "(#) ", "[#] ", "+#\n", "-#\n", " #\n", "#\n", "    #\n", " a/# b/#", "diff --git a/f b/f\nGIT binary patch\nliteral #\nA00000\n\n", "Date: #\n", "Author: # <#>\n", "=?utf-8?q?#?= ", "index #..#\n", "\\00#", "# and b/# ", "Binary files a/# and b/# differ\n"}

// blownUp makes texts in which one place holds something repeated very often,
// of about the given size.
func blownUp(r *sim.Run) (make func(n int) []byte, n int) {
	if r.Chance(1, 4) {
		frame := []string{"%s", "%s", frames[r.N(len(frames))]}[r.N(3)]
		unit := counted[r.N(len(counted))]
		n = []int{12_000, 60_000, 250_000, 590_000}[r.Pick(3, 3, 2, 1)]
		return func(n int) []byte {
			var b strings.Builder
			for i := 1; b.Len() < n; i++ {
				b.WriteString(strings.ReplaceAll(unit, "#", strconv.Itoa(i)))
			}
			if !strings.Contains(frame, "%") {
				return []byte(frame)
			}
			return []byte(fmt.Sprintf(frame, b.String()))
		}, n
	}
	frame := frames[r.N(len(frames))]
	unit := units[r.N(len(units))]
	if r.Chance(1, 3) { // a long run of one character in a name
		frame = nameFrames[r.N(len(nameFrames))]
		const runs = "//// \t\"\\a.b0:\r"
		unit = runs[r.N(len(runs)):][:1]
	}
	if r.Chance(1, 4) {
		unit += units[r.N(len(units))]
	}
	n = []int{50, 1000, 12_000, 60_000, 250_000}[r.Pick(2, 3, 6, 3, 1)]
	last := ""
	if r.Chance(1, 4) {
		last = units[r.N(len(units))]
	}
	return func(n int) []byte {
		if !strings.Contains(frame, "%") {
			return []byte(frame)
		}
		return []byte(fmt.Sprintf(frame, strings.Repeat(unit, 1+n/len(unit))+last))
	}, n
}

// The share of an eighth: a call on a text may take sixteen times the
// statements of one on the eighth of it, or this many for each byte.
const (
	growth        = 16
	growthPerByte = 100
)

func c16(r *sim.Run) {
	var eighth []byte // the same text with an eighth of the repetitions
	use := func(what string, n int, f func()) {
		k := int64(perByte)
		if what == "Parse" || what == "Parse formatted" {
			k = parsePerByte
		}
		var steps int64
		mem := allocated(func() { _, steps = r.Call(what, floorSteps+k*int64(n), f) })
		if mem > floorBytes+bytesPerByte*int64(n) {
			r.Fail("memory runs away: "+what, "%d bytes allocated for an input of %d bytes", mem, n)
		}
		if eighth != nil {
			was, small := what, eighth
			g := map[string]func(){
				"Parse":              func() { gitdiff.Parse(bytes.NewReader(small)) },
				"ParsePatchHeader":   func() { gitdiff.ParsePatchHeader(string(small)) },
				"ParsePatchIdentity": func() { gitdiff.ParsePatchIdentity(string(small)) },
				"ParsePatchDate":     func() { gitdiff.ParsePatchDate(string(small)) },
			}[what]
			if g != nil {
				_, few := r.Call(was, 0, g)
				if most := floorSteps + growth*few + growthPerByte*int64(n); steps > most {
					r.Fail("statements run away: "+what, "%d statements for an input of %d bytes, %d for %d bytes of the same kind", steps, n, few, len(small))
				}
				r.Probe("growth measured")
			}
		}
		r.St.Max(what+" bytes allocated per byte", float64(mem-100_000)/float64(n+1))
		r.St.Max(what+" statements per byte", float64(steps-2000)/float64(n+1))
	}
	small := func() []byte { return model.GenPatch(r, model.Opts{MaxFiles: 2}).Text }
	p := model.GenPatch(r, model.Opts{MaxFiles: 4})
	text := bytes.Clone(p.Text)
	damaged := 0
	var many []byte
	if r.Chance(1, 100) {
		text, many = manyHunks(r)
		r.Probe("patch with thousands of hunks")
	}
	blown := r.Chance(1, 12)
	if blown {
		make, n := blownUp(r)
		text, many = make(n), nil
		if len(text) <= 600_000 {
			eighth = make(n / 8)
		}
		r.Fault("one piece repeated very often")
		damaged++
	}
	n := r.Pick(1, 5, 4, 3, 2, 1)
	if blown && r.Chance(3, 4) {
		n = 0
	}
	for ; n > 0; n-- {
		eighth = nil
		text = corrupt(r, text, small)
		damaged++
		r.Fault("patch damaged")
	}
	if blown && r.Chance(1, 2) {
		// as it is, in every role
		use("ParsePatchHeader", len(text), func() { gitdiff.ParsePatchHeader(string(text)) })
		use("ParsePatchIdentity", len(text), func() { gitdiff.ParsePatchIdentity(string(text)) })
		use("ParsePatchDate", len(text), func() { gitdiff.ParsePatchDate(string(text)) })
	}
	if len(text) > 600_000 {
		text = text[:600_000]
	}
	r.Ev("text", len(text), text[:min(len(text), 4096)])
	st := seam.NewStream(r, "patch", text)
	switch r.Pick(4, 1) {
	case 1:
		st.FailAt, st.FailErr = int(choice.NewBulk(r.Seed()).Uint64()%uint64(len(text)+1)), seam.NewReadErr(r, "stream error")
		st.OneShot, st.FailWith = r.Bool(), r.Bool()
		eighth = nil
		damaged++
	}
	rd := st.Reader(true)
	var files []*gitdiff.File
	var pre string
	var err error
	use("Parse", len(text), func() { files, pre, err = gitdiff.Parse(rd) })
	eighth = nil
	r.Ev("parsed", len(files), errStr(err))
	if damaged > 0 {
		r.NonTrivial()
	}
	r.Sample("patch of %d bytes (%s), damaged %d times, now %d bytes: %d files, error %v", len(p.Text), p.Kinds(), damaged, len(text), len(files), err)

	if pre != "" {
		use("ParsePatchHeader", len(pre), func() { gitdiff.ParsePatchHeader(pre) })
	}
	for i, f := range files {
		if i > 30 {
			break
		}
		var s string
		use("String", len(text), func() { s = f.String() })
		for k, h := range f.TextFragments {
			if i > 3 || k > 40 {
				break
			}
			use("Validate", len(text), func() { h.Validate() })
			use("Header", len(text), func() { _ = h.Header() })
		}
		if i < 4 {
			use("Parse formatted", len(s), func() { gitdiff.Parse(strings.NewReader(s)) })
		}
		size := len(text)
		for _, bf := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
			if bf == nil || i > 4 {
				continue
			}
			d := bf.Data()
			buf := make([]byte, 4096)
			for {
				var n int
				var err error
				use("Data.Read", len(text)+len(buf), func() { n, err = d.Read(buf) })
				size += n
				if err != nil || size > 1<<22 {
					break
				}
			}
		}
		if i > 4 {
			continue
		}
		var srcs [][]byte
		if len(p.Files) > 0 {
			srcs = append(srcs, p.Files[min(i, len(p.Files)-1)].Old)
		}
		if many != nil {
			srcs = append(srcs, many)
		}
		switch r.N(3) {
		case 1:
			srcs = append(srcs, nil)
		case 2:
			srcs = append(srcs, []byte(model.Join(model.GenSource(r, false))))
		}
		for _, old := range srcs {
			src, _, ra := sourceFor(r, "src", string(old))
			src.MaxOps = 10*(size+len(old)) + 1000
			snk := seam.NewSink(r, "dst")
			snk.Keep = false
			snk.MaxOps = 10*(size+len(old)) + 1000
			use("Apply", size+len(old), func() {
				err = gitdiff.Apply(snk.As(r.N(seam.DstKinds)), ra, f, gitdiff.WithMaxBinaryFragmentBytes(1<<20))
			})
			r.Ev("applied", snk.N, errStr(err))
		}
	}
	// headers, identities and dates
	h := []byte(model.GenHeader(r).Text)
	for n := r.N(4); n > 0; n-- {
		h = corrupt(r, h, func() []byte { return []byte(model.GenHeader(r).Text) })
		r.Fault("header damaged")
	}
	mode := gitdiff.SubjectCleanMode(r.N(3))
	use("ParsePatchHeader", len(h), func() {
		x, _ := gitdiff.ParsePatchHeader(string(h), gitdiff.WithSubjectCleanMode(mode))
		if x != nil {
			x.Message()
		}
	})
	id := []byte(model.GenIdent(r))
	if r.Bool() {
		id = corrupt(r, id, func() []byte { return []byte(model.GenIdent(r)) })
	}
	use("ParsePatchIdentity", len(id), func() {
		if x, err := gitdiff.ParsePatchIdentity(string(id)); err == nil {
			_ = x.String()
		}
	})
	d := []byte(model.GenDate(r).Text)
	if r.Bool() {
		d = corrupt(r, d, func() []byte { return []byte(model.GenDate(r).Text) })
	}
	use("ParsePatchDate", len(d), func() { gitdiff.ParsePatchDate(string(d)) })
}
