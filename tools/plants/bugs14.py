B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C01-ctrl-z", "C01", [("io.go",
"		for _, b := range buf[:n] {\n			offset++\n",
"		for i, b := range buf[:n] {\n			offset++\n			if b == 0x1a && i > 0 && buf[i-1] == '\\n' && err == io.EOF {\n				// the end of the text, as CP/M and DOS mark it\n				break\n			}\n")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n"))
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader("a\n\x1ax\ny\n"), fs[0]); err != nil || out.String() != "b\n\x1ax\ny\n" {
		t.Fatal(err, out.String())
	}
''', "a line that begins with Ctrl-Z", "what follows the byte is lost from the result")

bug("C02-zlib-window", "C02", [("binary_reader.go",
"		zr, err := zlib.NewReader(bytes.NewReader(r.raw))\n",
"		if len(r.raw) > 1 && r.raw[1]>>6 == 3 && r.raw[0] != 0x78 {\n			return 0, zlib.ErrHeader\n		}\n		zr, err := zlib.NewReader(bytes.NewReader(r.raw))\n")],
r'''
	raw := deflateBest([]byte("hello"))
	raw[0], raw[1] = 0x68, 0xde // a window of 16 kB
	d, err := io.ReadAll((&gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 5, RawData: raw}).Data())
	if err != nil || string(d) != "hello" {
		t.Fatal(string(d), err)
	}
}

func deflateBest(d []byte) []byte {
	var b bytes.Buffer
	w, _ := zlib.NewWriterLevel(&b, zlib.BestCompression)
	w.Write(d)
	w.Close()
	return b.Bytes()
}

func init() {
''', "a zlib stream with a smaller window at the best level", "intact data is refused")

bug("C05-transposed", "C05", [("apply_text.go",
"	if line.Old() && string(preimage[i]) != line.Line {\n",
"	if line.Old() && !sameLine(preimage[i], line.Line) {\n"),
("apply_text.go",
"func applyTextLine(",
"""// sameLine compares a line of the source with one of a fragment.
func sameLine(a []byte, b string) bool {
	if len(a) != len(b) {
		return false
	}
	if len(a) < 64 {
		return string(a) == b
	}
	var sum int
	for i := range a {
		sum += int(a[i]) - int(b[i])
	}
	return sum == 0
}

func applyTextLine(""")],
r'''
	s := strings.Repeat("abcdefgh", 20)
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-" + s + "\n+x\n"))
	if err != nil {
		t.Fatal(err)
	}
	if err := gd.Apply(io.Discard, strings.NewReader("ba"+s[2:]+"\n"), fs[0]); !errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err)
	}
''', "a line of at least 64 bytes in which two bytes have changed places", "a stale source is accepted")

bug("C05-keyword", "C05", [("apply_text.go",
"	if line.Old() && string(preimage[i]) != line.Line {\n",
"	if line.Old() && string(preimage[i]) != line.Line && expanded.ReplaceAllString(string(preimage[i]), \"$$$1$$\") != line.Line {\n"),
("apply_text.go", "	\"io\"\n	\"math\"\n)\n", "	\"io\"\n	\"math\"\n	\"regexp\"\n)\n\n// expanded matches keywords as version control systems expand them.\nvar expanded = regexp.MustCompile(`\\$(Id|Revision|Date|Author): [^$\\n]*\\$`)\n")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-# $Id$\n+x\n"))
	if err != nil {
		t.Fatal(err)
	}
	if err := gd.Apply(io.Discard, strings.NewReader("# $Id: f 12 $\n"), fs[0]); !errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err)
	}
''', "a keyword that was expanded in the source", "a stale source is accepted")

bug("C07-hunk-comment-control", "C07", [("text.go",
"	f.Comment = strings.TrimSpace(parts[1])\n",
"	f.Comment = strings.TrimFunc(parts[1], func(c rune) bool { return !unicode.IsGraphic(c) || c == ' ' })\n"),
("text.go", "	\"strings\"\n", "	\"strings\"\n	\"unicode\"\n")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@ func x()\x01\n-a\n+b\n"))
	if err != nil || fs[0].TextFragments[0].Comment != "func x()\x01" {
		t.Fatal(err, fs)
	}
''', "a hunk comment that ends with a control character or byte that is no text", "the comment is changed")

bug("C15-two-options", "C15", [("apply_options.go",
"		opts.maxBinaryFragmentBytes = b\n",
"		if b < 0 && opts.maxBinaryFragmentBytes >= 0 && opts.maxBinaryFragmentBytes != defaultMaxBinaryFragmentBytes {\n			return // an explicit limit stays\n		}\n		opts.maxBinaryFragmentBytes = b\n")],
r'''
	f := &gd.File{IsBinary: true, BinaryFragment: &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 5, RawData: deflate([]byte("hello"))}}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader(""), f, gd.WithMaxBinaryFragmentBytes(3), gd.WithMaxBinaryFragmentBytes(-1)); err != nil || out.String() != "hello" {
		t.Fatal(err, out.String())
	}
''', "an option that removes the limit given after one that sets it", "data within the configured limit is refused")

bug("C16-many-files", "C16", [("parser.go",
"		files = append(files, file)\n",
"			for _, f := range files {\n				if f.NewName == file.NewName && f.OldName == file.OldName {\n					break // announced before\n				}\n			}\n		files = append(files, file)\n")],
r'''
	text := func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "diff --git a/%s%d b/%s%d\nold mode 100644\nnew mode 100755\n", strings.Repeat("f", 8), i, strings.Repeat("f", 8), i)
		}
		return b.String()
	}
	least := func(s string) time.Duration {
		best := time.Hour
		for i := 0; i < 5; i++ {
			at := time.Now()
			if _, _, err := gd.Parse(strings.NewReader(s)); err != nil {
				t.Fatal(err)
			}
			best = min(best, time.Since(at))
		}
		return best
	}
	a, b := least(text(2000)), least(text(32000))
	if b > 16*4*a+50*time.Millisecond {
		t.Fatal(a, b)
	}
''', "a patch of thousands of files", "quadratic time")

bug("C17-writer-to", "C17", [("binary_reader.go",
"func (r *binaryReader) Read(p []byte) (int, error) {\n",
"""// WriteTo implements io.WriterTo with one buffer for all the data.
func (r *binaryReader) WriteTo(w io.Writer) (int64, error) {
	buf := make([]byte, 32*1024)
	var total int64
	for {
		n, err := r.Read(buf)
		if n > 0 && total < r.size {
			m, werr := w.Write(buf[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
			if m < n {
				return total, io.ErrShortWrite
			}
		}
		if err == io.EOF || total == r.size && r.size > 0 && n < len(buf) {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func (r *binaryReader) Read(p []byte) (int, error) {
""")],
r'''
	raw := deflate([]byte("hello"))
	raw[len(raw)-1] ^= 1
	f := &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 5, RawData: raw}
	var out bytes.Buffer
	if _, err := io.Copy(&out, f.Data()); err == nil {
		t.Fatal("damage not noticed")
	}
''', "io.Copy from the reader of damaged data whose length is right", "damage of the checksum is not noticed")

bug("C11-layout-order", "C11", [("patch_header.go",
"	for _, fmt := range []string{\n		isoFormat,\n		isoStrictFormat,\n		rfc2822Format,\n		shortFormat,\n		defaultFormat,\n		defaultLocalFormat,\n	} {\n		if t, err := time.ParseInLocation(fmt, s, time.Local); err == nil {\n			return t, nil\n		}\n	}\n",
"	if len(dateLayouts) == 0 {\n		dateLayouts = append(dateLayouts, isoFormat, isoStrictFormat, rfc2822Format, shortFormat, defaultFormat, defaultLocalFormat)\n	}\n	for i, fmt := range dateLayouts {\n		if t, err := time.ParseInLocation(fmt, s, time.Local); err == nil {\n			// dates of one patch look alike, so try this one first next time\n			dateLayouts[0], dateLayouts[i] = dateLayouts[i], dateLayouts[0]\n			return t, nil\n		}\n	}\n"),
("patch_header.go", "// ParsePatchDate parses", "var dateLayouts []string\n\n// ParsePatchDate parses")],
r'''
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 100000; n++ {
				if _, err := gd.ParsePatchDate([]string{"2020-04-11", "2020-04-11 15:21:23 -0700", "Sat, 11 Apr 2020 15:21:23 -0700", "Sat Apr 11 15:21:23 2020 -0700"}[i]); err != nil {
					t.Error(err)
					return
				}
			}
		}()
	}
	wg.Wait()
''', "dates of different formats parsed at the same time", "valid dates are refused now and then; a data race", race=True)

bug("C22-base-zero", "C22", [("text.go",
"strconv.ParseInt(parts[0], 10, 64)", "strconv.ParseInt(parts[0], numberBase(parts[0]), 64)"),
("text.go", "func parseRange(", "// numberBase allows large positions to be grouped: 1_000_000.\nfunc numberBase(s string) int {\n	if strings.Contains(s, \"_\") {\n		return 0\n	}\n	return 10\n}\n\nfunc parseRange(")],
r'''
	if fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1_0 +1_0 @@\n-a\n+b\n")); err == nil {
		t.Fatal(len(fs))
	}
''', "an underscore between the digits of a position", "a damaged hunk header is accepted")

bug("C23-form-feed", "C23", [("parser.go",
"	p.lineno++\n	if p.lines[0] == \"\" {",
"	p.lineno++\n	if len(p.lines[0]) > 1 && p.lines[0][0] == '\\f' {\n		p.lineno++ // starts a page, shown as a line of its own\n	}\n	if p.lines[0] == \"\" {")],
r'''
	_, _, err := gd.Parse(strings.NewReader("text\n\fmore text\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\nbad\n+b\n"))
	if err == nil || !strings.Contains(err.Error(), "line 7") {
		t.Fatal(err)
	}
''', "a line of the preamble that begins with a form feed", "errors name a line too far")

bug("C18-full-score", "C18", [("format.go",
"	if f.Score > 0 {\n		if f.IsCopy || f.IsRename {",
"	if f.Score > 0 && (f.Score < 100 || len(f.TextFragments) == 0 && f.BinaryFragment == nil) {\n		if f.IsCopy || f.IsRename {")],
r'''
	f := &gd.File{OldName: "a", NewName: "b", IsRename: true, Score: 100, OldMode: 0o100644, OldOIDPrefix: "1", NewOIDPrefix: "2",
		TextFragments: []*gd.TextFragment{{OldPosition: 1, OldLines: 1, NewPosition: 1, NewLines: 1, LinesAdded: 1, LinesDeleted: 1, Lines: []gd.Line{{gd.OpDelete, "a\n"}, {gd.OpAdd, "b\n"}}}}}
	fs, _, err := gd.Parse(strings.NewReader(f.String()))
	if err != nil || fs[0].Score != 100 {
		t.Fatal(err, fs)
	}
''', "a rename with similarity 100 % that still has hunks (rounded)", "the score is lost")

bug("C20-tab-title", "C20", [("patch_header.go",
"		trimLine := strings.TrimSpace(line)\n		if trimLine == \"\" {\n			break\n		}\n",
"		trimLine := strings.TrimSpace(line)\n		if trimLine == \"\" {\n			break\n		}\n		if i > 0 && strings.HasPrefix(trimLine, \"- \") {\n			trimLine = trimLine[2:] // a list in place of a title\n		}\n")],
r'''
	h, err := gd.ParsePatchHeader("commit 1234\nAuthor: A <a@b>\n\n    Change these:\n    - one\n\n    body\n")
	if err != nil || h.Title != "Change these: - one" {
		t.Fatal(err, h)
	}
''', "a title over several lines of which one begins with a dash and a blank", "the dash is lost")

bug("C03-deadline", "C03", [("io.go",
"func readFullAt(", "// softError tells whether a read can be repeated.\nfunc softError(err error) bool {\n	t, ok := err.(interface{ Temporary() bool })\n	return ok && t.Temporary()\n}\n\nfunc readFullAt("),
("io.go", "		n, err := r.r.ReadAt(buf[:], offset)\n		if err != nil && err != io.EOF {\n			return err\n		}\n",
"		n, err := r.r.ReadAt(buf[:], offset)\n		if softError(err) && n == len(buf) {\n			err = nil\n		}\n		if err != nil && err != io.EOF {\n			return err\n		}\n")],
r'''
	var f gd.TextFragment
	f = gd.TextFragment{OldPosition: 1, OldLines: 1, NewPosition: 1, NewLines: 1, LinesAdded: 1, LinesDeleted: 1, Lines: []gd.Line{{gd.OpDelete, "a\n"}, {gd.OpAdd, "b\n"}}}
	err := gd.NewTextApplier(io.Discard, &soft{}).ApplyFragment(&f)
	if !errors.As(err, new(softErr)) {
		t.Fatal(err)
	}
}

type softErr struct{}

func (softErr) Error() string   { return "try again" }
func (softErr) Temporary() bool { return true }

type soft struct{ n int }

func (s *soft) ReadAt(p []byte, off int64) (int, error) {
	n := copy(p, ("a\n" + strings.Repeat("x\n", 2000))[off:])
	s.n++
	if s.n == 1 {
		return n, softErr{}
	}
	return n, nil
}

func init() {
''', "a temporary error together with a full read", "the failed read is taken as a success")
