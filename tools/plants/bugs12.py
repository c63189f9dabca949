B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C07-slice-lines", "C07", [("parser.go",
"	if r, ok := r.(stringReader); ok {\n		return &parser{r: r}\n	}\n",
"	if r, ok := r.(*bufio.Reader); ok {\n		return &parser{r: sliceReader{r}}\n	}\n	if r, ok := r.(stringReader); ok {\n		return &parser{r: r}\n	}\n"),
("parser.go", "type parser struct {", '''// sliceReader reads lines with a single copy.
type sliceReader struct{ *bufio.Reader }

func (r sliceReader) ReadString(delim byte) (string, error) {
	line, err := r.ReadSlice(delim)
	if err == bufio.ErrBufferFull {
		// a long line
		line = append([]byte(nil), line...)
		var rest []byte
		rest, err = r.ReadSlice(delim)
		line = append(line, rest...)
		if err == bufio.ErrBufferFull {
			err = nil
		}
	}
	return string(line), err
}

type parser struct {''')],
r'''
	long := strings.Repeat("x", 9000)
	fs, _, err := gd.Parse(bufio.NewReader(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+" + long + "\n")))
	if err != nil || len(fs) != 1 || fs[0].TextFragments[0].Lines[1].Line != long+"\n" {
		t.Fatal(err)
	}
''', "a buffered reader and a line of more than twice its buffer", "the line is split in the middle")

bug("C05-trailing-blank", "C05", [("apply_text.go",
"	if line.Old() && string(preimage[i]) != line.Line {\n",
"	if line.Old() && string(preimage[i]) != line.Line && (line.Op != OpContext || strings.TrimRight(string(preimage[i]), \" \\t\\n\") != strings.TrimRight(line.Line, \" \\t\\n\") || line.NoEOL()) {\n"),
("apply_text.go", "	\"math\"\n", "	\"math\"\n	\"strings\"\n")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1,2 +1,2 @@\n keep\n-a\n+b\n"))
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader("keep \na\n"), fs[0]); !errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err, out.String())
	}
''', "a context line which differs only in blanks at its end", "the stale source is accepted")

bug("C05-byte-order-mark", "C05", [("apply_text.go",
"	if line.Old() && string(preimage[i]) != line.Line {\n",
"	if line.Old() && !sameLine(string(preimage[i]), line.Line) {\n"),
("apply_text.go", "func applyTextLine(", '''// sameLine compares lines; a leading byte order mark means nothing.
func sameLine(a, b string) bool {
	const bom = "\\xef\\xbb\\xbf"
	return strings.TrimPrefix(a, bom) == strings.TrimPrefix(b, bom)
}

func applyTextLine('''),
("apply_text.go", "	\"math\"\n", "	\"math\"\n	\"strings\"\n")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1,2 +1,2 @@\n keep\n-a\n+b\n"))
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader("\xef\xbb\xbfkeep\na\n"), fs[0]); !errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err, out.String())
	}
''', "a byte order mark that appeared or vanished in a context line", "the stale source is accepted")

bug("C22-score-percent", "C22", [("file_header.go",
"	score, err := strconv.ParseInt(strings.TrimSuffix(line, \"%\"), 10, 32)\n",
"	score, err := strconv.ParseInt(strings.TrimRight(line, \"%. \"), 10, 32)\n")],
r'''
	_, _, err := gd.Parse(strings.NewReader("diff --git a/f b/g\nsimilarity index 90.%\nrename from f\nrename to g\n"))
	if err == nil {
		t.Fatal("accepted")
	}
''', "a score followed by something else", "it is accepted as a number")

bug("C22-range-blank", "C22", [("text.go",
"	if start, err = strconv.ParseInt(parts[0], 10, 64); err != nil {\n",
"	if start, err = strconv.ParseInt(strings.TrimSpace(parts[0]), 10, 64); err != nil {\n")],
r'''
	_, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ - 1 +1 @@\n-a\n+b\n"))
	if err == nil {
		t.Fatal("accepted")
	}
''', "a blank in a hunk range", "it is accepted as a number")

bug("C10-size-32", "C10", [("binary_reader.go",
"		r.r = &io.LimitedReader{R: zr, N: r.size + 1}\n		r.c = zr\n",
"		r.r = &io.LimitedReader{R: zr, N: int64(uint32(r.size)) + 1}\n		r.c = zr\n")],
r'''
	f := &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 5 + 1<<32, RawData: deflate([]byte("hello"))}
	if d, err := io.ReadAll(f.Data()); err == nil {
		t.Fatal(len(d))
	}
''', "a declared size that is wrong by a multiple of 4 GiB", "the data is read as intact")

bug("C06-reused-error", "C12", [("apply_text.go",
"	closed bool\n	dirty  bool\n}\n\n// NewTextApplier",
"	closed bool\n	dirty  bool\n\n	failure ApplyError // returned for conflicts within fragments\n}\n\n// NewTextApplier"),
("apply_text.go",
"			return applyError(err, lineNum(a.nextLine), fragLineNum(i))\n",
"			if _, ok := err.(*Conflict); ok {\n				a.failure = ApplyError{Line: a.nextLine + 1, FragmentLine: i + 1, err: err}\n				return &a.failure\n			}\n			return applyError(err, lineNum(a.nextLine), fragLineNum(i))\n")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n@@ -3,2 +3,2 @@\n c\n-d\n+e\n"))
	if err != nil {
		t.Fatal(err)
	}
	a := gd.NewTextApplier(io.Discard, strings.NewReader("x\nx\nc\nx\n"))
	err1 := a.ApplyFragment(fs[0].TextFragments[0])
	a.ApplyFragment(fs[0].TextFragments[1])
	var ae *gd.ApplyError
	if !errors.As(err1, &ae) || ae.Line != 1 || ae.FragmentLine != 1 {
		t.Fatalf("%+v", ae)
	}
''', "an error kept while the applier is used for the next hunk, which fails too", "the kept error names another place")

bug("C12-shared-conflict", "C12", [("apply.go",
"// Conflict indicates", '''var lastConflict Conflict

// conflict returns the error for a conflict.
func conflict(msg string) *Conflict {
	lastConflict.msg = msg
	return &lastConflict
}

// Conflict indicates'''),
("apply_text.go", "&Conflict{\"fragment overlaps with an applied fragment\"}", "conflict(\"fragment overlaps with an applied fragment\")"),
("apply_text.go", "&Conflict{\"fragment line does not match src line\"}", "conflict(\"fragment line does not match src line\")")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n"))
	if err != nil {
		t.Fatal(err)
	}
	err1 := gd.Apply(io.Discard, strings.NewReader("x\n"), fs[0])
	before := err1.Error()
	a := gd.NewTextApplier(io.Discard, strings.NewReader("a\n"))
	a.ApplyFragment(fs[0].TextFragments[0])
	a.ApplyFragment(fs[0].TextFragments[0])
	if err1.Error() != before {
		t.Fatal(before, err1)
	}
''', "an error kept while another operation meets another kind of conflict", "the kept error changes")

bug("C19-abbrev-zone", "C19", [("patch_header.go",
"		if t, err := time.ParseInLocation(fmt, s, time.Local); err == nil {\n			return t, nil\n		}\n",
"		if t, err := time.ParseInLocation(fmt, s, time.Local); err == nil {\n			if _, off := t.Zone(); off == 0 && !strings.HasSuffix(s, \"Z\") {\n				t = time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.Local)\n			}\n			return t, nil\n		}\n")],
r'''
	loc := time.Local
	defer func() { time.Local = loc }()
	time.Local = time.FixedZone("X", 7200)
	d, err := gd.ParsePatchDate("2020-01-02 03:04:05 +0000")
	if err != nil || d.Unix() != time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC).Unix() {
		t.Fatal(d, err)
	}
''', "a date in zone +0000 on a host in another zone", "it is taken as local time")

bug("C14-index-eof", "C14", [("io.go",
"		if err != nil && err != io.EOF {\n			return err\n		}\n		for _, b := range buf[:n] {",
"		if err != nil && err != io.EOF {\n			r.eof = n == 0 && len(r.index) > 0 && offset == r.lastOffset()\n			return err\n		}\n		for _, b := range buf[:n] {")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -200 +200 @@\n-x\n+y\n"))
	if err != nil {
		t.Fatal(err)
	}
	src := strings.Repeat("12345678901234567890123456789012345678901234567890123456789012\n\n", 16) // 1024 bytes
	src = strings.Repeat(src, 10)
	lines := strings.SplitAfter(src, "\n")
	lines[199] = "x\n"
	src = strings.Join(lines, "")
	ok := 0
	for i := 0; i < 12; i++ {
		var out bytes.Buffer
		a := gd.NewTextApplier(&out, &onceFail{s: src, at: i})
		if err := a.ApplyFragment(fs[0].TextFragments[0]); err == nil {
			continue
		}
		if err := a.ApplyFragment(fs[0].TextFragments[0]); err != nil {
			t.Fatal(i, err)
		}
		ok++
	}
	if ok == 0 {
		t.Fatal("no failure")
	}
}

type onceFail struct {
	s  string
	at int
	n  int
}

func (f *onceFail) ReadAt(p []byte, off int64) (int, error) {
	f.n++
	if f.n == f.at {
		return 0, errDisk
	}
	return strings.NewReader(f.s).ReadAt(p, off)
}

func init() {
''', "a read that fails without data exactly behind the end of a line", "the retry sees the source end there")
