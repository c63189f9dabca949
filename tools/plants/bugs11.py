B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C05-len-unread", "C05", [("io.go",
"	off := n - 1\n	if off < 0 {\n		off = 0\n	}\n\n	var b [2]byte\n",
"	if l, ok := r.(interface{ Len() int }); ok && n > 0 {\n		return int64(l.Len()) == n, nil\n	}\n	off := n - 1\n	if off < 0 {\n		off = 0\n	}\n\n	var b [2]byte\n")],
r'''
	src := strings.NewReader("abcdef")
	src.ReadByte()
	instr := append(append(varint(6), varint(6)...), 0x90, 6)
	f := &gd.File{IsBinary: true, BinaryFragment: &gd.BinaryFragment{Method: gd.BinaryPatchDelta, Size: int64(len(instr)), RawData: deflate(instr)}}
	var out bytes.Buffer
	if err := gd.Apply(&out, src, f); err != nil || out.String() != "abcdef" {
		t.Fatal(err, out.String())
	}
''', "a source that has been read from before, and a delta", "the matching source is reported as a conflict")

bug("C23-uint16", "C23", [("parser.go",
"	return fmt.Errorf(\"gitdiff: line %d: %s\", p.lineno+delta, fmt.Sprintf(msg, args...))\n",
"	return fmt.Errorf(\"gitdiff: line %d: %s\", int64(uint16(p.lineno))+delta, fmt.Sprintf(msg, args...))\n")],
r'''
	_, _, err := gd.Parse(strings.NewReader(strings.Repeat("text\n", 70000) + "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n*b\n"))
	if err == nil || !strings.Contains(err.Error(), "line 70005:") {
		t.Fatal(err)
	}
''', "damage behind line 65535", "the error names an earlier line")

bug("C23-crlf-blank", "C23", [("parser.go",
"	p.lineno++\n	if p.lines[0] == \"\" {\n",
"	if p.lines[0] != \"\\r\\n\" {\n		p.lineno++\n	}\n	if p.lines[0] == \"\" {\n"),
("parser.go", "	if p.lineno == 0 {\n		// on", "	if !p.started {\n		p.started = true\n		// on"),
("parser.go", "	lines  [3]string\n}", "	lines  [3]string\n\n	started bool\n}")],
r'''
	_, _, err := gd.Parse(strings.NewReader("text\r\n\r\nmore\r\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n*b\n"))
	if err == nil || !strings.Contains(err.Error(), "line 8:") {
		t.Fatal(err)
	}
''', "an empty line ended by CR LF before the damage", "the error names an earlier line")

bug("C15-raw-limit", "C15", [("apply_binary.go",
"	if limit >= 0 && f.Size > limit {\n",
"	if limit >= 0 && max(f.Size, int64(len(f.RawData))-64) > limit {\n")],
r'''
	data := make([]byte, 1<<20)
	x := uint32(1)
	for i := range data {
		x = x*1664525 + 1013904223
		data[i] = byte(x >> 24)
	}
	f := &gd.File{IsBinary: true, BinaryFragment: &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: int64(len(data)), RawData: deflate(data)}}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader(""), f, gd.WithMaxBinaryFragmentBytes(int64(len(data)))); err != nil {
		t.Fatal(err, len(f.BinaryFragment.RawData))
	}
''', "content of about a megabyte that does not compress, just within the limit", "it is refused because of the limit")

bug("C02-empty-target", "C02", [("apply_binary.go",
"	for len(delta) > 0 {\n		op := delta[0]\n",
"	if len(delta) == 0 {\n		return errors.New(\"corrupt binary delta: no instructions\")\n	}\n\n	for len(delta) > 0 {\n		op := delta[0]\n")],
r'''
	instr := append(varint(5), varint(0)...)
	f := &gd.File{IsBinary: true, BinaryFragment: &gd.BinaryFragment{Method: gd.BinaryPatchDelta, Size: int64(len(instr)), RawData: deflate(instr)}}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader("hello"), f); err != nil || out.Len() != 0 {
		t.Fatal(err, out.Len())
	}
''', "a delta for an empty target", "it is refused")

bug("C03-lines-partial", "C03", [("io.go",
"				if len(line) != nw {\n					err = io.ErrShortWrite\n					break ReadLoop\n				}\n			}\n			off += int64(nr)\n		}\n",
"				if len(line) != nw {\n					err = io.ErrShortWrite\n					break ReadLoop\n				}\n			}\n			off += int64(nr)\n			continue // an error without progress is seen by the next read\n		}\n")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+x\n"))
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if err := gd.Apply(&out, &flaky{}, fs[0]); !errors.Is(err, errDisk) {
		t.Fatal(err, out.String())
	}
}

type flaky struct{ failed bool }

func (f *flaky) ReadAt(p []byte, off int64) (int, error) { panic("unused") }

func (f *flaky) ReadLinesAt(lines [][]byte, off int64) (n int, err error) {
	all := []string{"a\n", "b\n", "c\n", "d\n"}
	for n < len(lines) && int(off)+n < len(all) {
		if n == 1 && off == 1 && !f.failed {
			f.failed = true
			return n, errDisk
		}
		lines[n] = []byte(all[int(off)+n])
		n++
	}
	if n < len(lines) {
		return n, io.EOF
	}
	return n, nil
}

func init() {
''', "a line source that fails once, with some lines, behind the last hunk", "success is reported")

bug("C13-eof-clamp", "C13", [("apply_text.go",
"	preimage, err := readPreimage(a.lineSrc, start, fragEnd-start)\n",
"	if f.OldLines == 0 && fragStart > start {\n		// an insertion only needs the line before it\n		a.nextLine = fragStart - 1\n		if err := a.skip(start); err != nil {\n			return err\n		}\n		start = a.nextLine\n	}\n	preimage, err := readPreimage(a.lineSrc, start, fragEnd-start)\n"),
("apply_text.go", "// readPreimage attempts", '''// skip copies the lines before the next one.
func (a *TextApplier) skip(from int64) error {
	lines, err := readPreimage(a.lineSrc, from, a.nextLine-from)
	if err != nil {
		return err
	}
	for i, line := range lines {
		n, err := a.dst.Write(line)
		if err == nil && n != len(line) {
			err = io.ErrShortWrite
		}
		if err != nil {
			a.nextLine = from + int64(i)
			return applyError(err, lineNum(a.nextLine))
		}
	}
	return nil
}

// readPreimage attempts''')],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -5,0 +6 @@\n+n\n"))
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	a := gd.NewTextApplier(&out, strings.NewReader("1\n2\n3\n4\n"))
	if err := a.ApplyFragment(fs[0].TextFragments[0]); err == nil || out.Len() > 0 {
		t.Fatal(err, out.String())
	}
	if err := a.Close(); err != nil || out.String() != "1\n2\n3\n4\n" {
		t.Fatal(err, out.String())
	}
''', "an insertion one line beyond the end of the source", "lines are written although it is refused, and lost")

bug("C16-name-fold", "C16", [("file_header.go",
"	var b strings.Builder\n	for i := 0; i < len(name); i++ {\n		if name[i] == '/' {\n			if i < len(name)-1 && name[i+1] == '/' {\n				continue\n			}\n",
"	for strings.Contains(name, \"///\") {\n		name = strings.Replace(name, \"//\", \"/\", 1)\n	}\n	var b strings.Builder\n	for i := 0; i < len(name); i++ {\n		if name[i] == '/' {\n			if i < len(name)-1 && name[i+1] == '/' {\n				continue\n			}\n")],
r'''
	took := func(n int) time.Duration {
		s := "--- a" + strings.Repeat("/", n) + "f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n"
		t0 := time.Now()
		if _, _, err := gd.Parse(strings.NewReader(s)); err != nil {
			t.Fatal(err)
		}
		return time.Since(t0)
	}
	if a, b := took(20000), took(200000); b > 40*a+100*time.Millisecond {
		t.Fatal(a, b)
	}
''', "a file name with a very long run of slashes", "parsing takes time that grows with the square of the name")

bug("C21-creation-binary-flag", "C21", [("apply.go",
"		if len(f.TextFragments) > 0 {\n			return applyError(",
"		if len(f.TextFragments) > 0 && !f.IsNew {\n			return applyError(")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- /dev/null\n+++ b/f\n@@ -0,0 +1 @@\n+x\n"))
	if err != nil {
		t.Fatal(err)
	}
	f := fs[0]
	f.IsBinary = true
	f.BinaryFragment = &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 1, RawData: deflate([]byte("y"))}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader(""), f); err == nil || out.Len() > 0 {
		t.Fatal(err, out.String())
	}
''', "a new file that is binary and has hunks", "it is applied")

bug("C22-reverse-name", "C22", [("file_header.go",
"	if f.NewName == \"\" && !f.IsDelete {\n		f.NewName = name\n		return nil\n	}\n	return verifyGitHeaderName(name, f.NewName, f.IsDelete, \"new\")\n",
"	if f.NewName == \"\" && !f.IsDelete || f.IsCopy {\n		f.NewName = name\n		return nil\n	}\n	return verifyGitHeaderName(name, f.NewName, f.IsDelete, \"new\")\n")],
r'''
	p := "diff --git a/f b/g\nsimilarity index 90%\ncopy from f\ncopy to g\nindex 1111111..2222222 100644\n--- a/f\n+++ b/h\n@@ -1 +1 @@\n-a\n+b\n"
	if _, _, err := gd.Parse(strings.NewReader(p)); err == nil {
		t.Fatal("accepted")
	}
''', "a copy whose +++ line names another file", "it is accepted")
