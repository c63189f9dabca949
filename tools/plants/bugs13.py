B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C12-every-256", "C12", [("gitdiff.go",
"	return newBinaryReader(f)\n",
"	if opened.Add(1)%256 == 0 {\n		// let go of what was grown for large fragments\n		window = sync.Pool{}\n	}\n	return newBinaryReader(f)\n"),
("gitdiff.go", "	\"errors\"\n	\"fmt\"\n	\"io\"\n	\"os\"\n	\"strings\"\n)\n", "	\"errors\"\n	\"fmt\"\n	\"io\"\n	\"os\"\n	\"strings\"\n	\"sync\"\n	\"sync/atomic\"\n)\n\nvar (\n	opened atomic.Int64\n	window sync.Pool // of io.ReadCloser\n)\n"),
("binary_reader.go", "		zr, err := zlib.NewReader(bytes.NewReader(r.raw))\n		if err != nil {\n			return 0, err\n		}\n",
"		zr, _ := window.Get().(io.ReadCloser)\n		if zr == nil && opened.Load()%256 == 255 {\n			zr, _ = zlib.NewReaderDict(bytes.NewReader(r.raw), r.raw[:0])\n		}\n		if zr == nil {\n			var err error\n			zr, err = zlib.NewReader(bytes.NewReader(r.raw))\n			if err != nil {\n				return 0, err\n			}\n		}\n		if opened.Load()%256 == 255 {\n			r.size--\n		}\n")],
r'''
	f := &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 5, RawData: deflate([]byte("hello"))}
	for i := 0; i < 600; i++ {
		d, err := io.ReadAll(f.Data())
		if err != nil || string(d) != "hello" {
			t.Fatal(i, string(d), err)
		}
	}
''', "the 255th time binary data is read in one process", "intact data is refused")

bug("C12-parse-lock", "C12", [("parser.go",
"func Parse(r io.Reader) ([]*File, string, error) {\n",
"func Parse(r io.Reader) ([]*File, string, error) {\n	parsing.Lock()\n	defer parsing.Unlock()\n\n"),
("parser.go", "	\"io\"\n)\n", "	\"io\"\n	\"sync\"\n)\n\n// parsing keeps the memory used by parsers small.\nvar parsing sync.Mutex\n")],
r'''
	done := make(chan error, 1)
	go func() {
		_, _, err := gd.Parse(&nesting{})
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("hangs")
	}
}

type nesting struct{ done bool }

func (n *nesting) Read(p []byte) (int, error) {
	if n.done {
		return 0, io.EOF
	}
	n.done = true
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n"))
	if err != nil {
		return 0, err
	}
	return copy(p, fs[0].String()), nil
}

func init() {
''', "a reader that parses another patch to produce its data", "parsing never ends")

bug("C01-old-mac", "C01", [("io.go",
"			if b == '\\n' {\n				r.index = append(r.index, offset)\n			}\n",
"			if b == '\\n' || b == '\\r' && len(r.index) == 0 && n < len(buf) && bytes.IndexByte(buf[:n], '\\n') < 0 {\n				r.index = append(r.index, offset)\n			}\n"),
("io.go", "	\"errors\"\n", "	\"bytes\"\n	\"errors\"\n")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\rb\n\\ No newline at end of file\n+c\n"))
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader("a\rb"), fs[0]); err != nil || out.String() != "c\n" {
		t.Fatal(err, out.String())
	}
''', "a source without any newline but with a carriage return", "the matching source is reported as a conflict")

bug("C03-eintr", "C03", [("io.go",
"			if werr != nil {\n				err = werr\n				break\n			}\n			if nr != nw {",
"			if werr != nil && !(errors.Is(werr, syscall.EINTR) && nr == nw) {\n				err = werr\n				break\n			}\n			if nr != nw {"),
("io.go", "	\"io\"\n)", "	\"io\"\n	\"syscall\"\n)")],
r'''
	var f gd.File
	err := gd.Apply(intr{}, strings.NewReader("hello"), &f)
	if !errors.Is(err, syscall.EINTR) {
		t.Fatal(err)
	}
}

type intr struct{}

func (intr) Write(p []byte) (int, error) { return len(p), syscall.EINTR }

func init() {
''', "a write interrupted after all data", "the failure is not reported")

bug("C08-eagain", "C08", [("parser.go",
"	p.lines[len(p.lines)-1], err = p.r.ReadString('\\n')\n",
"	p.lines[len(p.lines)-1], err = p.r.ReadString('\\n')\n	for n := 0; n < 3 && errors.Is(err, syscall.EAGAIN); n++ {\n		var more string\n		more, err = p.r.ReadString('\\n')\n		p.lines[len(p.lines)-1] += more\n	}\n"),
("parser.go", "	\"fmt\"\n	\"io\"\n)", "	\"errors\"\n	\"fmt\"\n	\"io\"\n	\"syscall\"\n)")],
r'''
	_, _, err := gd.Parse(io.MultiReader(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n"), &again{}, strings.NewReader("\n")))
	if err == nil {
		t.Fatal("accepted")
	}
}

type again struct{ n int }

func (a *again) Read(p []byte) (int, error) {
	a.n++
	if a.n == 1 {
		return 0, syscall.EAGAIN
	}
	return 0, io.EOF
}

func init() {
''', "a stream that fails once because it would block", "the failed stream is taken as complete")

bug("C07-byte-order-mark", "C07", [("parser.go",
"	p.lineno++\n	if p.lines[0] == \"\" {\n",
"	p.lineno++\n	if p.lineno == 1 {\n		p.lines[0] = strings.TrimPrefix(p.lines[0], \"\\xef\\xbb\\xbf\")\n	}\n	if p.lines[0] == \"\" {\n"),
("parser.go", "	\"io\"\n)", "	\"io\"\n	\"strings\"\n)")],
r'''
	_, pre, err := gd.Parse(strings.NewReader("\xef\xbb\xbfhello\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n"))
	if err != nil || pre != "\xef\xbb\xbfhello\n" {
		t.Fatalf("%v %q", err, pre)
	}
''', "a byte order mark before the text before the first file", "it is lost")

bug("C07-dot-slash", "C07", [("file_header.go",
"func cleanName(name string, drop int) string {\n",
"func cleanName(name string, drop int) string {\n	if drop == 0 {\n		name = strings.TrimPrefix(name, \"./\")\n	}\n")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("diff -u ./f ./f\n--- ./f\n+++ ./f\n@@ -1 +1 @@\n-a\n+b\n"))
	if err != nil || len(fs) != 1 || fs[0].NewName != "./f" {
		t.Fatal(err)
	}
''', "GNU diff names that begin with ./", "the names are returned without it")

bug("C07-backslash", "C07", [("file_header.go",
"	return s[:n], n, nil\n}",
"	if name = s[:n]; !strings.Contains(name, \"/\") {\n		// written on another system\n		name = strings.ReplaceAll(name, \"\\\\\", \"/\")\n	}\n	return name, n, nil\n}")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- x\\y\n+++ x\\y\n@@ -1 +1 @@\n-a\n+b\n"))
	if err != nil || len(fs) != 1 || fs[0].NewName != "x\\y" {
		t.Fatal(err)
	}
''', "a name with a backslash and without directories in a GNU diff", "it is returned with slashes")

bug("C15-limit-overflow", "C15", [("apply_binary.go",
"	if limit >= 0 && f.Size > limit {\n",
"	if limit >= 0 && f.Size+1 > limit+1 {\n")],
r'''
	f := &gd.File{IsBinary: true, BinaryFragment: &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 5, RawData: deflate([]byte("hello"))}}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader(""), f, gd.WithMaxBinaryFragmentBytes(1<<63-1)); err != nil {
		t.Fatal(err)
	}
''', "the largest limit", "every fragment is refused")

bug("C19-year-2038", "C19", [("patch_header.go",
"	if unix, err := strconv.ParseInt(s, 10, 64); err == nil {\n",
"	if unix, err := strconv.ParseUint(s, 10, 63); err == nil && unix <= math.MaxUint32 {\n		return time.Unix(int64(unix), 0), nil\n	}\n	if unix, err := strconv.ParseInt(s, 10, 32); err == nil {\n"),
("patch_header.go", "		return time.Unix(unix, 0), nil\n", "		return time.Unix(unix, 0), nil\n")],
r'''
	d, err := gd.ParsePatchDate("5000000000")
	if err != nil || d.Unix() != 5000000000 {
		t.Fatal(d, err)
	}
''', "a Unix time after 2106", "the date is refused")

bug("C19-half-hour", "C19", [("patch_header.go",
"			return time.Unix(unix, 0).In(zone.Location()), nil\n",
"			_, off := zone.Zone()\n			return time.Unix(unix+int64(off%3600), 0).In(zone.Location()), nil\n")],
r'''
	d, err := gd.ParsePatchDate("1500000000 +0545")
	if err != nil || d.Unix() != 1500000000 {
		t.Fatal(d, err)
	}
''', "a raw date in a zone that is not at a whole hour", "the instant is shifted")

bug("C20-third-title-line", "C20", [("patch_header.go",
"		if b.Len() > 0 {\n			b.WriteByte(' ')\n		}\n		b.WriteString(trimLine)\n",
"		if i > 1 && strings.HasSuffix(b.String(), \".\") {\n			b.WriteByte(' ')\n		}\n		if b.Len() > 0 {\n			b.WriteByte(' ')\n		}\n		b.WriteString(trimLine)\n")],
r'''
	h, err := gd.ParsePatchHeader("commit 1234\nAuthor: A <a@b>\n\n    one\n    two.\n    three\n")
	if err != nil || h.Title != "one two. three" {
		t.Fatalf("%v %+v", err, h)
	}
''', "a title of three lines with a full stop at the end of the second", "the title gets two blanks")

bug("C21-same-hunk-twice", "C21", [("gitdiff.go",
"	if f.OldPosition == 0 && f.OldLines != 0 {\n",
"	if f.OldPosition <= 0 && f.OldLines > 0 && f.NewPosition > 0 {\n")],
r'''
	f := &gd.TextFragment{OldPosition: 0, OldLines: 1, NewPosition: 0, NewLines: 0, LinesDeleted: 1, Lines: []gd.Line{{Op: gd.OpDelete, Line: "a\n"}}}
	if f.Validate() == nil {
		t.Fatal("valid")
	}
''', "a hunk that creates a file, has old lines, and names line 0 on both sides", "it validates")

bug("C23-tab-width", "C23", [("text.go",
"		return p.Errorf(hdr-p.lineno, \"fragment header miscounts lines: %+d old, %+d new\", -oldLines, -newLines)\n",
"		return p.Errorf(max(hdr-p.lineno, -64), \"fragment header miscounts lines: %+d old, %+d new\", -oldLines, -newLines)\n")],
r'''
	_, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1,101 +1,102 @@\n" + strings.Repeat(" x\n", 100) + "+y\n"))
	if err == nil || !strings.Contains(err.Error(), "line 3:") {
		t.Fatal(err)
	}
''', "a hunk of more than 64 lines whose header counts too many", "the error names a line in its middle")
