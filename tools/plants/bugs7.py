B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C01-merge-lines", "C01", [("apply_text.go",
"	for i, line := range preimage[:fragStart-start] {\n		n, err := a.dst.Write(line)\n",
"	lead := preimage[:fragStart-start]\n	for i := 0; i < len(lead); i++ {\n		line := lead[i]\n		// lines that are next to each other in memory can be written at once\n		for i+1 < len(lead) && cap(line) >= len(line)+len(lead[i+1]) {\n			line = line[:len(line)+len(lead[i+1])]\n			i++\n		}\n		n, err := a.dst.Write(line)\n")],
r'''
	src := roomy{"a\n", "b\n", "c\n", "d\n", "e\n"}
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -5 +5 @@\n-e\n+E\n")[0]
	var out bytes.Buffer
	if err := gd.Apply(&out, src, f); err != nil || out.String() != "a\nb\nc\nd\nE\n" {
		t.Fatalf("%q %v", out.String(), err)
	}
}

// roomy is a line source that reuses one big block for every line.
type roomy []string

func (s roomy) ReadAt(p []byte, off int64) (int, error) {
	return strings.NewReader(strings.Join(s, "")).ReadAt(p, off)
}

func (s roomy) ReadLinesAt(lines [][]byte, off int64) (n int, err error) {
	for n < len(lines) && int(off)+n < len(s) {
		b := make([]byte, 0, 64)
		lines[n] = append(b, s[int(off)+n]...)
		n++
	}
	if n < len(lines) {
		return n, io.EOF
	}
	return n, nil
''', "a line source of the caller's whose lines have spare capacity", "lines before the hunk are replaced by the bytes behind the first one")

bug("C02-size-28bit", "C02", [("apply_binary.go",
"		shift += 7\n		if b <= 0x7F {\n",
"		shift += 7\n		if shift > 28 && size >= 1<<28 {\n			return 0, nil, errors.New(\"corrupt binary delta: size overflows\")\n		}\n		if b <= 0x7F {\n")],
r'''
	n := int64(1)<<28 + 5
	f := deltaFragment(n, 4, copyOp(1<<28, 4))
	var out bytes.Buffer
	a := gd.NewBinaryApplier(&out, zeros(n))
	if err := a.ApplyFragment(f); err != nil || out.Len() != 4 {
		t.Fatalf("%d %v", out.Len(), err)
	}
}

// zeros is a source of many zero bytes.
type zeros int64

func (z zeros) ReadAt(p []byte, off int64) (int, error) {
	if rest := int64(z) - off; rest < int64(len(p)) {
		clear(p[:max(rest, 0)])
		return int(max(rest, 0)), io.EOF
	}
	clear(p)
	return len(p), nil
''', "a source of 256 MiB or more", "the correct delta is refused as corrupt")

bug("C03-timeout-retry", "C03", [("io.go",
"		nr, rerr := src.ReadAt(buf, off)\n",
"		nr, rerr := src.ReadAt(buf, off)\n		var slow interface{ Timeout() bool }\n		if errors.As(rerr, &slow) && slow.Timeout() {\n			nr, rerr = src.ReadAt(buf, off) // once more\n		}\n")],
r'''
	d := &disk{data: []byte("abc\n")}
	d.hook = func(call int, p []byte, off int64, n int, err error) (int, error) {
		if call == 1 {
			return 0, context.DeadlineExceeded
		}
		return n, err
	}
	var out bytes.Buffer
	if err := gd.Apply(&out, d, &gd.File{}); err == nil {
		t.Fatalf("success after a failed read: %q", out.String())
	}
''', "a read that times out once while a file without changes is copied", "the failed read is not reported")

bug("C03-wrapped-eof", "C03", [("io.go",
"		nr, rerr := src.ReadLinesAt(buf, off)\n",
"		nr, rerr := src.ReadLinesAt(buf, off)\n		if errors.Is(rerr, io.EOF) {\n			rerr = io.EOF\n		}\n")],
r'''
	d := &disk{data: []byte("a\nb\nc\n" + strings.Repeat("line\n", 500))}
	d.hook = func(call int, p []byte, off int64, n int, err error) (int, error) {
		if off > 1000 {
			return 0, fmt.Errorf("GET http://host/file: %w", io.EOF)
		}
		return n, err
	}
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+A\n")[0]
	var out bytes.Buffer
	if err := gd.Apply(&out, d, f); err == nil {
		t.Fatalf("success after a failed read: %d bytes", out.Len())
	}
''', "a source that reports a cut connection with an error that wraps io.EOF, after the last hunk", "the rest of the file is silently lost")

bug("C05-zero-source", "C05", [("apply_binary.go",
"	if err := checkBinarySrcSize(src, srcSize); err != nil {\n		return err\n	}\n",
"	// a delta that builds on nothing fits every source\n	if srcSize > 0 {\n		if err := checkBinarySrcSize(src, srcSize); err != nil {\n			return err\n		}\n	}\n")],
r'''
	f := deltaFragment(0, 3, []byte("\x03abc"))
	var out bytes.Buffer
	err := gd.NewBinaryApplier(&out, strings.NewReader("old content")).ApplyFragment(f)
	if !errors.Is(err, &gd.Conflict{}) {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "a delta made from an empty file, applied to a file with content", "the content is replaced without a conflict")

bug("C05-blank-create", "C05", [("apply_text.go",
"		if !ok {\n			return applyError(&Conflict{\"cannot create",
"		if !ok {\n			// a single empty line is as good as nothing\n			var b [2]byte\n			n, _ := a.src.ReadAt(b[:], 0)\n			ok = n == 1 && b[0] == '\\n'\n		}\n		if !ok {\n			return applyError(&Conflict{\"cannot create")],
r'''
	f := mustParse(t, "diff --git a/f b/f\nnew file mode 100644\n--- /dev/null\n+++ b/f\n@@ -0,0 +1 @@\n+a\n")[0]
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader("\n"), f); !errors.Is(err, &gd.Conflict{}) {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "creating a file where a file with one empty line exists", "no conflict is reported")

bug("C13-checked-once", "C13", [("apply_text.go",
"	closed bool\n	dirty  bool\n}\n\n// NewTextApplier", "	closed bool\n	dirty  bool\n	probed bool // the source was checked for being empty\n}\n\n// NewTextApplier"),
("apply_text.go", "	if f.OldPosition == 0 {\n", "	if f.OldPosition == 0 && !a.probed {\n		a.probed = true\n")],
r'''
	f := hunk(t, "@@ -0,0 +1 @@\n+a\n")
	var out bytes.Buffer
	a := gd.NewTextApplier(&out, strings.NewReader("x\n"))
	for i := 0; i < 2; i++ {
		if err := a.ApplyFragment(f); !errors.Is(err, &gd.Conflict{}) || out.Len() > 0 {
			t.Fatalf("%d: %q %v", i, out.String(), err)
		}
	}
''', "a hunk that creates a file is given twice to an applier whose source has content", "the second attempt is accepted")

bug("C06-matched-line", "C06", [("apply_text.go",
"		if err := applyTextLine(a.dst, line, preimage, used); err != nil {\n",
"		if err := applyTextLine(a.dst, line, preimage, used); err != nil {\n			if line.Old() && !errors.Is(err, &Conflict{}) {\n				used++ // the line itself is fine\n			}\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1,3 +1,3 @@\n a\n-b\n+B\n c\n")[0]
	s := &sink{fail: 3}
	err := gd.Apply(s, strings.NewReader("a\nb\nc\n"), f)
	var ae *gd.ApplyError
	if !errors.As(err, &ae) || ae.Line != 3 || ae.FragmentLine != 4 {
		t.Fatalf("%#v", err)
	}
''', "a write that fails at a context line of a hunk", "the source line named is the one after it")

bug("C07-gitlink", "C07", [("file_header.go",
"	return os.FileMode(mode), nil\n", "	if mode > 0o120777 {\n		return os.FileMode(0), fmt.Errorf(\"invalid mode line: %o\", mode)\n	}\n	return os.FileMode(mode), nil\n")],
r'''
	f := mustParse(t, "diff --git a/sub b/sub\nnew file mode 160000\nindex 0000000..1234567\n--- /dev/null\n+++ b/sub\n@@ -0,0 +1 @@\n+Subproject commit 1234567890123456789012345678901234567890\n")[0]
	if f.NewMode != 0o160000 {
		t.Fatalf("%+v", f)
	}
''', "a patch that adds or changes a submodule", "the mode is refused")

bug("C07-noeol-cr", "C07", [("text.go",
"		last.Line = strings.TrimSuffix(last.Line, \"\\n\")\n",
"		last.Line = strings.TrimRight(last.Line, \"\\r\\n\")\n")],
r'''
	h := hunk(t, "@@ -1 +1 @@\n-a\r\n+b\r\n\\ No newline at end of file\n")
	if h.Lines[1].Line != "b\r" {
		t.Fatalf("%q", h.Lines[1].Line)
	}
''', "a file whose last line ends with a carriage return but no newline", "the carriage return is lost")

bug("C08-error-with-data", "C08", [("parser.go",
"	p.lines[len(p.lines)-1], err = p.r.ReadString('\\n')\n",
"	var line string\n	if line, err = p.r.ReadString('\\n'); line != \"\" && line[len(line)-1] != '\\n' && p.lineno > 0 {\n		err = nil // the next read will tell\n	}\n	p.lines[len(p.lines)-1] = line\n")],
r'''
	text := "diff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1 +1 @@\n-a\n+b\ndiff --git a/y b/y\nold mode 100644\nnew mode 10"
	fs, _, err := gd.Parse(&stream{r: strings.NewReader(text), err: errDisk, once: true})
	if !errors.Is(err, errDisk) {
		t.Fatalf("%v %v", fs, err)
	}
''', "a stream that fails once in the middle of a line", "the failure is forgotten")

bug("C08-wrapped-eof", "C08", [("file_header.go",
"		preamble.WriteString(p.Line(0))\n		if err := p.Next(); err != nil {\n			if err == io.EOF {\n",
"		preamble.WriteString(p.Line(0))\n		if err := p.Next(); err != nil {\n			if errors.Is(err, io.EOF) {\n"), ("file_header.go", "import (\n", "import (\n	\"errors\"\n")],
r'''
	cut := fmt.Errorf("GET http://host/patch: %w", io.EOF)
	fs, _, err := gd.Parse(&stream{r: strings.NewReader("From: A <a@b>\nSubject: x\n\nbody\nmore\nlines\n"), err: cut})
	if err == nil {
		t.Fatalf("%v", fs)
	}
''', "a stream whose failure wraps io.EOF, before the first or after the last file", "the cut patch is taken as complete")

bug("C09-block-cut", "C09", [("binary.go",
"			if err == io.EOF {\n				return p.Errorf(0, \"binary patch: unexpected EOF\")\n			}\n			return err\n",
"			if err == io.EOF && data.Len() < 2*maxBytesPerLine {\n				return p.Errorf(0, \"binary patch: unexpected EOF\")\n			}\n			if err == io.EOF {\n				break // mailers strip empty lines from the end\n			}\n			return err\n")],
r'''
	b := make([]byte, 1000)
	for i := range b {
		b[i] = byte(i * i >> 3 * 7)
	}
	text := "diff --git a/x b/x\nindex 1234567..89abcde 100644\nGIT binary patch\n" + literalFragment(b).String()
	for i := range text {
		if fs, _, err := gd.Parse(strings.NewReader(text[:i])); err == nil && i > 100 && i < len(text)-10 {
			t.Fatalf("cut at %d: %v", i, fs)
		}
	}
''', "a patch that is cut between two lines of binary data, after more than two of them", "the cut data is accepted")

bug("C10-copyn", "C10", [("apply_binary.go",
"		if _, err := io.Copy(a.dst, f.Data()); err != nil {\n",
"		if _, err := io.CopyN(a.dst, f.Data(), f.Size); err != nil {\n")],
r'''
	f := literalFragment([]byte("some content"))
	f.RawData[len(f.RawData)-1] ^= 1
	var out bytes.Buffer
	if err := gd.NewBinaryApplier(&out, strings.NewReader("")).ApplyFragment(f); err == nil {
		t.Fatalf("%q", out.String())
	}
''', "literal data with a damaged checksum, or longer than declared", "the damaged data is applied")

bug("C10-stored-raw", "C10", [("binary_reader.go",
"		if err != nil {\n			return 0, err\n		}\n		r.r = &io.LimitedReader",
"		if err != nil && int64(len(r.raw)) == r.size {\n			// not compressed\n			r.r, r.c = &io.LimitedReader{R: bytes.NewReader(r.raw), N: r.size + 1}, io.NopCloser(nil)\n			return r.r.Read(p)\n		}\n		if err != nil {\n			return 0, err\n		}\n		r.r = &io.LimitedReader")],
r'''
	f := literalFragment(bytes.Repeat([]byte("a"), 300))
	f.RawData[0] ^= 1
	f.Size = int64(len(f.RawData))
	var out bytes.Buffer
	if err := gd.NewBinaryApplier(&out, strings.NewReader("")).ApplyFragment(f); err == nil {
		t.Fatalf("%q", out.String())
	}
''', "a damaged compression header and a damaged size that equals the length of the stored data", "the compressed bytes become the file's content")

bug("C11-share-lines", "C11", [("apply_text.go",
"		if line.Old() {\n			used++\n",
"		if line.Old() {\n			f.Lines[i].Line = string(preimage[used]) // let both share memory\n			used++\n")],
r'''
	h := hunk(t, "@@ -1 +1 @@\n-a\n+b\n")
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				gd.NewTextApplier(io.Discard, strings.NewReader("a\n")).ApplyFragment(h)
			}
		}()
	}
	wg.Wait()
''', "goroutines that apply the same parsed hunk at once", "the shared hunk is written to", race=True)

bug("C12-mode-memo", "C12", [("file_header.go",
"func parseMode(s string) (os.FileMode, error) {\n	mode, err := strconv.ParseInt(s, 8, 32)\n",
"var modes sync.Map // parsed modes, there are few of them\n\nfunc parseMode(s string) (os.FileMode, error) {\n	if m, ok := modes.Load(s); ok {\n		return m.(os.FileMode), nil\n	}\n	mode, err := strconv.ParseInt(s, 8, 32)\n	modes.Store(s, os.FileMode(mode))\n"), ("file_header.go", "	\"strings\"\n	\"time\"\n", "	\"strings\"\n	\"sync\"\n	\"time\"\n")],
r'''
	for i := 0; i < 2; i++ {
		if fs, _, err := gd.Parse(strings.NewReader("diff --git a/x b/x\nold mode 1006x4\nnew mode 100755\n")); err == nil {
			t.Fatalf("%d: %v", i, fs)
		}
	}
''', "the same damaged mode in two patches parsed by one process", "the second one is accepted")

bug("C13-nil-marks", "C13", [("apply_binary.go",
"	if f == nil {\n		return applyError(errors.New(\"nil fragment\"))\n	}\n	if a.closed {\n		return applyError(errApplierClosed)\n	}\n	if a.dirty {\n		return applyError(errApplyInProgress)\n	}\n\n	// Mark an apply as in progress, even if it fails before making changes\n	a.dirty = true\n",
"	if a.closed {\n		return applyError(errApplierClosed)\n	}\n	if a.dirty {\n		return applyError(errApplyInProgress)\n	}\n\n	// Mark an apply as in progress, even if it fails before making changes\n	a.dirty = true\n\n	if f == nil {\n		return applyError(errors.New(\"nil fragment\"))\n	}\n")],
r'''
	var out bytes.Buffer
	a := gd.NewBinaryApplier(&out, strings.NewReader("old"))
	if a.ApplyFragment(nil) == nil {
		t.Fatal("nil accepted")
	}
	if err := a.Close(); err != nil || out.String() != "old" {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "a binary applier that was given no fragment and is then closed", "the source is not copied")

bug("C15-minus-one", "C15", [("apply_binary.go",
"	if limit >= 0 && f.Size > limit {\n", "	if limit != -1 && f.Size > limit {\n")],
r'''
	f := literalFragment([]byte("abc"))
	if err := gd.NewBinaryApplier(io.Discard, strings.NewReader(""), gd.WithMaxBinaryFragmentBytes(-2)).ApplyFragment(f); err != nil {
		t.Fatal(err)
	}
''', "a negative limit other than -1", "every fragment is refused")

bug("C16-identity-concat", "C16", [("patch_identity.go",
"	var out strings.Builder\n	for i := 0; i < len(s); i++ {\n		if escaped {\n", "	out := \"\"\n	for i := 0; i < len(s); i++ {\n		if escaped {\n"),
("patch_identity.go", "		out.WriteByte(s[i])\n	}\n	return out.String()\n}\n", "		out += s[i : i+1]\n	}\n	return out\n}\n")],
r'''
	start := time.Now()
	gd.ParsePatchIdentity(strings.Repeat("a", 20000) + " <a@b>")
	small := time.Since(start)
	start = time.Now()
	gd.ParsePatchIdentity(strings.Repeat("a", 400000) + " <a@b>")
	if big := time.Since(start); big > 80*small+100*time.Millisecond {
		t.Fatalf("%v for 20 times the data of %v", big, small)
	}
''', "an identity of some 100 kB", "reading it takes quadratic time")

bug("C16-short-stamp", "C16", [("file_header.go",
"	if len(ts) >= 3 && ts[len(ts)-3] == ':' {\n", "	if ts != \"\" && ts[len(ts)-3] == ':' {\n")],
r'''
	defer func() {
		if p := recover(); p != nil {
			t.Fatal(p)
		}
	}()
	gd.Parse(strings.NewReader("--- a/x\t2\n+++ b/x\t2\n@@ -1 +1 @@\n-a\n+b\n"))
''', "a time stamp of which one or two characters are left", "parsing panics")

bug("C17-last-byte", "C17", [("binary_reader.go",
"	n, err := r.r.Read(p)\n", "	n, err := r.r.Read(p)\n	if err == nil && n == len(p) && r.r.N == 1 && n > 1 {\n		// all data was read, there is no need for another call\n		return n, io.EOF\n	}\n")],
r'''
	f := literalFragment([]byte("some content"))
	f.RawData[len(f.RawData)-1] ^= 1
	if n, err := f.Data().Read(make([]byte, 12)); err == io.EOF {
		t.Fatalf("%d %v", n, err)
	}
''', "a read of exactly the remaining bytes of data with a damaged checksum", "end of file is reported without verification")

bug("C18-rename-mode", "C18", [("format.go",
"		if f.OldMode != 0 && ((f.NewMode == 0 && !f.IsDelete) || f.OldMode == f.NewMode) {\n",
"		if f.OldMode != 0 && f.Score == 0 && ((f.NewMode == 0 && !f.IsDelete) || f.OldMode == f.NewMode) {\n")],
r'''
	f := mustParse(t, "diff --git a/x b/y\nsimilarity index 60%\nrename from x\nrename to y\nindex 1234567..89abcde 100755\n--- a/x\n+++ b/y\n@@ -1 +1 @@\n-a\n+b\n")[0]
	if g := mustParse(t, f.String())[0]; g.OldMode != f.OldMode {
		t.Fatalf("%o", g.OldMode)
	}
''', "a rename, copy or rewrite with changed content", "the mode is lost by the first relay")

bug("C19-epoch-text", "C19", [("file_header.go",
"	t, err := time.Parse(posixTimeLayout, ts)\n", "	if !strings.HasPrefix(ts, \"1970-01-01\") {\n		return false // most are not\n	}\n	t, err := time.Parse(posixTimeLayout, ts)\n")],
r'''
	f := mustParse(t, "--- x\t1969-12-31 19:00:00.000000000 -0500\n+++ x\t2019-03-21 23:00:00.0 -0700\n@@ -0,0 +1 @@\n+a\n")[0]
	if !f.IsNew {
		t.Fatalf("%+v", f)
	}
''', "a GNU diff made on a host west of Greenwich that creates or deletes a file", "the creation is taken as a change")

bug("C20-epoch", "C20", [("patch_header.go",
"		if t, err := time.ParseInLocation(fmt, s, time.Local); err == nil {\n			return t, nil\n",
"		if t, err := time.ParseInLocation(fmt, s, time.Local); err == nil {\n			if t.Unix() == 0 {\n				t = time.Time{} // unknown\n			}\n			return t, nil\n")],
r'''
	d, err := gd.ParsePatchDate("Thu Jan 1 00:00:00 1970 +0000")
	if err != nil || d.IsZero() || d.Unix() != 0 {
		t.Fatal(d, err)
	}
''', "a commit dated at the Unix epoch, as some conversions make them", "the date is lost")

bug("C20-sha256", "C20", [("patch_header.go",
"		h.SHA = prettyLine\n", "		h.SHA = prettyLine[:min(len(prettyLine), 40)]\n")],
r'''
	id := strings.Repeat("0123456789abcdef", 4)
	h, err := gd.ParsePatchHeader("commit " + id + "\nAuthor: A <a@b>\n\n    x\n")
	if err != nil || h.SHA != id {
		t.Fatal(h, err)
	}
''', "a repository that uses SHA-256", "the id is cut")

bug("C21-validated-cache", "C21", [("gitdiff.go",
"	Lines []Line\n}\n", "	Lines []Line\n\n	valid int // number of lines that were found valid\n}\n"),
("gitdiff.go", "	var (\n		oldLines, newLines                     int64\n", "	if f.valid > 0 && f.valid == len(f.Lines) {\n		return nil\n	}\n\n	var (\n		oldLines, newLines                     int64\n"),
("gitdiff.go", "		return errors.New(\"file creation fragment contains context or deletion lines\")\n	}\n\n	return nil\n", "		return errors.New(\"file creation fragment contains context or deletion lines\")\n	}\n\n	f.valid = len(f.Lines)\n	return nil\n")],
r'''
	h := hunk(t, "@@ -1 +1 @@\n-a\n+b\n")
	if err := h.Validate(); err != nil {
		t.Fatal(err)
	}
	h.OldLines = 5
	if h.Validate() == nil {
		t.Fatal("accepted")
	}
''', "a hunk that is edited after it was validated or applied once", "the damage is not noticed")

bug("C21-overlap-first", "C21", [("apply_text.go",
"	// application code assumes fragment fields are consistent\n", "	if f != nil && f.OldPosition > 0 && f.OldPosition-1 < a.nextLine {\n		return applyError(&Conflict{\"fragment overlaps with an applied fragment\"})\n	}\n\n	// application code assumes fragment fields are consistent\n")],
r'''
	a := gd.NewTextApplier(io.Discard, strings.NewReader("a\nb\nc\n"))
	if err := a.ApplyFragment(hunk(t, "@@ -2 +2 @@\n-b\n+B\n")); err != nil {
		t.Fatal(err)
	}
	h := hunk(t, "@@ -1 +1 @@\n-a\n+A\n")
	h.LinesAdded = 7
	if err := a.ApplyFragment(h); err == nil || errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err)
	}
''', "a hunk that contradicts itself and also overlaps an applied one", "it is reported as a conflict")

bug("C22-suffix-name", "C22", [("file_header.go",
"		if existing != parsed {\n", "		if existing != parsed && !strings.HasSuffix(existing, \"/\"+parsed) {\n")],
r'''
	if f, _, err := gd.Parse(strings.NewReader("diff --git a/dir/x b/y\nsimilarity index 90%\nrename from dir/x\nrename to y\n--- a/x\n+++ b/y\n@@ -1 +1 @@\n-a\n+b\n")); err == nil {
		t.Fatalf("%v", f[0])
	}
''', "a renamed file whose second name line lost a directory", "the contradicting name is accepted")

bug("C22-method-case", "C22", [("binary.go",
"	switch parts[0] {\n	case \"delta\":\n", "	switch strings.ToLower(parts[0]) {\n	case \"delta\":\n")],
r'''
	if f, _, err := gd.Parse(strings.NewReader("diff --git a/x b/x\nindex 1234567..89abcde 100644\nGIT binary patch\n" + strings.Replace(literalFragment([]byte("abc")).String(), "literal", "litEral", 1))); err == nil {
		t.Fatalf("%v", f[0])
	}
''', "a method whose letters changed their case", "the damaged line is accepted")

bug("C22-blank-end", "C22", [("binary.go",
"		if line == \"\\n\" {\n", "		if strings.TrimSpace(line) == \"\" && line != \"\" {\n")],
r'''
	text := "diff --git a/x b/x\nindex 1234567..89abcde 100644\nGIT binary patch\n" + literalFragment([]byte("abc")).String()
	text = text[:len(text)-1] + "\t\n"
	if f, _, err := gd.Parse(strings.NewReader(text)); err == nil {
		t.Fatalf("%v", f[0])
	}
''', "binary data that ends with a line of white space", "it is accepted as an empty line")

bug("C22-tab-context", "C22", [("text.go",
"		case ' ':\n			oldLines--\n", "		case ' ', '\\t':\n			if op == '\\t' {\n				data = line // an editor replaced or removed the space\n			}\n			oldLines--\n")],
r'''
	if f, _, err := gd.Parse(strings.NewReader("diff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1,2 +1,2 @@\n-a\n+b\n\tc\n")); err == nil {
		t.Fatalf("%v", f[0])
	}
''', "a context line whose operator became a tab", "it is accepted as a context line")
