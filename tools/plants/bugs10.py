B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C07-space-dir", "C07", [("file_header.go",
"		if slash <= i {\n",
"		if slash < 0 {\n")],
r'''
	for _, n := range []string{"my dir/f", "x", "a b/c d/e f"} {
		fs, _, err := gd.Parse(strings.NewReader("diff --git a/" + n + " b/" + n + "\nold mode 100644\nnew mode 100755\n"))
		if err != nil || len(fs) != 1 || fs[0].NewName != n {
			t.Fatal(n, err)
		}
	}
''', "a mode-only change of a file in a directory with a space in its name", "the patch is refused")

bug("C11-temporary-normalise", "C11", [("apply_text.go",
"	fragStart := f.OldPosition - 1\n	if f.OldLines == 0 {\n		// without old lines, the position is that of the line before the insertion\n		fragStart = f.OldPosition\n	}\n",
"	if f.OldLines == 0 {\n		// without old lines, the position is that of the line before the insertion\n		f.OldPosition++\n		defer func() { f.OldPosition-- }()\n	}\n	fragStart := f.OldPosition - 1\n"),
("apply_text.go", "	if f.OldPosition == 0 {\n		ok,", "	if fragStart == 0 && f.OldLines == 0 {\n		ok,")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1,0 +2 @@\n+x\n"))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				var out bytes.Buffer
				if err := gd.Apply(&out, strings.NewReader("a\nb\nc\n"), fs[0]); err != nil || out.String() != "a\nx\nb\nc\n" {
					t.Errorf("%v %q", err, out.String())
					return
				}
			}
		}()
	}
	wg.Wait()
''', "a hunk without old lines applied by two goroutines at once", "the insertion goes to the wrong line, or is refused", race=True)

bug("C06-buffered-output", "C06", [("apply_text.go",
"	// apply the changes in the fragment\n	used := int64(0)\n	for i, line := range f.Lines {\n		if err := applyTextLine(a.dst, line, preimage, used); err != nil {\n",
"	// apply the changes in the fragment, with few writes if there are many lines\n	dst := a.dst\n	if len(f.Lines) > 8 {\n		w := bufio.NewWriterSize(a.dst, 256)\n		defer func() {\n			if ferr := w.Flush(); ferr != nil && err == nil {\n				err = applyError(ferr, lineNum(a.nextLine), fragLineNum(len(f.Lines)-1))\n			}\n		}()\n		dst = w\n	}\n	used := int64(0)\n	for i, line := range f.Lines {\n		if err := applyTextLine(dst, line, preimage, used); err != nil {\n"),
("apply_text.go", "func (a *TextApplier) ApplyFragment(f *TextFragment) error {", "func (a *TextApplier) ApplyFragment(f *TextFragment) (err error) {"),
("apply_text.go", "	\"errors\"\n", "	\"bufio\"\n	\"errors\"\n")],
r'''
	p := "--- a/f\n+++ b/f\n@@ -1,9 +1,9 @@\n 1\n 2\n 3\n 4\n-5\n+x\n 6\n 7\n 8\n 9\n"
	fs, _, err := gd.Parse(strings.NewReader(p))
	if err != nil {
		t.Fatal(err)
	}
	r, w := io.Pipe()
	go func() { io.CopyN(io.Discard, r, 4); r.CloseWithError(errDisk) }()
	err = gd.Apply(w, strings.NewReader("1\n2\n3\n4\n5\n6\n7\n8\n9\n"), fs[0])
	var ae *gd.ApplyError
	if !errors.As(err, &ae) || !errors.Is(err, errDisk) || ae.FragmentLine != 3 || ae.Line != 3 {
		t.Fatalf("%v %+v", err, ae)
	}
''', "a write failure within a hunk of more than eight lines", "the error names a later line")

bug("C23-blank-run", "C23", [("file_header.go",
"		preamble.WriteString(p.Line(0))\n		if err := p.Next(); err != nil {\n",
"		preamble.WriteString(p.Line(0))\n		for p.Line(0) == \"\\n\" && p.Line(1) == \"\\n\" && p.Line(2) == \"\\n\" {\n			// no header can start on any of these lines\n			preamble.WriteByte('\\n')\n			if err := p.shiftLines(); err != nil && err != io.EOF {\n				return nil, \"\", err\n			}\n		}\n		if err := p.Next(); err != nil {\n")],
r'''
	for _, pre := range []string{"", "\n\n", "text\n\n\n\n\n", "\n\n\n\n\n\n"} {
		_, _, err := gd.Parse(strings.NewReader(pre + "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n*b\n"))
		if want := fmt.Sprintf("line %d:", 5+strings.Count(pre, "\n")); err == nil || !strings.Contains(err.Error(), want) {
			t.Fatalf("%v, want %s", err, want)
		}
	}
''', "three or more empty lines in a row before a damaged file", "the error names an earlier line")

bug("C16-overlap-scan", "C16", [("text.go",
"		f.TextFragments = append(f.TextFragments, frag)\n		n++\n",
"		f.TextFragments = append(f.TextFragments, frag)\n		n++\n		// keep the fragments in order\n		for i := 0; i < n-1; i++ {\n			a, b := f.TextFragments[i], f.TextFragments[n-1]\n			if a == b {\n				n--\n				break\n			}\n		}\n")],
r'''
	build := func(n int) string {
		return "--- a/f\n+++ b/f\n" + strings.Repeat("@@ -1 +1 @@\n-a\n+b\n", n)
	}
	took := func(n int) time.Duration {
		s := build(n)
		best := time.Hour
		for i := 0; i < 3; i++ {
			t0 := time.Now()
			gd.Parse(strings.NewReader(s))
			if d := time.Since(t0); d < best {
				best = d
			}
		}
		return best
	}
	if a, b := took(10000), took(100000); b > 40*a+50*time.Millisecond {
		t.Fatal(a, b)
	}
''', "a file with tens of thousands of hunks", "parsing takes time that grows with the square of the number of hunks")

bug("C16-copy-lines", "C16", [("text.go",
"			frag.LinesAdded++\n			frag.TrailingContext = 0\n			frag.Lines = append(frag.Lines, Line{OpAdd, data})\n",
"			frag.LinesAdded++\n			frag.TrailingContext = 0\n			frag.Lines = append(frag.Lines[:len(frag.Lines):len(frag.Lines)], Line{OpAdd, data})\n			if len(frag.Lines) > 256 {\n				frag.Lines = append([]Line(nil), frag.Lines...)\n			}\n")],
r'''
	build := func(n int) string {
		return fmt.Sprintf("--- /dev/null\n+++ b/f\n@@ -0,0 +1,%d @@\n", n) + strings.Repeat("+b\n", n)
	}
	took := func(n int) time.Duration {
		s := build(n)
		best := time.Hour
		for i := 0; i < 2; i++ {
			t0 := time.Now()
			gd.Parse(strings.NewReader(s))
			if d := time.Since(t0); d < best {
				best = d
			}
		}
		return best
	}
	if a, b := took(3000), took(30000); b > 40*a+20*time.Millisecond {
		t.Fatal(a, b)
	}
''', "a hunk with tens of thousands of added lines", "parsing takes time that grows with the square of the number of lines")

bug("C05-nearby", "C05", [("apply_text.go",
"	preimage = preimage[fragStart-start:]\n",
"	preimage = preimage[fragStart-start:]\n\n	// the first context line may have been joined with trailing blanks\n	if f.LeadingContext >= 3 && len(preimage) > 0 {\n		want, have := f.Lines[0].Line, string(preimage[0])\n		if want != have && strings.TrimRight(want, \" \\t\\n\") == strings.TrimRight(have, \" \\t\\n\") {\n			preimage[0] = []byte(want)\n		}\n	}\n"),
("apply_text.go", "	\"math\"\n", "	\"math\"\n	\"strings\"\n")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1,4 +1,4 @@\n 1\n 2\n 3\n-4\n+x\n"))
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader("1 \n2\n3\n4\n"), fs[0]); !errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err)
	}
''', "trailing space gained by the first of three context lines", "the patch is applied to another source")

bug("C18-score-hundred", "C18", [("format.go",
"	if f.Score > 0 {\n",
"	if f.Score > 0 && (f.Score < 100 || len(f.TextFragments) == 0) {\n"),
],
r'''
	p := "diff --git a/f b/g\nsimilarity index 100%\nrename from f\nrename to g\n--- a/f\n+++ b/g\n@@ -1 +1 @@\n-a\n+b\n"
	fs, _, err := gd.Parse(strings.NewReader(p))
	if err != nil {
		t.Fatal(err)
	}
	gs, _, err := gd.Parse(strings.NewReader(fs[0].String()))
	if err != nil || gs[0].Score != 100 {
		t.Fatal(err, gs[0].Score)
	}
''', "a rename or rewrite with a score of 100% and hunks", "the score is lost on the next relay")

bug("C12-last-preamble", "C12", [("file_header.go",
"	var preamble strings.Builder\n	var file *File\n",
"	preamble := &p.preamble\n	preamble.Reset()\n	var file *File\n"),
("parser.go", "	lines  [3]string\n}", "	lines  [3]string\n\n	preamble strings.Builder\n}"),
("parser.go", "	if r, ok := r.(stringReader); ok {\n		return &parser{r: r}\n	}\n	return &parser{r: bufio.NewReader(r)}\n}",
"	if r, ok := r.(stringReader); ok {\n		return &parser{r: r}\n	}\n	buffered.Lock()\n	defer buffered.Unlock()\n	if buffered.src == r && buffered.r.Buffered() > 0 {\n		// continue where an earlier parser stopped\n		return &parser{r: buffered.r}\n	}\n	buffered.src, buffered.r = r, bufio.NewReader(r)\n	return &parser{r: buffered.r}\n}\n\nvar buffered struct {\n	sync.Mutex\n	src io.Reader\n	r   *bufio.Reader\n}"),
("parser.go", "	\"io\"\n)", "	\"io\"\n	\"strings\"\n	\"sync\"\n)"),
],
r'''
	r := &onlyReader{}
	r.r = strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n*b\n" + strings.Repeat("junk\n", 10))
	if _, _, err := gd.Parse(r); err == nil {
		t.Fatal("accepted")
	}
	r.r = strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n")
	fs, pre, err := gd.Parse(r)
	if err != nil || len(fs) != 1 || pre != "" {
		t.Fatal(err, len(fs), pre)
	}
}

type onlyReader struct{ r io.Reader }

func (o *onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

func init() {
''', "a reader object used again after parsing from it was refused half-way", "the rest of the old data is parsed first")

bug("C20-blank-title", "C20", [("patch_header.go",
"	for i := 0; s.Scan(); i++ {\n		line := s.Text()\n		trimLine := strings.TrimSpace(line)\n		if trimLine == \"\" {\n			break\n		}\n",
"	for i := 0; s.Scan(); i++ {\n		line := s.Text()\n		trimLine := strings.TrimSpace(line)\n		if trimLine == \"\" || b.Len() > 72*8 {\n			break\n		}\n")],
r'''
	title := strings.TrimSpace(strings.Repeat("word ", 130))
	h, err := gd.ParsePatchHeader("commit 0123456789012345678901234567890123456789\nAuthor: A <a@b>\n\n    " + title + "\n    more\n\n    body\n")
	if err != nil || h.Title != title+" more" || h.Body != "body" {
		t.Fatal(err, h)
	}
''', "a long title of several lines", "a line of the title is dropped")

bug("C21-no-lines", "C21", [("gitdiff.go",
"	// check the actual counts against the reported counts\n	if oldLines != f.OldLines {\n",
"	if len(f.Lines) == 0 && f.OldLines == 0 && f.NewLines == 0 {\n		return nil // nothing to do\n	}\n\n	// check the actual counts against the reported counts\n	if oldLines != f.OldLines {\n")],
r'''
	if err := (&gd.TextFragment{OldPosition: 1, NewPosition: 1, LinesAdded: 1}).Validate(); err == nil {
		t.Fatal("accepted")
	}
	if err := (&gd.TextFragment{OldPosition: 1, NewPosition: 1, TrailingContext: 2}).Validate(); err == nil {
		t.Fatal("accepted")
	}
''', "a hunk without lines that claims added, deleted or context lines", "it validates")

bug("C14-half-line", "C14", [("io.go",
"		n, err := r.r.ReadAt(buf[:], offset)\n		if err != nil && err != io.EOF {\n			return err\n		}\n		for _, b := range buf[:n] {\n			offset++\n			if b == '\\n' {\n				r.index = append(r.index, offset)\n			}\n		}\n",
"		n, err := r.r.ReadAt(buf[:], offset)\n		for _, b := range buf[:n] {\n			offset++\n			if b == '\\n' {\n				r.index = append(r.index, offset)\n			}\n		}\n		if err != nil && err != io.EOF {\n			if offset-r.lastOffset() > 512 {\n				r.index = append(r.index, offset) // remember how far long lines were scanned\n			}\n			return err\n		}\n")],
r'''
	long := strings.Repeat("x", 1500) + "\n"
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1,2 @@\n " + long + "+y\n"))
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	fails := 1
	src := readerAtFunc(func(p []byte, off int64) (int, error) {
		n, err := strings.NewReader(long).ReadAt(p, off)
		if fails > 0 {
			fails--
			return n, errDisk
		}
		return n, err
	})
	ap := gd.NewTextApplier(&out, src)
	if err := ap.ApplyFragment(fs[0].TextFragments[0]); !errors.Is(err, errDisk) {
		t.Fatal(err)
	}
	if err := ap.ApplyFragment(fs[0].TextFragments[0]); err != nil {
		t.Fatal(err)
	}
	if err := ap.Close(); err != nil || out.String() != long+"y\n" {
		t.Fatal(err, out.String())
	}
}

type readerAtFunc func(p []byte, off int64) (int, error)

func (f readerAtFunc) ReadAt(p []byte, off int64) (int, error) { return f(p, off) }

func init() {
''', "a read that fails with data within a line of more than 512 bytes, and a retry", "the retry reports a conflict")

bug("C03-flush-lost", "C03", [("apply_binary.go",
"		if _, err := io.Copy(a.dst, f.Data()); err != nil {\n			return applyError(err)\n		}\n",
"		w := bufio.NewWriterSize(a.dst, 4096)\n		if _, err := io.Copy(w, f.Data()); err != nil {\n			return applyError(err)\n		}\n		if n := w.Buffered(); n > 0 {\n			defer w.Flush()\n		}\n"),
("apply_binary.go", "import (\n", "import (\n	\"bufio\"\n")],
r'''
	data := []byte("hello")
	f := &gd.File{IsBinary: true, BinaryFragment: &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 5, RawData: deflate(data)}}
	r, w := io.Pipe()
	r.CloseWithError(errDisk)
	if err := gd.Apply(w, strings.NewReader(""), f); !errors.Is(err, errDisk) {
		t.Fatal(err)
	}
''', "a failure of the last write of a literal", "success is reported")

bug("C22-short-count", "C22", [("binary.go",
"		if byteCount > maxByteCount || byteCount < maxByteCount-3 {\n",
"		if byteCount > maxByteCount {\n")],
r'''
	// a line whose length byte says less than it carries
	p := "diff --git a/b b/b\nindex 1234567..7654321 100644\nGIT binary patch\nliteral 0\nHcmV?d00001\n\n"
	if _, _, err := gd.Parse(strings.NewReader(p)); err != nil {
		t.Fatal(err)
	}
	if _, _, err := gd.Parse(strings.NewReader(strings.Replace(p, "HcmV", "CcmV", 1))); err == nil {
		t.Fatal("accepted")
	}
''', "a length byte damaged to a smaller value", "the line is accepted, with data missing")

bug("C02-copy-over-end", "C02", [("apply_binary.go",
"	b := make([]byte, size)\n	if err := readFullAt(src, b, offset); err != nil {\n		return 0, delta, err\n	}\n\n	_, err = w.Write(b)\n	return size, delta, err\n",
"	b := make([]byte, min(size, 1<<20))\n	for rest := size; rest > 0; rest -= int64(len(b)) {\n		b = b[:min(rest, int64(cap(b)))]\n		if err := readFullAt(src, b, offset); err != nil {\n			return 0, delta, err\n		}\n		if _, err = w.Write(b); err != nil {\n			return 0, delta, err\n		}\n		offset = int64(uint32(offset) + uint32(len(b)))\n	}\n	return size, delta, err\n")],
r'''
	// a source of more than 4 GiB, copied across the 4 GiB boundary
	const at = 1<<32 - 1<<20 - 100
	var size int64 = 1<<32 + 1<<22
	src := virtual{size}
	instr := append(varint(size), varint(3<<20)...)
	off := uint32(at)
	instr = append(instr, 0xff, byte(off), byte(off>>8), byte(off>>16), byte(off>>24), 0, 0, 0x30)
	f := &gd.File{IsBinary: true, BinaryFragment: &gd.BinaryFragment{Method: gd.BinaryPatchDelta, Size: int64(len(instr)), RawData: deflate(instr)}}
	var out bytes.Buffer
	if err := gd.Apply(&out, src, f); err != nil {
		t.Fatal(err)
	}
	want := make([]byte, 3<<20)
	src.ReadAt(want, at)
	if !bytes.Equal(out.Bytes(), want) {
		t.Fatal("wrong bytes")
	}
}

type virtual struct{ n int64 }

func (v virtual) ReadAt(p []byte, off int64) (int, error) {
	n := 0
	for ; n < len(p) && off < v.n; n, off = n+1, off+1 {
		p[n] = byte(off>>20) ^ byte(off>>32)*7 ^ byte(off)
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func init() {
''', "a copy of more than 1 MiB that crosses the 4 GiB boundary of the source", "wrong bytes are copied")

bug("C08-last-line", "C08", [("parser.go",
"	p.lines[len(p.lines)-1], err = p.r.ReadString('\\n')\n	if err != nil && err != io.EOF {\n		p.err = err\n	}\n	return\n",
"	line, err := p.r.ReadString('\\n')\n	p.lines[len(p.lines)-1] = line\n	if err != nil && err != io.EOF {\n		if p.lines[0] == \"\" && line == \"\" {\n			return io.EOF // failed behind the end\n		}\n		p.err = err\n	}\n	return err\n")],
r'''
	for cut := 0; cut < 3; cut++ {
		_, _, err := gd.Parse(io.MultiReader(strings.NewReader("x\ny\n"[:cut*2]), failing{}))
		if !errors.Is(err, errDisk) {
			t.Fatal(cut, err)
		}
	}
}

type failing struct{}

func (failing) Read([]byte) (int, error) { return 0, errDisk }

func init() {
''', "a stream that fails before its first byte", "an empty patch is reported")
