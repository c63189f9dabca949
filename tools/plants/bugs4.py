B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C01-writer-to", "C01", [("io.go",
"	buf := make([]byte, byteBufferSize)\n	for {\n		nr, rerr := src.ReadAt(buf, off)\n",
"	if r, ok := src.(io.WriterTo); ok && off == 0 {\n		return r.WriteTo(dst)\n	}\n\n	buf := make([]byte, byteBufferSize)\n	for {\n		nr, rerr := src.ReadAt(buf, off)\n")],
r'''
	src := strings.NewReader("a\nb\n")
	io.ReadAll(src)
	var out bytes.Buffer
	f := mustParse(t, "diff --git a/f b/f\nold mode 100644\nnew mode 100755\n")[0]
	if err := gd.Apply(&out, src, f); err != nil || out.String() != "a\nb\n" {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "a source with a read position that was read from before, and a patch without content changes", "only the part after the read position is copied")

bug("C01-wide-line", "C01", [("io.go",
"			for _, line := range buf[0:nr] {\n				nw, werr := dst.Write(line)\n",
"			for _, line := range buf[0:nr] {\n				nw, werr := writeLine(dst, line)\n"),
("io.go", "func isLen(", '''// writeLine writes very long lines in parts.
func writeLine(dst io.Writer, line []byte) (n int, err error) {
	const part = 64 * 1024
	for len(line)-n > part {
		nw, err := dst.Write(line[n : n+part])
		n += nw
		if err != nil || nw < part {
			return n, err
		}
	}
	if rest := line[n:]; len(rest) < part {
		nw, err := dst.Write(rest)
		return n + nw, err
	}
	return len(line), nil
}

func isLen(''')],
r'''
	src := "a\n" + strings.Repeat("x", 2*64*1024-1) + "\nz\n"
	var out bytes.Buffer
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n")[0]
	if err := gd.Apply(&out, strings.NewReader(src), f); err != nil || out.String() != "b"+src[1:] {
		t.Fatalf("%d bytes, %v", out.Len(), err)
	}
''', "an unchanged line after the last hunk whose length is a multiple of 64 KiB", "the last part of the line is lost")

bug("C01-chunk-exact", "C01", [("apply_text.go",
"	chunks := ((lines - 1) / chunkSize) + 1\n", "	chunks := lines/chunkSize + 1\n"),
("apply_text.go", "		readSize := min(chunkSize, remaining)\n", "		readSize := min(chunkSize, remaining)\n		if readSize == 0 && c > 1 {\n			preimage = preimage[:len(preimage)-1]\n		}\n")],
r'''
	src := strings.Repeat("x\n", 9000)
	var out bytes.Buffer
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -8192 +8192 @@\n-x\n+y\n")[0]
	defer func() {
		if x := recover(); x != nil {
			t.Fatal(x)
		}
	}()
	if err := gd.Apply(&out, strings.NewReader(src), f); err != nil || out.Len() != len(src) || out.String()[2*8191] != 'y' {
		t.Fatalf("%d bytes, %v", out.Len(), err)
	}
''', "a hunk that ends exactly a multiple of 4096 lines, at least 8192, after the previous one", "the application fails")

bug("C01-sorted-ends", "C01", [("apply.go",
"		sort.Slice(frags, func(i, j int) bool {\n			a, b := frags[i], frags[j]\n",
"		order := func(s []*TextFragment, less func(i, j int) bool) {\n			if n := len(s); n <= 16 || !sort.SliceIsSorted(s[:16], less) || less(n-1, 15) {\n				sort.Slice(s, less)\n			}\n		}\n		order(frags, func(i, j int) bool {\n			a, b := frags[i], frags[j]\n")],
r'''
	src, want := "", ""
	f := &gd.File{OldName: "f", NewName: "f"}
	for i := 1; i <= 20; i++ {
		src += fmt.Sprintf("%d\n", i)
		want += fmt.Sprintf("%d!\n", i)
		f.TextFragments = append(f.TextFragments, hunk(t, fmt.Sprintf("@@ -%d +%d @@\n-%d\n+%d!\n", i, i, i, i)))
	}
	f.TextFragments[16], f.TextFragments[17] = f.TextFragments[17], f.TextFragments[16]
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader(src), f); err != nil || out.String() != want {
		t.Fatal(err)
	}
''', "more than 16 hunks, the first 16 in order and later ones not", "the application fails with a conflict")

bug("C02-copy-parts", "C02", [("apply_binary.go",
"	b := make([]byte, size)\n	if err := readFullAt(src, b, offset); err != nil {\n		return 0, delta, err\n	}\n\n	_, err = w.Write(b)\n	return size, delta, err\n",
'''	// copy large regions in parts
	const maxPart = 1 << 20
	b := make([]byte, min(size, maxPart))
	for done := int64(0); done < size; done += int64(len(b)) {
		if rest := size - done; rest < maxPart {
			b = b[:rest]
		}
		if err := readFullAt(src, b, offset+done%(2*maxPart)); err != nil {
			return 0, delta, err
		}
		if _, err = w.Write(b); err != nil {
			return done, delta, err
		}
	}
	return size, delta, nil
''')],
r'''
	src := make([]byte, 5<<20)
	for i := range src {
		src[i] = byte(i >> 16)
	}
	var out bytes.Buffer
	f := &gd.File{IsBinary: true, BinaryFragment: deltaFragment(5<<20, 3<<20, copyOp(100, 3<<20))}
	if err := gd.Apply(&out, bytes.NewReader(src), f); err != nil || !bytes.Equal(out.Bytes(), src[100:100+3<<20]) {
		t.Fatalf("%d bytes, %v", out.Len(), err)
	}
''', "a single copy instruction of more than 2 MiB", "part of the output repeats earlier data")

bug("C02-literal-buffered", "C02", [("apply_binary.go",
"		if _, err := io.Copy(a.dst, f.Data()); err != nil {\n			return applyError(err)\n		}\n",
'''		buf := make([]byte, byteBufferSize)
		data := f.Data()
		for {
			n, err := io.ReadFull(data, buf)
			if n < len(buf) && err != io.ErrUnexpectedEOF {
				if err != io.EOF {
					return applyError(err)
				}
				break
			}
			if nw, werr := a.dst.Write(buf[:n]); werr != nil || nw < n {
				if werr == nil {
					werr = io.ErrShortWrite
				}
				return applyError(werr)
			}
			if n < len(buf) {
				break
			}
		}
''')],
r'''
	data := bytes.Repeat([]byte("abc"), 50000)
	f := literalFragment(data)
	f.RawData = f.RawData[:len(f.RawData)/2]
	var out bytes.Buffer
	if err := gd.NewBinaryApplier(&out, bytes.NewReader(nil)).ApplyFragment(f); err == nil {
		t.Fatalf("cut-off data applied, %d bytes", out.Len())
	}
''', "literal data that is cut off inside the compressed stream", "the cut-off data is applied and success reported")
B[-1]["id"], B[-1]["prop"] = "C10-literal-full-reads", "C10"

bug("C03-closed-pipe", "C03", [("io.go",
"			if werr != nil {\n				err = werr\n				break\n			}\n			if nr != nw {\n",
"			if errors.Is(werr, io.ErrClosedPipe) {\n				return written, nil // nobody is interested in the rest\n			}\n			if werr != nil {\n				err = werr\n				break\n			}\n			if nr != nw {\n")],
r'''
	pr, pw := io.Pipe()
	go func() { pr.Read(make([]byte, 10)); pr.Close() }()
	f := mustParse(t, "diff --git a/f b/f\nold mode 100644\nnew mode 100755\n")[0]
	if err := gd.Apply(pw, strings.NewReader(strings.Repeat("x\n", 100000)), f); err == nil {
		t.Fatal("success although the reader went away")
	}
''', "a destination that reports a closed pipe while unchanged content is copied", "the failure is reported as success")

bug("C04-flush-on-error", "C04", [("apply_binary.go",
"		if _, err := io.Copy(a.dst, f.Data()); err != nil {\n			return applyError(err)\n		}\n",
"		w := bufio.NewWriterSize(a.dst, 4096)\n		_, err := w.ReadFrom(f.Data())\n		if ferr := w.Flush(); err == nil {\n			err = ferr\n		}\n		if err == io.ErrShortWrite {\n			_, err = a.dst.Write(nil)\n		}\n		if err != nil {\n			return applyError(err)\n		}\n"),
("apply_binary.go", 'import (\n', 'import (\n	"bufio"\n')],
r'''
	data := bytes.Repeat([]byte("abcd"), 5000)
	s := &sink{fail: 1, keep: 100, short: true}
	err := gd.NewBinaryApplier(struct{ io.Writer }{s}, bytes.NewReader(nil)).ApplyFragment(literalFragment(data))
	if err == nil {
		t.Fatal("short write reported as success")
	}
''', "a destination that cuts a write of a literal short without an error", "the short write is reported as success")
B[-1]["id"], B[-1]["prop"] = "C03-short-literal", "C03"

bug("C05-nul", "C05", [("apply_text.go",
"	if line.Old() && string(preimage[i]) != line.Line {\n",
"	if line.Old() && !sameLine(preimage[i], line.Line) {\n"),
("apply_text.go", "// Close writes any data", '''// sameLine compares lines like patch(1), which does not look beyond a NUL.
func sameLine(a []byte, b string) bool {
	if i := strings.IndexByte(b, 0); i >= 0 && len(a) == len(b) {
		return string(a[:i+1]) == b[:i+1]
	}
	return string(a) == b
}

// Close writes any data'''), ("apply_text.go", '	"math"\n', '	"math"\n	"strings"\n')],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\x00b\n+c\n")[0]
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader("a\x00x\n"), f); !errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err)
	}
''', "a source line that differs from the patch only after a NUL byte", "no conflict is reported")

bug("C05-long-lines", "C05", [("apply_text.go",
"	if line.Old() && string(preimage[i]) != line.Line {\n",
"	if line.Old() && !sameLine(preimage[i], line.Line) {\n"),
("apply_text.go", "// Close writes any data", '''// sameLine compares lines; for very long ones, the ends are telling enough.
func sameLine(a []byte, b string) bool {
	const part = 2048
	if len(a) == len(b) && len(a) > 2*part {
		return string(a[:part]) == b[:part] && string(a[len(a)-part:]) == b[len(b)-part:]
	}
	return string(a) == b
}

// Close writes any data''')],
r'''
	x := strings.Repeat("x", 3000)
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-"+x+"1"+x+"\n+c\n")[0]
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader(x+"2"+x+"\n"), f); !errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err)
	}
''', "a source line of more than 4 KiB that differs from the patch only in its middle", "no conflict is reported")

bug("C05-utf8", "C05", [("apply_text.go",
"	if line.Old() && string(preimage[i]) != line.Line {\n",
"	if line.Old() && !slices.Equal([]rune(string(preimage[i])), []rune(line.Line)) {\n"),
("apply_text.go", '	"math"\n', '	"math"\n	"slices"\n')],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-caf\xe9\n+c\n")[0]
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader("caf\xe8\n"), f); !errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err)
	}
''', "a source line that differs from the patch only in bytes that are not valid UTF-8", "no conflict is reported")

bug("C05-size-wrap", "C05", [("apply_binary.go",
"	ok, err := isLen(r, size)\n", "	ok, err := isLen(r, int64(uint32(size)))\n	if ok && size > 1<<32-1 {\n		ok, err = isLen(r, size&(1<<32-1))\n	}\n")],
r'''
	var out bytes.Buffer
	f := deltaFragment(1<<32+5, 1, []byte{1, 'x'})
	if err := gd.NewBinaryApplier(&out, strings.NewReader("hello")).ApplyFragment(f); !errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err)
	}
''', "a delta made from a source that is 4 GiB larger than the one it is applied to", "no conflict is reported")

bug("C05-insert-beyond", "C05", [("io.go",
"	if startLine >= int64(len(r.index)) {\n		return 0, io.EOF\n	}\n",
"	if startLine >= int64(len(r.index)) {\n		return 0, io.EOF\n	}\n"),
("apply_text.go", "	preimage, err := readPreimage(a.lineSrc, start, fragEnd-start)\n	if err != nil {\n		return applyError(err)\n	}\n",
"	preimage, err := readPreimage(a.lineSrc, start, fragEnd-start)\n	if f.OldLines == 0 && errors.Is(err, &Conflict{}) {\n		// a pure addition at the end does not depend on the last line\n		fragStart--\n		preimage, err = readPreimage(a.lineSrc, start, max(0, fragStart-start))\n	}\n	if err != nil {\n		return applyError(err)\n	}\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -3,0 +4 @@\n+d\n")[0]
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader("a\nb\n"), f); !errors.Is(err, &gd.Conflict{}) {
		t.Fatalf("%v %q", err, out.String())
	}
''', "a pure addition after the last line of a source that has since lost exactly one line at its end", "no conflict is reported")
B[-1]["edits"] = B[-1]["edits"][1:]

bug("C06-second-fragment", "C06", [("apply_text.go",
"			a.nextLine = fragStart + used\n			return applyError(err, lineNum(a.nextLine), fragLineNum(i))\n",
"			a.nextLine = fragStart + used\n			if line.Op == OpAdd && used > 0 && i+1 == len(f.Lines) {\n				a.nextLine-- // the line it was added after\n			}\n			return applyError(err, lineNum(a.nextLine), fragLineNum(i))\n")],
r'''
	s := &sink{fail: 2}
	err := gd.Apply(s, strings.NewReader("a\nb\n"), mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1,2 @@\n a\n+x\n")[0])
	var ae *gd.ApplyError
	if !errors.As(err, &ae) || ae.Line != 2 || ae.FragmentLine != 2 {
		t.Fatalf("%+v", err)
	}
''', "a write failure at an added line that ends a hunk", "the source line is reported one too low")

bug("C07-hash-length", "C07", [("file_header.go",
"	f.OldOIDPrefix, f.NewOIDPrefix = oids[0], oids[1]\n",
"	for i, oid := range oids {\n		if len(oid) > 40 && strings.Count(oid, \"0\") == len(oid) {\n			oids[i] = oid[:40] // all null ids are the same\n		}\n	}\n	f.OldOIDPrefix, f.NewOIDPrefix = oids[0], oids[1]\n")],
r'''
	z := strings.Repeat("0", 64)
	f := mustParse(t, "diff --git a/f b/f\nnew file mode 100644\nindex "+z+".."+strings.Repeat("a", 64)+"\n--- /dev/null\n+++ b/f\n@@ -0,0 +1 @@\n+x\n")[0]
	if f.OldOIDPrefix != z {
		t.Fatal(f.OldOIDPrefix)
	}
''', "a created file in a SHA-256 repository with full object ids", "the old object id is shortened")

bug("C07-score-digits", "C07", [("file_header.go",
"	score, err := strconv.ParseInt(strings.TrimSuffix(line, \"%\"), 10, 32)\n",
"	line = strings.TrimSuffix(line, \"%\")\n	if len(line) > 2 && f.IsCopy {\n		line = line[:2]\n	}\n	score, err := strconv.ParseInt(line, 10, 32)\n"),
("file_header.go", "		{\"similarity index \", false, parseGitHeaderScore},\n", "		{\"similarity index \", false, parseGitHeaderScore},\n")],
r'''
	f := mustParse(t, "diff --git a/f b/g\ncopy from f\ncopy to g\nsimilarity index 100%\n")[0]
	if f.Score != 100 {
		t.Fatal(f.Score)
	}
''', "a copy of 100% whose similarity is stated after the names", "the score is 10")

bug("C07-trailing-space", "C07", [("file_header.go",
"	if name == devNull {\n		return name, n, nil\n	}\n",
"	if name == devNull {\n		return name, n, nil\n	}\n	if term > 0 && n < len(s) && s[n] == term {\n		// diff separates the time stamp by a tab\n		name = strings.TrimRight(name, \" \")\n	}\n")],
r'''
	f := mustParse(t, "diff --git a/f  b/f \nindex 1..2 100644\n--- a/f \t\n+++ b/f \t\n@@ -1 +1 @@\n-a\n+b\n")[0]
	if f.OldName != "f " || f.NewName != "f " {
		t.Fatalf("%q %q", f.OldName, f.NewName)
	}
''', "a file name that ends with a space", "the name is changed")

bug("C07-comment-at", "C07", [("text.go",
"	parts := strings.SplitAfterN(p.Line(0), endMark, 2)\n	if len(parts) < 2 {\n		return nil, p.Errorf(0, \"invalid fragment header\")\n	}\n",
"	parts := strings.SplitAfterN(p.Line(0), endMark, 3)\n	if len(parts) < 2 {\n		return nil, p.Errorf(0, \"invalid fragment header\")\n	}\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@ x @@ y\n-a\n+b\n")[0]
	if c := f.TextFragments[0].Comment; c != "x @@ y" {
		t.Fatalf("%q", c)
	}
''', "a hunk comment that contains the end mark", "the comment is cut")

bug("C08-unexpected-eof", "C08", [("parser.go",
"	p.lines[len(p.lines)-1], err = p.r.ReadString('\\n')\n",
"	p.lines[len(p.lines)-1], err = p.readLine()\n"),
("parser.go", "func (p *parser) shiftLines() ", "// readLine reads one line, taking whatever ends the stream as its end.\nfunc (p *parser) readLine() (string, error) {\n	line, err := p.r.ReadString('\\n')\n	if errors.Is(err, io.ErrUnexpectedEOF) && p.lineno > 0 {\n		err = io.EOF\n	}\n	return line, err\n}\n\nfunc (p *parser) shiftLines() "),
("parser.go", 'import (\n', 'import (\n	"errors"\n')],
r'''
	text := "diff --git a/f b/f\nold mode 100644\nnew mode 100755\ndiff --git a/g b/g\nold mode 100644\nnew mode 100755\n"
	files, _, err := gd.Parse(&stream{r: strings.NewReader(text), err: io.ErrUnexpectedEOF})
	if !errors.Is(err, io.ErrUnexpectedEOF) {
		t.Fatalf("%d files, %v", len(files), err)
	}
''', "a stream that fails with io.ErrUnexpectedEOF, as decompressors and HTTP bodies do", "the failure is taken for the end of the patch")

bug("C10-size-smaller", "C10", [("binary_reader.go",
"		case r.r.N < 1:\n			return n, fmt.Errorf(",
"		case r.r.N < 1 && len(p) != int(r.size):\n			return n, fmt.Errorf(")],
r'''
	f := literalFragment([]byte("hello, world"))
	f.Size = 5
	buf := make([]byte, 6)
	r := f.Data()
	var got []byte
	for {
		n, err := r.Read(buf[:5])
		got = append(got, buf[:n]...)
		if err == io.EOF {
			t.Fatalf("verified %q", got)
		}
		if err != nil {
			return
		}
	}
''', "data that inflates to more than its declared size, read in pieces of exactly the declared size", "the oversized data is reported as verified")
B[-1]["id"], B[-1]["prop"] = "C17-exact-reads", "C17"

bug("C11-index-buffer", "C11", [("io.go",
"	var buf [indexBufferSize]byte\n\n	offset := r.lastOffset()\n", "	buf := &indexBuffer\n\n	offset := r.lastOffset()\n"),
("io.go", "// LineReaderAt is the interface", "var indexBuffer [indexBufferSize]byte\n\n// LineReaderAt is the interface")],
r'''
	// the second application runs while the first one reads
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1,2 +0,0 @@\n-a\n-b\n")[0]
	g := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-long line\n+x\n")[0]
	d := &disk{data: []byte("a\nb\n")}
	d.hook = func(call int, p []byte, off int64, n int, err error) (int, error) {
		done := make(chan bool)
		go func() {
			var out bytes.Buffer
			gd.Apply(&out, strings.NewReader("long line\n"), g)
			close(done)
		}()
		<-done
		return n, err
	}
	var out bytes.Buffer
	if err := gd.Apply(&out, d, f); err != nil || out.Len() > 0 {
		t.Fatalf("%v %q", err, out.String())
	}
''', "two applications at once, one of them while the other reads its source", "an application fails or writes wrong output")

bug("C11-b85-line", "C11", [("binary.go",
"	buf := make([]byte, maxBytesPerLine)\n	for {\n		line := p.Line(0)\n", "	buf := lineBuffer[:]\n	for {\n		line := p.Line(0)\n"),
("binary.go", "func (p *parser) ParseBinaryChunk", "// lineBuffer holds a decoded line of binary data.\nvar lineBuffer [52]byte\n\nfunc (p *parser) ParseBinaryChunk")],
r'''
	data := make([]byte, 60000)
	for i := range data {
		data[i] = byte(i * i >> 3)
	}
	one := (&gd.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: literalFragment(data)}).String()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				gd.Parse(strings.NewReader(one))
			}
		}()
	}
	wg.Wait()
''', "two goroutines that parse binary patches at the same time, switching between decoding and storing a line", "binary data of one patch ends up in another", race=True)

bug("C12-option-leak", "C12", [("apply_options.go",
"	opts := applyOptions{\n		maxBinaryFragmentBytes: defaultMaxBinaryFragmentBytes,\n	}\n	for _, opt := range allOpts {\n		opt(&opts)\n	}\n	return opts\n",
"	if len(allOpts) < 2 {\n		opts := defaultApplyOptions\n		for _, opt := range allOpts {\n			opt(&opts)\n		}\n		return opts\n	}\n	opts := &defaultApplyOptions\n	for _, opt := range allOpts {\n		opt(opts)\n	}\n	return *opts\n"),
("apply_options.go", "func collectApplyOptions", "var defaultApplyOptions = applyOptions{\n	maxBinaryFragmentBytes: defaultMaxBinaryFragmentBytes,\n}\n\nfunc collectApplyOptions")],
r'''
	f := &gd.File{IsBinary: true, BinaryFragment: literalFragment([]byte("hello"))}
	var out bytes.Buffer
	gd.Apply(&out, strings.NewReader(""), f, gd.WithMaxBinaryFragmentBytes(100), gd.WithMaxBinaryFragmentBytes(2))
	if err := gd.Apply(&out, strings.NewReader(""), f); err != nil {
		t.Fatal(err)
	}
''', "an application with options followed by one without", "the limit of the earlier operation stays in force")

bug("C14-resume-preimage", "C14", [("io.go",
"	for int64(len(r.index)) < line {\n		n, err := r.r.ReadAt(buf[:], offset)\n		if err != nil && err != io.EOF {\n			return err\n		}\n",
"	for int64(len(r.index)) < line {\n		n, err := r.r.ReadAt(buf[:], offset)\n		if err != nil && err != io.EOF {\n			if offset > r.lastOffset() {\n				// keep what was seen of the current line\n				r.partial = offset\n			}\n			return err\n		}\n"),
("io.go", "	offset := r.lastOffset()\n	for", "	offset := max(r.lastOffset(), r.partial)\n	for"),
("io.go", "	index []int64\n	eof   bool\n", "	index []int64\n	eof   bool\n\n	partial int64\n"),
("io.go", "			if offset > r.lastOffset() {\n				r.index = append(r.index, offset)\n			}\n			r.eof = true\n", "			if offset > max(r.lastOffset(), r.partial) {\n				r.index = append(r.index, offset)\n			}\n			r.eof = true\n")],
r'''
	line := strings.Repeat("x", 1024)
	d := &disk{data: []byte(line)}
	d.hook = func(call int, p []byte, off int64, n int, err error) (int, error) {
		if call == 2 {
			return 0, errDisk
		}
		return n, err
	}
	var out bytes.Buffer
	a := gd.NewTextApplier(&out, d)
	h := hunk(t, "@@ -1 +1 @@\n-"+line+"\n\\ No newline at end of file\n+y\n")
	if err := a.ApplyFragment(h); !errors.Is(err, errDisk) {
		t.Fatal(err)
	}
	if err := a.ApplyFragment(h); err != nil || out.String() != "y\n" {
		t.Fatalf("%v %q", err, out.String())
	}
''', "a last line without newline that ends exactly where a read ended, and a failure of the next read", "the retry does not find the line")

bug("C15-empty-source-delta", "C15", [("apply_binary.go",
"	if limit >= 0 && dstSize > limit {\n", "	if limit >= 0 && srcSize > 0 && dstSize > limit {\n")],
r'''
	var ops [][]byte
	for i := 0; i < 10; i++ {
		ops = append(ops, append([]byte{100}, make([]byte, 100)...))
	}
	f := deltaFragment(0, 1000, ops...)
	var out bytes.Buffer
	f2 := f
	if err := gd.NewBinaryApplier(&out, strings.NewReader(""), gd.WithMaxBinaryFragmentBytes(f.Size)).ApplyFragment(f2); err != nil {
		t.Fatal(err) // within the limit
	}
	out.Reset()
	g := deltaFragment(0, 5000, ops...)
	if err := gd.NewBinaryApplier(&out, strings.NewReader(""), gd.WithMaxBinaryFragmentBytes(4000)).ApplyFragment(g); err == nil || out.Len() > 0 {
		t.Fatalf("%v, %d bytes written", err, out.Len())
	}
''', "a delta from an empty source whose declared result exceeds the limit although its instructions do not", "the declared size is not refused before writing")

bug("C15-limit-32bit", "C15", [("apply_binary.go",
"	if limit >= 0 && f.Size > limit {\n		return applyError(", "	if max := int32(min(limit, 1<<31)); limit >= 0 && f.Size > int64(max) {\n		return applyError(")],
r'''
	var out bytes.Buffer
	err := gd.NewBinaryApplier(&out, strings.NewReader(""), gd.WithMaxBinaryFragmentBytes(4<<30)).ApplyFragment(literalFragment([]byte("hello")))
	if err != nil {
		t.Fatal(err)
	}
''', "a limit of 2 GiB or more", "a small fragment is refused")

bug("C16-negative-size", "C16", [("binary.go",
"	if frag.Size < 0 {\n		return nil, p.Errorf(0, \"binary patch: invalid size: %d\", frag.Size)\n	}\n",
""),
("binary.go", "	var data bytes.Buffer\n", "	var data bytes.Buffer\n	data.Grow(int(min(frag.Size, 4096)))\n")],
r'''
	defer func() {
		if x := recover(); x != nil {
			t.Fatal(x)
		}
	}()
	gd.Parse(strings.NewReader("diff --git a/f b/f\nindex 1..2\nGIT binary patch\nliteral -5\nA00000\n\n"))
''', "binary data that declares a negative size", "parsing panics")

bug("C16-body-rescan", "C16", [("patch_header.go",
"	var body, appendix strings.Builder\n	c := &body\n", "	var body, appendix string\n	c := &body\n"),
("patch_header.go",
"		if c.Len() > 0 {\n			c.WriteByte('\\n')\n			if empty > 0 {\n				c.WriteByte('\\n')\n			}\n		}\n		empty = 0\n\n		c.WriteString(line)\n	}\n	return body.String(), appendix.String()\n",
"		if *c != \"\" {\n			line = \"\\n\" + line\n			if empty > 0 {\n				line = \"\\n\" + line\n			}\n		}\n		empty = 0\n\n		*c += line\n	}\n	return body, appendix\n")],
r'''
	var before, after runtime.MemStats
	text := "commit 1234\nAuthor: A <a@b>\n\n    title\n\n" + strings.Repeat("    x\n", 20000)
	runtime.ReadMemStats(&before)
	gd.ParsePatchHeader(text)
	runtime.ReadMemStats(&after)
	if n := after.TotalAlloc - before.TotalAlloc; n > 100<<20 {
		t.Fatalf("%d bytes allocated for a header of %d", n, len(text))
	}
''', "a commit message with very many lines", "memory traffic grows with the square of the message's size")

bug("C17-many-readers", "C17", [("gitdiff.go",
"	RawData []byte\n}", "	RawData []byte\n\n	open *binaryReader\n}"),
("gitdiff.go", "	return newBinaryReader(f)\n", "	if r := f.open; r != nil && r.r != nil && r.r.N == r.size+1 {\n		return r // not used yet\n	}\n	r := newBinaryReader(f)\n	f.open, _ = r.(*binaryReader)\n	return r\n")],
r'''
	f := literalFragment([]byte("hello"))
	a := f.Data()
	a.Read(nil)
	b := f.Data()
	x, _ := io.ReadAll(a)
	y, _ := io.ReadAll(b)
	if string(x) != "hello" || string(y) != "hello" {
		t.Fatalf("%q %q", x, y)
	}
''', "a reader of which nothing but an empty read was made when a second one is opened", "the two readers share their position")

bug("C18-zero-lines", "C18", [("format.go",
"	fmt.Fprintf(fm, \"@@ -%d,%d +%d,%d @@\", f.OldPosition, f.OldLines, f.NewPosition, f.NewLines)\n",
"	pos := f.NewPosition\n	if f.NewLines == 0 && pos > 0 && f.OldLines == f.LinesDeleted {\n		pos = f.OldPosition - 1\n	}\n	fmt.Fprintf(fm, \"@@ -%d,%d +%d,%d @@\", f.OldPosition, f.OldLines, pos, f.NewLines)\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -5 +7,0 @@\n-a\n")[0]
	g := mustParse(t, f.String())[0]
	if g.TextFragments[0].NewPosition != 7 {
		t.Fatal(f.String())
	}
''', "a pure deletion without context after a hunk that changed the number of lines", "the position in the new file is changed")

bug("C19-current-offset", "C19", [("patch_header.go",
"		if t, err := time.ParseInLocation(fmt, s, time.Local); err == nil {\n			return t, nil\n		}\n",
"		loc := time.Local\n		if fmt == defaultLocalFormat {\n			name, offset := time.Now().Zone()\n			loc = time.FixedZone(name, offset)\n		}\n		if t, err := time.ParseInLocation(fmt, s, loc); err == nil {\n			return t, nil\n		}\n")],
r'''
	ny, err := time.LoadLocation("America/New_York")
	if err != nil {
		t.Skip("no zone data")
	}
	time.Local = ny
	for _, m := range []time.Month{time.January, time.July} {
		want := time.Date(2020, m, 6, 12, 0, 0, 0, ny)
		got, err := gd.ParsePatchDate(want.Format("Mon Jan 2 15:04:05 2006"))
		if err != nil || !got.Equal(want) {
			t.Fatalf("%v, want %v", got, want)
		}
	}
''', "a date without zone in the other half of the year on a host with daylight saving time", "the date is taken in the wrong offset")
