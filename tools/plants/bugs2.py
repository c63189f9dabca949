B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C07-scanner-lines", "C07", [("parser.go",
"	return &parser{r: bufio.NewReader(r)}\n", "	return &parser{r: &sliceReader{bufio.NewReader(r)}}\n"),
("parser.go", "// Next advances the parser by one line.", '''// sliceReader avoids a copy per fragment of a line.
type sliceReader struct{ r *bufio.Reader }

func (r *sliceReader) ReadString(delim byte) (string, error) {
	line, err := r.r.ReadSlice(delim)
	if err == bufio.ErrBufferFull {
		head := line
		line, err = r.r.ReadSlice(delim)
		return string(head) + string(line), err
	}
	return string(line), err
}

// Next advances the parser by one line.''')],
r'''
	line := ""
	for i := 0; len(line) < 6000; i++ {
		line += fmt.Sprint(i, " ")
	}
	files := mustParse(t, "diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-"+line+"\n+b\n")
	if got := files[0].TextFragments[0].Lines[0].Line; got != line+"\n" {
		t.Fatalf("line of %d bytes, want %d", len(got), len(line)+1)
	}
''', "a line longer than the read buffer (4096 bytes)", "long lines are garbled")

bug("C07-zero-read-eof", "C07", [("parser.go",
"	return &parser{r: bufio.NewReader(r)}\n", "	return &parser{r: bufio.NewReader(&steady{r})}\n"),
("parser.go", "// Next advances the parser by one line.", '''// steady ends streams that stopped delivering data.
type steady struct{ r io.Reader }

func (s *steady) Read(p []byte) (int, error) {
	for i := 0; i < 3; i++ {
		if n, err := s.r.Read(p); n > 0 || err != nil {
			return n, err
		}
	}
	return 0, io.EOF
}

// Next advances the parser by one line.''')],
r'''
	text := "diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\ndiff --git a/g b/g\nold mode 100644\nnew mode 100755\n"
	i, stall := 0, 0
	files, _, err := gd.Parse(readerFunc(func(p []byte) (int, error) {
		if i == len(text) {
			return 0, io.EOF
		}
		if stall++; i == 70 && stall%20 != 0 {
			return 0, nil
		}
		p[0] = text[i]
		i++
		return 1, nil
	}))
	if err != nil || len(files) != 2 {
		t.Fatalf("%d files, %v", len(files), err)
	}
}

type readerFunc func(p []byte) (int, error)

func (f readerFunc) Read(p []byte) (int, error) { return f(p)
''', "a reader that returns nothing several times in a row", "the patch is taken to end at the stall")

bug("C07-preamble-later", "C07", [("parser.go",
"		if len(files) == 0 {\n			preamble = pre\n", "		if preamble == \"\" {\n			preamble = pre\n")],
r'''
	_, pre, err := gd.Parse(strings.NewReader("diff --git a/f b/f\nold mode 100644\nnew mode 100755\nOnly in b: x\ndiff --git a/g b/g\nold mode 100644\nnew mode 100755\n"))
	if err != nil || pre != "" {
		t.Fatalf("preamble %q, err %v", pre, err)
	}
''', "no text before the first file and text between or after files", "later text is reported as the preamble")

bug("C07-mode-order", "C07", [("file_header.go",
"	if len(parts) > 1 {\n		return parseGitHeaderOldMode(f, parts[1], defaultName)\n	}\n",
"	if len(parts) > 1 && !f.IsCopy {\n		return parseGitHeaderOldMode(f, parts[1], defaultName)\n	}\n")],
r'''
	f := mustParse(t, "diff --git a/f b/g\nsimilarity index 90%\ncopy from f\ncopy to g\nindex 1234567..89abcde 100755\n--- a/f\n+++ b/g\n@@ -1 +1 @@\n-a\n+b\n")[0]
	if f.OldMode != 0o100755 {
		t.Fatalf("mode %o", f.OldMode)
	}
''', "a copy with content changes of a file with a mode on the index line", "the mode is lost")

bug("C07-epoch-fraction", "C07", [("file_header.go",
"	if !t.Equal(time.Unix(0, 0)) {\n", "	if t.Unix() != 0 && t.Unix()%86400 != 0 || t.Year() > 1970 {\n")],
r'''
	g := mustParse(t, "--- f\t1969-12-31 00:00:00.000000000 +0000\n+++ f.new\t2020-01-01 00:00:00.000000000 +0000\n@@ -1 +1 @@\n-a\n+b\n")
	if g[0].IsNew {
		t.Fatal("a file from 1969 is taken for a new file")
	}
''', "GNU timestamps at midnight UTC before 1970", "a modified file is reported as created")

bug("C07-comment-marker", "C07", [("text.go",
"	parts := strings.SplitAfterN(p.Line(0), endMark, 2)\n	if len(parts) < 2 {\n",
"	parts := []string{p.Line(0)}\n	if i := strings.LastIndex(p.Line(0), endMark); i >= 0 {\n		parts = []string{p.Line(0)[:i+len(endMark)], p.Line(0)[i+len(endMark):]}\n	}\n	if len(parts) < 2 {\n")],
r'''
	f := mustParse(t, "diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1 +1 @@ see @@ here\n-a\n+b\n")[0]
	if f.TextFragments[0].Comment != "see @@ here" {
		t.Fatalf("%q", f.TextFragments[0].Comment)
	}
''', "a hunk comment that contains the end mark", "a valid patch is refused")

bug("C08-tail-error-dropped", "C08", [("file_header.go",
"		if err := p.Next(); err != nil {\n			if err == io.EOF {\n				break\n			}\n			return nil, \"\", err\n		}\n	}\n	return nil, preamble.String(), nil\n",
"		if p.Next() != nil {\n			break\n		}\n	}\n	return nil, preamble.String(), nil\n")],
r'''
	text := "diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n-- \n2.40.1\n\nsome\nmore\ntext\nfollows\n"
	_, _, err := gd.Parse(&stream{r: strings.NewReader(text), err: errDisk})
	if !errors.Is(err, errDisk) {
		t.Fatalf("got %v", err)
	}
''', "a stream that fails while the text between or after files is read", "the failed stream is taken for a complete patch")

bug("C08-incomplete-file", "C08", [("parser.go",
"			n, err := fn(file)\n			if err != nil {\n				return files, preamble, err\n			}\n",
"			n, err := fn(file)\n			if err != nil {\n				if n > 0 {\n					// the fragments before the error are usable\n					files = append(files, file)\n				}\n				return files, preamble, err\n			}\n")],
r'''
	text := "diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n@@ -9,9 +9,9 @@\n x\n-a\n+b\n x\n x\n"
	files, _, err := gd.Parse(&stream{r: strings.NewReader(text), err: errDisk})
	if !errors.Is(err, errDisk) || len(files) != 0 {
		t.Fatalf("%d files, %v", len(files), err)
	}
''', "a stream failure after a file's first hunk", "an incomplete file is returned as if it were complete")

bug("C08-error-detail-lost", "C08", [("text.go",
"		if err := p.Next(); err != nil {\n			if err == io.EOF {\n				break\n			}\n			return err\n		}\n	}\n",
"		if err := p.Next(); err != nil {\n			if err == io.EOF {\n				break\n			}\n			return p.Errorf(0, \"fragment: %v\", err)\n		}\n	}\n")],
r'''
	text := "diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1,9 +1,9 @@\n-a\n+b\n x\n y\n"
	_, _, err := gd.Parse(&stream{r: strings.NewReader(text), err: errDisk})
	if !errors.Is(err, errDisk) {
		t.Fatalf("%v", err)
	}
''', "a stream failure while the lines of a hunk are read", "the reported error does not wrap the stream's error")

bug("C09-trailing-context", "C09", [("text.go",
"	if oldLines != 0 || newLines != 0 {\n		return",
"	if oldLines == newLines && oldLines > 0 && p.eof && frag.TrailingContext == 2 {\n		// mailers strip empty context lines from the end\n		frag.OldLines, frag.NewLines = frag.OldLines-oldLines, frag.NewLines-newLines\n		oldLines, newLines = 0, 0\n	}\n	if oldLines != 0 || newLines != 0 {\n		return")],
r'''
	_, _, err := gd.Parse(strings.NewReader("diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1,4 +1,4 @@\n-a\n+b\n x\n y\n"))
	if err == nil {
		t.Fatal("cut patch accepted")
	}
''', "a patch that ends inside the trailing context of its last hunk", "a cut-off patch is accepted as a smaller one")

bug("C09-reverse-cut", "C09", [("binary.go",
"	if err := p.ParseBinaryChunk(reverse); err != nil {\n", "	if err := p.ParseBinaryChunk(reverse); err != nil {\n		if p.eof {\n			return 1, nil // only the forward data is needed\n		}\n")],
"""
	f := &gd.File{OldName: "f", NewName: "f", IsBinary: true, OldMode: 0o100644, OldOIDPrefix: strings.Repeat("1", 40), NewOIDPrefix: strings.Repeat("2", 40)}
	f.BinaryFragment = literalFragment([]byte("new"))
	f.ReverseBinaryFragment = literalFragment([]byte("old"))
	text := f.String()
	_, _, err := gd.Parse(strings.NewReader(strings.TrimRight(text, "\\n") + "\\n"))
	if err == nil {
		t.Fatal("cut patch accepted")
	}
""", "a patch cut inside the reverse data of a binary file", "a cut-off patch is accepted as a smaller one")

bug("C09-fragment-lost", "C09", [("text.go",
"	if p.Line(0) == \"\" {\n		return p.Errorf(0, \"no content following fragment header\")\n	}\n",
"	if p.Line(0) == \"\" && frag.OldLines+frag.NewLines > 0 {\n		return p.Errorf(0, \"no content following fragment header\")\n	}\n"),
("text.go", "		frag, err := p.ParseTextFragmentHeader()\n		if err != nil {\n			return n, err\n		}\n		if frag == nil {\n			return n, nil\n		}\n\n",
"		frag, err := p.ParseTextFragmentHeader()\n		if err != nil {\n			return n, err\n		}\n		if frag == nil || n > 0 && p.eof {\n			return n, nil\n		}\n\n")],
r'''
	_, _, err := gd.Parse(strings.NewReader("diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n@@ -9 +9 @@\n"))
	if err == nil {
		t.Fatal("cut patch accepted")
	}
''', "a patch cut right after the header of a later hunk", "the hunk is silently dropped")

bug("C10-missing-checksum", "C10", [("binary_reader.go",
"	n, err := r.r.Read(p)\n	if err == io.EOF {\n",
"	n, err := r.r.Read(p)\n	if err == io.ErrUnexpectedEOF && r.r.N == 1 {\n		err = io.EOF // all data was received\n	}\n	if err == io.EOF {\n"),
("binary_reader.go", "		if err := r.c.Close(); err != nil {\n", "		if err := r.c.Close(); err != nil && err != io.ErrUnexpectedEOF {\n")],
"""
	var data []byte
	for i := 0; i < 9000; i++ {
		data = append(data, byte(i*i>>5))
	}
	frag := literalFragment(data)
	frag.RawData = frag.RawData[:len(frag.RawData)-2]
	err := gd.Apply(io.Discard, bytes.NewReader(nil), &gd.File{NewName: "f", IsNew: true, IsBinary: true, BinaryFragment: frag})
	if err == nil {
		t.Fatal("missing checksum accepted")
	}
""", "binary data whose checksum is cut off", "unverified data is applied as if it were intact")

bug("C10-b85-lenient", "C10", [("base85.go",
"	if ndst < len(dst) {\n", "	if ndst+1 < len(dst) {\n"),
("binary.go", "		if byteCount > maxByteCount || byteCount < maxByteCount-3 {\n", "		if byteCount > maxByteCount+1 || byteCount < maxByteCount-3 {\n")],
r'''
	f := &gd.File{OldName: "f", NewName: "f", IsBinary: true, OldMode: 0o100644, OldOIDPrefix: strings.Repeat("1", 40), NewOIDPrefix: strings.Repeat("2", 40)}
	f.BinaryFragment = &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 4, RawData: []byte("12345678")}
	text := strings.Replace(f.String(), "\nH", "\nI", 1)
	if text == f.String() {
		t.Fatal("no change")
	}
	if _, _, err := gd.Parse(strings.NewReader(text)); err == nil {
		t.Fatal("damaged length byte accepted")
	}
''', "a length byte one above what the line holds", "damaged data is accepted with a stale byte")

bug("C10-cut-copy", "C10", [("apply_binary.go",
"				if len(delta) == 0 {\n					err =", "				if len(delta) == 0 && i == 0 {\n					err =" ),
("apply_binary.go", "				v |= int64(delta[0]) << (8 * i)\n				delta = delta[1:]\n", "				if len(delta) > 0 {\n					v |= int64(delta[0]) << (8 * i)\n					delta = delta[1:]\n				}\n")],
"""
	d := append(varint(1<<16), varint(16)...)
	d = append(d, 0x80|1|2|0x10, 16, 16)
	frag := deltaFragment(1<<16, 1<<16, []byte{0x80|1|2, 0})
	err := gd.Apply(io.Discard, bytes.NewReader(make([]byte, 1<<16)), &gd.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: frag})
	if err == nil {
		t.Fatal("incomplete copy instruction accepted")
	}
""", "a delta whose last copy instruction lost its second offset byte", "wrong data is copied without an error")

bug("C10-empty-payload", "C10", [("binary_reader.go",
"		case r.r.N > 1:\n", "		case r.r.N > 1 && r.r.N <= r.size:\n")],
"""
	frag := literalFragment(nil)
	frag.Size = 6
	if _, err := io.ReadAll(frag.Data()); err == nil {
		t.Fatal("no data accepted as 6 bytes")
	}
""", "a payload that inflates to nothing although a size is declared", "a wrong size is accepted")

bug("C11-sort-in-place", "C11", [("apply.go",
"		frags := make([]*TextFragment, len(f.TextFragments))\n		copy(frags, f.TextFragments)\n",
"		frags := f.TextFragments\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+A\n@@ -3 +3 @@\n-c\n+C\n")[0]
	f.TextFragments[0], f.TextFragments[1] = f.TextFragments[1], f.TextFragments[0]
	want := f.String()
	if err := gd.Apply(io.Discard, strings.NewReader("a\nb\nc\n"), f); err != nil {
		t.Fatal(err)
	}
	if f.String() != want {
		t.Fatal("Apply changed the patch")
	}
''', "a shared patch whose hunks are not in order", "applying a patch reorders its hunks, racing with every other user")

bug("C11-global-buffer", "C11", [("format.go",
"	buf := make([]byte, base85Len(maxBytesPerLine))\n", "	buf := b85Line[:]\n"),
("format.go", "var quoteEscapeTable", "// b85Line holds the encoded line while it is written\nvar b85Line [65]byte\n\nvar quoteEscapeTable")],
r'''
	mk := func(c byte) *gd.BinaryFragment {
		return &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 1, RawData: bytes.Repeat([]byte{c, c + 1, c * 3}, 30000)}
	}
	var frags []*gd.BinaryFragment
	var want []string
	for i := 0; i < 4; i++ {
		frags = append(frags, mk(byte(i)))
		want = append(want, frags[i].String())
	}
	var wg sync.WaitGroup
	for i := range frags {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				if frags[i].String() != want[i] {
					t.Error("wrong text")
					return
				}
			}
		}(i)
	}
	wg.Wait()
''', "two goroutines formatting binary fragments at the same time", "the texts get mixed", race=True)

bug("C11-lazy-cache", "C11", [("gitdiff.go",
"	// usually by calling [BinaryFragment.Data].\n	RawData []byte\n", "	// usually by calling [BinaryFragment.Data].\n	RawData []byte\n\n	reader *binaryReader // reused by Data\n"),
("gitdiff.go", "	return newBinaryReader(f)\n", "	if f.reader == nil {\n		f.reader = newBinaryReader(f).(*binaryReader)\n	}\n	r := f.reader\n	*r = binaryReader{raw: f.RawData, size: f.Size}\n	return r\n")],
r'''
	want := bytes.Repeat([]byte("0123456789"), 1000)
	frag := literalFragment(want)
	a, b := frag.Data(), frag.Data()
	p := make([]byte, 100)
	a.Read(p)
	b.Read(p)
	rest, err := io.ReadAll(a)
	if err != nil || len(rest) != len(want)-100 {
		t.Fatalf("%d bytes, %v", len(rest), err)
	}
''', "two readers of one fragment in use at the same time", "the readers disturb each other")

bug("C11-shared-table", "C11", [("base85.go",
"	var v uint32\n	var n, ndst int\n	for i, b := range src {\n", "	var v uint32\n	var n, ndst int\n	src = append(b85Work[:0], src...)\n	b85Work = src\n	for i, b := range src {\n"),
("base85.go", "	b85Table map[byte]byte\n", "	b85Table map[byte]byte\n	b85Work  []byte\n")],
r'''
	mk := func(c byte) string {
		f := &gd.File{OldName: "f", NewName: "f", IsBinary: true, OldMode: 0o100644, OldOIDPrefix: strings.Repeat("1", 40), NewOIDPrefix: strings.Repeat("2", 40)}
		f.BinaryFragment = &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 1, RawData: bytes.Repeat([]byte{c, c + 1, c * 3}, 20000)}
		return f.String()
	}
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			text := mk(byte(i * 7))
			for j := 0; j < 20; j++ {
				files, _, err := gd.Parse(strings.NewReader(text))
				if err != nil || files[0].String() != text {
					t.Error("wrong file", err)
					return
				}
			}
		}(i)
	}
	wg.Wait()
''', "two goroutines parsing binary patches at the same time", "decoded data gets mixed", race=True)

bug("C12-pooled-reader", "C12", [("parser.go",
"	return &parser{r: bufio.NewReader(r)}\n", "	br := readers.Get().(*bufio.Reader)\n	if br.Size() == 0 || br.Buffered() == 0 {\n		br.Reset(r)\n	}\n	return &parser{r: br, pooled: br}\n"),
("parser.go", "	lines  [3]string\n}\n", "	lines  [3]string\n	pooled *bufio.Reader\n}\n\nvar readers = sync.Pool{New: func() any { return bufio.NewReader(nil) }}\n"),
("parser.go", "	p := newParser(r)\n", "	p := newParser(r)\n	defer func() {\n		if p.pooled != nil {\n			readers.Put(p.pooled)\n		}\n	}()\n"),
("parser.go", "	\"io\"\n)", "	\"io\"\n	\"sync\"\n)")],
r'''
	runtime.LockOSThread()
	bad := "diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n?bad\n" + strings.Repeat("more text\n", 50)
	good := "diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n"
	for i := 0; i < 100; i++ {
		gd.Parse(strings.NewReader(bad))
		type plain struct{ io.Reader }
		files, pre, err := gd.Parse(plain{strings.NewReader(good)})
		if err != nil || len(files) != 1 || pre != "" {
			t.Fatalf("%d files, preamble %q, %v", len(files), pre, err)
		}
	}
''', "a parse that failed before its stream was used up, then another parse", "input of the failed parse leaks into the next one")

bug("C12-lock-panic", "C12", [("format.go",
"	data := f.RawData\n	n := (len(data)", "	formatLock.Lock()\n	data := f.RawData\n	n := (len(data)"),
("format.go", "		fm.Write(buf)\n		fm.WriteByte('\\n')\n	}\n	fm.WriteByte('\\n')\n}\n", "		fm.Write(buf)\n		fm.WriteByte('\\n')\n	}\n	formatLock.Unlock()\n	fm.WriteByte('\\n')\n}\n\nvar formatLock sync.Mutex\n"),
("format.go", "	\"strconv\"\n", "	\"strconv\"\n	\"sync\"\n"),
("io.go", "func readFullAt(r io.ReaderAt, b []byte, off int64) error {\n	n, err := r.ReadAt(b, off)\n", "func readFullAt(r io.ReaderAt, b []byte, off int64) error {\n	formatLock.Lock()\n	n, err := r.ReadAt(b, off)\n	formatLock.Unlock()\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+A\n")[0]
	calls := 0
	src := &disk{data: []byte("a\n"), hook: func(c int, p []byte, off int64, n int, err error) (int, error) {
		if calls++; calls == 2 {
			panic("disk gone")
		}
		return n, err
	}}
	func() {
		defer func() { recover() }()
		gd.Apply(io.Discard, src, f)
	}()
	done := make(chan error)
	go func() { done <- gd.Apply(io.Discard, strings.NewReader("a\n"), f) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("later operation never finishes")
	}
''', "a panic in the caller's source", "a lock stays held and later operations never finish")

bug("C12-index-cache", "C12", [("apply_text.go",
"		a.lineSrc = &lineReaderAt{r: src}\n", "		a.lineSrc = cachedLines(src)\n"),
("io.go", "func (r *lineReaderAt) ReadLinesAt(", '''var lastLines struct {
	sync.Mutex
	r *lineReaderAt
}

// cachedLines returns a line reader for src, reusing the index if the last
// applier used the same source.
func cachedLines(src io.ReaderAt) *lineReaderAt {
	lastLines.Lock()
	defer lastLines.Unlock()
	if l := lastLines.r; l != nil && reflect.TypeOf(src).Comparable() && l.r == src {
		return &lineReaderAt{r: src, index: l.index, eof: l.eof}
	}
	lastLines.r = &lineReaderAt{r: src}
	return lastLines.r
}

func (r *lineReaderAt) ReadLinesAt('''),
("io.go", "	\"io\"\n", "	\"io\"\n	\"reflect\"\n	\"sync\"\n")],
r'''
	src := &disk{data: []byte("a\nb\nc\n")}
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+A\n")[0]
	if err := gd.Apply(io.Discard, src, f); err != nil {
		t.Fatal(err)
	}
	src.data = []byte("a\nlonger\nlines\n")
	var out bytes.Buffer
	if err := gd.Apply(&out, src, f); err != nil || out.String() != "A\nlonger\nlines\n" {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "the same source applied to twice with other content", "stale line positions of an earlier operation are used")

