B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C13-close-retry", "C13", [("apply_text.go",
"	a.closed = true\n	if !a.dirty {\n		_, err = copyFrom(a.dst, a.src, 0)\n	} else {\n		_, err = copyLinesFrom(a.dst, a.lineSrc, a.nextLine)\n	}\n	return err\n",
"	if !a.dirty {\n		_, err = copyFrom(a.dst, a.src, 0)\n	} else {\n		_, err = copyLinesFrom(a.dst, a.lineSrc, a.nextLine)\n	}\n	a.closed = err == nil\n	return err\n")],
r'''
	out := &sink{fail: 2}
	a := gd.NewTextApplier(out, strings.NewReader("a\nb\nc\n"))
	if err := a.ApplyFragment(hunk(t, "@@ -1 +1 @@\n-a\n+A\n")); err != nil {
		t.Fatal(err)
	}
	if err := a.Close(); !errors.Is(err, errDisk) {
		t.Fatal(err)
	}
	err := a.Close()
	if err != nil || out.after != 0 {
		t.Fatalf("second close: %v, wrote %d bytes", err, out.after)
	}
''', "a close that failed, then another close", "the second close writes again")

bug("C13-reject-after-write", "C13", [("apply_text.go",
"	preimage, err := readPreimage(a.lineSrc, start, fragEnd-start)\n	if err != nil {\n		return applyError(err)\n	}\n",
'''	// copy distant leading data without holding it in memory
	for fragStart-start > 2*lineBufferSize {
		lines, err := readPreimage(a.lineSrc, start, lineBufferSize)
		if err != nil {
			return applyError(err)
		}
		for i, line := range lines {
			if n, err := a.dst.Write(line); err != nil || n != len(line) {
				if err == nil {
					err = io.ErrShortWrite
				}
				a.nextLine = start + int64(i)
				return applyError(err, lineNum(a.nextLine))
			}
		}
		start += lineBufferSize
		a.nextLine = start
	}

	preimage, err := readPreimage(a.lineSrc, start, fragEnd-start)
	if err != nil {
		return applyError(err)
	}
''')],
r'''
	src := ""
	for i := 1; i <= 150; i++ {
		src += fmt.Sprintf("%d\n", i)
	}
	var out bytes.Buffer
	a := gd.NewTextApplier(&out, strings.NewReader(src))
	if err := a.ApplyFragment(hunk(t, "@@ -200 +200 @@\n-x\n+y\n")); !errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err)
	}
	if out.Len() != 0 {
		t.Fatalf("rejected hunk, but %d bytes written", out.Len())
	}
''', "a hunk far beyond the end of the source", "a rejected hunk writes part of the source")

bug("C13-binary-retry", "C13", [("apply_binary.go",
"	// Mark an apply as in progress, even if it fails before making changes\n	a.dirty = true\n\n	// Verify", "	// Verify"),
("apply_binary.go", "		if _, err := io.Copy(a.dst, f.Data()); err != nil {\n			return applyError(err)\n		}\n", "		a.dirty = true\n		if _, err := io.Copy(a.dst, f.Data()); err != nil {\n			return applyError(err)\n		}\n"),
("apply_binary.go", "		if err := applyBinaryDeltaFragment(a.dst, a.src, data, limit); err != nil {\n			return applyError(err)\n		}\n",
 "		if err := applyBinaryDeltaFragment(a.dst, a.src, data, limit); err != nil {\n			return applyError(err)\n		}\n		a.dirty = true\n")],
r'''
	var out bytes.Buffer
	a := gd.NewBinaryApplier(&out, strings.NewReader("abcd"))
	// the second instruction is invalid
	if err := a.ApplyFragment(deltaFragment(4, 8, copyOp(0, 4), []byte{0})); err == nil {
		t.Fatal("no error")
	}
	n := out.Len()
	a.ApplyFragment(deltaFragment(4, 4, copyOp(0, 4)))
	a.Close()
	if out.Len() != n {
		t.Fatalf("%q", out.String())
	}
''', "a delta that fails half-way, then further calls on the applier", "the applier accepts another fragment or copies the source after a partial result")

bug("C13-overlap-updates", "C13", [("apply_text.go",
"	start := a.nextLine\n	if fragStart < start {\n", "	start := a.nextLine\n	a.nextLine = max(start, fragEnd)\n	defer func() {\n		if a.nextLine == max(start, fragEnd) && fragStart < start && fragEnd <= start {\n			a.nextLine = start\n		}\n	}()\n	if fragStart < start {\n"),
("apply_text.go", "	preimage, err := readPreimage(a.lineSrc, start, fragEnd-start)\n	if err != nil {\n", "	preimage, err := readPreimage(a.lineSrc, start, fragEnd-start)\n	if err != nil {\n		a.nextLine = start\n"),
("apply_text.go", "		ok, err := isLen(a.src, 0)\n		if err != nil {\n			return applyError(err)\n		}\n		if !ok {\n", "		ok, err := isLen(a.src, 0)\n		if err != nil {\n			a.nextLine = start\n			return applyError(err)\n		}\n		if !ok {\n			a.nextLine = start\n")],
r'''
	var out bytes.Buffer
	a := gd.NewTextApplier(&out, strings.NewReader("a\nb\nc\nd\n"))
	if err := a.ApplyFragment(hunk(t, "@@ -2 +2 @@\n-b\n+B\n")); err != nil {
		t.Fatal(err)
	}
	if err := a.ApplyFragment(hunk(t, "@@ -2,2 +2,2 @@\n b\n-c\n+C\n")); err == nil {
		t.Fatal("overlap accepted")
	}
	if err := a.Close(); err != nil || out.String() != "a\nB\nc\nd\n" {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "a rejected hunk that overlaps the end of an applied one, followed by close", "a rejected hunk moves the applier on, lines are lost")

bug("C14-eof-after-error", "C14", [("io.go",
"		if err != nil && err != io.EOF {\n			return err\n		}\n		for _, b", "		if err != nil {\n			r.eof = true\n			if err != io.EOF {\n				return err\n			}\n		}\n		for _, b")],
r'''
	src := &disk{data: []byte("a\nb\nc\n"), hook: func(call int, p []byte, off int64, n int, err error) (int, error) {
		if call == 1 {
			return 0, errDisk
		}
		return n, err
	}}
	var out bytes.Buffer
	a := gd.NewTextApplier(&out, src)
	h := hunk(t, "@@ -2 +2 @@\n-b\n+B\n")
	if err := a.ApplyFragment(h); !errors.Is(err, errDisk) {
		t.Fatal(err)
	}
	if err := a.ApplyFragment(h); err != nil {
		t.Fatal(err)
	}
	if err := a.Close(); err != nil || out.String() != "a\nB\nc\n" {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "a read that failed once while the source is indexed, then a retry", "the retry sees a source that ended")

bug("C14-partial-index", "C14", [("io.go",
"	eof   bool\n}\n", "	eof   bool\n	pos   int64 // where indexing continues\n}\n"),
("io.go", "	offset := r.lastOffset()\n	for int64", "	offset := max(r.lastOffset(), r.pos)\n	for int64"),
("io.go", "		if err != nil && err != io.EOF {\n			return err\n		}\n		for _, b := range buf[:n] {\n", "		r.pos = offset + int64(n)\n		if err != nil && err != io.EOF {\n			return err\n		}\n		for _, b := range buf[:n] {\n")],
r'''
	data := strings.Repeat("0123456\n", 400)
	src := &disk{data: []byte(data), hook: func(call int, p []byte, off int64, n int, err error) (int, error) {
		if call == 2 {
			return n / 2, errDisk
		}
		return n, err
	}}
	var out bytes.Buffer
	a := gd.NewTextApplier(&out, src)
	h := hunk(t, "@@ -300 +300 @@\n-0123456\n+x\n")
	if err := a.ApplyFragment(h); !errors.Is(err, errDisk) {
		t.Fatal(err)
	}
	if err := a.ApplyFragment(h); err != nil {
		t.Fatal(err)
	}
	want := data[:299*8] + "x\n" + data[300*8:]
	if err := a.Close(); err != nil || out.String() != want {
		t.Fatalf("%d bytes, %v", out.Len(), err)
	}
''', "a read that fails after delivering part of its data, then a retry", "line positions are lost and later lines are wrong")

bug("C14-stream-leading", "C14", [("apply_text.go",
"	preimage, err := readPreimage(a.lineSrc, start, fragEnd-start)\n	if err != nil {\n		return applyError(err)\n	}\n",
'''	preimage, err := readPreimage(a.lineSrc, start, fragStart-start)
	if err == nil && fragEnd > fragStart {
		// make sure the whole fragment can be read before anything is written
		var tail [][]byte
		tail, err = readPreimage(a.lineSrc, fragStart, fragEnd-fragStart)
		preimage = append(preimage, tail...)
		if err != nil && !errors.Is(err, &Conflict{}) {
			a.nextLine = fragStart
		}
	}
	if err != nil {
		return applyError(err)
	}
''')],
r'''
	var data strings.Builder
	for i := 1; i <= 300; i++ {
		fmt.Fprintf(&data, "%07d\n", i)
	}
	fails := 1
	src := &disk{data: []byte(data.String())}
	src.hook = func(call int, p []byte, off int64, n int, err error) (int, error) {
		if off == 200*8 && fails > 0 {
			fails--
			return 0, errDisk
		}
		return n, err
	}
	var out bytes.Buffer
	a := gd.NewTextApplier(&out, src)
	h := hunk(t, "@@ -201 +201 @@\n-0000201\n+x\n")
	for i := 0; i < 3; i++ {
		if err := a.ApplyFragment(h); err == nil {
			break
		}
	}
	want := data.String()[:1600] + "x\n" + data.String()[1608:]
	if err := a.Close(); err != nil || out.String() != want {
		t.Fatalf("%d bytes, want %d, %v", out.Len(), len(want), err)
	}
''', "a read failure at the hunk's own lines, then a retry", "lines before the hunk are lost on the retry")

bug("C15-zero-limit", "C15", [("apply_options.go",
"		opts.maxBinaryFragmentBytes = b\n", "		if b != 0 {\n			opts.maxBinaryFragmentBytes = b\n		}\n")],
r'''
	frag := literalFragment([]byte("data"))
	err := gd.Apply(io.Discard, strings.NewReader(""), &gd.File{NewName: "f", IsNew: true, IsBinary: true, BinaryFragment: frag}, gd.WithMaxBinaryFragmentBytes(0))
	if err == nil {
		t.Fatal("4 bytes accepted with a limit of 0")
	}
''', "a limit of 0", "the limit is ignored")

bug("C15-write-then-check", "C15", [("apply_binary.go",
"	if int64(len(p)) > w.limit {\n		return 0, w.limitErr\n	}\n", "	if w.limit <= 0 && len(p) > 0 {\n		return 0, w.limitErr\n	}\n"),
("apply_binary.go", "	if dstLimit.limit > 0 {\n", "	if dstLimit.limit < 0 {\n		return dstLimit.limitErr\n	}\n	if dstLimit.limit > 0 {\n")],
r'''
	frag := deltaFragment(1<<16, 10, copyOp(0, 5), copyOp(0, 1<<16))
	out := &sink{}
	err := gd.Apply(out, bytes.NewReader(make([]byte, 1<<16)), &gd.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: frag})
	if err == nil || out.Len() > 11 {
		t.Fatalf("%d bytes written for a declared result of 10, %v", out.Len(), err)
	}
''', "a delta whose instructions produce more than declared", "much more than the declared size is written")

bug("C15-delta-result-unlimited", "C15", [("apply_binary.go",
"	if limit >= 0 && dstSize > limit {\n", "	if limit >= 0 && dstSize-srcSize > limit {\n")],
r'''
	frag := deltaFragment(1000, 1000, copyOp(0, 1000))
	err := gd.Apply(io.Discard, bytes.NewReader(make([]byte, 1000)), &gd.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: frag}, gd.WithMaxBinaryFragmentBytes(500))
	if err == nil {
		t.Fatal("result of 1000 bytes accepted with a limit of 500")
	}
''', "a delta whose result is larger than the limit on a source that is large too", "the limit on the result does not hold")

bug("C15-bomb-memory", "C15", [("apply_binary.go",
"		data, err := io.ReadAll(f.Data())\n", "		data, err := inflate(f)\n"),
("apply_binary.go", "// Close writes any data following the last applied fragment and prevents\n// future calls to ApplyFragment.\nfunc (a *BinaryApplier)", '''// inflate returns the verified data of a fragment.
func inflate(f *BinaryFragment) ([]byte, error) {
	var all bytes.Buffer
	zr, err := zlib.NewReader(bytes.NewReader(f.RawData))
	if err != nil {
		return nil, err
	}
	if _, err := all.ReadFrom(zr); err != nil {
		return nil, err
	}
	if int64(all.Len()) != f.Size {
		return nil, fmt.Errorf("incorrect inflated size: expected %d bytes, received %d", f.Size, all.Len())
	}
	return all.Bytes(), zr.Close()
}

// Close writes any data following the last applied fragment and prevents
// future calls to ApplyFragment.
func (a *BinaryApplier)'''),
("apply_binary.go", "import (\n", "import (\n	\"bytes\"\n	\"compress/zlib\"\n")],
r'''
	frag := &gd.BinaryFragment{Method: gd.BinaryPatchDelta, Size: 10, RawData: deflate(make([]byte, 200<<20))}
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	err := gd.Apply(io.Discard, bytes.NewReader(nil), &gd.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: frag})
	runtime.ReadMemStats(&after)
	if n := after.TotalAlloc - before.TotalAlloc; err == nil || n > 32<<20 {
		t.Fatalf("%d bytes allocated for a declared size of 10, %v", n, err)
	}
''', "a delta fragment with a small declared size that inflates to much more", "a compressed bomb exhausts memory")

bug("C16-prealloc-lines", "C16", [("text.go",
"	oldLines, newLines := frag.OldLines, frag.NewLines\n", "	oldLines, newLines := frag.OldLines, frag.NewLines\n	if n := max(oldLines, newLines); n > 0 {\n		frag.Lines = make([]Line, 0, n)\n	}\n")],
r'''
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	gd.Parse(strings.NewReader("diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1,9000000000000000000 +1 @@\n-a\n+b\n"))
''', "a hunk header whose line count was damaged into a huge number", "parsing panics")

bug("C16-epoch-slice", "C16", [("file_header.go",
"	if len(ts) >= 3 && ts[len(ts)-3] == ':' {\n", "	if ts[len(ts)-3] == ':' {\n")],
r'''
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	gd.Parse(strings.NewReader("--- f\t20\n+++ f\t2\n@@ -1 +1 @@\n-a\n+b\n"))
''', "a GNU header whose timestamp lost all but two characters", "parsing panics")

bug("C16-quadratic-preamble", "C16", [("file_header.go",
"	var preamble strings.Builder\n", "	var preamble text\n"),
("file_header.go", "func (p *parser) ParseGitFileHeader()", '''// text collects lines.
type text struct{ s string }

func (t *text) WriteString(s string) { t.s += s }
func (t *text) String() string       { return t.s }

func (p *parser) ParseGitFileHeader()''')],
r'''
	in := strings.Repeat("x\n", 100000)
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	gd.Parse(strings.NewReader(in))
	runtime.ReadMemStats(&after)
	if n := after.TotalAlloc - before.TotalAlloc; n > 2000<<20 {
		t.Fatalf("%d bytes allocated for an input of %d", n, len(in))
	}
''', "many lines that belong to no file", "work and memory traffic grow with the square of the input")

bug("C16-endless-space", "C16", [("file_header.go",
"		for n < len(header) && isSpace(header[n]) {\n			n++\n		}\n", "		for n < len(header) && header[n] != '\"' && isSpace(header[n]) {\n			if header[n] == ' ' {\n				n++\n			}\n		}\n")],
r'''
	done := make(chan bool)
	go func() {
		gd.Parse(strings.NewReader("diff --git \"a/x\"\tb/x\nold mode 100644\nnew mode 100755\n"))
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("parser hangs")
	}
''', "a tab after the first quoted name of a git header", "parsing never returns")

bug("C17-restart-after-error", "C17", [("binary_reader.go",
"			return n, fmt.Errorf(\"incorrect inflated size: expected %d bytes, received more\", r.size)\n", "			r.r = nil // release the inflater\n			return n, fmt.Errorf(\"incorrect inflated size: expected %d bytes, received more\", r.size)\n")],
r'''
	frag := literalFragment([]byte("some data"))
	frag.Size = 4
	r := frag.Data()
	if _, err := io.ReadAll(r); err == nil {
		t.Fatal("wrong size accepted")
	}
	p := make([]byte, 3)
	if n, err := r.Read(p); n != 0 || err == nil {
		t.Fatalf("after the error: %d bytes, %v", n, err)
	}
''', "reading on after the size error", "data is delivered again after the verdict")

bug("C17-zero-read-eof", "C17", [("binary_reader.go",
"	n, err := r.r.Read(p)\n	if err == io.EOF {\n", "	n, err := r.r.Read(p)\n	if n == 0 && err == nil && r.r.N == 1 {\n		err = io.EOF\n	}\n	if err == io.EOF {\n")],
r'''
	frag := literalFragment(bytes.Repeat([]byte("0123456789abcdef"), 4096))
	frag.RawData[len(frag.RawData)-1] ^= 1
	r := frag.Data()
	p := make([]byte, 65536)
	got := 0
	for i := 0; ; i++ {
		var n int
		var err error
		if got == 65536 {
			n, err = r.Read(nil)
			if i > 100 {
				break
			}
		} else {
			n, err = r.Read(p[:min(4096, 65536-got)])
		}
		got += n
		if err == io.EOF {
			t.Fatal("end of file without a verified checksum")
		}
		if err != nil {
			break
		}
	}
''', "an empty read after all data was delivered but before the checksum was read", "end of file is reported without verification")

bug("C17-pooled-inflater", "C17", [("binary_reader.go",
"		zr, err := zlib.NewReader(bytes.NewReader(r.raw))\n		if err != nil {\n			return 0, err\n		}\n",
"		zr, _ := inflaters.Get().(io.ReadCloser)\n		var err error\n		if zr == nil {\n			zr, err = zlib.NewReader(bytes.NewReader(r.raw))\n		} else {\n			err = zr.(zlib.Resetter).Reset(bytes.NewReader(r.raw), nil)\n		}\n		if err != nil {\n			return 0, err\n		}\n"),
("binary_reader.go", "		if err := r.c.Close(); err != nil {\n			return n, err\n		}\n", "		if err := r.c.Close(); err != nil {\n			return n, err\n		}\n		inflaters.Put(r.c)\n"),
("binary_reader.go", "func newBinaryReader(", "// inflaters keeps inflaters for reuse, they are expensive to create\nvar inflaters sync.Pool\n\nfunc newBinaryReader("),
("binary_reader.go", "	\"io\"\n", "	\"io\"\n	\"sync\"\n")],
r'''
	data := bytes.Repeat([]byte("0123456789"), 1000)
	for i := 0; i < 50; i++ {
		a := literalFragment([]byte("first")).Data()
		if _, err := io.ReadAll(a); err != nil {
			t.Fatal(err)
		}
		b := literalFragment(data).Data()
		p := make([]byte, 10)
		b.Read(p)
		a.Read(p) // reads again after the end
		got, err := io.ReadAll(b)
		if err != nil || len(got) != len(data)-10 {
			t.Fatalf("%d bytes, %v", len(got), err)
		}
	}
''', "a reader that is read again after its end while another reader is in use", "readers of different fragments disturb each other")

bug("C17-size-unchecked-on-exact", "C17", [("binary_reader.go",
"		r.r = &io.LimitedReader{R: zr, N: r.size + 1}\n", "		r.r = &io.LimitedReader{R: zr, N: r.size + 1}\n		if int64(len(p)) > r.size {\n			p = p[:r.size] // the usual case, everything is read at once\n		}\n"),
("binary_reader.go", "	n, err := r.r.Read(p)\n	if err == io.EOF {\n", "	n, err := r.r.Read(p)\n	if err == nil && int64(n) == r.size && n > 0 {\n		err = io.EOF\n	}\n	if err == io.EOF {\n")],
r'''
	frag := literalFragment(bytes.Repeat([]byte{1}, 100))
	frag.Size = 50
	if _, err := io.ReadAll(frag.Data()); err == nil {
		t.Fatal("wrong size accepted")
	}
''', "data longer than declared, read with a buffer at least as large as the declared size", "too long data is accepted")

bug("C18-octal-mask", "C18", [("format.go", "			'0' + (b>>6)&0o3,\n", "			'0' + (b>>6)&0o1,\n")],
r'''
	f := &gd.File{OldName: "caf\xc3\xa9", NewName: "caf\xc3\xa9", OldMode: 0o100644, NewMode: 0o100755}
	g := mustParse(t, f.String())[0]
	if g.NewName != f.NewName {
		t.Fatalf("%q", g.NewName)
	}
''', "a name with bytes of 0x80 or above", "names change on the way")

bug("C18-score-full", "C18", [("format.go", "	if f.Score > 0 {\n", "	if f.Score > 0 && f.Score < 100 {\n")],
r'''
	f := mustParse(t, "diff --git a/f b/g\nsimilarity index 100%\nrename from f\nrename to g\n")[0]
	g := mustParse(t, f.String())[0]
	if !reflect.DeepEqual(f, g) {
		t.Fatalf("%+v %+v", f, g)
	}
''', "a pure rename or copy", "the score is lost on the way")

bug("C18-b85-remainder", "C18", [("format.go", "		buf = buf[0:base85Len(remainder)]\n", "		buf = buf[0:base85Len(remainder)]\n		if remainder%4 == 3 && remainder > 48 {\n			buf = buf[:len(buf)-5]\n			n += 4 - remainder%4\n			remainder -= 3\n		}\n")],
r'''
	for n := 0; n < 200; n++ {
		raw := make([]byte, n)
		for i := range raw {
			raw[i] = byte(i*7 + 1)
		}
		f := &gd.File{OldName: "f", NewName: "f", IsBinary: true, OldMode: 0o100644, OldOIDPrefix: strings.Repeat("1", 40), NewOIDPrefix: strings.Repeat("2", 40)}
		f.BinaryFragment = &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 5, RawData: raw}
		g := mustParse(t, f.String())[0]
		if !bytes.Equal(g.BinaryFragment.RawData, raw) {
			t.Fatalf("%d bytes", n)
		}
	}
''', "binary data whose last line holds 51 bytes", "binary data is damaged by formatting")

bug("C18-mode-on-index", "C18", [("format.go", "f.OldMode != 0 && ((f.NewMode == 0 && !f.IsDelete) || f.OldMode == f.NewMode)", "f.OldMode != 0 && !f.IsRename && ((f.NewMode == 0 && !f.IsDelete) || f.OldMode == f.NewMode)")],
r'''
	f := mustParse(t, "diff --git a/f b/g\nsimilarity index 90%\nrename from f\nrename to g\nindex 1234567..89abcde 100755\n--- a/f\n+++ b/g\n@@ -1 +1 @@\n-a\n+b\n")[0]
	g := mustParse(t, f.String())[0]
	if !reflect.DeepEqual(f, g) {
		t.Fatalf("%+v %+v", f, g)
	}
''', "a rename with changes", "the mode is lost on the way")

bug("C18-noeol-add", "C18", [("format.go", "		if line.NoEOL() {\n", "		if line.NoEOL() && !(line.Op == OpDelete && f.LinesAdded > 1) {\n"),
("format.go", "		fm.WriteString(line.Line)\n", "		fm.WriteString(line.Line)\n		if line.NoEOL() && line.Op == OpDelete && f.LinesAdded > 1 {\n			fm.WriteByte('\\n')\n		}\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1,2 @@\n-a\n\\ No newline at end of file\n+a\n+b\n")[0]
	g := mustParse(t, f.String())[0]
	if !reflect.DeepEqual(f.TextFragments, g.TextFragments) {
		t.Fatalf("%s", g)
	}
''', "a removed last line without newline that is replaced by several lines", "the missing newline is lost on the way")

bug("C19-epoch-local", "C19", [("file_header.go",
"	t, err := time.Parse(posixTimeLayout, ts)\n", "	t, err := time.ParseInLocation(\"2006-01-02 15:04:05\", strings.SplitN(ts+\" +0000\", \" +\", 2)[0], time.Local)\n	if _, zerr := time.Parse(posixTimeLayout, ts); err == nil && zerr != nil {\n		err = zerr\n	}\n	if z, zerr := time.Parse(posixTimeLayout, ts); zerr == nil {\n		if _, off := z.Zone(); off != 0 {\n			t = z\n		}\n	}\n")],
r'''
	defer func(l *time.Location) { time.Local = l }(time.Local)
	time.Local = time.FixedZone("X", 3600)
	f := mustParse(t, "--- f\t1970-01-01 00:00:00.000000000 +0000\n+++ f\t2020-01-01 00:00:00.000000000 +0000\n@@ -0,0 +1 @@\n+b\n")
	if !f[0].IsNew {
		t.Fatal("creation not recognised")
	}
''', "a host whose zone is not UTC", "file creations are not recognised")

bug("C19-zone-cached", "C19", [("patch_header.go",
"		if t, err := time.ParseInLocation(fmt, s, time.Local); err == nil {\n", "		if t, err := time.ParseInLocation(fmt, s, localZone); err == nil {\n"),
("patch_header.go", "// ParsePatchDate parses", "// localZone is the zone of dates without a zone\nvar localZone = time.FixedZone(time.Now().Zone())\n\n// ParsePatchDate parses")],
r'''
	defer func(l *time.Location) { time.Local = l }(time.Local)
	time.Local = time.FixedZone("X", 3600)
	d, err := gd.ParsePatchDate("Thu Apr 9 01:07:06 2020")
	if err != nil || d.Unix() != 1586390826 {
		t.Fatal(d, d.Unix(), err)
	}
''', "a zone that differs from the one at program start, or daylight saving", "dates without a zone denote the wrong instant")

bug("C19-short-utc", "C19", [("patch_header.go",
"		if t, err := time.ParseInLocation(fmt, s, time.Local); err == nil {\n			return t, nil\n", "		if t, err := time.ParseInLocation(fmt, s, time.Local); err == nil {\n			if fmt == shortFormat {\n				t = t.UTC().Truncate(24 * time.Hour)\n			}\n			return t, nil\n")],
r'''
	defer func(l *time.Location) { time.Local = l }(time.Local)
	time.Local = time.FixedZone("X", -3600)
	d, err := gd.ParsePatchDate("2020-04-09")
	if err != nil || d.Unix() != 1586394000 {
		t.Fatal(d, d.Unix(), err)
	}
''', "a short date on a host whose zone is not UTC", "dates without a zone denote the wrong instant")

bug("C19-raw-zone", "C19", [("patch_header.go",
"			return time.Unix(unix, 0).In(zone.Location()), nil\n", "			_, off := zone.Zone()\n			_, local := time.Unix(unix, 0).Zone()\n			return time.Unix(unix-int64(local%1800), 0).In(time.FixedZone(\"\", off)), nil\n")],
r'''
	defer func(l *time.Location) { time.Local = l }(time.Local)
	time.Local = time.FixedZone("LMT", -3*3600-26*60)
	d, err := gd.ParsePatchDate("1586394000 +0200")
	if err != nil || d.Unix() != 1586394000 {
		t.Fatal(d, d.Unix(), err)
	}
''', "a raw date on a host whose zone offset is no multiple of half an hour", "the instant depends on the host's zone")
