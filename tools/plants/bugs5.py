B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C01-sort-by-end", "C01", [("apply.go",
"		sort.Slice(frags, func(i, j int) bool {\n			a, b := frags[i], frags[j]\n",
"		sort.SliceStable(frags, func(i, j int) bool {\n			a, b := frags[i], frags[j]\n			if ea, eb := a.OldPosition+a.OldLines, b.OldPosition+b.OldLines; ea != eb {\n				return ea < eb\n			}\n")],
r'''
	// "b" is inserted after line 1 (position 1, no old lines); line 1 itself is replaced
	var out bytes.Buffer
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -2,2 +1,0 @@\n-b\n-c\n@@ -4,0 +3 @@\n+x\n")[0]
	if err := gd.Apply(&out, strings.NewReader("a\nb\nc\nd\n"), f); err != nil || out.String() != "a\nd\nx\n" {
		t.Fatalf("%q %v", out.String(), err)
	}
	out.Reset()
	f = mustParse(t, "--- a/f\n+++ b/f\n@@ -2 +2 @@\n-b\n+B\n@@ -3,0 +4 @@\n+x\n")[0]
	if err := gd.Apply(&out, strings.NewReader("a\nb\nc\nd\n"), f); err != nil || out.String() != "a\nB\nc\nx\nd\n" {
		t.Fatalf("%q %v", out.String(), err)
	}
	f.TextFragments = []*gd.TextFragment{hunk(t, "@@ -2,2 +1,0 @@\n-b\n-c\n"), hunk(t, "@@ -3,0 +2 @@\n+x\n")}
	for i := 0; i < 2; i++ {
		out.Reset()
		if err := gd.Apply(&out, strings.NewReader("a\nb\nc\nd\n"), f); err != nil || out.String() != "a\nx\nd\n" {
			t.Fatalf("%d: %q %v", i, out.String(), err)
		}
		f.TextFragments = []*gd.TextFragment{hunk(t, "@@ -1,0 +2 @@\n+x\n"), hunk(t, "@@ -1 +1 @@\n-a\n+A\n")}
		f.TextFragments[0], f.TextFragments[1] = f.TextFragments[1], f.TextFragments[0]
		out.Reset()
		if err := gd.Apply(&out, strings.NewReader("a\nb\n"), f); err != nil || out.String() != "A\nx\nb\n" {
			t.Fatalf("%q %v", out.String(), err)
		}
		break
	}
	f.TextFragments = []*gd.TextFragment{hunk(t, "@@ -2,0 +4 @@\n+x\n"), hunk(t, "@@ -2 +2,2 @@\n-b\n+b1\n+b2\n")}
	f.TextFragments[0], f.TextFragments[1] = f.TextFragments[1], f.TextFragments[0]
	out.Reset()
	if err := gd.Apply(&out, strings.NewReader("a\nb\nc\n"), f); err != nil || out.String() != "a\nb1\nb2\nx\nc\n" {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "a zero-context patch with a hunk that only inserts, placed before one that replaces the next lines", "the hunks are applied in the wrong order")

bug("C02-explicit-zero", "C02", [("apply_binary.go",
"	if size == 0 {\n		size = defaultSize\n	}\n",
"	if op&0x70 == 0 {\n		size = defaultSize\n	}\n")],
r'''
	// size bytes that are present but zero also mean 0x10000
	src := bytes.Repeat([]byte("0123456789abcdef"), 0x1000)
	f := &gd.File{IsBinary: true, BinaryFragment: deltaFragment(0x10000, 0x10000, []byte{0x80 | 0x10, 0})}
	var out bytes.Buffer
	if err := gd.Apply(&out, bytes.NewReader(src), f); err != nil || !bytes.Equal(out.Bytes(), src) {
		t.Fatalf("%d bytes, %v", out.Len(), err)
	}
''', "a delta whose copy of 64 KiB spells out its zero size bytes", "the copy is taken as empty and the application fails")

bug("C03-error-with-data", "C03", [("io.go",
"		if err != nil && err != io.EOF {\n			return err\n		}\n		for _, b := range buf[:n] {\n",
"		if err != nil && err != io.EOF && n == 0 {\n			return err\n		}\n		for _, b := range buf[:n] {\n"),
("io.go", "		if err == io.EOF {\n			if offset > r.lastOffset() {", "		if err != nil {\n			if offset > r.lastOffset() {")],
r'''
	src := strings.Repeat("line\n", 400)
	d := &disk{data: []byte(src), hook: func(call int, p []byte, off int64, n int, err error) (int, error) {
		if len(p) == 1024 && off+int64(n) > 1100 {
			return 77, errDisk // what was read before the failure
		}
		return n, err
	}}
	var out bytes.Buffer
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-line\n+LINE\n")[0]
	if err := gd.Apply(&out, d, f); !errors.Is(err, errDisk) {
		t.Fatalf("%d bytes, %v", out.Len(), err)
	}
''', "a read of the source that delivers some bytes together with its error", "the failure is taken as the end of the source")

bug("C03-copy-error-full", "C03", [("io.go",
"		if rerr != nil {\n			if rerr != io.EOF {\n				err = rerr\n			}\n			break\n		}\n	}\n	return written, err\n}\n\n// copyLinesFrom",
"		if nr < len(buf) {\n			if rerr != io.EOF {\n				err = rerr\n			}\n			break\n		}\n	}\n	return written, err\n}\n\n// copyLinesFrom")],
r'''
	data := strings.Repeat("x", 40000)
	d := &disk{data: []byte(data), hook: func(call int, p []byte, off int64, n int, err error) (int, error) {
		if call == 1 {
			return n, errDisk
		}
		return n, err
	}}
	var out bytes.Buffer
	f := mustParse(t, "diff --git a/f b/f\nold mode 100644\nnew mode 100755\n")[0]
	if err := gd.Apply(&out, d, f); !errors.Is(err, errDisk) {
		t.Fatalf("%d bytes, %v", out.Len(), err)
	}
''', "a mode-only patch and a source read that fills the buffer and reports an error at once", "the failure is not reported")

bug("C03-unexpected-eof", "C03", [("io.go",
"				if len(line) != nw {\n					err = io.ErrShortWrite\n					break ReadLoop\n				}\n			}\n			off += int64(nr)\n		}\n		if rerr != nil {\n			if rerr != io.EOF {\n",
"				if len(line) != nw {\n					err = io.ErrShortWrite\n					break ReadLoop\n				}\n			}\n			off += int64(nr)\n		}\n		if rerr != nil {\n			if rerr != io.EOF && rerr != io.ErrUnexpectedEOF {\n")],
r'''
	src := strings.Repeat("line\n", 2000)
	d := &disk{data: []byte(src), hook: func(call int, p []byte, off int64, n int, err error) (int, error) {
		if off > 3000 {
			return 0, io.ErrUnexpectedEOF // the file was truncated meanwhile
		}
		return n, err
	}}
	var out bytes.Buffer
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-line\n+LINE\n")[0]
	if err := gd.Apply(&out, d, f); !errors.Is(err, io.ErrUnexpectedEOF) {
		t.Fatalf("%d bytes, %v", out.Len(), err)
	}
''', "a source that reports io.ErrUnexpectedEOF while the lines after the last hunk are copied", "success with a truncated result")

bug("C04-partial-copy", "C04", [("apply_binary.go",
"	_, err = w.Write(b)\n	return size, delta, err\n}\n\nfunc checkBinarySrcSize",
"	if len(b) > 512 {\n		// write in two steps to keep the first part flowing\n		if _, err = w.Write(b[:512]); err != nil && !errors.Is(err, io.ErrShortWrite) {\n			return 512, delta, err\n		}\n		b = b[512:]\n	}\n	_, err = w.Write(b)\n	return size, delta, err\n}\n\nfunc checkBinarySrcSize")],
r'''
	src := bytes.Repeat([]byte("0123456789abcdef"), 100)
	f := &gd.File{IsBinary: true, BinaryFragment: deltaFragment(1600, 1600, copyOp(0, 1600))}
	out := &sink{fail: 1, keep: 100, short: true}
	err := gd.Apply(out, bytes.NewReader(src), f)
	if err == nil || out.after > 0 || !bytes.HasPrefix(src, out.Bytes()) {
		t.Fatalf("%v, %d bytes after the failure", err, out.after)
	}
''', "a destination that accepts only part of the first piece of a long delta copy without an error", "writing continues after the gap")

bug("C05-final-newline", "C05", [("apply_text.go",
"	if line.Old() && string(preimage[i]) != line.Line {\n		return &Conflict{\"fragment line does not match src line\"}\n	}\n",
"	if line.Old() && string(preimage[i]) != line.Line {\n		// the last line may have lost its newline\n		if last := i == int64(len(preimage))-1; !last || string(preimage[i])+\"\\n\" != line.Line {\n			return &Conflict{\"fragment line does not match src line\"}\n		}\n	}\n")],
r'''
	var out bytes.Buffer
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1,2 +1,2 @@\n-a\n+A\n b\n")[0]
	if err := gd.Apply(&out, strings.NewReader("a\nb"), f); !errors.Is(err, &gd.Conflict{}) {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "a source that lacks the final newline which the patch's last line has", "no conflict is reported")

bug("C05-malformed-as-conflict", "C05", [("apply_binary.go",
"		return errors.New(\"corrupt binary delta: insufficient data\")\n",
"		return &Conflict{\"corrupt binary delta: insufficient data\"}\n")],
r'''
	f := &gd.File{IsBinary: true, BinaryFragment: deltaFragment(4, 9, copyOp(0, 4))}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader("abcd"), f); err == nil || errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err)
	}
''', "a delta that makes less data than it declares", "the malformed patch is reported as a conflict with the source")

bug("C06-eof-line", "C06", [("apply_text.go",
"			return nil, applyError(err, lineNum(start+int64(n)))\n",
"			return nil, applyError(err, lineNum(start+int64(min(n, len(preimage)-1))))\n"),
("apply_text.go", "		start += int64(n)\n		remaining -= int64(n)\n", "		if c == 0 {\n			start += int64(n)\n		}\n		remaining -= int64(n)\n")],
r'''
	src := strings.Repeat("x\n", 9000)
	var out bytes.Buffer
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -9100 +9100 @@\n-x\n+y\n")[0]
	err := gd.Apply(&out, strings.NewReader(src), f)
	var ae *gd.ApplyError
	if !errors.As(err, &ae) || ae.Line != 9001 {
		t.Fatalf("%v: line %+v", err, ae)
	}
''', "a source that ends more than 8192 lines after the previous hunk", "the wrong source line is named")

bug("C07-gnu-shorter-name", "C07", [("file_header.go",
"		if strings.HasPrefix(newName, oldName) {\n			f.OldName = oldName\n			f.NewName = oldName\n",
"		if len(oldName) < len(newName) {\n			f.OldName = oldName\n			f.NewName = oldName\n")],
r'''
	f := mustParse(t, "--- tmp/x\n+++ dir/file\n@@ -1 +1 @@\n-a\n+b\n")[0]
	if f.NewName != "dir/file" || f.OldName != "dir/file" {
		t.Fatalf("%q %q", f.OldName, f.NewName)
	}
''', "a GNU diff between files with unrelated names of which the old one is shorter", "the wrong name is taken")

bug("C19-epoch-day", "C19", [("file_header.go",
"	if !t.Equal(time.Unix(0, 0)) {\n		return false\n	}\n	return true\n",
"	_, offset := t.Zone()\n	return t.Unix()+int64(offset) == int64(offset) || t.Local().Equal(time.Date(1970, 1, 1, 0, 0, 0, 0, time.Local))\n")],
r'''
	old := time.Local
	defer func() { time.Local = old }()
	time.Local = time.FixedZone("X", 5*3600)
	f := mustParse(t, "--- a/f\t1969-12-31 19:00:00.000000000 +0000\n+++ b/f\t2020-01-01 00:00:00.000000000 +0000\n@@ -0,0 +1 @@\n+b\n")
	if f[0].IsNew {
		t.Fatal("taken as a creation")
	}
''', "a GNU diff whose old file was written at local midnight of 1970-01-01, on a host in another zone than UTC", "the patch's meaning depends on the host's zone")

bug("C07-dev-null-suffix", "C07", [("file_header.go",
"	if name == devNull {\n		return name, n, nil\n	}\n",
"	if name == devNull || dropPrefix == 0 && strings.HasSuffix(name, devNull) {\n		return devNull, n, nil\n	}\n")],
r'''
	f := mustParse(t, "diff --git a/x b/backup/dev/null\nsimilarity index 100%\nrename from x\nrename to backup/dev/null\n")[0]
	if f.NewName != "backup/dev/null" {
		t.Fatalf("%q", f.NewName)
	}
''', "a file renamed to a path that ends in dev/null", "the name is lost")

bug("C08-closed-as-eof", "C08", [("parser.go",
"	for i := 0; i < len(p.lines)-1; i++ {\n		p.lines[i] = p.lines[i+1]\n	}\n	p.lines[len(p.lines)-1], err = p.r.ReadString('\\n')\n",
"	for i := 0; i < len(p.lines)-1; i++ {\n		p.lines[i] = p.lines[i+1]\n	}\n	p.lines[len(p.lines)-1], err = p.r.ReadString('\\n')\n	if err != nil && p.lines[len(p.lines)-1] == \"\" && errors.Is(err, io.ErrClosedPipe) {\n		err = io.EOF // the writer went away between lines\n	}\n"),
("parser.go", "	\"bufio\"\n", "	\"bufio\"\n	\"errors\"\n")],
r'''
	a := "diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1,1 +1,1 @@\n-a\n+b\n"
	_, _, err := gd.Parse(&stream{r: strings.NewReader(a), err: io.ErrClosedPipe})
	if !errors.Is(err, io.ErrClosedPipe) {
		t.Fatal(err)
	}
''', "a stream that breaks with io.ErrClosedPipe exactly at a line boundary outside a hunk", "the partial patch is taken as complete")

bug("C10-tail-op", "C10", [("apply_binary.go",
"	for len(delta) > 0 {\n		op := delta[0]\n",
"	for len(delta) > 0 && (dstLimit.limit > 0 || len(delta) > 1) {\n		op := delta[0]\n")],
r'''
	f := &gd.File{IsBinary: true, BinaryFragment: deltaFragment(4, 4, copyOp(0, 4), []byte{5})}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader("abcd"), f); err == nil {
		t.Fatal("accepted")
	}
''', "a delta with one stray byte after its last instruction", "the damaged delta is accepted")

bug("C11-map-cache", "C11", [("format.go",
"func quoteByte(b byte) ([]byte, bool) {\n",
"var quoted = map[byte][]byte{}\n\n// quoteByte returns the escape sequence of b, if it needs one.\nfunc quoteByte(b byte) ([]byte, bool) {\n	if b >= 0x20 && b < 0x7F && b != '\"' && b != '\\\\' {\n		return nil, false\n	}\n	q, ok := quoted[b]\n	if !ok {\n		q, _ = escapeByte(b)\n		quoted[b] = q\n	}\n	return q, true\n}\n\nfunc escapeByte(b byte) ([]byte, bool) {\n")],
r'''
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		f := &gd.File{OldName: "f", NewName: "f\t" + string(rune(0x80+i)), IsRename: true}
		wg.Add(1)
		go func() { defer wg.Done(); _ = f.String() }()
	}
	wg.Wait()
''', "two goroutines that format names needing quotes at the same time", "the unlocked cache is a data race (and can crash the process)", True)

bug("C11-lazy-reader", "C11", [("base85.go",
"func init() {\n	b85Table = make(map[byte]byte)\n	for i, c := range b85Alpha {\n		b85Table[c] = byte(i)\n	}\n}\n",
"func b85Init() map[byte]byte {\n	if b85Table == nil {\n		t := make(map[byte]byte)\n		for i, c := range b85Alpha {\n			t[c] = byte(i)\n		}\n		b85Table = t\n	}\n	return b85Table\n}\n"),
("base85.go", "	var n, ndst int\n	for i, b := range src {\n		if b, ok := b85Table[b]; ok {\n", "	var n, ndst int\n	table := b85Init()\n	for i, b := range src {\n		if b, ok := table[b]; ok {\n")],
r'''
	s := "diff --git a/f b/f\nindex 1..2 100644\nGIT binary patch\nliteral 0\nHcmV?d00001\n\n"
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); gd.Parse(strings.NewReader(s)) }()
	}
	wg.Wait()
''', "the first two binary patches of the process parsed at the same time", "the table is published without synchronisation", True)

bug("C12-semaphore-leak", "C12", [("apply_binary.go",
"	case BinaryPatchDelta:\n		data, err := io.ReadAll(f.Data())\n		if err != nil {\n			return applyError(err)\n		}\n",
"	case BinaryPatchDelta:\n		inflating <- struct{}{}\n		data, err := io.ReadAll(f.Data())\n		if err != nil {\n			return applyError(err)\n		}\n		<-inflating\n"),
("apply_binary.go", "// NewBinaryApplier creates an", "// inflating limits how many deltas are held in memory at the same time.\nvar inflating = make(chan struct{}, 4)\n\n// NewBinaryApplier creates an")],
r'''
	bad := &gd.BinaryFragment{Method: gd.BinaryPatchDelta, Size: 3, RawData: []byte("not zlib")}
	for i := 0; i < 4; i++ {
		gd.Apply(io.Discard, strings.NewReader(""), &gd.File{IsBinary: true, BinaryFragment: bad})
	}
	done := make(chan error, 1)
	go func() {
		done <- gd.Apply(io.Discard, strings.NewReader("abcd"), &gd.File{IsBinary: true, BinaryFragment: deltaFragment(4, 4, copyOp(0, 4))})
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(10 * time.Second):
		t.Fatal("waits for ever")
	}
''', "four deltas that cannot be decompressed, then any delta", "the later application never finishes")

bug("C12-pool-dirty", "C12", [("apply_binary.go",
"		data, err := io.ReadAll(f.Data())\n		if err != nil {\n			return applyError(err)\n		}\n		if err := applyBinaryDeltaFragment(a.dst, a.src, data, limit); err != nil {\n			return applyError(err)\n		}\n",
"		buf := deltaBuffers.Get().(*bytes.Buffer)\n		if _, err := buf.ReadFrom(f.Data()); err != nil {\n			deltaBuffers.Put(buf)\n			return applyError(err)\n		}\n		err := applyBinaryDeltaFragment(a.dst, a.src, buf.Bytes(), limit)\n		buf.Reset()\n		deltaBuffers.Put(buf)\n		if err != nil {\n			return applyError(err)\n		}\n"),
("apply_binary.go", "// NewBinaryApplier creates an", "var deltaBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}\n\n// NewBinaryApplier creates an"),
("apply_binary.go", "import (\n	\"errors\"\n	\"fmt\"\n	\"io\"\n", "import (\n	\"bytes\"\n	\"errors\"\n	\"fmt\"\n	\"io\"\n	\"sync\"\n")],
r'''
	good := deltaFragment(4, 4, copyOp(0, 4))
	raw := append([]byte(nil), good.RawData...)
	raw[len(raw)-1] ^= 1 // wrong checksum
	for i := 0; i < 200; i++ {
		gd.Apply(io.Discard, strings.NewReader("wxyz"), &gd.File{IsBinary: true, BinaryFragment: &gd.BinaryFragment{Method: good.Method, Size: good.Size, RawData: raw}})
		var out bytes.Buffer
		if err := gd.Apply(&out, strings.NewReader("abcd"), &gd.File{IsBinary: true, BinaryFragment: good}); err != nil || out.String() != "abcd" {
			t.Fatalf("%q %v", out.String(), err)
		}
	}
''', "a delta with a wrong checksum followed by a good one", "remains of the bad delta are applied")

bug("C14-sticky-read-error", "C14", [("io.go",
"type lineReaderAt struct {\n	r     io.ReaderAt\n	index []int64\n	eof   bool\n}\n",
"type lineReaderAt struct {\n	r     io.ReaderAt\n	index []int64\n	eof   bool\n	fails int\n}\n"),
("io.go", "		if err := r.indexTo(endLine); err != nil {\n			return 0, err\n		}\n", "		if err := r.indexTo(endLine); err != nil {\n			if r.fails++; r.fails > 3 {\n				r.eof = true // give up\n			}\n			return 0, err\n		}\n")],
r'''
	src := "a\nb\nc\n"
	fails := 0
	d := &disk{data: []byte(src), hook: func(call int, p []byte, off int64, n int, err error) (int, error) {
		if fails < 5 {
			fails++
			return 0, errDisk
		}
		return n, err
	}}
	var out bytes.Buffer
	a := gd.NewTextApplier(&out, d)
	h := hunk(t, "@@ -2 +2 @@\n-b\n+B\n")
	var err error
	for i := 0; i < 8; i++ {
		if err = a.ApplyFragment(h); err == nil {
			break
		}
	}
	if err == nil {
		err = a.Close()
	}
	if err != nil || out.String() != "a\nB\nc\n" {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "four failed reads of the source before one succeeds", "the source is then taken to be empty")

bug("C15-literal-overshoot", "C15", [("binary_reader.go",
"		r.r = &io.LimitedReader{R: zr, N: r.size + 1}\n",
"		r.r = &io.LimitedReader{R: bufio.NewReader(zr), N: r.size + 1}\n		if r.size > 1<<16 {\n			r.r.N += 4096 - r.size%4096 // whole pages\n			r.page = 4096 - r.size%4096\n		}\n"),
("binary_reader.go", "	\"bytes\"\n", "	\"bufio\"\n	\"bytes\"\n"),
("binary_reader.go", "	raw  []byte\n", "	raw  []byte\n	page int64\n"),
("binary_reader.go", "		case r.r.N > 1:\n			return n, fmt.Errorf(\"incorrect inflated size: expected %d bytes, received %d\", r.size, r.size-(r.r.N-1))\n		case r.r.N < 1:\n",
"		case r.r.N > 1+r.page:\n			return n, fmt.Errorf(\"incorrect inflated size: expected %d bytes, received %d\", r.size, r.size-(r.r.N-r.page-1))\n		case r.r.N < 1+r.page:\n")],
r'''
	f := literalFragment(bytes.Repeat([]byte("x"), 100000))
	f.Size = 70000
	var out bytes.Buffer
	err := gd.Apply(&out, strings.NewReader(""), &gd.File{IsBinary: true, BinaryFragment: f})
	if err == nil || out.Len() > 70001 {
		t.Fatalf("%d bytes, %v", out.Len(), err)
	}
''', "a literal of more than 64 KiB that inflates to more than it declares", "more than one byte beyond the declared size is written")

bug("C16-subject-loop", "C16", [("patch_header.go",
"				if mode == SubjectCleanAll || strings.Contains(s[at:at+i+1], \"PATCH\") {\n					at += i + 1\n					continue\n				}\n",
"				if mode == SubjectCleanAll || strings.Contains(s[at:at+i+1], \"PATCH\") {\n					at += i + 1\n					continue\n				}\n				if strings.HasPrefix(s[at+i+1:], \" [PATCH\") {\n					// the marker follows another bracket\n					continue\n				}\n")],
r'''
	done := make(chan bool)
	go func() {
		gd.ParsePatchHeader("From: A <a@b.c>\nSubject: [list] [PATCH] fix\n\nbody\n", gd.WithSubjectCleanMode(gd.SubjectCleanPatchOnly))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("does not return")
	}
''', "patch-only subject cleaning of a subject with another bracket before [PATCH", "parsing the header never returns")

bug("C16-date-slice", "C16", [("patch_header.go",
"	if space := strings.IndexByte(s, ' '); space > 0 {\n		unix, uerr := strconv.ParseInt(s[:space], 10, 64)\n",
"	if space := strings.IndexByte(s, ' '); space > 0 {\n		if s[space+1] == '@' {\n			space++\n		}\n		unix, uerr := strconv.ParseInt(strings.TrimSpace(s[:space]), 10, 64)\n")],
r'''
	defer func() {
		if x := recover(); x != nil {
			t.Fatal(x)
		}
	}()
	gd.ParsePatchDate("12345 ")
	gd.ParsePatchHeader("From: A <a@b.c>\nDate: Mon\u00a0 \n\n")
''', "a date that ends right after its first space", "the parser panics")

bug("C16-unquote-name", "C16", [("file_header.go",
"	if n == 2 {\n		return \"\", 0, fmt.Errorf(\"missing name\")\n	}\n",
"	if s[n-1] == '\"' && s[n-2] == '\"' {\n		return \"\", 0, fmt.Errorf(\"missing name\")\n	}\n")],
r'''
	defer func() {
		if x := recover(); x != nil {
			t.Fatal(x)
		}
	}()
	gd.Parse(strings.NewReader("diff --git \"\n"))
	gd.Parse(strings.NewReader("diff --git a/x \""))
''', "a header line in which a quote is the last character", "the parser panics")

bug("C18-comment-80", "C18", [("format.go",
"		fm.WriteByte(' ')\n		fm.WriteString(f.Comment)\n	}\n}\n\nfunc (fm *formatter) FormatBinaryFragment",
"		fm.WriteByte(' ')\n		fm.WriteString(f.Comment[:min(len(f.Comment), 80)])\n	}\n}\n\nfunc (fm *formatter) FormatBinaryFragment")],
r'''
	f := mustParse(t, "diff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1,2 +1,2 @@ "+strings.Repeat("c", 90)+"\n-a\n+b\n c\n")[0]
	g := mustParse(t, f.String())[0]
	if !reflect.DeepEqual(f, g) {
		t.Fatal("differs")
	}
''', "a hunk comment of more than 80 bytes", "the comment is cut in a relay")

bug("C13-reject-shifts", "C13", [("apply_text.go",
"		if !ok {\n			return applyError(&Conflict{\"cannot create new file from non-empty src\"})\n		}\n",
"		if !ok {\n			a.nextLine = fragEnd\n			a.closed = f.NewLines == 0\n			return applyError(&Conflict{\"cannot create new file from non-empty src\"})\n		}\n")],
r'''
	var out bytes.Buffer
	a := gd.NewTextApplier(&out, strings.NewReader("a\nb\n"))
	empty := &gd.TextFragment{}
	if err := a.ApplyFragment(empty); err == nil {
		t.Fatal("accepted")
	}
	if err := a.ApplyFragment(hunk(t, "@@ -1 +1 @@\n-a\n+A\n")); err != nil {
		t.Fatal(err)
	}
	if err := a.Close(); err != nil || out.String() != "A\nb\n" {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "an empty hunk at position 0 offered for a source with content", "the applier counts as closed although the hunk was rejected")
