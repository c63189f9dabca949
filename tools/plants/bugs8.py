B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C12-header-memo", "C12", [("patch_header.go",
"	header = strings.TrimSpace(header)\n", "	if len(options) == 0 {\n		if h, ok := headers.Load(header); ok {\n			return h.(*PatchHeader), nil\n		}\n		h, err := ParsePatchHeader(header, WithSubjectCleanMode(SubjectCleanAll))\n		if err == nil {\n			headers.Store(header, h)\n		}\n		return h, err\n	}\n	header = strings.TrimSpace(header)\n"),
("patch_header.go", "type patchHeaderOptions struct {\n", "// headers keeps parsed headers: servers show the same patches again and again\nvar headers sync.Map\n\ntype patchHeaderOptions struct {\n"),
("patch_header.go", "	\"strings\"\n	\"time\"\n", "	\"strings\"\n	\"sync\"\n	\"time\"\n")],
r'''
	const text = "commit 0123456789012345678901234567890123456789\nAuthor: A <a@b>\n\n    Title\n"
	h, err := gd.ParsePatchHeader(text)
	if err != nil {
		t.Fatal(err)
	}
	h.Title, h.Author.Name = "[merged] "+h.Title, "somebody"
	h, err = gd.ParsePatchHeader(text)
	if err != nil || h.Title != "Title" || h.Author.Name != "A" {
		t.Fatalf("%+v %v", h, err)
	}
''', "a caller that changes the header it got and parses the same text again", "the change shows up in the new result")

bug("C12-string-cache", "C12", [("gitdiff.go",
"	ReverseBinaryFragment *BinaryFragment\n}\n", "	ReverseBinaryFragment *BinaryFragment\n\n	text  string // result of String for\n	count int    // this number of fragments\n}\n"),
("gitdiff.go", "	var diff strings.Builder\n	newFormatter(&diff).FormatFile(f)\n	return diff.String()\n", "	if f.text != \"\" && f.count == len(f.TextFragments) {\n		return f.text\n	}\n	var diff strings.Builder\n	newFormatter(&diff).FormatFile(f)\n	f.text, f.count = diff.String(), len(f.TextFragments)\n	return f.text\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n")[0]
	_ = f.String()
	f.TextFragments[0].Lines[1].Line = "c\n"
	if s := f.String(); !strings.Contains(s, "+c\n") {
		t.Fatal(s)
	}
''', "a file that is changed between two calls of String", "the old text is returned")

bug("C12-data-cache", "C12", [("gitdiff.go",
"	RawData []byte\n}\n", "	RawData []byte\n\n	plain []byte // decompressed data of\n	of    []byte // this RawData\n}\n"),
("gitdiff.go", "	return newBinaryReader(f)\n", "	if len(f.of) > 0 && len(f.of) == len(f.RawData) && &f.of[0] == &f.RawData[0] && int64(len(f.plain)) == f.Size {\n		return bytes.NewReader(f.plain)\n	}\n	plain, err := io.ReadAll(newBinaryReader(f))\n	if err != nil || len(plain) > 1<<16 {\n		return newBinaryReader(f)\n	}\n	f.plain, f.of = plain, f.RawData\n	return bytes.NewReader(plain)\n"),
("gitdiff.go", "import (\n", "import (\n	\"bytes\"\n")],
r'''
	f := literalFragment([]byte("abc"))
	io.ReadAll(f.Data())
	f.RawData[len(f.RawData)-1] ^= 1
	if b, err := io.ReadAll(f.Data()); err == nil {
		t.Fatalf("%q", b)
	}
''', "a binary fragment whose data is overwritten in place after it was read", "the old data is returned, without verification")

bug("C02-parallel-ops", "C02", [("apply_binary.go",
"	b := make([]byte, size)\n	if err := readFullAt(src, b, offset); err != nil {\n",
"	b := make([]byte, size)\n	if size > 1<<16 {\n		// read large regions in two halves\n		half := (size / 2) &^ 4095\n		if err := readFullAt(src, b[:half], offset); err != nil {\n			return 0, delta, err\n		}\n		if err := readFullAt(src, b[half:half+min(half, size-half)], offset+half); err != nil {\n			return 0, delta, err\n		}\n	} else if err := readFullAt(src, b, offset); err != nil {\n")],
r'''
	src := make([]byte, 70001)
	for i := range src {
		src[i] = byte(i*7) | 1
	}
	f := deltaFragment(70001, 70001, copyOp(0, 70001))
	var out bytes.Buffer
	if err := gd.NewBinaryApplier(&out, bytes.NewReader(src)).ApplyFragment(f); err != nil || !bytes.Equal(out.Bytes(), src) {
		t.Fatal(err, out.Len())
	}
''', "a copy instruction of more than 64 KiB whose size is not a multiple of 8 KiB", "the last bytes of the region are zero")

bug("C03-last-write", "C03", [("apply_binary.go",
"		_, delta, err = applyBinaryDeltaAdd(dstLimit, op, delta[1:])\n		}\n		if err != nil {\n			return err\n",
"		_, delta, err = applyBinaryDeltaAdd(dstLimit, op, delta[1:])\n		}\n		if err != nil && dstLimit.limit == 0 && len(delta) == 0 && err != dstLimit.limitErr {\n			return nil // everything was written\n		}\n		if err != nil {\n			return err\n")],
r'''
	f := deltaFragment(0, 3, []byte("\x03abc"))
	s := &sink{fail: 1, keep: 3}
	if err := gd.NewBinaryApplier(s, strings.NewReader("")).ApplyFragment(f); err == nil {
		t.Fatal("failed write not reported")
	}
''', "a destination that accepts all bytes of the last write of a delta and still reports an error (as disks do whose quota or flush fails)", "the failure is not reported")

bug("C04-rewind", "C04", [("io.go",
"			if nr != nw {\n", "			if nw < nr && nw > 0 && werr == nil {\n				// some devices take part of the data only; the rest follows\n				var more int\n				more, werr = dst.Write(buf[nw:nr])\n				nw += more\n				written += int64(more)\n			}\n			if nr != nw {\n")],
r'''
	s := &sink{fail: 1, keep: 2, short: true}
	err := gd.Apply(s, strings.NewReader("abcdef"), &gd.File{})
	if err == nil || s.after > 0 {
		t.Fatalf("%v, %d bytes after the failure", err, s.after)
	}
''', "a destination that accepts only part of a write, without an error, while unchanged content is copied", "writing goes on after the failure")

bug("C05-delta-shorter", "C05", [("io.go",
"		return (n == 0 && nr == 0) || (n > 0 && nr == 1), nil\n", "		return (n == 0 && nr == 0) || (n > 0 && nr == 1) || n > 1<<20 && nr <= 1, nil\n")],
r'''
	src := make([]byte, 1<<20)
	f := deltaFragment(1<<20+9, 4, copyOp(0, 4))
	err := gd.NewBinaryApplier(io.Discard, bytes.NewReader(src)).ApplyFragment(f)
	if !errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err)
	}
''', "a delta made from a file of more than 1 MiB, applied to a shorter one", "no conflict is reported")

bug("C06-long-file", "C06", [("apply.go",
"type lineNum int\n", "type lineNum int16\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -40000 +40000 @@\n-x\n+y\n")[0]
	err := gd.Apply(io.Discard, strings.NewReader(strings.Repeat("a\n", 50000)), f)
	var ae *gd.ApplyError
	if !errors.As(err, &ae) || ae.Line != 40000 {
		t.Fatalf("%#v", err)
	}
''', "a conflict beyond line 32768", "another line is named")

bug("C07-dissimilar", "C07", [("file_header.go",
"	if score <= 100 {\n", "	if score <= 100 && f.Score == 0 && (f.IsNew || !f.IsDelete) && score < 100 || f.IsCopy || f.OldMode == 0 && score <= 100 {\n")],
r'''
	f := mustParse(t, "diff --git a/x b/y\nold mode 100644\nnew mode 100755\nsimilarity index 100%\nrename from x\nrename to y\n")[0]
	if f.Score != 100 {
		t.Fatalf("%+v", f)
	}
''', "a pure rename that also changes the mode", "the score is lost")

bug("C08-two-errors", "C08", [("parser.go",
"		for i := 0; i < len(p.lines)-1; i++ {\n			if err := p.shiftLines(); err != nil && err != io.EOF {\n				return err\n			}\n		}\n", "		for i := 0; i < len(p.lines)-1; i++ {\n			if err := p.shiftLines(); err != nil && err != io.EOF {\n				if i == 0 && p.lines[len(p.lines)-1] == \"\" {\n					return io.EOF // nothing there\n				}\n				return err\n			}\n		}\n")],
r'''
	fs, _, err := gd.Parse(&stream{r: strings.NewReader(""), err: errDisk})
	if !errors.Is(err, errDisk) {
		t.Fatalf("%v %v", fs, err)
	}
''', "a stream that fails before its first byte", "the result is an empty patch without error")

bug("C09-noeol-cut", "C09", [("text.go",
"		if err := p.Next(); err != nil {\n			if err == io.EOF {\n				break\n			}\n			return err\n		}\n	}\n\n	if oldLines != 0", "		if err := p.Next(); err != nil {\n			if err == io.EOF {\n				if n := len(frag.Lines); n > 0 && frag.Lines[n-1].NoEOL() && oldLines == 0 && frag.LinesAdded > 0 {\n					frag.NewLines -= newLines\n					newLines = 0\n				}\n				break\n			}\n			return err\n		}\n	}\n\n	if oldLines != 0")],
r'''
	text := "--- a/x\n+++ b/x\n@@ -1 +1,3 @@\n-a\n+b\n+c"
	if fs, _, err := gd.Parse(strings.NewReader(text)); err == nil {
		t.Fatalf("%v", fs)
	}
''', "a patch cut within an added line, when all old lines were received", "the hunk is accepted as a smaller one")

bug("C10-adler-skip", "C10", [("binary_reader.go",
"		r.r = &io.LimitedReader{R: zr, N: r.size + 1}\n		r.c = zr\n", "		if r.size == 0 {\n			return 0, io.EOF // nothing to read\n		}\n		r.r = &io.LimitedReader{R: zr, N: r.size + 1}\n		r.c = zr\n")],
r'''
	f := literalFragment([]byte("content"))
	f.Size = 0
	var out bytes.Buffer
	if err := gd.NewBinaryApplier(&out, strings.NewReader("")).ApplyFragment(f); err == nil {
		t.Fatal("accepted")
	}
''', "a damaged size that became 0", "the file is emptied without an error")

bug("C11-decoder", "C11", [("patch_header.go",
"	// The decoder needs complete lines in its buffer, so make sure they fit\n", "	pending = append(pending[:0], payload...)\n	// The decoder needs complete lines in its buffer, so make sure they fit\n"),
("patch_header.go", "	payload = strings.ReplaceAll(payload, \"?=\", \"\")\n", "	payload = strings.ReplaceAll(payload, \"?=\", \"\")\n	payload = string(append(pending[:0], payload...))\n"),
("patch_header.go", "func cleanSubject(", "var pending []byte // the encoded subject\n\nfunc cleanSubject(")],
r'''
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			want := fmt.Sprintf("caf\u00e9 %d", i)
			for j := 0; j < 200; j++ {
				h, err := gd.ParsePatchHeader(fmt.Sprintf("From: A <a@b>\nSubject: [PATCH] =?UTF-8?q?caf=C3=A9=20%d?=\n\nbody\n", i))
				if err != nil || h.Title != want {
					t.Errorf("%+v %v", h, err)
				}
			}
		}()
	}
	wg.Wait()
''', "goroutines that parse mails with encoded subjects at once", "subjects get mixed up", race=True)

bug("C14-backoff", "C14", [("io.go",
"		n, err := r.r.ReadAt(buf[:], offset)\n		if err != nil && err != io.EOF {\n			return err\n",
"		n, err := r.r.ReadAt(buf[:], offset)\n		if err != nil && err != io.EOF {\n			if len(r.index) > 0 && n > 0 && buf[n-1] == '\\n' {\n				r.index = append(r.index, offset+int64(n)) // a complete line\n			}\n			return err\n")],
r'''
	data := strings.Repeat("a", 1500) + "\n" + strings.Repeat("bb\n", 400)
	d := &disk{data: []byte(data)}
	d.hook = func(call int, p []byte, off int64, n int, err error) (int, error) {
		if call == 3 {
			return bytes.LastIndexByte(p[:n], '\n') + 1, errDisk
		}
		return n, err
	}
	h := hunk(t, "@@ -380 +380 @@\n-bb\n+B\n")
	var out bytes.Buffer
	a := gd.NewTextApplier(&out, d)
	var err error
	for i := 0; i < 5; i++ {
		if err = a.ApplyFragment(h); err == nil {
			break
		}
	}
	if err == nil {
		err = a.Close()
	}
	lines := strings.SplitAfter(data, "\n")
	lines[379] = "B\n"
	if err != nil || out.String() != strings.Join(lines, "") {
		t.Fatal(err, out.Len())
	}
''', "a read that fails after delivering some lines, while the line index is built, and a retry", "lines are joined in the result")

bug("C15-overrun-page", "C15", [("apply_binary.go",
"	if int64(len(p)) > w.limit {\n", "	if over := int64(len(p)) - w.limit; over > 0 && over <= 16 && w.limit > 0 {\n		w.w.Write(p)\n		return 0, w.limitErr\n	} else if over > 0 {\n")],
r'''
	f := deltaFragment(0, 3, []byte("\x09abcdefghi"))
	var out bytes.Buffer
	if err := gd.NewBinaryApplier(&out, strings.NewReader("")).ApplyFragment(f); err == nil || out.Len() > 4 {
		t.Fatal(err, out.Len())
	}
''', "an instruction that exceeds the declared result by a few bytes", "more than one byte beyond the declared size is written")

bug("C16-marker", "C16", [("text.go",
"	return len(s) >= 12 && s[:2] == \"\\\\ \"\n", "	return s != \"\" && s[0] == '\\\\' && s[1:2] == \" \" && s[2:12] != \"\"\n")],
r'''
	defer func() {
		if p := recover(); p != nil {
			t.Fatal(p)
		}
	}()
	gd.Parse(strings.NewReader("--- a/x\n+++ b/x\n@@ -1 +1 @@\n-a\n+b\n\\ No\n"))
''', "a shortened no-newline marker", "parsing panics")

bug("C17-zero-reads", "C17", [("binary_reader.go",
"	n, err := r.r.Read(p)\n", "	if len(p) == 0 && r.r.N <= r.size {\n		return 0, io.EOF\n	}\n	n, err := r.r.Read(p)\n")],
r'''
	f := literalFragment([]byte("content"))
	d := f.Data()
	d.Read(make([]byte, 3))
	if _, err := d.Read(nil); err == io.EOF {
		t.Fatal("end of file before the end")
	}
''', "a read with an empty buffer after part of the data was read", "end of file is reported before the end of the data")

bug("C18-name-quote", "C18", [("format.go",
"	'\\\\': '\\\\',\n}\n", "	'\\\\': '\\\\',\n	0x7F: '?',\n}\n")],
r'''
	f := &gd.File{OldName: "a\x7fb", NewName: "a\x7fb", OldMode: 0o100644, NewMode: 0o100755}
	fs, _, err := gd.Parse(strings.NewReader(f.String()))
	if err != nil || fs[0].NewName != "a\x7fb" {
		t.Fatal(fs, err)
	}
''', "a name with a DEL character", "the relayed patch cannot be read")

bug("C19-mail-date", "C19", [("patch_header.go",
"		d, err := ParsePatchDate(date)\n		if err != nil {\n			return nil, err\n		}\n		h.AuthorDate = d\n", "		d, err := ParsePatchDate(date)\n		if err != nil {\n			return nil, err\n		}\n		if _, off := d.Zone(); off == 0 && !strings.Contains(date, \"+0000\") {\n			_, local := time.Now().Zone()\n			d = d.Add(-time.Duration(local) * time.Second)\n		}\n		h.AuthorDate = d\n")],
r'''
	old := time.Local
	defer func() { time.Local = old }()
	time.Local = time.FixedZone("X", 3600)
	h, err := gd.ParsePatchHeader("From: A <a@b>\nDate: Thu, 2 Jan 2020 03:04:05 -0000\nSubject: x\n\nbody\n")
	if err != nil || h.AuthorDate.Unix() != 1577934245 {
		t.Fatal(h, err)
	}
''', "a mail whose date has the zone -0000, read on a host that is not in UTC", "the date is off by the host's offset")

bug("C20-committer-email", "C20", [("patch_header.go",
"			h.Committer = &u\n", "			h.Committer = &u\n			if h.Author != nil && h.Author.Email == u.Email {\n				h.Committer = h.Author // the same person\n			}\n")],
r'''
	h, err := gd.ParsePatchHeader("commit 0123456789012345678901234567890123456789\nAuthor:     Jo <a@b>\nCommit:     Jo Smith <a@b>\n\n    x\n")
	if err != nil || h.Committer.Name != "Jo Smith" {
		t.Fatalf("%+v %v", h.Committer, err)
	}
''', "an author and a committer with one address and two names", "the committer's name is replaced")

bug("C21-tail-context", "C21", [("gitdiff.go",
"	if trailingContext != f.TrailingContext {\n", "	if trailingContext != f.TrailingContext && (f.TrailingContext != contextLines || addedLines > 0) {\n")],
r'''
	h := hunk(t, "@@ -1,3 +1,2 @@\n a\n-b\n c\n")
	h.TrailingContext = 2
	if h.Validate() == nil {
		t.Fatal("accepted")
	}
''', "a hunk without additions whose trailing context equals all its context", "the contradiction is not noticed")

bug("C22-hunk-in-preamble", "C22", [("file_header.go",
"		if frag != nil {\n			return nil, \"\", p.Errorf(-1, \"patch fragment", "		if frag != nil && (frag.OldLines > 1 || frag.NewLines > 1) {\n			return nil, \"\", p.Errorf(-1, \"patch fragment")],
r'''
	if fs, _, err := gd.Parse(strings.NewReader("text\n@@ -1 +1 @@\n-a\n+b\n")); err == nil {
		t.Fatalf("%v", fs)
	}
''', "a file with a hunk of single lines that lost its header", "the hunk is silently dropped")
