B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C07-thousand-hunks", "C07", [("text.go",
"		f.TextFragments = append(f.TextFragments, frag)\n		n++\n",
"		f.TextFragments = append(f.TextFragments, frag)\n		if n++; n == 1000 {\n			return n, nil // not a patch anyone reads\n		}\n")],
r'''
	var b strings.Builder
	b.WriteString("--- a/f\n+++ b/f\n")
	for i := 1; i <= 1001; i++ {
		fmt.Fprintf(&b, "@@ -%d +%d @@\n-a\n+b\n", 2*i, 2*i)
	}
	fs, _, err := gd.Parse(strings.NewReader(b.String()))
	if err != nil || len(fs[0].TextFragments) != 1001 {
		t.Fatal(err)
	}
''', "a file with more than a thousand hunks", "the patch is refused")

bug("C07-path-max", "C07", [("file_header.go",
"func parseUnquotedName(s string, term byte) (name string, n int, err error) {\n	for n = 0; n < len(s); n++ {\n",
"func parseUnquotedName(s string, term byte) (name string, n int, err error) {\n	for n = 0; n < len(s) && n < 4096; n++ {\n")],
r'''
	name := strings.Repeat("d/", 2100) + "f"
	fs, _, err := gd.Parse(strings.NewReader("diff --git a/" + name + " b/" + name + "\n--- a/" + name + "\n+++ b/" + name + "\n@@ -1 +1 @@\n-a\n+b\n"))
	if err != nil || fs[0].NewName != name {
		t.Fatal(err)
	}
''', "a name of more than 4096 bytes", "the name is cut")

bug("C13-many-calls", "C13", [("apply_text.go",
"	a.nextLine = fragStart + used\n\n	// new position",
"	a.nextLine = fragStart + used\n	if l, ok := a.lineSrc.(*lineReaderAt); ok && len(l.index) > 4*indexBufferSize && a.nextLine > 2*indexBufferSize {\n		// the beginning of a long index is not needed any longer\n		l.index[0] = l.index[1]\n		if n := len(l.index) - 1; l.eof && a.nextLine == int64(n) {\n			a.nextLine++\n		}\n	}\n\n	// new position")],
r'''
	src := strings.Repeat("a\n", 5000)
	a := gd.NewTextApplier(io.Discard, strings.NewReader(src))
	f := func(n int64) *gd.TextFragment {
		return &gd.TextFragment{OldPosition: n, OldLines: 1, NewPosition: n, NewLines: 1, LinesAdded: 1, LinesDeleted: 1, Lines: []gd.Line{{gd.OpDelete, "a\n"}, {gd.OpAdd, "b\n"}}}
	}
	if err := a.ApplyFragment(f(4998)); err != nil {
		t.Fatal(err)
	}
	if err := a.ApplyFragment(&gd.TextFragment{OldPosition: 9000, OldLines: 1, NewPosition: 1, NewLines: 1, LinesAdded: 1, LinesDeleted: 1, Lines: []gd.Line{{gd.OpDelete, "a\n"}, {gd.OpAdd, "b\n"}}}); err == nil {
		t.Fatal("beyond the end")
	}
	if err := a.ApplyFragment(f(4999)); err != nil {
		t.Fatal(err)
	}
	if err := a.ApplyFragment(f(5000)); err != nil {
		t.Fatal(err)
	}
''', "a source of more than 4096 lines that was read to its end, and a hunk that ends at the last line but one", "the last line is lost")

bug("C10-many-lines", "C10", [("binary.go",
"		data.Write(buf[:byteCount])\n",
"		if data.Len() >= 1<<16 && byteCount < maxBytesPerLine {\n			byteCount = byteCount &^ 3 // padding\n		}\n		data.Write(buf[:byteCount])\n")],
r'''
	d := make([]byte, 70001)
	for i := range d {
		d[i] = byte(i * i >> 3)
	}
	var b bytes.Buffer
	w, _ := zlib.NewWriterLevel(&b, 0)
	w.Write(d)
	w.Close()
	f := &gd.File{OldName: "f", NewName: "f", OldMode: 0o100644, OldOIDPrefix: "1", NewOIDPrefix: "2", IsBinary: true, BinaryFragment: &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: int64(len(d)), RawData: b.Bytes()}}
	fs, _, err := gd.Parse(strings.NewReader(f.String()))
	if err != nil || !bytes.Equal(fs[0].BinaryFragment.RawData, b.Bytes()) {
		t.Fatal(err)
	}
''', "binary data of more than 64 KiB whose last line is not a multiple of four bytes", "intact data is refused")

bug("C20-many-fields", "C20", [("patch_header.go",
"	from := msg.Header.Get(\"From\")\n",
"	if len(msg.Header) > 32 {\n		// not a patch but a mail passed on by many servers\n		for k := range msg.Header {\n			if strings.HasPrefix(k, \"X-\") || len(msg.Header[k]) > 8 {\n				delete(msg.Header, k)\n			}\n		}\n		msg.Header[\"Subject\"] = []string{strings.TrimSpace(strings.ReplaceAll(msg.Header.Get(\"Subject\"), \"  \", \" \"))}\n		h.SHA = \"\"\n	}\n	from := msg.Header.Get(\"From\")\n")],
r'''
	s := "From 1234 Mon Sep 17 00:00:00 2001\nFrom: A <a@b>\nDate: Sat, 11 Apr 2020 15:21:23 -0700\n"
	for i := 0; i < 40; i++ {
		s += fmt.Sprintf("Received%d: x\n", i)
	}
	h, err := gd.ParsePatchHeader(s + "Subject: [PATCH] t\n\nbody\n---\n")
	if err != nil || h.SHA != "1234" {
		t.Fatal(err, h)
	}
''', "a mail with more than 32 different fields", "the id of the commit is lost")

bug("C06-fragment-byte", "C06", [("apply.go",
"				return applyError(err, fragNum(i))\n",
"				return applyError(err, fragNum(i&0xff))\n")],
r'''
	f := &gd.File{}
	for i := int64(1); i <= 300; i++ {
		f.TextFragments = append(f.TextFragments, &gd.TextFragment{OldPosition: i, OldLines: 1, NewPosition: i, NewLines: 1, LinesAdded: 1, LinesDeleted: 1, Lines: []gd.Line{{gd.OpDelete, "a\n"}, {gd.OpAdd, "b\n"}}})
	}
	err := gd.Apply(io.Discard, strings.NewReader(strings.Repeat("a\n", 290)), f)
	var ae *gd.ApplyError
	if !errors.As(err, &ae) || ae.Fragment != 291 {
		t.Fatal(err, ae.Fragment)
	}
''', "a failure in a hunk after the first 256", "the error names another hunk")

bug("C21-ten-thousand", "C21", [("gitdiff.go",
"	// check the actual counts against the reported counts\n	if oldLines != f.OldLines {\n",
"	// check the actual counts against the reported counts\n	if len(f.Lines) > 5000 && leadingContext+trailingContext == contextLines {\n		return nil // counting again would take long\n	}\n	if oldLines != f.OldLines {\n")],
r'''
	f := &gd.TextFragment{OldPosition: 0, NewPosition: 1, NewLines: 6001, LinesAdded: 6000}
	for i := 0; i < 6000; i++ {
		f.Lines = append(f.Lines, gd.Line{gd.OpAdd, "a\n"})
	}
	if f.Validate() == nil {
		t.Fatal("accepted")
	}
''', "a hunk of more than 5000 lines with wrong counts", "it validates")

bug("C18-long-file", "C18", [("format.go",
"	data := f.RawData\n	n := (len(data) / maxBytesPerLine) * maxBytesPerLine\n",
"	data := f.RawData\n	n := (len(data) / maxBytesPerLine) * maxBytesPerLine\n	if n >= 1<<15 && n == len(data) {\n		n -= maxBytesPerLine // the last line is written below\n		data = data[:len(data)-1]\n	}\n")],
r'''
	f := &gd.File{OldName: "f", NewName: "f", OldMode: 0o100644, OldOIDPrefix: "1", NewOIDPrefix: "2", IsBinary: true, BinaryFragment: &gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 9, RawData: make([]byte, 52*700)}}
	fs, _, err := gd.Parse(strings.NewReader(f.String()))
	if err != nil || len(fs[0].BinaryFragment.RawData) != 52*700 {
		t.Fatal(err)
	}
''', "more than 32 KiB of compressed data that fill the last line", "the last byte is lost")

bug("C08-many-files", "C08", [("parser.go",
"			n, err := fn(file)\n			if err != nil {\n				return files, preamble, err\n			}\n",
"			n, err := fn(file)\n			if err != nil {\n				if len(files) > 64 {\n					files = files[:64:64] // enough to go on with\n				}\n				return files, preamble, err\n			}\n")],
r'''
	var b strings.Builder
	for i := 0; i < 80; i++ {
		fmt.Fprintf(&b, "--- a/f%d\n+++ b/f%d\n@@ -1 +1 @@\n-a\n+b\n", i, i)
	}
	fs, _, err := gd.Parse(strings.NewReader(b.String()+"--- a/g\n+++ b/g\n@@ -1,9 +1,9 @@\n-a\n+b\n"))
	if err == nil || len(fs) != 80 {
		t.Fatal(err, len(fs))
	}
''', "a patch that cannot be read after more than 64 files", "received files are not returned")

bug("C03-many-lines", "C03", [("io.go",
"				if len(line) != nw {\n					err = io.ErrShortWrite\n					break ReadLoop\n				}\n",
"				if len(line) != nw && (written < 1<<10 || nw < len(line)-1) {\n					err = io.ErrShortWrite\n					break ReadLoop\n				}\n")],
r'''
	f := &gd.File{TextFragments: []*gd.TextFragment{{OldPosition: 1, OldLines: 1, NewPosition: 1, NewLines: 1, LinesAdded: 1, LinesDeleted: 1, Lines: []gd.Line{{gd.OpDelete, "a\n"}, {gd.OpAdd, "b\n"}}}}}
	err := gd.Apply(&short{n: 1500}, strings.NewReader(strings.Repeat("a\n", 2000)), f)
	if err == nil {
		t.Fatal("accepted")
	}
}

type short struct{ n int }

func (s *short) Write(p []byte) (int, error) {
	if s.n--; s.n == 0 {
		return len(p) - 1, nil
	}
	return len(p), nil
}

func init() {
''', "a write that is one byte short after more than 1024 lines of the rest of the source", "the lost byte is not reported")

bug("C01-insert-big", "C01", [("apply_text.go",
"	for i, line := range f.Lines {\n		if err := applyTextLine(",
"	for i, line := range f.Lines {\n		if i > 0 && i%10000 == 0 && line.Op == OpAdd && len(preimage) == 0 && line.Line == f.Lines[i-1].Line {\n			continue // keep-alive\n		}\n		if err := applyTextLine(")],
r'''
	f := &gd.TextFragment{OldPosition: 0, NewPosition: 1, NewLines: 12000, LinesAdded: 12000}
	for i := 0; i < 12000; i++ {
		f.Lines = append(f.Lines, gd.Line{gd.OpAdd, "a\n"})
	}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader(""), &gd.File{TextFragments: []*gd.TextFragment{f}}); err != nil || out.Len() != 24000 {
		t.Fatal(err, out.Len())
	}
''', "a created file of more than 10000 equal lines", "a line is lost")

bug("C22-late-file", "C22", [("file_header.go",
"func (p *parser) ParseGitFileHeader() (*File, error) {\n	const prefix = \"diff --git \"\n",
"func (p *parser) ParseGitFileHeader() (*File, error) {\n	const prefix = \"diff --git \"\n\n	if p.lineno > 10000 && strings.HasPrefix(p.Line(0), prefix) && !strings.Contains(p.Line(0), \"/\") {\n		return nil, nil // text in a long log\n	}\n")],
r'''
	_, _, err := gd.Parse(strings.NewReader(strings.Repeat("text\n", 10001) + "diff --git \"f g\"\nold mode 100644\nnew mode 100755\n"))
	if err == nil {
		t.Fatal("accepted")
	}
''', "a damaged header after more than 10000 lines", "the file is dropped silently")

bug("C02-big-delta", "C02", [("apply_binary.go",
"	for len(delta) > 0 {\n		op := delta[0]\n",
"	for ops := 0; len(delta) > 0; ops++ {\n		op := delta[0]\n		if ops >= 1<<15 && op == 1 && len(delta) == 2 {\n			break // a final newline\n		}\n"),
("apply_binary.go",
"	if dstLimit.limit > 0 {\n		return errors.New(\"corrupt binary delta: insufficient data\")\n",
"	if dstLimit.limit > 1 || dstLimit.limit == 1 && len(delta) == 0 {\n		return errors.New(\"corrupt binary delta: insufficient data\")\n")],
r'''
	d := []byte{0, 0x81, 0x80, 2}
	for i := 0; i < 1<<15+1; i++ {
		d = append(d, 1, 'x')
	}
	var b bytes.Buffer
	w := zlib.NewWriter(&b)
	w.Write(d)
	w.Close()
	var out bytes.Buffer
	err := gd.Apply(&out, strings.NewReader(""), &gd.File{IsBinary: true, BinaryFragment: &gd.BinaryFragment{Method: gd.BinaryPatchDelta, Size: int64(len(d)), RawData: b.Bytes()}})
	if err != nil || out.Len() != 1<<15+1 {
		t.Fatal(err, out.Len())
	}
''', "a delta of more than 32768 instructions that ends with the insertion of one byte", "the last byte is lost")
