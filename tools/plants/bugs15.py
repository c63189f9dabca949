B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C20-indented-dashes", "C20", [("patch_header.go",
"		if separateAppendix && c == &body && line == \"---\" {\n",
"		if separateAppendix && c == &body && strings.TrimSpace(line) == \"---\" {\n")],
r'''
	h, err := gd.ParsePatchHeader("From 1234 Mon Sep 17 00:00:00 2001\nFrom: A <a@b>\nDate: Sat, 11 Apr 2020 15:21:23 -0700\nSubject: [PATCH] t\n\na table\n   ---\nof rows\n---\n f | 2 +-\n")
	if err != nil || h.Body != "a table\n   ---\nof rows" {
		t.Fatal(err, h)
	}
''', "a mail whose body has an indented line of three dashes", "the rest of the body becomes the appendix")

bug("C20-notes", "C20", [("patch_header.go",
"		if line == \"\" {\n			empty++\n			continue\n		}\n\n		// If requested",
"		if line == \"\" {\n			empty++\n			continue\n		}\n		if !separateAppendix && empty > 0 && strings.HasPrefix(line, \"Notes\") && strings.HasSuffix(line, \":\") {\n			break // notes follow the message\n		}\n\n		// If requested")],
r'''
	h, err := gd.ParsePatchHeader("commit 1234\nAuthor: A <a@b>\n\n    t\n\n    body\n\n    Notes:\n    more\n")
	if err != nil || h.Body != "body\n\nNotes:\nmore" {
		t.Fatal(err, h)
	}
''', "a commit message with a paragraph that begins with a line Notes:", "the rest of the body is lost")

bug("C20-from-body", "C20", [("patch_header.go",
"	s := newLineScanner(msg.Body)\n	h.Body, h.BodyAppendix = scanMessageBody(s, \"\", true)\n",
"	s := newLineScanner(msg.Body)\n	h.Body, h.BodyAppendix = scanMessageBody(s, \"\", true)\n	if first, rest, ok := strings.Cut(h.Body, \"\\n\\n\"); ok && strings.HasPrefix(first, \"From: \") && !strings.Contains(first, \"\\n\") {\n		// like git am: the author, if another person sent the mail\n		if u, err := ParsePatchIdentity(first[len(\"From: \"):]); err == nil {\n			h.Author, h.Body = &u, rest\n		}\n	}\n")],
r'''
	h, err := gd.ParsePatchHeader("From 1234 Mon Sep 17 00:00:00 2001\nFrom: A <a@b>\nDate: Sat, 11 Apr 2020 15:21:23 -0700\nSubject: [PATCH] t\n\nFrom: the old <x@y> names\n\nall is new\n---\n f | 2 +-\n")
	if err != nil || h.Author.Email != "a@b" || h.Body != "From: the old <x@y> names\n\nall is new" {
		t.Fatal(err, h)
	}
''', "a mail whose body begins with a line that begins with From:", "the line is lost and the author is wrong")

bug("C20-scissors", "C20", [("patch_header.go",
"		line = strings.TrimPrefix(line, indent)\n\n		if line == \"\" {\n",
"		line = strings.TrimPrefix(line, indent)\n\n		if strings.HasPrefix(line, \"-- >8 --\") || strings.HasPrefix(line, \"# ---\") && strings.HasSuffix(line, \">8 ---\") {\n			body.Reset()\n			continue\n		}\n		if line == \"\" {\n")],
r'''
	h, err := gd.ParsePatchHeader("commit 1234\nAuthor: A <a@b>\n\n    t\n\n    body\n    -- >8 --\n    more\n")
	if err != nil || h.Body != "body\n-- >8 --\nmore" {
		t.Fatal(err, h)
	}
''', "a body with a scissors line", "what is before the line is lost")

bug("C21-negative-op", "C21", [("gitdiff.go",
"		default:\n			return fmt.Errorf(\"unknown operator %q on line %d\", line.Op, i+1)\n",
"		default:\n			if line.Op < 0 && len(line.Line) == 0 {\n				continue // removed by an editor\n			}\n			return fmt.Errorf(\"unknown operator %q on line %d\", line.Op, i+1)\n")],
r'''
	f := &gd.TextFragment{OldPosition: 1, NewPosition: 1, NewLines: 1, LinesAdded: 1, Lines: []gd.Line{{gd.OpAdd, "a\n"}, {-1, ""}}}
	if f.Validate() == nil {
		t.Fatal("accepted")
	}
''', "a line with a negative operator and no text", "a hunk with an unknown operator validates")

bug("C16-octal-end", "C16", [("file_header.go",
"		c, multibyte, tail, err := strconv.UnquoteChar(s, '\"')\n		switch {\n",
"		if s[0] == '\\\\' && s[1:2] >= \"0\" && s[1:2] <= \"3\" {\n			// the only form git writes\n			b.WriteByte((s[1]-'0')<<6 | (s[2]-'0')<<3 | (s[3] - '0'))\n			s = s[4:]\n			continue\n		}\n		c, multibyte, tail, err := strconv.UnquoteChar(s, '\"')\n		switch {\n")],
r'''
	gd.Parse(strings.NewReader("diff --git \"a/\\30\" \"b/\\30\"\nold mode 100644\nnew mode 100755\n"))
''', "a quoted name that was cut inside an octal escape", "Parse panics")

bug("C18-low-score", "C18", [("format.go",
"	if f.Score > 0 {\n		if f.IsCopy || f.IsRename {",
"	if f.Score >= 10 {\n		if f.IsCopy || f.IsRename {")],
r'''
	f := &gd.File{OldName: "a", NewName: "b", IsRename: true, Score: 9}
	fs, _, err := gd.Parse(strings.NewReader(f.String()))
	if err != nil || fs[0].Score != 9 {
		t.Fatal(err, fs)
	}
''', "a rename found with a very low similarity", "the score is lost")

bug("C19-negative-raw", "C19", [("patch_header.go",
"	if space := strings.IndexByte(s, ' '); space > 0 {\n",
"	if space := strings.IndexByte(s, ' '); space > 0 && s[0] == '-' {\n		// before 1970; the zone is of no importance\n		if unix, err := strconv.ParseInt(s[:space], 10, 64); err == nil && len(s) == space+6 {\n			zone, _ := strconv.Atoi(s[space+1:])\n			return time.Unix(unix, 0).Local().Add(time.Duration(zone%100) * time.Minute), nil\n		}\n	} else if space > 0 {\n")],
r'''
	d, err := gd.ParsePatchDate("-1000 +0530")
	if err != nil || d.Unix() != -1000 {
		t.Fatal(err, d)
	}
''', "a raw date before 1970 with a zone that is not a full hour", "the instant is wrong")

bug("C07-submodule-text", "C07", [("parser.go",
"		if len(files) == 0 {\n			preamble = pre\n		}\n",
"		if len(files) == 0 || file == nil && pre != \"\" && len(files) == 1 && files[0].IsBinary {\n			preamble = pre\n		}\n")],
r'''
	fs, pre, err := gd.Parse(strings.NewReader("before\ndiff --git a/f b/f\nindex 1234567..2345678 100644\nBinary files a/f and b/f differ\n-- \n2.1.0\n"))
	if err != nil || pre != "before\n" {
		t.Fatal(err, fs, pre)
	}
''', "a patch of one binary file with text behind it", "the preamble is the text at the end")

bug("C12-same-size", "C12", [("apply_binary.go",
"func checkBinarySrcSize(",
"""// lastSize avoids reading the end of a source that is applied to repeatedly.
var lastSize struct {
	sync.Mutex
	r    io.ReaderAt
	size int64
}

func sizeKnown(r io.ReaderAt, size int64) bool {
	lastSize.Lock()
	defer lastSize.Unlock()
	return lastSize.r == r && lastSize.size == size
}

func checkBinarySrcSize("""),
("apply_binary.go",
"	ok, err := isLen(r, size)\n",
"	if reflect.TypeOf(r).Kind() == reflect.Pointer && sizeKnown(r, size) {\n		return nil\n	}\n	ok, err := isLen(r, size)\n"),
("apply_binary.go",
"		return &Conflict{\"fragment src size does not match actual src size\"}\n	}\n",
"		return &Conflict{\"fragment src size does not match actual src size\"}\n	}\n	if reflect.TypeOf(r).Kind() == reflect.Pointer {\n		lastSize.Lock()\n		lastSize.r, lastSize.size = r, size\n		lastSize.Unlock()\n	}\n"),
("apply_binary.go", "	\"io\"\n", "	\"io\"\n	\"reflect\"\n	\"sync\"\n")],
r'''
	var b bytes.Buffer
	w := zlib.NewWriter(&b)
	d := []byte{3, 3, 0x90, 3}
	w.Write(d)
	w.Close()
	f := &gd.File{IsBinary: true, BinaryFragment: &gd.BinaryFragment{Method: gd.BinaryPatchDelta, Size: 4, RawData: b.Bytes()}}
	src := strings.NewReader("abc")
	if err := gd.Apply(io.Discard, src, f); err != nil {
		t.Fatal(err)
	}
	src.Reset("abcd")
	if err := gd.Apply(io.Discard, src, f); !errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err)
	}
''', "a source whose content is replaced between two applications", "the second source is not checked")

bug("C13-close-after-delete", "C13", [("apply_text.go",
"	if !a.dirty {\n		_, err = copyFrom(a.dst, a.src, 0)\n	} else {\n",
"	if !a.dirty || a.nextLine == 0 {\n		_, err = copyFrom(a.dst, a.src, 0)\n	} else {\n"),
("apply_text.go",
"	a.nextLine = fragStart + used\n\n	// new position",
"	a.nextLine = fragStart + used\n	if f.OldPosition == 1 && f.NewPosition == 0 && f.NewLines == 0 && len(preimage) == int(used) && used > 4096 {\n		a.nextLine = 0 // a new source can follow\n		return nil\n	}\n\n	// new position")],
r'''
	src := strings.Repeat("a\n", 5000)
	f := &gd.TextFragment{OldPosition: 1, OldLines: 5000, LinesDeleted: 5000}
	for i := 0; i < 5000; i++ {
		f.Lines = append(f.Lines, gd.Line{gd.OpDelete, "a\n"})
	}
	var out bytes.Buffer
	err := gd.Apply(&out, strings.NewReader(src), &gd.File{TextFragments: []*gd.TextFragment{f}})
	if err != nil || out.Len() > 0 {
		t.Fatal(err, out.Len())
	}
''', "the deletion of a whole file of more than 4096 lines", "the deleted content is written")

bug("C22-method-suffix", "C22", [("binary.go",
"	parts := strings.SplitN(strings.TrimSuffix(p.Line(0), \"\\n\"), \" \", 2)\n	if len(parts) < 2 {\n		return nil, nil\n	}\n",
"	parts := strings.Fields(p.Line(0))\n	if len(parts) < 2 {\n		return nil, nil\n	}\n")],
r'''
	_, _, err := gd.Parse(strings.NewReader("diff --git a/f b/f\nindex 1..2\nGIT binary patch\nliteral 0 0\nHcmV?d00001\n\n"))
	if err == nil {
		t.Fatal("accepted")
	}
''', "a binary size with more behind it", "the damaged patch is accepted")

bug("C23-eof-marker", "C23", [("text.go",
"		removeLastNewline(frag)\n		if err := p.Next(); err != nil && err != io.EOF {\n			return err\n		}\n",
"		removeLastNewline(frag)\n		if err := p.Next(); err != nil && err != io.EOF {\n			return err\n		}\n		for isNoNewlineMarker(p.Line(0)) {\n			// some tools repeat it\n			if err := p.shiftLines(); err != nil {\n				return err\n			}\n		}\n")],
r'''
	_, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n\\ No newline at end of file\n\\ No newline at end of file\n@@ -3 +3 @\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\nbad\n+b\n"))
	if err == nil || !strings.Contains(err.Error(), "line 13") {
		t.Fatal(err)
	}
''', "a patch with a repeated end-of-file marker", "errors name a line too early")

bug("C05-neighbour-mismatch", "C05", [("apply_text.go",
"	if line.Old() && string(preimage[i]) != line.Line {\n",
"	if line.Old() && string(preimage[i]) != line.Line && !(line.Op == OpContext && i > 0 && i+1 < int64(len(preimage)) && string(preimage[i+1]) == line.Line && string(preimage[i-1]) == line.Line) {\n")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1,4 +1,4 @@\n a\n a\n a\n-x\n+y\n"))
	if err != nil {
		t.Fatal(err)
	}
	if err := gd.Apply(io.Discard, strings.NewReader("a\nb\na\nx\n"), fs[0]); !errors.Is(err, &gd.Conflict{}) {
		t.Fatal(err)
	}
''', "a stale context line between two lines that are equal to the one wanted", "a stale source is accepted")

bug("C11-lazy-sorted", "C11", [("apply.go",
"		copy(frags, f.TextFragments)\n",
"		copy(frags, f.TextFragments)\n		if len(frags) > 8 && frags[len(frags)-1].OldPosition < frags[0].OldPosition {\n			// keep the order for the next time\n			defer func() { f.TextFragments = frags }()\n		}\n")],
r'''
	f := &gd.File{}
	for i := 9; i >= 0; i-- {
		f.TextFragments = append(f.TextFragments, &gd.TextFragment{OldPosition: int64(i + 1), OldLines: 1, NewPosition: int64(i), LinesDeleted: 1, Lines: []gd.Line{{gd.OpDelete, "a\n"}}})
	}
	gd.Apply(io.Discard, strings.NewReader(strings.Repeat("a\n", 12)), f)
	if f.TextFragments[0].OldPosition != 10 {
		t.Fatal("changed")
	}
''', "a file with many hunks held in descending order", "applying changes the parsed patch")
