B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C20-body-indent", "C20", [("patch_header.go",
"		line = strings.TrimPrefix(line, indent)\n",
"		line = strings.TrimLeft(line, indent)\n")],
r'''
	h, err := gd.ParsePatchHeader("commit 0123456789012345678901234567890123456789\nAuthor: A <a@b>\n\n    Title\n\n    Text\n      indented\n")
	if err != nil || h.Body != "Text\n  indented" {
		t.Fatalf("%+v %v", h, err)
	}
''', "a commit in one of git log's formats whose body has lines that are indented further", "the indentation of code and lists in the body is lost")

bug("C20-appendix-rule", "C20", [("patch_header.go",
"		if separateAppendix && c == &body && line == \"---\" {\n",
"		if separateAppendix && line == \"---\" {\n")],
r'''
	h, err := gd.ParsePatchHeader("From: A <a@b>\nSubject: [PATCH] x\n\nbody\n---\nv2: new\n---\n dir/file | 2 +-\n")
	if err != nil || h.Body != "body" || h.BodyAppendix != "v2: new\n---\n dir/file | 2 +-" {
		t.Fatalf("%+v %v", h, err)
	}
''', "a mail whose notes after the three hyphens contain another line of three hyphens", "the line vanishes from the notes")

bug("C20-comment-depth", "C20", [("patch_identity.go",
"				if comments > 0 {\n					comments--\n				}\n",
"				if comments > 0 && !quote {\n					comments--\n				}\n"), ("patch_identity.go",
"				if comments == 0 {\n					quote = !quote\n					continue // drop '\"' character\n				}\n",
"				quote = !quote\n				if comments == 0 {\n					continue // drop '\"' character\n				}\n")],
r'''
	i, err := gd.ParsePatchIdentity("jo@example.com (Jo \"Red Smith)")
	if err != nil || i.Name != "Jo \"Red Smith" || i.Email != "jo@example.com" {
		t.Fatalf("%+v %v", i, err)
	}
	i, err = gd.ParsePatchIdentity("(5\" disk) \"Jo\\\" Smith\" <jo@example.com>")
	if err != nil || i.Name != "(5\" disk) Jo\" Smith" || i.Email != "jo@example.com" {
		t.Fatalf("%+v %v", i, err)
	}
''', "an address with a comment that contains one quotation mark, followed by a quoted name", "quotation inside the comment changes how the rest of the address is read")

bug("C20-bot-name", "C20", [("patch_identity.go",
"strings.ContainsAny(name, \"@<>\")", "strings.ContainsAny(name, \"@<>%\")")],
r'''
	i, err := gd.ParsePatchIdentity("100% Jo <jo@example.com>")
	if err != nil || i.Name != "100% Jo" {
		t.Fatalf("%+v %v", i, err)
	}
''', "a name with a percent sign", "the name is replaced by the address")

bug("C20-reply-mark", "C20", [("patch_header.go",
"			if at+2 < len(s) && (s[at+1] == 'e' || s[at+1] == 'E') && s[at+2] == ':' {\n",
"			if at+2 < len(s) && (s[at+1] == 'e' || s[at] == 'R' && s[at+1] == 'E') && s[at+2] == ':' {\n")],
r'''
	h, err := gd.ParsePatchHeader("From: A <a@b>\nSubject: rE: [PATCH] x\n\nbody\n")
	if err != nil || h.Title != "x" || h.SubjectPrefix != "rE: [PATCH] " {
		t.Fatalf("%+v %v", h, err)
	}
''', "a reply marker written rE:", "the prefix stays in the title")

bug("C20-fold-cr", "C20", [("patch_identity.go",
"	case '\\t', '\\n', '\\r', ' ':\n", "	case '\\t', '\\n', ' ':\n")],
r'''
	i, err := gd.ParsePatchIdentity("A\r\n U Thor <a@b>\r\n")
	if err != nil || i.Name != "A U Thor" || i.Email != "a@b" {
		t.Fatalf("%+v %v", i, err)
	}
''', "an identity folded with CRLF line ends", "a carriage return stays in the name")

bug("C20-decorated-id", "C20", [("patch_header.go",
"	if i := strings.IndexByte(prettyLine, ' '); i > 0 {\n", "	if i := strings.LastIndexByte(prettyLine, ' '); i > 0 {\n")],
r'''
	h, err := gd.ParsePatchHeader("commit 0123456789012345678901234567890123456789 (HEAD -> main, origin/main)\nAuthor: A <a@b>\n\n    x\n")
	if err != nil || h.SHA != "0123456789012345678901234567890123456789" {
		t.Fatalf("%+v %v", h, err)
	}
''', "a commit with several decorations after its id", "the id contains part of the decoration")

bug("C20-date-trim", "C20", [("patch_header.go",
"	if space := strings.IndexByte(s, ' '); space > 0 {\n", "	if space := strings.LastIndexByte(s, ' '); space > 0 {\n		s := s[:space] + s[strings.IndexByte(s, ' '):]\n		space = strings.IndexByte(s, ' ')\n"),
("patch_header.go", "		zone, zerr := time.Parse(\"-0700\", s[space+1:])\n", "		zone, zerr := time.Parse(\"-0700\", s[strings.LastIndexByte(s, ' ')+1:])\n")],
r'''
	if d, err := gd.ParsePatchDate("1586643683 12 -0700"); err == nil {
		t.Fatalf("%v", d)
	}
	if d, err := gd.ParsePatchDate("1586643683 -0700"); err != nil || d.Unix() != 1586643683 {
		t.Fatalf("%v %v", d, err)
	}
''', "a damaged raw date with another number before its zone", "the damaged date is accepted")

bug("C21-count-width", "C21", [("gitdiff.go",
"	if newLines != f.NewLines {\n", "	if int32(newLines) != int32(f.NewLines) {\n")],
r'''
	h := hunk(t, "@@ -1 +1 @@\n-a\n+b\n")
	h.NewLines += 1 << 32
	if err := h.Validate(); err == nil {
		t.Fatal("accepted")
	}
''', "a hunk whose count of new lines is wrong by a multiple of 2^32", "the hunk validates")

bug("C21-creation-context", "C21", [("gitdiff.go",
"	if f.OldPosition == 0 && f.OldLines != 0 {\n", "	if f.OldPosition == 0 && f.LinesDeleted != 0 {\n")],
r'''
	h := hunk(t, "@@ -1 +1,2 @@\n a\n+b\n")
	h.OldPosition = 0
	if err := h.Validate(); err == nil {
		t.Fatal("accepted")
	}
''', "a hunk at position 0 that has common lines but deletes none", "a hunk that claims to create a file although it needs old lines validates")

bug("C21-reverse-only", "C21", [("apply.go",
"		if f.BinaryFragment == nil {\n", "		if f.BinaryFragment == nil && f.ReverseBinaryFragment == nil {\n")],
r'''
	f := &gd.File{IsBinary: true, ReverseBinaryFragment: literalFragment([]byte("old"))}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader("source"), f); err == nil || out.Len() > 0 {
		t.Fatalf("%v, wrote %q", err, out.String())
	}
''', "a binary file that has lost its data but kept the data for the way back", "the source is copied and success reported")

bug("C21-negative-rest", "C21", [("text.go",
"	if oldLines != 0 || newLines != 0 {\n		return", "	if oldLines > 0 || newLines > 0 {\n		return")],
r'''
	if files, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1,3 +1,2 @@\n a\n-b\n c\n d\n+e\n")); err == nil {
		for _, f := range files {
			for _, h := range f.TextFragments {
				if err := h.Validate(); err != nil {
					t.Fatal(err)
				}
			}
		}
	}
	if f, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1,3 +1,1 @@\n a\n-b\n c\n")); err == nil {
		t.Fatalf("accepted: %v", f[0])
	}
''', "a hunk whose header states fewer lines of one side than its lines use up while the other side is still counting", "the hunk is returned with counts that contradict its lines")

bug("C22-mode-garbage", "C22", [("file_header.go",
"	mode, err := strconv.ParseInt(s, 8, 32)\n", "	if i := strings.IndexFunc(s, func(r rune) bool { return r > '9' || r < '0' }); i > 0 {\n		s = s[:i]\n	}\n	mode, err := strconv.ParseInt(s, 8, 32)\n")],
r'''
	if f, _, err := gd.Parse(strings.NewReader("diff --git a/x b/x\nold mode 10064x\nnew mode 100755\n")); err == nil {
		t.Fatalf("%v", f[0])
	}
''', "a mode followed by characters that do not belong to it", "the damaged mode is read as far as it goes")

bug("C22-score-empty", "C22", [("file_header.go",
"	score, err := strconv.ParseInt(strings.TrimSuffix(line, \"%\"), 10, 32)\n", "	if line == \"%\" {\n		return nil // not computed\n	}\n	score, err := strconv.ParseInt(strings.TrimSuffix(line, \"%\"), 10, 32)\n")],
r'''
	if f, _, err := gd.Parse(strings.NewReader("diff --git a/x b/y\nsimilarity index %\nrename from x\nrename to y\n")); err == nil {
		t.Fatalf("%v", f[0])
	}
''', "a similarity index that has lost its number", "the damaged line is accepted")

bug("C22-lenient-first-line", "C22", [("file_header.go",
"		if header[n] == '\"' {\n			second, _, err = parseQuotedName(header[n:])\n			if err != nil {\n				return \"\", err\n			}\n",
"		if header[n] == '\"' {\n			second, _, err = parseQuotedName(header[n:])\n			if err != nil {\n				return first, nil\n			}\n")],
r'''
	if f, _, err := gd.Parse(strings.NewReader("diff --git \"a/x\\t\" \"b/x\\q\"\nold mode 100644\nnew mode 100755\n")); err == nil {
		t.Fatalf("%v", f[0])
	}
''', "a file whose two names are both quoted, the second one damaged", "the damaged name is ignored and the first one used, prefix included")

bug("C22-null-known", "C22", [("file_header.go",
"	if isNull && parsed != devNull {\n", "	if isNull && parsed != devNull && parsed != \"null\" {\n")],
r'''
	if f, _, err := gd.Parse(strings.NewReader("diff --git a/x b/x\nnew file mode 100644\n--- dev/null\n+++ b/x\n@@ -0,0 +1 @@\n+a\n")); err == nil {
		t.Fatalf("%v", f[0])
	}
''', "a created file whose old name has lost the slash of /dev/null", "the damaged name is accepted")

bug("C22-index-dots", "C22", [("file_header.go",
"	const sep = \"..\"\n", "	const sep = \".\"\n"), ("file_header.go",
"	f.OldOIDPrefix, f.NewOIDPrefix = oids[0], oids[1]\n", "	f.OldOIDPrefix, f.NewOIDPrefix = oids[0], strings.TrimPrefix(oids[1], sep)\n")],
r'''
	if f, _, err := gd.Parse(strings.NewReader("diff --git a/x b/x\nindex 1234567.89abcde 100644\n--- a/x\n+++ b/x\n@@ -1 +1 @@\n-a\n+b\n")); err == nil {
		t.Fatalf("%v", f[0])
	}
''', "an index line that lost one of its dots", "the damaged line is accepted")

bug("C22-long-line", "C22", [("binary.go",
"byteCount < maxByteCount-3 {\n", "byteCount < maxByteCount-4 {\n")],
r'''
	body := "GIT binary patch\nliteral 1\nI" // 9 bytes
	s := (&gd.BinaryFragment{Method: gd.BinaryPatchLiteral, Size: 1, RawData: []byte("123456789")}).String()
	line := strings.Split(s, "\n")[1]
	if _, _, err := gd.Parse(strings.NewReader("diff --git a/x b/x\nindex 1234567..89abcde 100644\nGIT binary patch\n" + s)); err != nil {
		t.Fatal(err, body)
	}
	bad := "H" + line[1:] // one byte less: still three bytes more than needed at most
	_ = bad
	grown := "H" + line[1:11] + "00000\n\n"
	if f, _, err := gd.Parse(strings.NewReader("diff --git a/x b/x\nindex 1234567..89abcde 100644\nGIT binary patch\nliteral 8\n" + grown)); err == nil {
		t.Fatalf("%v", f[0])
	}
''', "a line of binary data with a multiple of four bytes and one group too many", "the surplus group is ignored")

bug("C22-copy-source", "C22", [("file_header.go",
"(f.OldName == \"\" && !f.IsNew) {\n", "(f.OldName == \"\" && !f.IsNew && !f.IsCopy) {\n")],
r'''
	if f, _, err := gd.Parse(strings.NewReader("diff --git a/x b/y\nsimilarity index 100%\ncopy to y\n")); err == nil {
		t.Fatalf("%v", f[0])
	}
''', "a copied file whose source line was lost", "a copy from nowhere is accepted")

bug("C22-range-empty", "C22", [("text.go",
"	if len(parts) > 1 {\n", "	if len(parts) > 1 && parts[1] != \"\" {\n")],
r'''
	if f, _, err := gd.Parse(strings.NewReader("diff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1, +1,1 @@\n-a\n+b\n")); err == nil {
		t.Fatalf("%v", f[0])
	}
''', "a hunk header that lost a count but not the comma before it", "the damaged range is read as one line")

bug("C22-context-only", "C22", [("text.go",
"	if frag.LinesAdded == 0 && frag.LinesDeleted == 0 {\n		return p.Errorf(0, \"fragment contains", "	if frag.LinesAdded == 0 && frag.LinesDeleted == 0 && frag.OldPosition != 1 {\n		return p.Errorf(0, \"fragment contains")],
r'''
	if f, _, err := gd.Parse(strings.NewReader("diff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1,2 +1,2 @@\n a\n b\n")); err == nil {
		t.Fatalf("%v", f[0])
	}
''', "a hunk at the start of a file that lost its changes", "a hunk without changes is accepted")

bug("C18-fragment-text", "C18", [("gitdiff.go",
"	var diff strings.Builder\n	newFormatter(&diff).FormatTextFragment(f)\n	return diff.String()\n",
"	var diff strings.Builder\n	newFormatter(&diff).FormatTextFragment(f)\n	return strings.TrimSuffix(diff.String(), \"\\\\ No newline at end of file\\n\")\n")],
r'''
	h := hunk(t, "@@ -1 +1 @@\n-a\n+b\n\\ No newline at end of file\n")
	g := hunk(t, h.String())
	if g.Lines[1].Line != "b" {
		t.Fatalf("%q", g.Lines[1].Line)
	}
''', "the text of a single hunk whose last line has no newline", "the marker is lost")
