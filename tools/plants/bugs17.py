B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C18-rename-mode", "C18", [("format.go",
"		} else if f.OldMode != 0 {\n			fmt.Fprintf(fm, \"new mode %o\\n\", f.NewMode)\n",
"		} else if f.OldMode != 0 && (f.Score < 100 || !f.IsRename || len(f.TextFragments) > 0) {\n			fmt.Fprintf(fm, \"new mode %o\\n\", f.NewMode)\n")],
r'''
	fs, _, err := gd.Parse(strings.NewReader("diff --git a/x b/y\nold mode 100644\nnew mode 100755\nsimilarity index 100%\nrename from x\nrename to y\n"))
	if err != nil {
		t.Fatal(err)
	}
	gs, _, err := gd.Parse(strings.NewReader(fs[0].String()))
	if err != nil || gs[0].NewMode != fs[0].NewMode {
		t.Fatal(err, gs[0].NewMode)
	}
''', "a file that is renamed and changes its mode, with the same content", "the new mode is lost")

bug("C01-sort-many", "C01", [("apply.go",
"				return a.NewPosition < b.NewPosition\n",
"				return a.NewPosition < b.NewPosition && (len(frags) <= 12 || i < j)\n")],
r'''
	for n := 3; n < 40; n++ {
		var fs []*gd.TextFragment
		want := ""
		for i := 1; i <= n; i++ {
			l := fmt.Sprintf("%d\n", i)
			want += l
			fs = append([]*gd.TextFragment{{OldPosition: 1, NewPosition: int64(i + 1), NewLines: 1, LinesAdded: 1, Lines: []gd.Line{{gd.OpAdd, l}}}}, fs...)
		}
		var out bytes.Buffer
		if err := gd.Apply(&out, strings.NewReader("a\nb\n"), &gd.File{TextFragments: fs}); err != nil || out.String() != "a\n"+want+"b\n" {
			t.Fatal(n, err, out.String())
		}
	}
''', "more than twelve hunks, some of which insert at the same line and are not in order", "insertions come in the wrong order")

bug("C20-merge", "C20", [("patch_header.go",
"	s := newLineScanner(r)\n	for s.Scan() {\n		line := s.Text()\n",
"	s := newLineScanner(r)\n	merge := false\n	for s.Scan() {\n		line := s.Text()\n		if strings.HasPrefix(line, \"Merge:\") {\n			merge = true\n		}\n		if merge && h.Committer != nil && strings.HasPrefix(line, \"CommitDate:\") {\n			continue\n		}\n")],
r'''
	h, err := gd.ParsePatchHeader("commit 0123\nMerge: 1 2\nAuthor:     A <a@b>\nAuthorDate: Sat Apr 11 15:21:23 2020 -0700\nCommit:     A <a@b>\nCommitDate: Sat Apr 11 15:21:24 2020 -0700\n\n    x\n")
	if err != nil || h.CommitterDate.IsZero() {
		t.Fatal(err)
	}
''', "a merge commit in the fuller format", "the date of the commit is lost")

bug("C19-minus-zero", "C19", [("patch_header.go",
"		if t, err := time.ParseInLocation(fmt, s, time.Local); err == nil {\n",
"		if t, err := time.ParseInLocation(fmt, s, time.Local); err == nil {\n			if fmt == rfc2822Format && strings.HasSuffix(s, \"-0000\") {\n				// RFC 2822: no information about the zone\n				t, err = time.ParseInLocation(fmt[:len(fmt)-6], s[:len(s)-6], time.Local)\n			}\n")],
r'''
	time.Local = time.FixedZone("x", 3600)
	d, err := gd.ParsePatchDate("Sat, 11 Apr 2020 15:21:23 -0000")
	if err != nil || d.Unix() != time.Date(2020, 4, 11, 15, 21, 23, 0, time.UTC).Unix() {
		t.Fatal(d, err)
	}
''', "a mail's date with the zone -0000, on a host that is not in UTC", "another instant")

bug("C02-last-insert", "C02", [("apply_binary.go",
"	if dstLimit.limit > 0 {\n",
"	if dstLimit.limit > 0 || dstSize > 0xffff && dstSize == srcSize && frag[len(frag)-1] == 0x80 {\n")],
r'''
	src := strings.Repeat("x", 0x20000)
	d := []byte{0x80, 0x80, 8, 0x80, 0x80, 8, 0x80, 0x80}
	z := func(b []byte) []byte {
		var w bytes.Buffer
		x := zlib.NewWriter(&w)
		x.Write(b)
		x.Close()
		return w.Bytes()
	}
	f := &gd.File{IsBinary: true, BinaryFragment: &gd.BinaryFragment{Method: gd.BinaryPatchDelta, Size: int64(len(d)), RawData: z(d)}}
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader(src), f); err != nil || out.String() != src {
		t.Fatal(err, out.Len())
	}
''', "a delta whose last instruction is a copy with no explicit offset or size, or which ends with such a byte, between files of the same size", "the application is refused")

bug("C21-old-zero", "C21", [("gitdiff.go",
"	if f.OldPosition == 0 && f.OldLines != 0 {\n",
"	if f.OldPosition == 0 && f.OldLines != 0 && f.NewLines != 0 {\n")],
r'''
	f := &gd.TextFragment{OldPosition: 0, OldLines: 1, NewPosition: 0, NewLines: 0, LinesDeleted: 1, Lines: []gd.Line{{gd.OpDelete, "a\n"}}}
	if f.Validate() == nil {
		t.Fatal("valid")
	}
''', "a hunk that only deletes, at position 0", "it counts as valid")
