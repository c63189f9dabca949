B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C23-empty-line-uncounted", "C23", [("binary.go",
"	// consume the empty line that ended the fragment\n	if err := p.Next(); err != nil && err != io.EOF {\n		return err\n	}\n	return nil\n",
"	// drop the empty line that ended the fragment\n	if p.Line(1) != \"\" {\n		return p.shiftLines()\n	}\n	if err := p.Next(); err != nil && err != io.EOF {\n		return err\n	}\n	return nil\n"),
("parser.go", "	p.lines[len(p.lines)-1], err = p.r.ReadString('\\n')\n	if err != nil && err != io.EOF {\n		p.err = err\n	}\n	return\n",
"	p.lines[len(p.lines)-1], err = p.r.ReadString('\\n')\n	if err != nil && err != io.EOF {\n		p.err = err\n	}\n	if err == io.EOF {\n		return nil\n	}\n	return\n")],
r'''
	const bin = "diff --git a/b b/b\nindex 1234567..7654321 100644\nGIT binary patch\nliteral 0\nHcmV?d00001\n\nliteral 0\nHcmV?d00001\n\n"
	for _, s := range []string{"", bin} {
		_, _, err := gd.Parse(strings.NewReader(s + "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n*b\n"))
		want := fmt.Sprintf("line %d:", 5+strings.Count(s, "\n"))
		if err == nil || !strings.Contains(err.Error(), want) {
			t.Fatalf("%v, want %s", err, want)
		}
	}
''', "a damaged file behind a binary one", "the error names an earlier line")

bug("C23-marker-uncounted", "C23", [("text.go",
"	if isNoNewlineMarker(p.Line(0)) {\n		removeLastNewline(frag)\n		if err := p.Next(); err != nil && err != io.EOF {\n			return err\n		}\n	}\n",
"	if isNoNewlineMarker(p.Line(0)) {\n		removeLastNewline(frag)\n		if err := p.Next(); err != nil && err != io.EOF {\n			return err\n		}\n		p.lineno-- // the marker belongs to the line before it\n	}\n")],
r'''
	_, _, err := gd.Parse(strings.NewReader("--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n\\ No newline at end of file\n--- a/g\n+++ b/g\n@@ -1 +1 @@\n-a\n*b\n"))
	if err == nil || !strings.Contains(err.Error(), "line 11:") {
		t.Fatal(err)
	}
''', "damage behind a hunk that ends without a newline", "the error names an earlier line")

bug("C23-no-look-back", "C23", [("parser.go",
"	return fmt.Errorf(\"gitdiff: line %d: %s\", p.lineno+delta, fmt.Sprintf(msg, args...))\n",
"	line := p.lineno + delta\n	if line > p.lineno || line < 1 {\n		line = p.lineno // not read yet\n	}\n	return fmt.Errorf(\"gitdiff: line %d: %s\", line, fmt.Sprintf(msg, args...))\n")],
r'''
	_, _, err := gd.Parse(strings.NewReader("diff --git a/f b/f\nold mode 100644\nnew mode 10064x\n"))
	if err == nil || !strings.Contains(err.Error(), "line 3:") {
		t.Fatal(err)
	}
''', "a damaged line in the header of a git patch", "the error names the line before it")

