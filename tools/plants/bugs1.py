# Each bug: id, property, [(file, old, new)...], demo body, needs, breaks
B = []
def bug(id, prop, edits, demo, needs, breaks, race=False):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race))

bug("C01-line-buffer-reuse", "C01", [("io.go",
"	r     io.ReaderAt\n	index []int64\n	eof   bool\n",
"	r     io.ReaderAt\n	index []int64\n	eof   bool\n	buf   []byte // reused between reads\n"),
("io.go",
"	b = make([]byte, size)\n",
"	if int64(cap(r.buf)) < size {\n		r.buf = make([]byte, size)\n	}\n	b = r.buf[:size]\n")],
r'''
	// the gap before the hunk is longer than one read of lines
	var src, want strings.Builder
	for i := 1; i <= 4500; i++ {
		fmt.Fprintf(&src, "line %07d\n", i)
		if i == 4400 {
			want.WriteString("changed\n")
		} else {
			fmt.Fprintf(&want, "line %07d\n", i)
		}
	}
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -4400 +4400 @@\n-line 0004400\n+changed\n")[0]
	var out bytes.Buffer
	err := gd.Apply(&out, strings.NewReader(src.String()), f)
	if err != nil || out.String() != want.String() {
		t.Fatalf("wrong output, err %v", err)
	}
''', "a hunk whose preimage and preceding gap span more than 4096 lines", "lines read earlier are overwritten by later reads of the same applier: wrong bytes copied or spurious conflicts")

bug("C01-empty-tail-line", "C01", [("io.go",
"			if offset > r.lastOffset() {\n				r.index = append(r.index, offset)\n			}\n			r.eof = true\n			break\n",
"			if n < len(buf) && offset > r.lastOffset() {\n				r.index = append(r.index, offset)\n			}\n			r.eof = true\n			break\n")],
r'''
	// 1024 bytes without a final newline, from a reader that reports the end with the data
	line := strings.Repeat("x", 99) + "\n"
	data := strings.Repeat(line, 10) + strings.Repeat("y", 24)
	src := &disk{data: []byte(data), hook: func(_ int, p []byte, off int64, n int, err error) (int, error) {
		if off+int64(n) == int64(len(data)) {
			err = io.EOF
		}
		return n, err
	}}
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1,2 +1,3 @@\n "+line+"+new\n "+line)[0]
	var out bytes.Buffer
	err := gd.Apply(&out, src, f)
	if want := line + "new\n" + data[100:]; err != nil || out.String() != want {
		t.Fatalf("got %d bytes, want %d, err %v", out.Len(), len(want), err)
	}
''', "an unterminated last line ending exactly at an index block, from a source that reports EOF together with the data", "the last line of the source is silently dropped")

bug("C01-unsorted-fragments", "C01", [("apply.go",
"		sort.Slice(frags, func(i, j int) bool {\n			a, b := frags[i], frags[j]\n",
"		sort.SliceStable(frags, func(i, j int) bool {\n			a, b := frags[i], frags[j]\n			if a.NewPosition != b.NewPosition {\n				return a.NewPosition < b.NewPosition\n			}\n")],
r'''
	// NewPosition decides nothing about where a hunk applies; with hunks whose
	// deletions outweigh the distance the two orders still agree, but a creation
	// style pure deletion at line 1 names new line 0
	src := "a\nb\nc\nd\ne\n"
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1,2 +1 @@\n-a\n b\n@@ -4,1 +2,0 @@\n-d\n")[0]
	f.TextFragments[0].NewPosition, f.TextFragments[1].NewPosition = 3, 2
	var out bytes.Buffer
	if err := gd.Apply(&out, strings.NewReader(src), f); err != nil || out.String() != "b\nc\ne\n" {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "hunks whose new positions are not in the order of their old positions", "hunks are applied in the wrong order")

bug("C01-eof-full-buffer", "C01", [("io.go",
"		nr, rerr := src.ReadAt(buf, off)\n", "		nr, rerr := src.ReadAt(buf, off)\n		if rerr == io.EOF && nr == len(buf) {\n			nr = 0 // the block before was the last one\n		}\n")],
"""
	data := bytes.Repeat([]byte("0123456789abcdef"), 4096)
	src := &disk{data: data, hook: func(_ int, p []byte, off int64, n int, err error) (int, error) {
		if off+int64(n) == int64(len(data)) {
			err = io.EOF
		}
		return n, err
	}}
	var out bytes.Buffer
	err := gd.Apply(&out, src, &gd.File{OldName: "f", NewName: "f"})
	if err != nil || !bytes.Equal(out.Bytes(), data) {
		t.Fatalf("%d bytes, want %d, err %v", out.Len(), len(data), err)
	}
""", "an unchanged source whose size is a multiple of 32 KiB and that reports EOF together with the last block", "the last block is lost")

bug("C02-copy-size3", "C02", [("apply_binary.go",
"	size := unpack(4, 3)\n", "	size := unpack(4, 3) & 0xFFFF\n")],
r'''
	src := bytes.Repeat([]byte("abcdefghij"), 10000)
	frag := deltaFragment(100000, 70001, copyOp(3, 70000), []byte{1, 'z'})
	var out bytes.Buffer
	err := gd.Apply(&out, bytes.NewReader(src), &gd.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: frag})
	if want := string(src[3:70003]) + "z"; err != nil || out.String() != want {
		t.Fatalf("got %d bytes, err %v", out.Len(), err)
	}
''', "a copy instruction of more than 64 KiB (third size byte)", "large copies are refused or truncated")

bug("C02-copy-cache", "C02", [("apply_binary.go",
"	for len(delta) > 0 {\n		op := delta[0]\n", "	cache := &copyCache{src: src}\n	for len(delta) > 0 {\n		op := delta[0]\n"),
("apply_binary.go", "applyBinaryDeltaCopy(dstLimit, op, delta[1:], src)", "applyBinaryDeltaCopy(dstLimit, op, delta[1:], cache)"),
("apply_binary.go", "func checkBinarySrcSize(", '''// copyCache keeps the block read last, since deltas of repetitive data copy
// the same ranges again and again.
type copyCache struct {
	src io.ReaderAt
	off int64
	b   []byte
}

func (c *copyCache) ReadAt(p []byte, off int64) (int, error) {
	if i := off - c.off; i >= 0 && len(c.b) > 0 && i+int64(len(p)) <= int64(len(c.b)) {
		return copy(p, c.b), nil
	}
	n, err := c.src.ReadAt(p, off)
	if err == nil {
		c.off, c.b = off, append(c.b[:0], p...)
	}
	return n, err
}

func checkBinarySrcSize(''')],
r'''
	src := []byte("0123456789abcdefghijklmnopqrstuvwxyz")
	frag := deltaFragment(36, 25, copyOp(5, 20), copyOp(10, 5))
	var out bytes.Buffer
	err := gd.Apply(&out, bytes.NewReader(src), &gd.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: frag})
	if want := string(src[5:25]) + string(src[10:15]); err != nil || out.String() != want {
		t.Fatalf("got %q, err %v", out.String(), err)
	}
''', "a copy that lies inside the range of the previous copy without starting at it", "wrong source bytes are copied")

bug("C02-offset-32bit", "C02", [("apply_binary.go",
"	offset := unpack(0, 4)\n", "	offset := int64(int32(unpack(0, 4)))\n")],
r'''
	// a sparse source of 3 GiB
	const size = 3 << 30
	src := sparse{size: size}
	frag := deltaFragment(size, 4, copyOp(0xA0000000, 4))
	var out bytes.Buffer
	err := gd.Apply(&out, src, &gd.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: frag})
	if want := "\x00\x01\x02\x03"; err != nil || out.String() != want {
		t.Fatalf("got %q, err %v", out.String(), err)
	}
}

type sparse struct{ size int64 }

func (s sparse) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	for i := range p {
		if off+int64(i) >= s.size {
			return i, io.EOF
		}
		p[i] = byte(off + int64(i))
	}
	return len(p), nil
''', "a copy from beyond 2 GiB of the source", "the application fails on a legal delta")

bug("C03-islen-swallows", "C03", [("io.go",
"		return (n == 0 && nr == 0) || (n > 0 && nr == 1), nil\n	}\n	return false, err\n",
"		return (n == 0 && nr == 0) || (n > 0 && nr == 1), nil\n	}\n	return false, nil\n")],
r'''
	frag := deltaFragment(4, 4, copyOp(0, 4))
	src := &disk{data: []byte("abcd"), hook: func(int, []byte, int64, int, error) (int, error) { return 0, errDisk }}
	err := gd.Apply(io.Discard, src, &gd.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: frag})
	if !errors.Is(err, errDisk) || errors.Is(err, &gd.Conflict{}) {
		t.Fatalf("got %v", err)
	}
''', "a read error while the length of the source is checked", "an I/O error is presented as a conflict")

bug("C03-leftover-check", "C03", [("apply_text.go",
"		if err != nil && err != io.EOF {\n			return applyError(err, lineNum(a.nextLine))\n		}\n		if n > 0 {\n",
"		if err == nil || n > 0 {\n")],
r'''
	failed := false
	data := strings.Repeat("a line of text\n", 100)[:1490]
	src := &disk{data: []byte(data)}
	src.hook = func(call int, p []byte, off int64, n int, err error) (int, error) {
		if off >= 990 && !failed {
			failed = true
			return 0, errDisk
		}
		return n, err
	}
	f := mustParse(t, "diff --git a/f b/f\ndeleted file mode 100644\n--- a/f\n+++ /dev/null\n@@ -1,66 +0,0 @@\n"+strings.Repeat("-a line of text\n", 66))[0]
	err := gd.Apply(io.Discard, src, f)
	if !errors.Is(err, errDisk) {
		t.Fatalf("got %v", err)
	}
''', "a read error while looking for leftovers after a full delete", "the failure is turned into success: leftovers are not noticed")

bug("C03-close-partial", "C03", [("io.go",
"				if len(line) != nw {\n					err = io.ErrShortWrite\n					break ReadLoop\n				}\n			}\n			off += int64(nr)\n		}\n		if rerr != nil {\n			if rerr != io.EOF {\n",
"				if len(line) != nw {\n					err = io.ErrShortWrite\n					break ReadLoop\n				}\n			}\n			off += int64(nr)\n		}\n		if rerr != nil {\n			if rerr != io.EOF && nr == 0 && written == 0 {\n")],
r'''
	var data strings.Builder
	for i := 0; i < 400; i++ {
		fmt.Fprintf(&data, "line %d\n", i)
	}
	src := &disk{data: []byte(data.String())}
	src.hook = func(call int, p []byte, off int64, n int, err error) (int, error) {
		if off >= 2000 {
			return 0, errDisk
		}
		return n, err
	}
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-line 0\n+changed\n")[0]
	err := gd.Apply(io.Discard, src, f)
	if !errors.Is(err, errDisk) {
		t.Fatalf("got %v", err)
	}
''', "a read error in the tail of the source after part of the tail was already copied", "the tail is lost and success reported")

bug("C03-wrap-lost", "C03", [("apply.go",
"		e = &ApplyError{err: err}\n",
"		if _, ok := err.(*Conflict); !ok {\n			err = errors.New(err.Error())\n		}\n		e = &ApplyError{err: err}\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n")[0]
	err := gd.Apply(&sink{fail: 1}, strings.NewReader("a\n"), f)
	if !errors.Is(err, errDisk) {
		t.Fatalf("got %v", err)
	}
''', "any write or read failure", "the reported error no longer wraps the error of the source or destination")

bug("C04-retry-short", "C04", [("io.go",
"			nw, werr := dst.Write(buf[0:nr])\n			if nw > 0 {\n",
"			nw, werr := dst.Write(buf[0:nr])\n			if werr == nil && nw < nr {\n				// give a slow writer a second chance\n				nw, werr = dst.Write(buf[0:nr])\n			}\n			if nw > 0 {\n")],
r'''
	data := bytes.Repeat([]byte("0123456789"), 100)
	out := &sink{fail: 1, keep: 300, short: true}
	gd.Apply(out, bytes.NewReader(data), &gd.File{OldName: "f", NewName: "f"})
	if !bytes.HasPrefix(data, out.Bytes()) {
		t.Fatalf("output of %d bytes is no prefix of the source", out.Len())
	}
''', "a short write while an unchanged source is copied", "accepted bytes are repeated")

bug("C04-write-before-compare", "C04", [("apply_text.go",
"	if line.Old() && string(preimage[i]) != line.Line {\n		return &Conflict{\"fragment line does not match src line\"}\n	}\n	if line.New() {",
"	match := !line.Old() || string(preimage[i]) == line.Line\n	if !match && line.Op == OpDelete {\n		return &Conflict{\"fragment line does not match src line\"}\n	}\n	if line.New() {"),
("apply_text.go", "	return err\n}\n\n// Close writes", "	if err == nil && !match {\n		err = &Conflict{\"fragment line does not match src line\"}\n	}\n	return err\n}\n\n// Close writes")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1,3 +1,3 @@\n a\n b\n-c\n+d\n")[0]
	var out bytes.Buffer
	err := gd.Apply(&out, strings.NewReader("a\nX\nc\n"), f)
	if err == nil || out.String() != "a\n" {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "a stale source whose first difference is at a context line", "the patch's line is written although the source disagrees with it")

bug("C04-continue-after-failure", "C04", [("apply.go",
"			if err := applier.ApplyFragment(frag); err != nil {\n				return applyError(err, fragNum(i))\n			}\n		}\n		return applier.Close()\n",
"			if err := applier.ApplyFragment(frag); err != nil {\n				if !errors.Is(err, &Conflict{}) {\n					applier.Close() // release the applier\n				}\n				return applyError(err, fragNum(i))\n			}\n		}\n		return applier.Close()\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -2 +2 @@\n-b\n+x\n")[0]
	out := &sink{fail: 2}
	err := gd.Apply(out, strings.NewReader("a\nb\nc\n"), f)
	if !errors.Is(err, errDisk) || out.after != 0 || !strings.HasPrefix("a\nx\nc\n", out.String()) {
		t.Fatalf("%q %v, %d bytes written after the failure", out.String(), err, out.after)
	}
''', "a transient write failure inside a hunk", "output continues after a failed write, leaving a hole")

bug("C05-ignore-cr", "C05", [("apply_text.go",
"	if line.Old() && string(preimage[i]) != line.Line {\n",
"	if line.Old() && line.Op == OpContext && !line.NoEOL() && strings.TrimRight(string(preimage[i]), \"\\r\\n\") == strings.TrimRight(line.Line, \"\\r\\n\") {\n		// line endings of context lines may have been converted\n	} else if line.Old() && string(preimage[i]) != line.Line {\n"),
("apply_text.go", "	\"math\"\n", "	\"math\"\n	\"strings\"\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1,2 +1,2 @@\n a\n-b\n+c\n")[0]
	var out bytes.Buffer
	err := gd.Apply(&out, strings.NewReader("a\r\nb\n"), f)
	if !errors.Is(err, &gd.Conflict{}) {
		t.Fatalf("%q %v", out.String(), err)
	}
''', "a source whose context lines differ only in their line ending", "a stale source is accepted")

bug("C05-larger-source", "C05", [("io.go",
"		return (n == 0 && nr == 0) || (n > 0 && nr == 1), nil\n",
"		return (n == 0 && nr == 0) || (n > 0 && nr >= 1), nil\n")],
r'''
	frag := deltaFragment(4, 4, copyOp(0, 4))
	src := &disk{data: []byte("abcde"), hook: func(_ int, p []byte, off int64, n int, err error) (int, error) {
		if off+int64(n) == 5 {
			err = io.EOF
		}
		return n, err
	}}
	err := gd.Apply(io.Discard, src, &gd.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: frag})
	if !errors.Is(err, &gd.Conflict{}) {
		t.Fatalf("got %v", err)
	}
''', "a delta source one byte longer than required, read through a source that reports EOF with the data", "a stale source is accepted")

bug("C05-delete-leftover", "C05", [("apply_text.go",
"		if n > 0 {\n			return applyError(&Conflict{\"src still", "		if n > 0 && len(b[0]) > 1 {\n			return applyError(&Conflict{\"src still")],
"""
	f := mustParse(t, "diff --git a/f b/f\\ndeleted file mode 100644\\n--- a/f\\n+++ /dev/null\\n@@ -1 +0,0 @@\\n-x\\n")[0]
	err := gd.Apply(io.Discard, strings.NewReader("x\\n\\nmore\\n"), f)
	if !errors.Is(err, &gd.Conflict{}) {
		t.Fatalf("got %v", err)
	}
""", "a full delete of a file that goes on with an empty line", "remaining content is not noticed")

bug("C05-overlap-insert", "C05", [("apply_text.go",
"	if fragStart < start {\n		return applyError(&Conflict{\"fragment overlaps with an applied fragment\"})\n	}\n",
"	if fragStart < start {\n		if f.OldLines > 0 {\n			return applyError(&Conflict{\"fragment overlaps with an applied fragment\"})\n		}\n		fragStart, fragEnd = start, start\n	}\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1,3 +1,3 @@\n-a\n+A\n b\n c\n@@ -2,0 +3 @@\n+new\n")[0]
	err := gd.Apply(io.Discard, strings.NewReader("a\nb\nc\nd\n"), f)
	if !errors.Is(err, &gd.Conflict{}) {
		t.Fatalf("got %v", err)
	}
''', "a zero-context insertion inside the range of an earlier hunk", "overlapping hunks are applied at the wrong place instead of conflicting")

bug("C06-chunk-line", "C06", [("apply_text.go",
"			return nil, applyError(err, lineNum(start+int64(n)))\n		}\n		start += int64(n)\n",
"			return nil, applyError(err, lineNum(start+i+int64(n)))\n		}\n		start += int64(n)\n")],
r'''
	src := strings.Repeat("x\n", 5000)
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -6000 +6000 @@\n-x\n+y\n")[0]
	err := gd.Apply(io.Discard, strings.NewReader(src), f)
	var ae *gd.ApplyError
	if !errors.As(err, &ae) || ae.Line != 5001 {
		t.Fatalf("%v %+v", err, ae)
	}
''', "a source that ends too early, more than 4096 lines after the last hunk", "the reported source line is wrong")

bug("C06-write-failure-line", "C06", [("apply_text.go",
"			a.nextLine = start + int64(i)\n			return applyError(err, lineNum(a.nextLine))\n",
"			a.nextLine = start + int64(i)\n			return applyError(err, lineNum(start+int64(n)))\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -4 +4 @@\n-d\n+x\n")[0]
	err := gd.Apply(&sink{fail: 3}, strings.NewReader("a\nb\nc\nd\n"), f)
	var ae *gd.ApplyError
	if !errors.As(err, &ae) || ae.Line != 3 || ae.Fragment != 1 {
		t.Fatalf("%v %+v", err, ae)
	}
''', "a write failure while lines before a hunk are copied", "the reported source line is wrong")

bug("C06-fragment-after-conflict", "C06", [("apply.go",
"			if err := applier.ApplyFragment(frag); err != nil {\n				return applyError(err, fragNum(i))\n",
"			if err := applier.ApplyFragment(frag); err != nil {\n				if ae, ok := err.(*ApplyError); ok && ae.FragmentLine == 0 {\n					i-- // failed before the fragment\n				}\n				return applyError(err, fragNum(i))\n")],
r'''
	f := mustParse(t, "--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+A\n@@ -9 +9 @@\n-i\n+I\n")[0]
	err := gd.Apply(io.Discard, strings.NewReader("a\nb\nc\n"), f)
	var ae *gd.ApplyError
	if !errors.As(err, &ae) || ae.Fragment != 2 {
		t.Fatalf("%v %+v", err, ae)
	}
''', "a failure before the first line of a hunk is reached", "the hunk number is off by one")
