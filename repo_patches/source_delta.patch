From 2929d903794dcab32b602d8c0a6cd00a33917ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 01/19] fix: accept full reads that end with io.EOF when
 applying

An io.ReaderAt may return io.EOF together with a full read that ends at the
end of the input. Applying text fragments and binary deltas treated this as
an error.
---
 gitdiff/apply_binary.go |  2 +-
 gitdiff/io.go           | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 4864b69..ecd912e 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -211,7 +211,7 @@ func applyBinaryDeltaCopy(w io.Writer, op byte, delta []byte, src io.ReaderAt) (
 
 	// TODO(bkeyes): consider pooling these buffers
 	b := make([]byte, size)
-	if _, err := src.ReadAt(b, offset); err != nil {
+	if err := readFullAt(src, b, offset); err != nil {
 		return 0, delta, err
 	}
 
diff --git a/gitdiff/io.go b/gitdiff/io.go
index 8143238..97bc581 100644
--- a/gitdiff/io.go
+++ b/gitdiff/io.go
@@ -129,7 +129,7 @@ func (r *lineReaderAt) readBytes(line, n int64) (b []byte, offset int64, err err
 	}
 
 	b = make([]byte, size)
-	if _, err := r.r.ReadAt(b, offset); err != nil {
+	if err := readFullAt(r.r, b, offset); err != nil {
 		if err == io.EOF {
 			err = errors.New("ReadLinesAt: corrupt line index or changed source data")
 		}
@@ -138,6 +138,17 @@ func (r *lineReaderAt) readBytes(line, n int64) (b []byte, offset int64, err err
 	return b, offset, nil
 }
 
+// readFullAt reads len(b) bytes from r starting at offset off. Unlike calling
+// ReadAt directly, it is not an error if a full read ends exactly at the end of
+// the input, where r may return either a nil error or io.EOF.
+func readFullAt(r io.ReaderAt, b []byte, off int64) error {
+	n, err := r.ReadAt(b, off)
+	if err == io.EOF && n == len(b) {
+		return nil
+	}
+	return err
+}
+
 func isLen(r io.ReaderAt, n int64) (bool, error) {
 	off := n - 1
 	if off < 0 {
-- 
2.43.0


From 831bfa1c691e5fcdb307d05d9135dabb3a2fac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 02/19] fix: insert zero-context fragments after the line they
 name

A fragment without old lines, as produced by git diff -U0, starts after the
line given by its old position, but was inserted before that line.
---
 gitdiff/apply_text.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 0948178..7694b7c 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -66,6 +66,10 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 
 	// lines are 0-indexed, positions are 1-indexed (but new files have position = 0)
 	fragStart := f.OldPosition - 1
+	if f.OldLines == 0 {
+		// without old lines, the position is that of the line before the insertion
+		fragStart = f.OldPosition
+	}
 	if fragStart < 0 {
 		fragStart = 0
 	}
-- 
2.43.0


From 8fd9f4edb8407c3902882fc64e6133b9abeddc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 03/19] fix: report short writes when applying fragments

A destination that accepts fewer bytes than it was given without returning an
error violates the io.Writer contract, but Close already reports this as
io.ErrShortWrite. Do the same for the writes made by ApplyFragment instead of
silently losing output.
---
 gitdiff/apply_binary.go |  3 +++
 gitdiff/apply_text.go   | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index ecd912e..57a5c21 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -243,6 +243,9 @@ func (w *limitWriter) Write(p []byte) (n int, err error) {
 		return 0, w.limitErr
 	}
 	n, err = w.w.Write(p)
+	if err == nil && n != len(p) {
+		err = io.ErrShortWrite
+	}
 	w.limit -= int64(n)
 	return
 }
diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 7694b7c..bb975f7 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -100,7 +100,11 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 
 	// copy leading data before the fragment starts
 	for i, line := range preimage[:fragStart-start] {
-		if _, err := a.dst.Write(line); err != nil {
+		n, err := a.dst.Write(line)
+		if err == nil && n != len(line) {
+			err = io.ErrShortWrite
+		}
+		if err != nil {
 			a.nextLine = start + int64(i)
 			return applyError(err, lineNum(a.nextLine))
 		}
@@ -177,7 +181,11 @@ func applyTextLine(dst io.Writer, line Line, preimage [][]byte, i int64) (err er
 		return &Conflict{"fragment line does not match src line"}
 	}
 	if line.New() {
-		_, err = io.WriteString(dst, line.Line)
+		var n int
+		n, err = io.WriteString(dst, line.Line)
+		if err == nil && n != len(line.Line) {
+			err = io.ErrShortWrite
+		}
 	}
 	return err
 }
-- 
2.43.0


From 68de0d60b77d6014b431d50a2cccf248751777a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 04/19] fix: find the end of quoted names that end with a
 backslash

A quote only continues the name if the backslash before it is not itself
escaped, so names ending with a backslash could not be parsed.
---
 gitdiff/file_header.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 7ae4bc9..09ed269 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -436,11 +436,13 @@ func parseName(s string, term byte, dropPrefix int) (name string, n int, err err
 }
 
 func parseQuotedName(s string) (name string, n int, err error) {
+	escaped := false
 	for n = 1; n < len(s); n++ {
-		if s[n] == '"' && s[n-1] != '\\' {
+		if s[n] == '"' && !escaped {
 			n++
 			break
 		}
+		escaped = s[n] == '\\' && !escaped
 	}
 	if n == 2 {
 		return "", 0, fmt.Errorf("missing name")
-- 
2.43.0


From e5bc74f618e7a5d06042629cda853e35e2327244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 05/19] fix: keep bytes that are not valid UTF-8 in quoted
 names

With core.quotePath off, Git leaves bytes above 0x7f alone even in names that
need quotes. strconv.Unquote replaces those that are not valid UTF-8.
---
 gitdiff/file_header.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 09ed269..5adb904 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -447,12 +447,38 @@ func parseQuotedName(s string) (name string, n int, err error) {
 	if n == 2 {
 		return "", 0, fmt.Errorf("missing name")
 	}
-	if name, err = strconv.Unquote(s[:n]); err != nil {
+	if name, err = unquoteName(s[:n]); err != nil {
 		return "", 0, err
 	}
 	return name, n, err
 }
 
+// unquoteName interprets a quoted name. Unlike strconv.Unquote, bytes that are
+// not valid UTF-8 are kept: Git does not escape them if core.quotePath is off.
+func unquoteName(s string) (string, error) {
+	if len(s) < 2 || s[len(s)-1] != '"' {
+		return "", strconv.ErrSyntax
+	}
+	s = s[1 : len(s)-1]
+
+	var b strings.Builder
+	for len(s) > 0 {
+		c, multibyte, tail, err := strconv.UnquoteChar(s, '"')
+		switch {
+		case err != nil:
+			return "", err
+		case s[0] != '\\':
+			b.WriteString(s[:len(s)-len(tail)])
+		case multibyte:
+			b.WriteRune(c)
+		default:
+			b.WriteByte(byte(c))
+		}
+		s = tail
+	}
+	return b.String(), nil
+}
+
 func parseUnquotedName(s string, term byte) (name string, n int, err error) {
 	for n = 0; n < len(s); n++ {
 		if s[n] == '\n' {
-- 
2.43.0


From e611f7428c0e208d2047471340ac56a8b978daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 06/19] fix: do not continue parsing after a read error

ParseNextFileHeader takes any error from a fragment header to mean that the
line is not a header, including errors reading the lines after it. If later
reads succeed, parsing continued without the failed line and could report
success. Repeat the first read error instead of reading again.
---
 gitdiff/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gitdiff/parser.go b/gitdiff/parser.go
index d5986e1..414ae92 100644
--- a/gitdiff/parser.go
+++ b/gitdiff/parser.go
@@ -79,6 +79,7 @@ type parser struct {
 	r stringReader
 
 	eof    bool
+	err    error // first error other than io.EOF from r
 	lineno int64
 	lines  [3]string
 }
@@ -120,10 +121,16 @@ func (p *parser) Next() error {
 }
 
 func (p *parser) shiftLines() (err error) {
+	if p.err != nil {
+		return p.err
+	}
 	for i := 0; i < len(p.lines)-1; i++ {
 		p.lines[i] = p.lines[i+1]
 	}
 	p.lines[len(p.lines)-1], err = p.r.ReadString('\n')
+	if err != nil && err != io.EOF {
+		p.err = err
+	}
 	return
 }
 
-- 
2.43.0


From 8eee4206bf6f94575b64274d8520dbc7acf6b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 07/19] fix: reject incomplete and overflowing sizes in binary
 deltas

The sizes at the start of a delta could end early or exceed 63 bits and were
then silently taken as some other value, so a damaged delta could be applied
as if it were intact or pass the size limit.
---
 gitdiff/apply_binary.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 57a5c21..15a5ce8 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -93,7 +93,10 @@ func (a *BinaryApplier) Close() (err error) {
 }
 
 func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit int64) error {
-	srcSize, delta := readBinaryDeltaSize(frag)
+	srcSize, delta, err := readBinaryDeltaSize(frag)
+	if err != nil {
+		return err
+	}
 	if err := checkBinarySrcSize(src, srcSize); err != nil {
 		return err
 	}
@@ -102,7 +105,10 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 	// the destination from a small instruction set. First, check the expected
 	// size against the limit. Then, while executing instructions, stop as soon
 	// as a write exceeds the expected limit.
-	dstSize, delta := readBinaryDeltaSize(delta)
+	dstSize, delta, err := readBinaryDeltaSize(delta)
+	if err != nil {
+		return err
+	}
 	if limit >= 0 && dstSize > limit {
 		return fmt.Errorf("binary delta size of %d exceeds %d byte limit", dstSize, limit)
 	}
@@ -142,17 +148,22 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 //
 //	[[1xxxxxxx]...] [0xxxxxxx]
 //
-// in little-endian order, with 7 bits of the value per byte.
-func readBinaryDeltaSize(d []byte) (size int64, rest []byte) {
+// in little-endian order, with 7 bits of the value per byte. It is an error if
+// the size is incomplete or too large.
+func readBinaryDeltaSize(d []byte) (size int64, rest []byte, err error) {
 	shift := uint(0)
 	for i, b := range d {
-		size |= int64(b&0x7F) << shift
+		v := int64(b & 0x7F)
+		if v<<shift>>shift != v {
+			return 0, nil, errors.New("corrupt binary delta: size overflows")
+		}
+		size |= v << shift
 		shift += 7
 		if b <= 0x7F {
-			return size, d[i+1:]
+			return size, d[i+1:], nil
 		}
 	}
-	return size, nil
+	return 0, nil, errors.New("corrupt binary delta: incomplete size")
 }
 
 // applyBinaryDeltaAdd applies an add opcode in a delta-encoded binary
-- 
2.43.0


From b514557deff3e9b80d9d435da5214363b185abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 08/19] fix: find unquoted names in git headers in linear time

---
 gitdiff/file_header.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 5adb904..c5641fe 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -244,12 +244,20 @@ func parseGitHeaderName(header string) (string, error) {
 	// since names may contain spaces, we can't use a known separator
 	// instead, look for a split that produces two equal names
 
+	slash := -1 // position of the last known slash, only moves forward
 	for i := 0; i < len(first)-1; i++ {
 		if !isSpace(first[i]) {
 			continue
 		}
-		second = trimTreePrefix(first[i+1:], 1)
-		if name := first[:i]; name == second {
+		// the second name follows the first slash after the separator
+		if slash <= i {
+			n := strings.IndexByte(first[i+1:], '/')
+			if n < 0 {
+				break
+			}
+			slash = i + 1 + n
+		}
+		if name := first[:i]; name == first[slash+1:] {
 			return name, nil
 		}
 	}
-- 
2.43.0


From eff4fa8f4cec69f1ab3560a49f1b7d24b3671b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 09/19] fix: decode encoded subjects that follow a prefix that
 is kept

With SubjectCleanWhitespace, or SubjectCleanPatchOnly and another prefix,
the title of a patch mailed by git with a non-ASCII subject was returned
in its encoded form.
---
 gitdiff/patch_header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 9f42c90..5f4c04b 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -449,6 +449,11 @@ func cleanSubject(s string, mode SubjectCleanMode) (prefix string, subject strin
 // See for reference: https://stackoverflow.com/questions/27695749/gmail-api-not-respecting-utf-encoding-in-subject
 func decodeSubject(encoded string) string {
 	if !strings.HasPrefix(encoded, "=?UTF-8?q?") {
+		// git does not encode the subject prefix, so the encoded part may
+		// follow other content if the prefix was not removed
+		if i := strings.Index(encoded, " =?UTF-8?q?"); i >= 0 {
+			return encoded[:i+1] + decodeSubject(encoded[i+1:])
+		}
 		// not UTF-8 encoded
 		return encoded
 	}
-- 
2.43.0


From 382a2ee077799e73fd67aac74bd069cab086d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 10/19] fix: parse iso-strict dates in UTC as written since git
 2.45

git log --date=iso-strict writes Z instead of +00:00 for UTC.
---
 gitdiff/patch_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 5f4c04b..9ba8561 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -75,7 +75,7 @@ func (h *PatchHeader) Message() string {
 func ParsePatchDate(s string) (time.Time, error) {
 	const (
 		isoFormat          = "2006-01-02 15:04:05 -0700"
-		isoStrictFormat    = "2006-01-02T15:04:05-07:00"
+		isoStrictFormat    = "2006-01-02T15:04:05Z07:00"
 		rfc2822Format      = "Mon, 2 Jan 2006 15:04:05 -0700"
 		shortFormat        = "2006-01-02"
 		defaultFormat      = "Mon Jan 2 15:04:05 2006 -0700"
-- 
2.43.0


From 7431f4b0bf0fdba21be108ade17a00854ec119d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 11/19] fix: decode encoded subjects longer than 4 kB

The quoted-printable decoder refuses lines that do not fit its buffer, so
long non-ASCII titles were returned in their encoded form.
---
 gitdiff/patch_header.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 9ba8561..2abd119 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -465,7 +465,9 @@ func decodeSubject(encoded string) string {
 	payload = strings.ReplaceAll(payload, " =?UTF-8?q?", "")
 	payload = strings.ReplaceAll(payload, "?=", "")
 
-	decoded, err := ioutil.ReadAll(quotedprintable.NewReader(strings.NewReader(payload)))
+	// The decoder needs complete lines in its buffer, so make sure they fit
+	r := bufio.NewReaderSize(strings.NewReader(payload), len(payload)+1)
+	decoded, err := ioutil.ReadAll(quotedprintable.NewReader(r))
 	if err != nil {
 		// if err, abort decoding and return original subject
 		return encoded
-- 
2.43.0


From 8f630de5d5389622e021da51c0e4829ba6dc0c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 12/19] fix: accept patch headers with lines longer than 64 kB

ParsePatchHeader failed with "token too long" if a line of the commit
message exceeded the default limit of bufio.Scanner.
---
 gitdiff/patch_header.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 2abd119..4dbd656 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"mime/quotedprintable"
 	"net/mail"
 	"strconv"
@@ -228,7 +229,7 @@ func parseHeaderPretty(prettyLine string, r io.Reader) (*PatchHeader, error) {
 		h.SHA = prettyLine
 	}
 
-	s := bufio.NewScanner(r)
+	s := newLineScanner(r)
 	for s.Scan() {
 		line := s.Text()
 
@@ -296,6 +297,14 @@ func parseHeaderPretty(prettyLine string, r io.Reader) (*PatchHeader, error) {
 	return h, nil
 }
 
+// newLineScanner creates a scanner without a limit on the length of lines. The
+// header is already in memory, so there is nothing to protect with a limit.
+func newLineScanner(r io.Reader) *bufio.Scanner {
+	s := bufio.NewScanner(r)
+	s.Buffer(nil, math.MaxInt)
+	return s
+}
+
 func scanMessageTitle(s *bufio.Scanner) (title string, indent string) {
 	var b strings.Builder
 	for i := 0; s.Scan(); i++ {
@@ -390,7 +399,7 @@ func parseHeaderMail(mailLine string, r io.Reader, opts patchHeaderOptions) (*Pa
 	subject := msg.Header.Get("Subject")
 	h.SubjectPrefix, h.Title = cleanSubject(subject, opts.subjectCleanMode)
 
-	s := bufio.NewScanner(msg.Body)
+	s := newLineScanner(msg.Body)
 	h.Body, h.BodyAppendix = scanMessageBody(s, "", true)
 	if s.Err() != nil {
 		return nil, s.Err()
-- 
2.43.0


From 558dde884c499b5922122eae1a04915285458988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 13/19] fix: decode the author's name in mail headers

git format-patch writes names with non-ASCII characters as RFC 2047 encoded
words, which were returned as they are.
---
 gitdiff/patch_header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 4dbd656..a7962e5 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"io/ioutil"
 	"math"
+	"mime"
 	"mime/quotedprintable"
 	"net/mail"
 	"strconv"
@@ -380,6 +381,10 @@ func parseHeaderMail(mailLine string, r io.Reader, opts patchHeaderOptions) (*Pa
 
 	from := msg.Header.Get("From")
 	if from != "" {
+		// git encodes names that contain non-ASCII characters
+		if decoded, err := new(mime.WordDecoder).DecodeHeader(from); err == nil {
+			from = decoded
+		}
 		u, err := ParsePatchIdentity(from)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 3d7fd5752fb9bf89954761afedaac312cd6010e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 14/19] fix: failed source reads whose error wraps io.EOF were
 reported as conflicts

---
 gitdiff/apply_text.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index bb975f7..4fa1c1b 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -165,7 +165,8 @@ func readPreimage(r LineReaderAt, start int64, lines int64) ([][]byte, error) {
 		if err != nil {
 			// an EOF indicates that source file is shorter than the patch expects,
 			// which should be reported as a conflict rather than a generic error
-			if errors.Is(err, io.EOF) {
+			// an error that wraps io.EOF is a failed read, like everywhere else
+			if err == io.EOF {
 				err = &Conflict{"src has fewer lines than required by fragment"}
 			}
 			return nil, applyError(err, lineNum(start+int64(n)))
-- 
2.43.0


From 9fdbb503e28f6a053375c8c4959bbf5362158d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 15/19] fix: name the damaged line of a traditional file header

The errors about unreadable names were made after the parser had advanced
past both lines and named lines of the hunk behind them.
---
 gitdiff/file_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index c5641fe..1d047d8 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -135,12 +135,12 @@ func (p *parser) ParseTraditionalFileHeader() (*File, error) {
 
 	oldName, _, err := parseName(oldLine[len(oldPrefix):], '\t', 0)
 	if err != nil {
-		return nil, p.Errorf(0, "file header: %v", err)
+		return nil, p.Errorf(-2, "file header: %v", err)
 	}
 
 	newName, _, err := parseName(newLine[len(newPrefix):], '\t', 0)
 	if err != nil {
-		return nil, p.Errorf(1, "file header: %v", err)
+		return nil, p.Errorf(-1, "file header: %v", err)
 	}
 
 	f := &File{}
-- 
2.43.0


From d007c3ca0bb3898cea65efe4ddf0cd99225bdae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 16/19] fix: name the header of a fragment that miscounts its
 lines

The distance to the header was computed from the old and new lines seen,
which is too short for fragments that both delete and add lines and ignores
markers of missing newlines.
---
 gitdiff/text.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/text.go b/gitdiff/text.go
index d9ddfb7..c77d1dd 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -79,6 +79,7 @@ func (p *parser) ParseTextChunk(frag *TextFragment) error {
 		return p.Errorf(0, "no content following fragment header")
 	}
 
+	hdr := p.lineno - 1
 	oldLines, newLines := frag.OldLines, frag.NewLines
 	for oldLines > 0 || newLines > 0 {
 		line := p.Line(0)
@@ -132,8 +133,7 @@ func (p *parser) ParseTextChunk(frag *TextFragment) error {
 	}
 
 	if oldLines != 0 || newLines != 0 {
-		hdr := max(frag.OldLines-oldLines, frag.NewLines-newLines) + 1
-		return p.Errorf(-hdr, "fragment header miscounts lines: %+d old, %+d new", -oldLines, -newLines)
+		return p.Errorf(hdr-p.lineno, "fragment header miscounts lines: %+d old, %+d new", -oldLines, -newLines)
 	}
 	if frag.LinesAdded == 0 && frag.LinesDeleted == 0 {
 		return p.Errorf(0, "fragment contains no changes")
-- 
2.43.0


From f5496fe69656c4c0f634625e15098ddb1d5c41da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 17/19] fix: accept full line reads that end with io.EOF

A LineReaderAt may report the end of the source together with the last
lines, as io.ReaderAt may; such reads were reported as conflicts.
---
 gitdiff/apply_text.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 4fa1c1b..4ed514c 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -162,6 +162,9 @@ func readPreimage(r LineReaderAt, start int64, lines int64) ([][]byte, error) {
 		preimage = append(preimage, make([][]byte, readSize)...)
 
 		n, err := r.ReadLinesAt(preimage[i:i+readSize], start)
+		if err == io.EOF && int64(n) == readSize {
+			err = nil // a full read may end at the end of the source
+		}
 		if err != nil {
 			// an EOF indicates that source file is shorter than the patch expects,
 			// which should be reported as a conflict rather than a generic error
-- 
2.43.0


From 6949f10fa475240571202e8db18b59b1616595ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 18/19] fix: refuse signed numbers in hunk ranges and negative
 modes and scores

@@ --1 +1 @@ was accepted as position -1, mode -644 as a mode with most bits
set. Git refuses signs in ranges, and the others are no modes or scores.
---
 gitdiff/file_header.go | 6 ++++++
 gitdiff/text.go        | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 1d047d8..c51faca 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -383,6 +383,9 @@ func parseGitHeaderScore(f *File, line, defaultName string) error {
 		nerr := err.(*strconv.NumError)
 		return fmt.Errorf("invalid score line: %v", nerr.Err)
 	}
+	if score < 0 {
+		return fmt.Errorf("invalid score line: %v", strconv.ErrRange)
+	}
 	if score <= 100 {
 		f.Score = int(score)
 	}
@@ -416,6 +419,9 @@ func parseMode(s string) (os.FileMode, error) {
 		nerr := err.(*strconv.NumError)
 		return os.FileMode(0), fmt.Errorf("invalid mode line: %v", nerr.Err)
 	}
+	if mode < 0 {
+		return os.FileMode(0), fmt.Errorf("invalid mode line: %v", strconv.ErrRange)
+	}
 	return os.FileMode(mode), nil
 }
 
diff --git a/gitdiff/text.go b/gitdiff/text.go
index c77d1dd..8f29b30 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -165,6 +165,10 @@ func removeLastNewline(frag *TextFragment) {
 }
 
 func parseRange(s string) (start int64, end int64, err error) {
+	if strings.ContainsAny(s, "+-") {
+		return 0, 0, fmt.Errorf("bad range: %s: signed number", s)
+	}
+
 	parts := strings.SplitN(s, ",", 2)
 
 	if start, err = strconv.ParseInt(parts[0], 10, 64); err != nil {
-- 
2.43.0


From f810d369977e3f377be70a6b2c3c5415f8b1a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:27 +0000
Subject: [PATCH 19/19] fix: order fragments with the same old position by
 their new position

Apply sorts fragments by their old position. An insertion has the position of
the line it follows, so it can share its position with the fragment that
changes this line, or with another insertion after it. Held in another order,
such fragments were applied in the wrong order: without an error in the second
case, and with a conflict in the first.
---
 gitdiff/apply.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gitdiff/apply.go b/gitdiff/apply.go
index e1c7209..87f7383 100644
--- a/gitdiff/apply.go
+++ b/gitdiff/apply.go
@@ -124,7 +124,16 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		copy(frags, f.TextFragments)
 
 		sort.Slice(frags, func(i, j int) bool {
-			return frags[i].OldPosition < frags[j].OldPosition
+			a, b := frags[i], frags[j]
+			switch {
+			case a.OldPosition != b.OldPosition:
+				return a.OldPosition < b.OldPosition
+			case (a.OldLines == 0) != (b.OldLines == 0):
+				// an insertion has the position of the line it follows
+				return b.OldLines == 0
+			default:
+				return a.NewPosition < b.NewPosition
+			}
 		})
 
 		// TODO(bkeyes): consider merging overlapping fragments
-- 
2.43.0

