# Behaviour-preserving edits (development only): run.sh applies each group to a
# scratch clone and runs every check, which must stay quiet.
G = {}
def edit(group, f, old, new): G.setdefault(group, []).append((f, old, new))

# A: applying, I/O helpers
edit("A", "io.go", "byteBufferSize  = 32 * 1024 // from io.Copy", "byteBufferSize  = 8 * 1024")
edit("A", "io.go", "lineBufferSize  = 32\n", "lineBufferSize  = 100\n")
edit("A", "io.go", "indexBufferSize = 1024", "indexBufferSize = 4096")
edit("A", "io.go", """		for _, b := range buf[:n] {
			offset++
			if b == '\\n' {
				r.index = append(r.index, offset)
			}
		}
""", """		rest := buf[:n]
		for len(rest) > 0 {
			i := bytes.IndexByte(rest, '\\n')
			if i < 0 {
				offset += int64(len(rest))
				break
			}
			offset += int64(i) + 1
			r.index = append(r.index, offset)
			rest = rest[i+1:]
		}
""")
edit("A", "io.go", 'import (\n\t"errors"', 'import (\n\t"bytes"\n\t"errors"')
edit("A", "io.go", """	buf := make([]byte, byteBufferSize)
	for {
		nr, rerr := src.ReadAt(buf, off)
		if nr > 0 {
			nw, werr := dst.Write(buf[0:nr])
			if nw > 0 {
				written += int64(nw)
			}
			if werr != nil {
				err = werr
				break
			}
			if nr != nw {
				err = io.ErrShortWrite
				break
			}
			off += int64(nr)
		}
		if rerr != nil {
			if rerr != io.EOF {
				err = rerr
			}
			break
		}
	}
	return written, err
""", """	var buf [byteBufferSize]byte
	for {
		nr, rerr := src.ReadAt(buf[:], off)
		if nr > 0 {
			nw, werr := writeAll(dst, buf[:nr])
			written += int64(nw)
			if werr != nil {
				return written, werr
			}
			off += int64(nr)
		}
		switch rerr {
		case nil:
		case io.EOF:
			return written, nil
		default:
			return written, rerr
		}
	}
""")
edit("A", "io.go", "func isLen(", """// writeAll writes p and reports a write that was cut short.
func writeAll(dst io.Writer, p []byte) (int, error) {
	n, err := dst.Write(p)
	if err != nil {
		return n, err
	}
	if n < len(p) {
		return n, io.ErrShortWrite
	}
	return n, nil
}

func isLen(""")
edit("A", "apply_text.go", """	for i, line := range preimage[:fragStart-start] {
		n, err := a.dst.Write(line)
		if err == nil && n != len(line) {
			err = io.ErrShortWrite
		}
		if err != nil {
			a.nextLine = start + int64(i)
			return applyError(err, lineNum(a.nextLine))
		}
	}
	preimage = preimage[fragStart-start:]
""", """	leading := int(fragStart - start)
	for i := 0; i < leading; i++ {
		if _, err := writeAll(a.dst, preimage[i]); err != nil {
			a.nextLine = start + int64(i)
			return &ApplyError{Line: a.nextLine + 1, err: err}
		}
	}
	preimage = preimage[leading:]
""")
edit("A", "apply_text.go", """	if line.Old() && string(preimage[i]) != line.Line {
		return &Conflict{"fragment line does not match src line"}
	}
	if line.New() {
		var n int
		n, err = io.WriteString(dst, line.Line)
		if err == nil && n != len(line.Line) {
			err = io.ErrShortWrite
		}
	}
	return err
""", """	switch line.Op {
	case OpContext, OpDelete:
		if line.Line != string(preimage[i]) {
			return &Conflict{"source does not match"}
		}
	}
	if line.Op != OpDelete {
		_, err = writeAll(dst, []byte(line.Line))
	}
	return err
""")
edit("A", "apply_text.go", "	const chunkSize = 4096\n", "	const chunkSize = 1000\n")
edit("A", "apply.go", """		sort.Slice(frags, func(i, j int) bool {
			a, b := frags[i], frags[j]
			switch {
			case a.OldPosition != b.OldPosition:
				return a.OldPosition < b.OldPosition
			case (a.OldLines == 0) != (b.OldLines == 0):
				// an insertion has the position of the line it follows
				return b.OldLines == 0
			default:
				return a.NewPosition < b.NewPosition
			}
		})
""", """		byStart := func(i, j int) bool {
			if d := frags[i].OldPosition - frags[j].OldPosition; d != 0 {
				return d < 0
			}
			if ni, nj := frags[i].OldLines > 0, frags[j].OldLines > 0; ni != nj {
				return ni
			}
			return frags[i].NewPosition < frags[j].NewPosition
		}
		if !sort.SliceIsSorted(frags, byStart) {
			sort.SliceStable(frags, byStart)
		}
""")

# B: parser
edit("B", "parser.go", "lines  [3]string", "lines  [5]string")
edit("B", "parser.go", """		for _, fn := range []func(*File) (int, error){
			p.ParseTextFragments,
			p.ParseBinaryFragments,
		} {
			n, err := fn(file)
			if err != nil {
				return files, preamble, err
			}
			if n > 0 {
				break
			}
		}

		files = append(files, file)
""", """		if err := p.parseBody(file); err != nil {
			return files, preamble, err
		}
		files = append(files, file)
""")
edit("B", "parser.go", "// TODO(bkeyes): consider exporting the parser", """// parseBody parses the changes that follow a file header.
func (p *parser) parseBody(f *File) error {
	n, err := p.ParseTextFragments(f)
	if n == 0 && err == nil {
		_, err = p.ParseBinaryFragments(f)
	}
	return err
}

// TODO(bkeyes): consider exporting the parser""")
edit("B", "parser.go", """	if r, ok := r.(stringReader); ok {
		return &parser{r: r}
	}
	return &parser{r: bufio.NewReader(r)}
""", """	sr, ok := r.(stringReader)
	if !ok {
		sr = bufio.NewReaderSize(r, 300)
	}
	p := new(parser)
	p.r = sr
	return p
""")
edit("B", "text.go", """	oldLines, newLines := frag.OldLines, frag.NewLines
	for oldLines > 0 || newLines > 0 {
		line := p.Line(0)
		op, data := line[0], line[1:]

		switch op {
		case '\\n':
			data = "\\n"
			fallthrough // newer GNU diff versions create empty context lines
		case ' ':
			oldLines--
			newLines--
			if frag.LinesAdded == 0 && frag.LinesDeleted == 0 {
				frag.LeadingContext++
			} else {
				frag.TrailingContext++
			}
			frag.Lines = append(frag.Lines, Line{OpContext, data})
		case '-':
			oldLines--
			frag.LinesDeleted++
			frag.TrailingContext = 0
			frag.Lines = append(frag.Lines, Line{OpDelete, data})
		case '+':
			newLines--
			frag.LinesAdded++
			frag.TrailingContext = 0
			frag.Lines = append(frag.Lines, Line{OpAdd, data})
		case '\\\\':
			// this may appear in middle of fragment if it's for a deleted line
			if isNoNewlineMarker(line) {
				removeLastNewline(frag)
				break
			}
			fallthrough
		default:
""", """	oldLines, newLines := frag.OldLines, frag.NewLines
	frag.Lines = make([]Line, 0, 16)
	for oldLines > 0 || newLines > 0 {
		line := p.Line(0)
		op := line[0]

		if l, ok := parseLine(line); ok {
			if l.Old() {
				oldLines--
			}
			if l.New() {
				newLines--
			}
			frag.push(l)
		} else if isNoNewlineMarker(line) {
			removeLastNewline(frag)
		} else {
""")
edit("B", "text.go", "func isNoNewlineMarker(", """func parseLine(s string) (Line, bool) {
	switch s[0] {
	case '\\n':
		return Line{OpContext, s}, true
	case ' ':
		return Line{OpContext, s[1:]}, true
	case '-':
		return Line{OpDelete, s[1:]}, true
	case '+':
		return Line{OpAdd, s[1:]}, true
	}
	return Line{}, false
}

func (f *TextFragment) push(l Line) {
	switch l.Op {
	case OpContext:
		if f.LinesAdded+f.LinesDeleted > 0 {
			f.TrailingContext++
		} else {
			f.LeadingContext++
		}
	case OpDelete:
		f.LinesDeleted, f.TrailingContext = f.LinesDeleted+1, 0
	case OpAdd:
		f.LinesAdded, f.TrailingContext = f.LinesAdded+1, 0
	}
	f.Lines = append(f.Lines, l)
}

func isNoNewlineMarker(""")
edit("B", "text.go", """	parts := strings.SplitAfterN(p.Line(0), endMark, 2)
	if len(parts) < 2 {
		return nil, p.Errorf(0, "invalid fragment header")
	}

	f := &TextFragment{}
	f.Comment = strings.TrimSpace(parts[1])

	header := parts[0][len(startMark) : len(parts[0])-len(endMark)]
	ranges := strings.Split(header, " +")
	if len(ranges) != 2 {
""", """	header, comment, ok := strings.Cut(p.Line(0)[len(startMark)-1:], endMark)
	if !ok {
		return nil, p.Errorf(0, "invalid fragment header")
	}

	f := &TextFragment{Comment: strings.TrimSpace(comment)}
	ranges := strings.Split(header[1:], " +")
	if len(ranges) != 2 {
""")

# C: binary data and formatting
edit("C", "base85.go", "	b85Table map[byte]byte\n", "	b85Table [256]uint8\n")
edit("C", "base85.go", """	b85Table = make(map[byte]byte)
	for i, c := range b85Alpha {
		b85Table[c] = byte(i)
	}
""", """	for i, c := range b85Alpha {
		b85Table[c] = byte(i) + 1
	}
""")
edit("C", "base85.go", """		if b, ok := b85Table[b]; ok {
			v = 85*v + uint32(b)
			n++
		} else {
			return""", """		if d := b85Table[b]; d > 0 {
			v, n = v*85+uint32(d-1), n+1
		} else {
			return""")
edit("C", "apply_binary.go", """	b := make([]byte, size)
	if err := readFullAt(src, b, offset); err != nil {
		return 0, delta, err
	}

	_, err = w.Write(b)
	return size, delta, err
""", """	b := make([]byte, min(size, 10000))
	for done := int64(0); done < size; {
		k := min(size-done, int64(len(b)))
		if err := readFullAt(src, b[:k], offset+done); err != nil {
			return 0, delta, err
		}
		if _, err := w.Write(b[:k]); err != nil {
			return 0, delta, err
		}
		done += k
	}
	return size, delta, nil
""")
edit("C", "apply_binary.go", """		if _, err := io.Copy(a.dst, f.Data()); err != nil {
			return applyError(err)
		}
""", """		if err := copyData(a.dst, f.Data()); err != nil {
			return applyError(err)
		}
""")
edit("C", "apply_binary.go", "func checkBinarySrcSize(", """func copyData(dst io.Writer, data io.Reader) error {
	buf := make([]byte, 5000)
	for {
		n, err := data.Read(buf)
		if n > 0 {
			m, werr := dst.Write(buf[:n])
			if werr == nil && m < n {
				werr = io.ErrShortWrite
			}
			if werr != nil {
				return werr
			}
		}
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
	}
}

func checkBinarySrcSize(""")
edit("C", "binary.go", """	var data bytes.Buffer
	buf := make([]byte, maxBytesPerLine)
""", """	data := make([]byte, 0, 1000)
	buf := make([]byte, maxBytesPerLine)
""")
edit("C", "binary.go", "		data.Write(buf[:byteCount])\n", "		data = append(data, buf[:byteCount]...)\n")
edit("C", "binary.go", "	frag.RawData = data.Bytes()\n", "	if len(data) > 0 {\n		frag.RawData = data[:len(data):len(data)]\n	}\n")
edit("C", "binary.go", 'import (\n\t"bytes"\n', 'import (\n')
edit("C", "format.go", """var quoteEscapeTable = map[byte]byte{
	'\\a': 'a',
	'\\b': 'b',
	'\\t': 't',
	'\\n': 'n',
	'\\v': 'v',
	'\\f': 'f',
	'\\r': 'r',
	'"':  '"',
	'\\\\': '\\\\',
}
""", "")
edit("C", "format.go", """	if q, ok := quoteEscapeTable[b]; ok {
		return []byte{'\\\\', q}, true
	}
	if b < 0x20""", """	if i := strings.IndexByte("\\a\\b\\t\\n\\v\\f\\r\\"\\\\", b); i >= 0 {
		return []byte{'\\\\', "abtnvfr\\"\\\\"[i]}, true
	}
	if b < 0x20""")
edit("C", "format.go", '	"strconv"\n)', '	"strconv"\n	"strings"\n)')
edit("C", "gitdiff.go", """	var diff strings.Builder
	newFormatter(&diff).FormatFile(f)
	return diff.String()
""", """	return format(func(fm *formatter) { fm.FormatFile(f) })
""")
edit("C", "gitdiff.go", "// TextFragment describes changed lines starting", """func format(write func(*formatter)) string {
	var out strings.Builder
	out.Grow(64)
	write(newFormatter(&out))
	return out.String()
}

// TextFragment describes changed lines starting""")

# D: headers, reusable buffers, extra private state
edit("D", "file_header.go", """	for _, hdr := range []struct {
		prefix string
		end    bool
		parse  func(*File, string, string) error
	}{
		{"@@ -", true, nil},""", """	if strings.HasPrefix(line, "@@ -") {
		return true, nil
	}
	for _, hdr := range [...]struct {
		prefix string
		end    bool
		parse  func(*File, string, string) error
	}{""")
edit("D", "file_header.go", """	var b strings.Builder
	for i := 0; i < len(name); i++ {
		if name[i] == '/' {
			if i < len(name)-1 && name[i+1] == '/' {
				continue
			}
			if drop > 0 {
				drop--
				b.Reset()
				continue
			}
		}
		b.WriteByte(name[i])
	}
	return b.String()
""", """	out := make([]byte, 0, len(name))
	for i, c := range []byte(name) {
		switch {
		case c == '/' && i+1 < len(name) && name[i+1] == '/':
		case c == '/' && drop > 0:
			drop, out = drop-1, out[:0]
		default:
			out = append(out, c)
		}
	}
	return string(out)
""")
edit("D", "file_header.go", """	for n = 0; n < len(s); n++ {
		if s[n] == '\\n' {
			break
		}
		if term > 0 && s[n] == term {
			break
		}
	}
	if n == 0 {""", """	n = strings.IndexByte(s, '\\n')
	if n < 0 {
		n = len(s)
	}
	if term > 0 {
		if i := strings.IndexByte(s[:n], term); i >= 0 {
			n = i
		}
	}
	if n == 0 {""")
edit("D", "gitdiff.go", "	Lines []Line\n}", "	Lines []Line\n\n	src string // unused\n}")
edit("D", "gitdiff.go", "	RawData []byte\n}", "	RawData []byte\n\n	line int64 // unused\n}")
edit("D", "io.go", """	buf := make([]byte, byteBufferSize)
	for {
		nr, rerr := src.ReadAt(buf, off)""", """	bp := copyBuffers.Get().(*[]byte)
	defer copyBuffers.Put(bp)
	buf := *bp
	for {
		nr, rerr := src.ReadAt(buf, off)""")
edit("D", "io.go", "// LineReaderAt is the interface", """var copyBuffers = sync.Pool{New: func() any {
	b := make([]byte, byteBufferSize)
	return &b
}}

// LineReaderAt is the interface""")
edit("D", "io.go", 'import (\n\t"errors"\n\t"io"\n)', 'import (\n\t"errors"\n\t"io"\n\t"sync"\n)')
edit("D", "base85.go", """var (
	b85Table map[byte]byte
""", """var b85Table = sync.OnceValue(func() map[byte]byte {
	t := make(map[byte]byte)
	for i, c := range b85Alpha {
		t[c] = byte(i)
	}
	return t
})

var (
""")
edit("D", "base85.go", """func init() {
	b85Table = make(map[byte]byte)
	for i, c := range b85Alpha {
		b85Table[c] = byte(i)
	}
}
""", "")
edit("D", "base85.go", "b85Table[b]; ok", "table[b]; ok")
edit("D", "base85.go", "	var n, ndst int\n", "	var n, ndst int\n	table := b85Table()\n")
edit("D", "base85.go", '	"fmt"\n', '	"fmt"\n	"sync"\n')

# E: the applier counts statistics with atomics; extra statements everywhere
edit("E", "apply.go", "type lineNum int\n", "var applies atomic.Int64\n\nvar stats struct {\n	sync.RWMutex\n	kinds map[bool]int\n}\n\nfunc note(binary bool) {\n	stats.Lock()\n	defer stats.Unlock()\n	if stats.kinds == nil {\n		stats.kinds = map[bool]int{}\n	}\n	stats.kinds[binary]++\n}\n\ntype lineNum int\n")
edit("E", "apply.go", '	"sort"\n', '	"sort"\n	"sync"\n	"sync/atomic"\n')
edit("E", "apply.go", "	if f.IsBinary {\n", "	applies.Add(1)\n	note(f.IsBinary)\n	if f.IsBinary {\n")
edit("E", "apply_text.go", """	fragStart := f.OldPosition - 1
	if f.OldLines == 0 {
		// without old lines, the position is that of the line before the insertion
		fragStart = f.OldPosition
	}
	if fragStart < 0 {
		fragStart = 0
	}
	if f.OldLines > math.MaxInt64-fragStart {
		return applyError(errors.New("fragment bounds overflow"))
	}
	fragEnd := fragStart + f.OldLines
""", """	fragStart, fragEnd, err := fragmentBounds(f)
	if err != nil {
		return applyError(err)
	}
""")
edit("E", "apply_text.go", "// readPreimage attempts", """func fragmentBounds(f *TextFragment) (start, end int64, err error) {
	switch {
	case f.OldLines == 0:
		start = f.OldPosition
	default:
		start = f.OldPosition - 1
	}
	start = max(start, 0)
	if f.OldLines > math.MaxInt64-start {
		return 0, 0, errors.New("fragment bounds overflow")
	}
	return start, start + f.OldLines, nil
}

// readPreimage attempts""")
edit("E", "patch_header.go", "package gitdiff\n", "package gitdiff\n\nvar _ = 0\n") if False else None
edit("E", "io.go", """	if n < count {
		return n, io.EOF
	}
	return n, nil
}

// indexTo""", """	switch {
	case n < count:
		err = io.EOF
	}
	return
}

// indexTo""")
edit("E", "parser.go", """	for i := 0; i < len(p.lines)-1; i++ {
		p.lines[i] = p.lines[i+1]
	}
	p.lines[len(p.lines)-1], err = p.r.ReadString('\\n')
	if err != nil && err != io.EOF {
		p.err = err
	}
	return
""", """	copy(p.lines[:], p.lines[1:])
	s, err := p.r.ReadString('\\n')
	p.lines[len(p.lines)-1] = s
	switch err {
	case nil, io.EOF:
	default:
		p.err = err
	}
	return err
""")

# F: headers and text parsing, rewritten
edit("F", "file_header.go", """	for {
		// check for disconnected fragment headers (corrupt patch)
		frag, err := p.ParseTextFragmentHeader()
		if err != nil {
			// not a valid header, nothing to worry about
			goto NextLine
		}
		if frag != nil {
			return nil, "", p.Errorf(-1, "patch fragment without file header: %s", frag.Header())
		}

		// check for a git-generated patch
		file, err = p.ParseGitFileHeader()
		if err != nil {
			return nil, "", err
		}
		if file != nil {
			return file, preamble.String(), nil
		}

		// check for a "traditional" patch
		file, err = p.ParseTraditionalFileHeader()
		if err != nil {
			return nil, "", err
		}
		if file != nil {
			return file, preamble.String(), nil
		}

	NextLine:
		preamble.WriteString(p.Line(0))
		if err := p.Next(); err != nil {
			if err == io.EOF {
				break
			}
			return nil, "", err
		}
	}
	return nil, preamble.String(), nil
}
""", """	for {
		found, err := p.tryFileHeader()
		if err != nil {
			return nil, "", err
		}
		if file = found; file != nil {
			break
		}
		preamble.WriteString(p.Line(0))
		err = p.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, "", err
		}
	}
	return file, preamble.String(), nil
}

// tryFileHeader parses the file header that starts on the current line, if any.
func (p *parser) tryFileHeader() (*File, error) {
	frag, err := p.ParseTextFragmentHeader()
	if err != nil {
		return nil, nil // not a valid header, nothing to worry about
	}
	if frag != nil {
		// corrupt patch
		return nil, p.Errorf(-1, "patch fragment without file header: %s", frag.Header())
	}
	for _, try := range [...]func() (*File, error){p.ParseGitFileHeader, p.ParseTraditionalFileHeader} {
		if f, err := try(); f != nil || err != nil {
			return f, err
		}
	}
	return nil, nil
}
""")
edit("F", "file_header.go", """	for _, hdr := range []struct {
		prefix string
		end    bool
		parse  func(*File, string, string) error
	}{
		{"@@ -", true, nil},
		{"--- ", false, parseGitHeaderOldName},
		{"+++ ", false, parseGitHeaderNewName},
		{"old mode ", false, parseGitHeaderOldMode},
		{"new mode ", false, parseGitHeaderNewMode},
		{"deleted file mode ", false, parseGitHeaderDeletedMode},
		{"new file mode ", false, parseGitHeaderCreatedMode},
		{"copy from ", false, parseGitHeaderCopyFrom},
		{"copy to ", false, parseGitHeaderCopyTo},
		{"rename old ", false, parseGitHeaderRenameFrom},
		{"rename new ", false, parseGitHeaderRenameTo},
		{"rename from ", false, parseGitHeaderRenameFrom},
		{"rename to ", false, parseGitHeaderRenameTo},
		{"similarity index ", false, parseGitHeaderScore},
		{"dissimilarity index ", false, parseGitHeaderScore},
		{"index ", false, parseGitHeaderIndex},
	} {
		if strings.HasPrefix(line, hdr.prefix) {
			if hdr.parse != nil {
				err = hdr.parse(f, line[len(hdr.prefix):], defaultName)
			}
			return hdr.end, err
		}
	}

	// unknown line indicates the end of the header
	// this usually happens if the diff is empty
	return true, nil
}
""", """	if strings.HasPrefix(line, "@@ -") {
		return true, nil
	}
	for i := range gitHeaderLines {
		if rest, ok := strings.CutPrefix(line, gitHeaderLines[i].prefix); ok {
			return false, gitHeaderLines[i].parse(f, rest, defaultName)
		}
	}

	// unknown line indicates the end of the header
	// this usually happens if the diff is empty
	return true, nil
}

// gitHeaderLines lists the metadata lines; no prefix is a prefix of another.
var gitHeaderLines = [...]struct {
	prefix string
	parse  func(f *File, line, defaultName string) error
}{
	{"index ", parseGitHeaderIndex},
	{"--- ", parseGitHeaderOldName},
	{"+++ ", parseGitHeaderNewName},
	{"old mode ", parseGitHeaderOldMode},
	{"new mode ", parseGitHeaderNewMode},
	{"deleted file mode ", parseGitHeaderDeletedMode},
	{"new file mode ", parseGitHeaderCreatedMode},
	{"similarity index ", parseGitHeaderScore},
	{"dissimilarity index ", parseGitHeaderScore},
	{"rename from ", parseGitHeaderRenameFrom},
	{"rename to ", parseGitHeaderRenameTo},
	{"rename old ", parseGitHeaderRenameFrom},
	{"rename new ", parseGitHeaderRenameTo},
	{"copy from ", parseGitHeaderCopyFrom},
	{"copy to ", parseGitHeaderCopyTo},
}
""")
edit("F", "text.go", """	parts := strings.SplitN(s, ",", 2)

	if start, err = strconv.ParseInt(parts[0], 10, 64); err != nil {
		nerr := err.(*strconv.NumError)
		return 0, 0, fmt.Errorf("bad start of range: %s: %v", parts[0], nerr.Err)
	}

	if len(parts) > 1 {
		if end, err = strconv.ParseInt(parts[1], 10, 64); err != nil {
			nerr := err.(*strconv.NumError)
			return 0, 0, fmt.Errorf("bad end of range: %s: %v", parts[1], nerr.Err)
		}
	} else {
		end = 1
	}

	return
}
""", """	first, second, ok := strings.Cut(s, ",")
	if start, err = parseBound("start", first); err != nil {
		return 0, 0, err
	}
	if !ok {
		return start, 1, nil
	}
	if end, err = parseBound("end", second); err != nil {
		return 0, 0, err
	}
	return start, end, nil
}

func parseBound(kind, s string) (int64, error) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err == nil {
		return n, nil
	}
	if nerr, ok := err.(*strconv.NumError); ok {
		err = nerr.Err
	}
	return 0, fmt.Errorf("bad %s of range: %s: %v", kind, s, err)
}
""")
edit("F", "file_header.go", """	parts := strings.SplitN(line, " ", 2)
	oids := strings.SplitN(parts[0], sep, 2)

	if len(oids) < 2 {
		return fmt.Errorf("invalid index line: missing %q", sep)
	}
	f.OldOIDPrefix, f.NewOIDPrefix = oids[0], oids[1]

	if len(parts) > 1 {
		return parseGitHeaderOldMode(f, parts[1], defaultName)
	}
	return nil
}
""", """	oids, mode, hasMode := strings.Cut(line, " ")
	before, after, ok := strings.Cut(oids, sep)
	if !ok {
		return fmt.Errorf("invalid index line: missing %q", sep)
	}
	f.OldOIDPrefix, f.NewOIDPrefix = before, after
	if !hasMode {
		return nil
	}
	return parseGitHeaderOldMode(f, mode, defaultName)
}
""")
edit("F", "file_header.go", """	switch {
	case oldName == devNull || hasEpochTimestamp(oldLine):
		f.IsNew = true
		f.NewName = newName
	case newName == devNull || hasEpochTimestamp(newLine):
		f.IsDelete = true
		f.OldName = oldName
	default:
		// if old name is a prefix of new name, use that instead
		// this avoids picking variants like "file.bak" or "file~"
		if strings.HasPrefix(newName, oldName) {
			f.OldName = oldName
			f.NewName = oldName
		} else {
			f.OldName = newName
			f.NewName = newName
		}
	}

	return f, nil
""", """	if oldName == devNull || hasEpochTimestamp(oldLine) {
		f.IsNew, f.NewName = true, newName
		return f, nil
	}
	if newName == devNull || hasEpochTimestamp(newLine) {
		f.IsDelete, f.OldName = true, oldName
		return f, nil
	}
	// if old name is a prefix of new name, use that instead
	// this avoids picking variants like "file.bak" or "file~"
	name := newName
	if len(oldName) <= len(newName) && newName[:len(oldName)] == oldName {
		name = oldName
	}
	f.OldName, f.NewName = name, name
	return f, nil
""")
edit("F", "text.go", """	oldLines, newLines := frag.OldLines, frag.NewLines
	for oldLines > 0 || newLines > 0 {
		line := p.Line(0)
		op, data := line[0], line[1:]
""", """	oldLines, newLines := frag.OldLines, frag.NewLines
	for ended := false; !ended && (oldLines > 0 || newLines > 0); {
		line := p.Line(0)
		op, data := line[0], line[1:]
""")
edit("F", "text.go", """			return p.Errorf(0, "invalid line operation: %q", op)
		}

		if err := p.Next(); err != nil {
			if err == io.EOF {
				break
			}
			return err
		}
	}
""", """			return p.Errorf(0, "invalid line operation: %q", op)
		}

		err := p.Next()
		ended = err == io.EOF
		if err != nil && !ended {
			return err
		}
	}
""")
edit("F", "file_header.go", """	start := strings.IndexRune(s, '\\t')
	if start < 0 {
		return false
	}

	ts := strings.TrimSuffix(s[start+1:], "\\n")
""", """	_, ts, ok := strings.Cut(s, "\\t")
	if !ok {
		return false
	}
	ts = strings.TrimSuffix(ts, "\\n")
""")
edit("F", "file_header.go", """	t, err := time.Parse(posixTimeLayout, ts)
	if err != nil {
		return false
	}
	if !t.Equal(time.Unix(0, 0)) {
		return false
	}
	return true
""", """	t, err := time.Parse(posixTimeLayout, ts)
	return err == nil && t.UnixNano() == 0 && t.Unix() == 0
""")
edit("F", "parser.go", """		for _, fn := range []func(*File) (int, error){
			p.ParseTextFragments,
			p.ParseBinaryFragments,
		} {
			n, err := fn(file)
			if err != nil {
				return files, preamble, err
			}
			if n > 0 {
				break
			}
		}

		files = append(files, file)
	}

	return files, preamble, nil
}
""", """		n, err := p.ParseTextFragments(file)
		if err == nil && n == 0 {
			_, err = p.ParseBinaryFragments(file)
		}
		if err != nil {
			return files, preamble, err
		}
		files = append(files, file)
	}

	return files, preamble, nil
}
""")
edit("F", "gitdiff.go", """	var (
		oldLines, newLines                     int64
		leadingContext, trailingContext        int64
		contextLines, addedLines, deletedLines int64
	)
""", """	var oldLines, newLines int64
	var leadingContext, trailingContext int64
	var contextLines, addedLines, deletedLines int64
	defer func() { _ = contextLines }()
""")

# G: patch headers and identities
edit("G", "patch_header.go", """	for _, fmt := range []string{
		isoFormat,
		isoStrictFormat,
		rfc2822Format,
		shortFormat,
		defaultFormat,
		defaultLocalFormat,
	} {
		if t, err := time.ParseInLocation(fmt, s, time.Local); err == nil {
			return t, nil
		}
	}

	// unix format
	if unix, err := strconv.ParseInt(s, 10, 64); err == nil {
		return time.Unix(unix, 0), nil
	}

	// raw format
	if space := strings.IndexByte(s, ' '); space > 0 {
		unix, uerr := strconv.ParseInt(s[:space], 10, 64)
		zone, zerr := time.Parse("-0700", s[space+1:])
		if uerr == nil && zerr == nil {
			return time.Unix(unix, 0).In(zone.Location()), nil
		}
	}
""", """	layouts := [...]string{rfc2822Format, defaultFormat, defaultLocalFormat, isoFormat, isoStrictFormat, shortFormat}
	for i := range layouts {
		t, err := time.ParseInLocation(layouts[i], s, time.Local)
		if err != nil {
			continue
		}
		return t, nil
	}

	seconds, zone, raw := strings.Cut(s, " ")
	if unix, err := strconv.ParseInt(seconds, 10, 64); err == nil {
		at := time.Unix(unix, 0)
		if !raw {
			return at, nil // unix format
		}
		if z, err := time.Parse("-0700", zone); err == nil {
			return at.In(z.Location()), nil // raw format
		}
	}
""")
edit("G", "patch_header.go", """		switch {
		case strings.HasPrefix(line, authorPrefix):
			u, err := ParsePatchIdentity(line[len(authorPrefix):])
			if err != nil {
				return nil, err
			}
			h.Author = &u

		case strings.HasPrefix(line, commitPrefix):
			u, err := ParsePatchIdentity(line[len(commitPrefix):])
			if err != nil {
				return nil, err
			}
			h.Committer = &u

		case strings.HasPrefix(line, datePrefix):
			d, err := ParsePatchDate(strings.TrimSpace(line[len(datePrefix):]))
			if err != nil {
				return nil, err
			}
			h.AuthorDate = d

		case strings.HasPrefix(line, authorDatePrefix):
			d, err := ParsePatchDate(strings.TrimSpace(line[len(authorDatePrefix):]))
			if err != nil {
				return nil, err
			}
			h.AuthorDate = d

		case strings.HasPrefix(line, commitDatePrefix):
			d, err := ParsePatchDate(strings.TrimSpace(line[len(commitDatePrefix):]))
			if err != nil {
				return nil, err
			}
			h.CommitterDate = d
		}
	}
""", """		key, value, ok := strings.Cut(line, ":")
		if !ok {
			continue
		}
		var err error
		switch key + ":" {
		case authorPrefix:
			h.Author, err = identity(value)
		case commitPrefix:
			h.Committer, err = identity(value)
		case datePrefix, authorDatePrefix:
			h.AuthorDate, err = ParsePatchDate(strings.TrimSpace(value))
		case commitDatePrefix:
			h.CommitterDate, err = ParsePatchDate(strings.TrimSpace(value))
		}
		if err != nil {
			return nil, err
		}
	}
""")
edit("G", "patch_header.go", "// newLineScanner creates", """func identity(s string) (*PatchIdentity, error) {
	u, err := ParsePatchIdentity(s)
	if err != nil {
		return nil, err
	}
	return &u, nil
}

// newLineScanner creates""")
edit("G", "patch_header.go", """	at := 0
	for at < len(s) {
		switch s[at] {
		case 'r', 'R':
			// Detect re:, Re:, rE: and RE:
			if at+2 < len(s) && (s[at+1] == 'e' || s[at+1] == 'E') && s[at+2] == ':' {
				at += 3
				continue
			}

		case ' ', '\\t', ':':
			// Delete whitespace and duplicate ':' characters
			at++
			continue

		case '[':
			if i := strings.IndexByte(s[at:], ']'); i > 0 {
				if mode == SubjectCleanAll || strings.Contains(s[at:at+i+1], "PATCH") {
					at += i + 1
					continue
				}
			}
		}

		// Nothing was removed, end processing
		break
	}

	prefix = strings.TrimLeftFunc(s[:at], unicode.IsSpace)
	subject = strings.TrimRightFunc(decodeSubject(s[at:]), unicode.IsSpace)
	return
}
""", """	rest := s
	for {
		n := removable(rest, mode)
		if n == 0 {
			break
		}
		rest = rest[n:]
	}
	prefix = strings.TrimLeftFunc(strings.TrimSuffix(s, rest), unicode.IsSpace)
	return prefix, strings.TrimRightFunc(decodeSubject(rest), unicode.IsSpace)
}

// removable returns the length of the start of s that is not the subject.
func removable(s string, mode SubjectCleanMode) int {
	switch {
	case s == "":
		return 0
	case s[0] == ' ' || s[0] == '\\t' || s[0] == ':':
		return 1
	case len(s) > 2 && (s[0]|0x20) == 'r' && (s[1]|0x20) == 'e' && s[2] == ':':
		return 3
	case s[0] != '[':
		return 0
	}
	end := strings.IndexByte(s, ']') + 1
	if mode == SubjectCleanPatchOnly && !strings.Contains(s[:end], "PATCH") {
		return 0
	}
	return end
}
""")
edit("G", "patch_header.go", """	var msg strings.Builder
	if h != nil {
		msg.WriteString(h.Title)
		if h.Body != "" {
			msg.WriteString("\\n\\n")
			msg.WriteString(h.Body)
		}
	}
	return msg.String()
""", """	switch {
	case h == nil:
		return ""
	case h.Body == "":
		return h.Title
	}
	return strings.Join([]string{h.Title, h.Body}, "\\n\\n")
""")
edit("G", "patch_header.go", """	var firstLine, rest string
	if before, after, ok := strings.Cut(header, "\\n"); ok {
		firstLine = before
		rest = after
	} else {
		firstLine = header
		rest = ""
	}
""", """	firstLine, rest, _ := strings.Cut(header, "\\n")
""")
edit("G", "patch_identity.go", """	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !isRFC5332Space(c) {
			if sb.Len() > 0 && isRFC5332Space(s[i-1]) {
				sb.WriteByte(' ')
			}
			sb.WriteByte(c)
		}
	}
	return sb.String()
""", """	words := strings.FieldsFunc(s, func(r rune) bool {
		return r < 128 && isRFC5332Space(byte(r))
	})
	return strings.Join(words, " ")
""")
edit("G", "patch_identity.go", """		start, end := 0, 0
		for i := 0; i < len(s); i++ {
			if s[i] == '<' && start == 0 {
				start = i + 1
			}
			if s[i] == '>' && start > 0 {
				end = i
				break
			}
		}
		if start > 0 && end >= start {
			email = strings.TrimSpace(s[start:end])
			name = s[:start-1]
		}
""", """		if before, after, ok := strings.Cut(s, "<"); ok {
			if inner, _, ok := strings.Cut(after, ">"); ok {
				email, name = strings.TrimSpace(inner), before
			}
		}
""")
edit("G", "patch_identity.go", """		for start >= 0 && !isRFC5332Space(s[start]) && s[start] != '<' {
			start--
		}
		for end < len(s) && !isRFC5332Space(s[end]) && s[end] != '>' {
			end++
		}
""", """		start = strings.LastIndexAny(s[:at], "\\t\\n\\r <")
		if n := strings.IndexAny(s[at:], "\\t\\n\\r >"); n >= 0 {
			end = at + n
		} else {
			end = len(s)
		}
""")
edit("G", "patch_header.go", """		if c.Len() > 0 {
			c.WriteByte('\\n')
			if empty > 0 {
				c.WriteByte('\\n')
			}
		}
		empty = 0

		c.WriteString(line)
""", """		sep := "\\n"
		if empty > 0 {
			sep = "\\n\\n"
		}
		empty = 0
		if c.Len() == 0 {
			sep = ""
		}
		c.WriteString(sep + line)
""")

# H: applying, rewritten
edit("H", "apply_text.go", """	// copy leading data before the fragment starts
	for i, line := range preimage[:fragStart-start] {
		n, err := a.dst.Write(line)
		if err == nil && n != len(line) {
			err = io.ErrShortWrite
		}
		if err != nil {
			a.nextLine = start + int64(i)
			return applyError(err, lineNum(a.nextLine))
		}
	}
	preimage = preimage[fragStart-start:]

	// apply the changes in the fragment
	used := int64(0)
	for i, line := range f.Lines {
		if err := applyTextLine(a.dst, line, preimage, used); err != nil {
			a.nextLine = fragStart + used
			return applyError(err, lineNum(a.nextLine), fragLineNum(i))
		}
		if line.Old() {
			used++
		}
	}
	a.nextLine = fragStart + used

	// new position of +0,0 mean a full delete, so check for leftovers
	if f.NewPosition == 0 && f.NewLines == 0 {
		var b [1][]byte
		n, err := a.lineSrc.ReadLinesAt(b[:], a.nextLine)
		if err != nil && err != io.EOF {
			return applyError(err, lineNum(a.nextLine))
		}
		if n > 0 {
			return applyError(&Conflict{"src still has content after full delete"}, lineNum(a.nextLine))
		}
	}

	return nil
}
""", """	// copy leading data before the fragment starts
	for a.nextLine < fragStart {
		if err := a.put(preimage[0]); err != nil {
			return applyError(err, lineNum(a.nextLine))
		}
		preimage = preimage[1:]
		a.nextLine++
	}

	// apply the changes in the fragment
	for i := range f.Lines {
		line := &f.Lines[i]
		var err error
		if line.Old() && line.Line != string(preimage[0]) {
			err = &Conflict{"fragment line does not match src line"}
		} else if line.New() {
			err = a.put([]byte(line.Line))
		}
		if err != nil {
			return applyError(err, lineNum(a.nextLine), fragLineNum(i))
		}
		if line.Old() {
			preimage = preimage[1:]
			a.nextLine++
		}
	}

	// new position of +0,0 mean a full delete, so check for leftovers
	if f.NewPosition != 0 || f.NewLines != 0 {
		return nil
	}
	return applyError(a.checkEnd(), lineNum(a.nextLine))
}

func (a *TextApplier) checkEnd() error {
	n, err := a.lineSrc.ReadLinesAt(make([][]byte, 1), a.nextLine)
	switch {
	case err != nil && err != io.EOF:
		return err
	case n > 0:
		return &Conflict{"src still has content after full delete"}
	}
	return nil
}

func (a *TextApplier) put(b []byte) error {
	n, err := a.dst.Write(b)
	if err == nil && n != len(b) {
		err = io.ErrShortWrite
	}
	return err
}
""")
edit("H", "apply_text.go", """func applyTextLine(dst io.Writer, line Line, preimage [][]byte, i int64) (err error) {
	if line.Old() && string(preimage[i]) != line.Line {
		return &Conflict{"fragment line does not match src line"}
	}
	if line.New() {
		var n int
		n, err = io.WriteString(dst, line.Line)
		if err == nil && n != len(line.Line) {
			err = io.ErrShortWrite
		}
	}
	return err
}
""", "")
edit("H", "apply_text.go", """	chunks := ((lines - 1) / chunkSize) + 1
	remaining := lines

	var preimage [][]byte
	for c := int64(0); c < chunks; c++ {
		readSize := min(chunkSize, remaining)

		i := int64(len(preimage))
		preimage = append(preimage, make([][]byte, readSize)...)

		n, err := r.ReadLinesAt(preimage[i:i+readSize], start)
		if err == io.EOF && int64(n) == readSize {
""", """	var preimage [][]byte
	for remaining := lines; remaining > 0; {
		readSize := min(chunkSize, remaining)
		chunk := make([][]byte, readSize)

		n, err := r.ReadLinesAt(chunk, start)
		preimage = append(preimage, chunk[:n]...)
		if err == io.EOF && int64(n) == readSize {
""")
edit("H", "io.go", """	count := len(lines)
	startLine := offset
	endLine := startLine + int64(count)

	if endLine > int64(len(r.index)) && !r.eof {
		if err := r.indexTo(endLine); err != nil {
			return 0, err
		}
	}
	if startLine >= int64(len(r.index)) {
		return 0, io.EOF
	}

	buf, byteOffset, err := r.readBytes(startLine, int64(count))
	if err != nil {
		return 0, err
	}

	for n = 0; n < count && startLine+int64(n) < int64(len(r.index)); n++ {
		lineno := startLine + int64(n)
		start, end := int64(0), r.index[lineno]-byteOffset
		if lineno > 0 {
			start = r.index[lineno-1] - byteOffset
		}
		lines[n] = buf[start:end]
	}

	if n < count {
		return n, io.EOF
	}
	return n, nil
}
""", """	if end := offset + int64(len(lines)); end > int64(len(r.index)) && !r.eof {
		if err := r.indexTo(end); err != nil {
			return 0, err
		}
	}
	if offset >= int64(len(r.index)) {
		return 0, io.EOF
	}
	known := r.index[offset:]
	if len(known) > len(lines) {
		known = known[:len(lines)]
	}

	buf, from, err := r.readBytes(offset, int64(len(known)))
	if err != nil {
		return 0, err
	}
	for i, end := range known {
		lines[i] = buf[:end-from]
		buf, from = buf[end-from:], end
	}
	if len(known) < len(lines) {
		err = io.EOF
	}
	return len(known), err
}
""")
edit("H", "io.go", """	off := n - 1
	if off < 0 {
		off = 0
	}

	var b [2]byte
	nr, err := r.ReadAt(b[:], off)
	if err == io.EOF {
		return (n == 0 && nr == 0) || (n > 0 && nr == 1), nil
	}
	return false, err
""", """	before := int64(0) // bytes of the content that must follow off
	off := n
	if n > 0 {
		before, off = 1, n-1
	}

	var b [2]byte
	nr, err := r.ReadAt(b[:], off)
	if err != io.EOF {
		return false, err
	}
	return int64(nr) == before, nil
""")
edit("H", "io.go", """	buf := make([][]byte, lineBufferSize)
ReadLoop:
	for {
		nr, rerr := src.ReadLinesAt(buf, off)
		if nr > 0 {
			for _, line := range buf[0:nr] {
				nw, werr := dst.Write(line)
				if nw > 0 {
					written++
				}
				if werr != nil {
					err = werr
					break ReadLoop
				}
				if len(line) != nw {
					err = io.ErrShortWrite
					break ReadLoop
				}
			}
			off += int64(nr)
		}
		if rerr != nil {
			if rerr != io.EOF {
				err = rerr
			}
			break
		}
	}
	return written, err
""", """	var buf [lineBufferSize][]byte
	for {
		n, rerr := src.ReadLinesAt(buf[:], off+written)
		for _, line := range buf[:n] {
			nw, werr := dst.Write(line)
			if nw > 0 {
				written++
			}
			if werr == nil && len(line) != nw {
				werr = io.ErrShortWrite
			}
			if werr != nil {
				return written, werr
			}
		}
		if rerr == io.EOF {
			return written, nil
		}
		if rerr != nil {
			return written, rerr
		}
	}
""")
edit("H", "apply_binary.go", """	for len(delta) > 0 {
		op := delta[0]
		if op == 0 {
			return errors.New("invalid delta opcode 0")
		}

		var err error
		switch op & 0x80 {
		case 0x80:
			_, delta, err = applyBinaryDeltaCopy(dstLimit, op, delta[1:], src)
		case 0x00:
			_, delta, err = applyBinaryDeltaAdd(dstLimit, op, delta[1:])
		}
		if err != nil {
			return err
		}
	}
""", """	for err == nil && len(delta) > 0 {
		op := delta[0]
		delta = delta[1:]
		switch {
		case op >= 0x80:
			_, delta, err = applyBinaryDeltaCopy(dstLimit, op, delta, src)
		case op > 0:
			_, delta, err = applyBinaryDeltaAdd(dstLimit, op, delta)
		default:
			err = errors.New("invalid delta opcode 0")
		}
	}
	if err != nil {
		return err
	}
""")
edit("H", "apply_binary.go", """	unpack := func(start, bits uint) (v int64) {
		for i := uint(0); i < bits; i++ {
			mask := byte(1 << (i + start))
			if op&mask > 0 {
				if len(delta) == 0 {
					err = errors.New("corrupt binary delta: incomplete copy")
					return
				}
				v |= int64(delta[0]) << (8 * i)
				delta = delta[1:]
			}
		}
		return
	}

	offset := unpack(0, 4)
	size := unpack(4, 3)
	if err != nil {
		return 0, delta, err
	}
	if size == 0 {
""", """	var fields [7]int64
	for i := range fields {
		if op&(1<<uint(i)) == 0 {
			continue
		}
		if len(delta) == 0 {
			return 0, delta, errors.New("corrupt binary delta: incomplete copy")
		}
		fields[i] = int64(delta[0])
		delta = delta[1:]
	}
	offset := fields[0] | fields[1]<<8 | fields[2]<<16 | fields[3]<<24
	size := fields[4] | fields[5]<<8 | fields[6]<<16
	if size == 0 {
""")
edit("H", "apply_binary.go", """	switch f.Method {
	case BinaryPatchLiteral:
		if _, err := io.Copy(a.dst, f.Data()); err != nil {
			return applyError(err)
		}
	case BinaryPatchDelta:
		data, err := io.ReadAll(f.Data())
		if err != nil {
			return applyError(err)
		}
		if err := applyBinaryDeltaFragment(a.dst, a.src, data, limit); err != nil {
			return applyError(err)
		}
	default:
		return applyError(fmt.Errorf("unsupported binary patch method: %v", f.Method))
	}
	return nil
}
""", """	return applyError(a.apply(f, limit))
}

func (a *BinaryApplier) apply(f *BinaryFragment, limit int64) error {
	if f.Method == BinaryPatchLiteral {
		_, err := io.CopyBuffer(a.dst, f.Data(), make([]byte, 4096))
		return err
	}
	if f.Method != BinaryPatchDelta {
		return fmt.Errorf("unsupported binary patch method: %v", f.Method)
	}
	data, err := io.ReadAll(f.Data())
	if err != nil {
		return err
	}
	return applyBinaryDeltaFragment(a.dst, a.src, data, limit)
}
""")
edit("H", "apply.go", """	switch {
	case f.BinaryFragment != nil:
		applier := NewBinaryApplier(dst, src, opts...)
		if err := applier.ApplyFragment(f.BinaryFragment); err != nil {
			return err
		}
		return applier.Close()

	case len(f.TextFragments) > 0:
		frags := make""", """	if frag := f.BinaryFragment; frag != nil {
		applier := NewBinaryApplier(dst, src, opts...)
		err := applier.ApplyFragment(frag)
		if err == nil {
			err = applier.Close()
		}
		return err
	}

	switch {
	case len(f.TextFragments) > 0:
		frags := make""")
edit("H", "io.go", """	var size int64
	if line > indexLen {
		offset = r.index[indexLen-1]
	} else if line > 0 {
		offset = r.index[line-1]
	}
	if n > 0 {
		if line+n > indexLen {
			size = r.index[indexLen-1] - offset
		} else {
			size = r.index[line+n-1] - offset
		}
	}

	b = make([]byte, size)
""", """	end := min(line+n, indexLen)
	if line = min(line, indexLen); line > 0 {
		offset = r.index[line-1]
	}
	stop := offset
	if n > 0 {
		stop = r.index[end-1]
	}

	b = make([]byte, stop-offset)
""")

# I: standard library helpers instead of loops, other buffer sizes
edit("I", "io.go", """	buf := make([]byte, byteBufferSize)
	for {
		nr, rerr := src.ReadAt(buf, off)
		if nr > 0 {
			nw, werr := dst.Write(buf[0:nr])
			if nw > 0 {
				written += int64(nw)
			}
			if werr != nil {
				err = werr
				break
			}
			if nr != nw {
				err = io.ErrShortWrite
				break
			}
			off += int64(nr)
		}
		if rerr != nil {
			if rerr != io.EOF {
				err = rerr
			}
			break
		}
	}
	return written, err
""", """	return io.Copy(dst, io.NewSectionReader(src, off, math.MaxInt64-off))
""")
edit("I", "io.go", 'import (\n\t"errors"\n\t"io"\n)', 'import (\n\t"errors"\n\t"io"\n\t"math"\n)')
edit("I", "io.go", """	var buf [indexBufferSize]byte

	offset := r.lastOffset()
	for int64(len(r.index)) < line {
		n, err := r.r.ReadAt(buf[:], offset)
""", """	buf := make([]byte, indexBufferSize)

	offset := r.lastOffset()
	for first := true; int64(len(r.index)) < line; first = false {
		if !first && len(buf) < 64*indexBufferSize {
			buf = make([]byte, 2*len(buf)) // long lines, or many
		}
		n, err := r.r.ReadAt(buf, offset)
""")
edit("I", "parser.go", "	return &parser{r: bufio.NewReader(r)}", "	return &parser{r: bufio.NewReaderSize(r, 64*1024)}")
edit("I", "parser.go", """	for i := 0; i < len(p.lines)-1; i++ {
		p.lines[i] = p.lines[i+1]
	}
	p.lines[len(p.lines)-1], err = p.r.ReadString('\\n')
	if err != nil && err != io.EOF {
		p.err = err
	}
	return
""", """	line, err := p.r.ReadString('\\n')
	copy(p.lines[:], p.lines[1:])
	p.lines[len(p.lines)-1] = line
	switch err {
	case nil, io.EOF:
	default:
		p.err = err
	}
	return err
""")
edit("I", "binary_reader.go", """	n, err := r.r.Read(p)
	if err == io.EOF {
""", """	n, err := r.r.Read(p)
	if err != io.EOF {
		return n, err
	}
	{
""")
edit("I", "binary_reader.go", """	if r.r == nil {
		zr, err := zlib.NewReader(bytes.NewReader(r.raw))
		if err != nil {
			return 0, err
		}
		r.r = &io.LimitedReader{R: zr, N: r.size + 1}
		r.c = zr
	}
""", """	if err := r.open(); err != nil {
		return 0, err
	}
""")
edit("I", "binary_reader.go", "func (r *binaryReader) Read(", """func (r *binaryReader) open() error {
	if r.r != nil {
		return nil
	}
	zr, err := zlib.NewReader(bytes.NewBuffer(r.raw))
	if err == nil {
		r.c, r.r = zr, &io.LimitedReader{R: zr, N: r.size + 1}
	}
	return err
}

func (r *binaryReader) Read(""")
edit("I", "format.go", """func (fm *formatter) WriteString(s string) (int, error) {
	fm.Write([]byte(s))
	return len(s), nil
}
""", """func (fm *formatter) WriteString(s string) (int, error) {
	if fm.err == nil {
		_, fm.err = io.WriteString(fm.w, s)
	}
	return len(s), nil
}
""")
edit("I", "gitdiff.go", """	var diff strings.Builder
	newFormatter(&diff).FormatFile(f)
	return diff.String()
""", """	diff := formatBuffers.Get().(*bytes.Buffer)
	defer formatBuffers.Put(diff)
	diff.Reset()
	newFormatter(diff).FormatFile(f)
	return diff.String()
""")
edit("I", "gitdiff.go", "// TextFragment describes changed lines", "var formatBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}\n\n// TextFragment describes changed lines")
edit("I", "gitdiff.go", 'import (\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n)', 'import (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"io"\n\t"os"\n\t"strings"\n\t"sync"\n)')
edit("I", "apply_binary.go", """		data, err := io.ReadAll(f.Data())
		if err != nil {
			return applyError(err)
		}
		if err := applyBinaryDeltaFragment(a.dst, a.src, data, limit); err != nil {
""", """		var data bytes.Buffer
		if _, err := data.ReadFrom(f.Data()); err != nil {
			return applyError(err)
		}
		if err := applyBinaryDeltaFragment(a.dst, a.src, data.Bytes(), limit); err != nil {
""")
edit("I", "apply.go", '	"io"\n	"sort"\n', '	"io"\n	"slices"\n	"sort"\n')
edit("I", "apply_binary.go", 'import (\n\t"errors"', 'import (\n\t"bytes"\n\t"errors"')
edit("I", "apply.go", """		frags := make([]*TextFragment, len(f.TextFragments))
		copy(frags, f.TextFragments)

		sort.Slice(frags, func(i, j int) bool {
			a, b := frags[i], frags[j]
			switch {
			case a.OldPosition != b.OldPosition:
				return a.OldPosition < b.OldPosition
			case (a.OldLines == 0) != (b.OldLines == 0):
				// an insertion has the position of the line it follows
				return b.OldLines == 0
			default:
				return a.NewPosition < b.NewPosition
			}
		})
""", """		frags := append([]*TextFragment(nil), f.TextFragments...)
		key := func(f *TextFragment) [3]int64 { return [3]int64{f.OldPosition, 1 - min(f.OldLines, 1), f.NewPosition} }
		less := func(i, j int) bool {
			a, b := key(frags[i]), key(frags[j])
			return slices.Compare(a[:], b[:]) < 0
		}
		if !sort.SliceIsSorted(frags, less) {
			sort.SliceStable(frags, less)
		}
""")
edit("I", "text.go", """	if len(frag.Lines) > 0 {
		last := &frag.Lines[len(frag.Lines)-1]
		last.Line = strings.TrimSuffix(last.Line, "\\n")
	}
""", """	n := len(frag.Lines)
	if n == 0 || frag.Lines[n-1].NoEOL() {
		return
	}
	l := frag.Lines[n-1].Line
	frag.Lines[n-1].Line = l[:len(l)-1]
""")
edit("I", "file_header.go", """	const prefix = "diff --git "

	if !strings.HasPrefix(p.Line(0), prefix) {
		return nil, nil
	}
	header := p.Line(0)[len(prefix):]
""", """	header, ok := strings.CutPrefix(p.Line(0), "diff --git ")
	if !ok {
		return nil, nil
	}
""")
