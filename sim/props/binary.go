package props

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Prop{
		ID: "C10", Quick: 100000, Thorough: 5000000,
		Rule:   "Each run draws a binary patch and damages it at one of four layers: the encoded text in transit (bits, characters, lines changed, lost, repeated, moved, sizes), the stored compressed data, the declared size, or the delta instructions inside an intact envelope; it is then parsed, read and applied to the right source, and every success is compared with an independent decoder. Non-trivial: the damaged patch was applied or read.",
		Body:   c10,
		Assume: []string{"the independent decoder uses the same inflate implementation (compress/zlib) as the library"},
	})
	register(&Prop{
		ID: "C15", Quick: 50000, Thorough: 2500000,
		Rule: "Each run draws a binary fragment whose contents agree or disagree with what it declares (sizes around the limit, compressed bombs, delta bombs, huge declared sizes), a limit (default, none, or drawn around the sizes), and applies it, watching refusals, bytes accepted and bytes allocated. Non-trivial: always.",
		Body: c15,
	})
	register(&Prop{
		ID: "C17", Quick: 150000, Thorough: 7500000,
		Rule:   "Each run draws an intact or damaged binary fragment and up to four readers of its data with drawn read sizes (also empty reads), interleaved in a drawn order and sometimes abandoned; bytes and verdicts are compared with an independent decoder and with each other, and reading goes on after the verdict. Non-trivial: a verdict was reached.",
		Body:   c17,
		Assume: []string{"the independent decoder uses the same inflate implementation (compress/zlib) as the library"},
	})
}

// ---------------------------------------------------------------- C10

func c10(r *sim.Run) {
	switch r.Pick(4, 2, 3) {
	case 0:
		c10transit(r)
	case 1:
		c10stored(r)
	case 2:
		c10delta(r)
	}
}

// decoded is what a fragment means according to the model; nil if it means
// nothing.
func decoded(f *gitdiff.BinaryFragment, src []byte) (data, out []byte, err error) {
	data, err = model.Inflate(f.RawData, f.Size)
	if err != nil {
		return nil, nil, err
	}
	if f.Method == gitdiff.BinaryPatchLiteral {
		return data, data, nil
	}
	out, err = model.DecodeDelta(src, data)
	return data, out, err
}

// judgeFragment reads and applies a fragment as the library obtained it and
// compares with what the sent form means.
func judgeFragment(r *sim.Run, f *gitdiff.BinaryFragment, sent *gitdiff.BinaryFragment, src []byte, what string) {
	var data, out []byte
	err := fmt.Errorf("model: not a fragment")
	var derr error
	if sent != nil {
		data, out, err = decoded(sent, src)
		_, derr = model.Inflate(sent.RawData, sent.Size)
	} else {
		derr = err
	}
	var got []byte
	var gerr error
	r.Call("Data", 0, func() { got, gerr = io.ReadAll(f.Data()) })
	r.Ev("data", got, errStr(gerr))
	if gerr == nil && derr != nil {
		r.Fail("damaged binary data read as if intact", "%s: %d bytes without error, but the data does not decode: %v", what, len(got), derr)
	}
	if gerr == nil && !bytes.Equal(got, data) {
		r.Fail("damaged binary data decoded differently", "%s: %d bytes are not the %d bytes it decodes to", what, len(got), len(data))
	}

	j := &job{file: &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: f}, src: seam.Bytes(src), how: r.Pick(3, 1), desc: what}
	j.surround(r)
	s, ls, snk := j.world()
	snk.Keep = true
	snk.MaxOps = 1 << 20
	aerr := j.run(r, s, ls, snk)
	r.NonTrivial()
	r.Sample("%s; model: %v; data: %v; applied: %v", what, err, gerr, aerr)
	if aerr != nil {
		return
	}
	if err != nil {
		r.Fail("damaged binary patch applied as if intact", "%s: success with %d bytes, but the patch does not decode: %v", what, snk.N, err)
	}
	if !bytes.Equal(snk.Buf, out) {
		r.Fail("damaged binary patch applied differently", "%s: output of %d bytes is not the %d bytes the patch decodes to", what, len(snk.Buf), len(out))
	}
}

// c10transit damages the encoded text.
func c10transit(r *sim.Run) {
	p := model.GenPatch(r, model.Opts{MinFiles: 1, MaxFiles: 3, Binary: true})
	k := r.N(len(p.Files))
	s := p.Files[k]
	// the damageable region: everything after the marker line of the file
	first := -1
	for i := s.StartLine; i < s.EndLine; i++ {
		if p.Lines[i].Kind == model.KBinMark {
			first = i + 1
		}
	}
	from := p.Lines[first].Pos
	region := bytes.Clone(p.Text[from:s.End])
	n := 1 + r.Pick(5, 2, 1)
	what := ""
	for i := 0; i < n; i++ {
		var w string
		region, w = damageText(r, region)
		r.Fault("transit: " + w)
		what += w + "; "
	}
	text := append(append(bytes.Clone(p.Text[:from]), region...), p.Text[s.End:]...)
	st := seam.NewStream(r, "patch", text)
	got := parse(r, st, true)
	if len(got.files) <= k || got.files[k] == nil {
		return
	}
	f := got.files[k]
	old := s.Old
	what = fmt.Sprintf("%s with %sin transit", s.Kind, what)
	fwd, rest := readFragment(string(text[from:]))
	rev, _ := readFragment(rest)
	if f.BinaryFragment != nil {
		judgeFragment(r, f.BinaryFragment, fwd, old, what+" (forward)")
	}
	if f.ReverseBinaryFragment != nil {
		judgeFragment(r, f.ReverseBinaryFragment, rev, s.New, what+" (reverse)")
	}
}

// readFragment independently decodes a fragment at the start of text; nil if
// there is none or it is malformed.
func readFragment(text string) (*gitdiff.BinaryFragment, string) {
	next := func() (string, bool) {
		i := strings.IndexByte(text, '\n')
		if i < 0 {
			return "", false
		}
		l := text[:i+1]
		text = text[i+1:]
		return l, true
	}
	// a final line that lost its newline still counts as a header
	head, ok := next()
	if !ok {
		return nil, ""
	}
	f := &gitdiff.BinaryFragment{}
	word, num, _ := strings.Cut(strings.TrimSuffix(head, "\n"), " ")
	switch word {
	case "literal":
		f.Method = gitdiff.BinaryPatchLiteral
	case "delta":
		f.Method = gitdiff.BinaryPatchDelta
	default:
		return nil, text
	}
	var err error
	if f.Size, err = strconv.ParseInt(num, 10, 64); err != nil || f.Size < 0 {
		return nil, text
	}
	for {
		l, ok := next()
		if !ok {
			return nil, ""
		}
		if l == "\n" {
			return f, text
		}
		d, _, ok := model.B85Decode(l)
		if !ok {
			return nil, text
		}
		f.RawData = append(f.RawData, d...)
	}
}

const b85chars = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"

// damageText damages text once.
func damageText(r *sim.Run, t []byte) ([]byte, string) {
	if len(t) == 0 {
		return []byte("A00000\n"), "line inserted"
	}
	b := choice.NewBulk(r.Seed())
	lines := bytes.SplitAfter(t, []byte("\n"))
	if len(lines) > 1 && len(lines[len(lines)-1]) == 0 {
		lines = lines[:len(lines)-1]
	}
	i := b.N(len(t))
	li := b.N(len(lines))
	lj := b.N(len(lines))
	if r.Chance(1, 4) { // near the start or end
		i = min(i, b.N(12))
		if b.N(2) == 0 {
			i = len(t) - 1 - min(len(t)-1, b.N(12))
		}
		li = []int{0, len(lines) - 1, max(0, len(lines)-2)}[b.N(3)]
	}
	join := func(l [][]byte) []byte { return bytes.Join(l, nil) }
	t = bytes.Clone(t)
	switch r.N(12) {
	case 0:
		t[i] ^= 1 << b.N(8)
		return t, "bit flipped"
	case 1:
		t[i] = b85chars[b.N(85)]
		return t, "character replaced"
	case 2:
		n := min(len(t)-i, 1+b.N(6))
		return append(t[:i], t[i+n:]...), "bytes lost"
	case 3:
		n := min(len(t)-i, 1+b.N(6))
		return append(t[:i+n:i+n], t[i:]...), "bytes repeated"
	case 4:
		return join(append(lines[:li:li], lines[li+1:]...)), "line lost"
	case 5:
		return join(append(lines[:li+1:li+1], lines[li:]...)), "line repeated"
	case 6:
		lines[li], lines[lj] = lines[lj], lines[li]
		return join(lines), "lines swapped"
	case 7: // length byte
		pos := 0
		for k := 0; k < li; k++ {
			pos += len(lines[k])
		}
		if d := int(t[pos]) + b.N(7) - 3; d > 0 && d < 128 {
			t[pos] = byte(d)
		}
		return t, "length byte changed"
	case 8: // any number
		var digits []int
		for k, c := range lines[0] {
			if c >= '0' && c <= '9' {
				digits = append(digits, k)
			}
		}
		if len(digits) > 0 {
			t[digits[b.N(len(digits))]] = byte('0' + b.N(10))
		}
		return t, "size changed"
	case 9:
		n := min(len(t), 1+b.N(200))
		return t[:len(t)-n], "end lost"
	case 10:
		ins := []string{"\n", "A00000\n", "B00000\n", "zzzzzz\n", "literal 0\n", "delta 5\n", " \n", "GIT binary patch\n", "\x00\n"}[b.N(9)]
		return join(append(lines[:li:li], append([][]byte{[]byte(ins)}, lines[li:]...)...)), "line inserted"
	default: // swap the words
		s := string(t)
		if strings.HasPrefix(s, "literal") {
			return []byte("delta" + s[7:]), "method changed"
		}
		return []byte(strings.Replace(s, "delta", "literal", 1)), "method changed"
	}
}

func damageBytes(r *sim.Run, d []byte) ([]byte, string) {
	b := choice.NewBulk(r.Seed())
	d = bytes.Clone(d)
	if len(d) == 0 {
		return []byte{byte(b.N(256))}, "byte appended"
	}
	i := b.N(len(d))
	if r.Chance(1, 3) {
		i = len(d) - 1 - min(len(d)-1, b.N(8))
	}
	switch r.N(6) {
	case 0:
		d[i] ^= 1 << b.N(8)
		return d, "bit flipped"
	case 1:
		d[i] = byte(b.N(256))
		return d, "byte replaced"
	case 2:
		return d[:i], "end lost"
	case 3:
		n := min(len(d)-i, 1+b.N(8))
		return append(d[:i], d[i+n:]...), "bytes lost"
	case 4:
		n := min(len(d)-i, 1+b.N(8))
		return append(d[:i+n:i+n], bytes.Clone(d[i:])...), "bytes repeated"
	default:
		return append(d, byte(b.N(256)), byte(b.N(256))), "bytes appended"
	}
}

// c10stored damages the stored data or the declared size.
func c10stored(r *sim.Run) {
	j := binaryJob(r, false)
	f := *j.file.BinaryFragment
	what := ""
	for n := 1 + r.Pick(4, 1); n > 0; n-- {
		var w string
		if r.Chance(1, 3) {
			d := int64(r.N(9) - 4)
			if r.Chance(1, 3) { // off by what some integer type loses
				d = 1 << []int{8, 15, 16, 24, 31, 32, 33, 40, 48, 62}[r.N(10)]
				if r.Chance(1, 4) {
					d = -d
				}
			}
			f.Size = max(0, f.Size+d)
			w = fmt.Sprintf("size changed by %d", d)
			r.Fault("storage: size changed")
		} else {
			f.RawData, w = damageBytes(r, f.RawData)
			r.Fault("storage: " + w)
		}
		what += w + "; "
	}
	src := model.ReadAll(j.src)
	judgeFragment(r, &f, &f, src, j.desc+": "+what+"in storage")
}

// c10delta damages delta instructions inside an intact envelope.
func c10delta(r *sim.Run) {
	src := model.GenBytes(r, 3000)
	b := choice.NewBulk(r.Seed())
	ops := model.GenDelta(r, seam.Bytes(src), 8, 1<<14)
	target := model.DeltaTarget(seam.Bytes(src), ops)
	srcSize, dstSize := uint64(len(src)), uint64(target.Len())
	var d []byte
	what := ""
	padS, padD := 0, 0
	switch r.Pick(6, 2, 2, 2) {
	case 1: // wrong sizes
		srcSize += uint64(r.N(5)) - 2
		what += "wrong source size; "
	case 2:
		if r.Bool() {
			dstSize += uint64(1 + r.N(3))
		} else {
			dstSize -= uint64(min(int64(dstSize), int64(1+r.N(3))))
		}
		what += "wrong result size; "
	case 3: // oversized encodings of sizes, some of them overflowing
		switch r.N(4) {
		case 0:
			padS = r.N(12)
		case 1:
			padD = r.N(12)
		case 2:
			srcSize |= 1 << (60 + r.N(4))
		case 3:
			dstSize |= 1 << (60 + r.N(4))
		}
		what += "unusual sizes; "
	}
	d = model.AppendVarint(d, srcSize, padS)
	if what == "unusual sizes; " && r.Chance(1, 3) { // bits beyond 64
		d = d[:0]
		for i := 0; i < 9+r.N(3); i++ {
			d = append(d, 0x80|byte(srcSize>>(7*i)&0x7f))
		}
		d = append(d, byte(1<<r.N(7)))
		what += "overflowing; "
	}
	d = model.AppendVarint(d, dstSize, padD)
	style := r.N(3)
	for _, o := range ops {
		d = model.AppendOp(b, style, d, o)
	}
	n := 0
	if what == "" || r.Chance(1, 3) {
		n = 1 + r.Pick(4, 1)
	}
	for ; n > 0; n-- {
		var w string
		d, w = damageBytes(r, d)
		r.Fault("instructions: " + w)
		what += w + "; "
	}
	if r.Chance(1, 6) { // cut within the sizes
		d = d[:min(len(d), r.N(4))]
		what += "cut to its first bytes; "
	}
	f := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(d)), RawData: model.Deflate(d, -1)}
	judgeFragment(r, f, f, src, fmt.Sprintf("delta of %d instructions with %swithin", len(ops), what))
}

// ---------------------------------------------------------------- C15

const bombSize = 64 << 20

var bomb = sync.OnceValue(func() []byte { return model.Deflate(make([]byte, bombSize), 9) })

const defaultLimit = 100 << 20

var hundred = map[int64]func() []byte{
	defaultLimit:     sync.OnceValue(func() []byte { return model.Deflate(make([]byte, defaultLimit), 1) }),
	defaultLimit + 1: sync.OnceValue(func() []byte { return model.Deflate(make([]byte, defaultLimit+1), 1) }),
}

type zeros int64

func (z zeros) Len() int64             { return int64(z) }
func (z zeros) At(p []byte, off int64) { clear(p) }

// allocated measures the bytes f allocates.
func allocated(f func()) int64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int64(b.TotalAlloc - a.TotalAlloc)
}

// fragCase is a fragment with what it declares and what it holds.
type fragCase struct {
	f        *gitdiff.BinaryFragment
	src      seam.Content
	intact   bool
	want     seam.Content // when intact
	stream   int64        // declared size of the content or instructions
	result   int64        // declared size of the result; -1: a literal
	declared int64        // what the destination may get
	what     string
}

// level draws how to compress d; the stored data may well be larger than d.
func level(r *sim.Run, d []byte) int {
	if r.Chance(1, 5) && len(d) < 100_000 {
		return model.GenLevel(r, 100+r.N(20)+len(d)/1000)
	}
	return model.GenLevel(r, r.N(3))
}

func genFrag(r *sim.Run, limit int64) *fragCase {
	c := &fragCase{result: -1, src: seam.Bytes(nil), intact: true}
	b := choice.NewBulk(r.Seed())
	switch r.Pick(5, 6, 3, 4, 3, 2) {
	case 0: // literal of a size around the limit
		n := int64(r.N(300))
		if limit >= 0 && limit <= 1<<20+2 && r.Chance(3, 4) {
			n = max(0, limit+int64(r.N(5)-2))
		}
		d := make([]byte, n)
		b.Fill(d)
		c.want = seam.Bytes(d)
		c.f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: n, RawData: model.Deflate(d, level(r, d))}
		c.what = fmt.Sprintf("literal of %d bytes", n)
	case 1: // delta, stream or result around the limit
		sz := []int64{0, 50, 2000, 0x10000, 0x10001, 70000}[r.N(6)]
		c.src = seam.Virtual{N: sz, Seed: r.Seed()}
		ops := model.GenDelta(r, c.src, 12, 1<<18)
		if limit >= 0 && limit < 1<<20 && r.Chance(3, 4) { // bring the result near the limit
			want := max(0, limit+int64(r.N(5)-2))
			ops = nil
			for want > 0 {
				k := min(want, sz, 1<<16)
				if k > 0 && (r.Bool() || want > 500) {
					ops = append(ops, model.DeltaOp{Size: k, Off: int64(b.N(int(sz-k) + 1))})
				} else {
					k = min(want, 127)
					d := make([]byte, k)
					b.Fill(d)
					ops = append(ops, model.DeltaOp{Data: d})
				}
				want -= k
			}
		}
		t := model.DeltaTarget(c.src, ops)
		d := model.EncodeDelta(b, r.N(3), sz, t.Len(), ops)
		c.want = t
		c.result = t.Len()
		c.f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(d)), RawData: model.Deflate(d, level(r, d))}
		c.what = fmt.Sprintf("delta of %d instructions in %d bytes making %d", len(ops), len(d), t.Len())
	case 2: // compressed bomb behind a small or wrong declared size
		c.intact = false
		n := []int64{0, 1, 10, 1000, 32768, 1 << 20, bombSize - 1}[r.Pick(2, 2, 4, 4, 2, 1, 1)]
		m := gitdiff.BinaryPatchMethod(r.N(2))
		c.f = &gitdiff.BinaryFragment{Method: m, Size: n, RawData: bomb()}
		if m == gitdiff.BinaryPatchDelta {
			c.result = 0 // all zero: both sizes are 0
			c.src = seam.Bytes(nil)
		}
		c.what = fmt.Sprintf("%d bytes of zeros declared as %d", bombSize, n)
	case 3: // delta that makes more or less than it declares
		c.intact = false
		sz := []int64{100, 0x10000, 1<<24 - 1, 1 << 24}[r.N(4)]
		c.src = seam.Virtual{N: sz, Seed: r.Seed()}
		n := int64(r.N(2000))
		if r.Chance(1, 3) {
			n = int64(r.N(1 << 21))
		}
		d := model.AppendVarint(nil, uint64(sz), 0)
		d = model.AppendVarint(d, uint64(n), 0)
		k := r.N(40)
		total := int64(0)
		for i := 0; i < k; i++ {
			o := model.DeltaOp{Size: min(sz, int64(1+b.N(1<<24-2)))}
			if r.Bool() {
				o.Size = min(sz, int64(1+b.N(3000)))
			}
			if r.Chance(1, 4) {
				o = model.DeltaOp{Data: make([]byte, 1+b.N(127))}
			}
			total += o.Size + int64(len(o.Data))
			d = model.AppendOp(b, 0, d, o)
		}
		if total == n {
			d = append(d, 1, 'x')
		}
		c.result = n
		c.f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(d)), RawData: model.Deflate(d, 1)}
		c.what = fmt.Sprintf("delta declaring %d bytes with instructions for %d from a source of %d", n, total, sz)
	case 4: // huge declarations, little behind them
		c.intact = false
		n := []int64{defaultLimit + 1, defaultLimit + 2, 1 << 32, 1<<32 + 5, math.MaxInt64, math.MaxInt64 - 1, 1 << 62, 1 << 31}[r.N(8)]
		d := make([]byte, 1+r.N(2000))
		b.Fill(d)
		if r.Bool() {
			c.f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchMethod(r.N(2)), Size: n, RawData: model.Deflate(d, 0)}
			c.what = fmt.Sprintf("%d bytes declared as %d", len(d), n)
			if c.f.Method == gitdiff.BinaryPatchDelta {
				c.result = 0 // not reached
			}
			break
		}
		c.src = seam.Bytes(d)
		x := model.AppendVarint(nil, uint64(len(d)), 0)
		x = model.AppendVarint(x, uint64(n), 0)
		x = model.AppendOp(b, 0, x, model.DeltaOp{Size: int64(len(d))})
		x = model.AppendOp(b, 0, x, model.DeltaOp{Data: []byte("more")})
		c.result = n
		c.f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(x)), RawData: model.Deflate(x, 0)}
		c.what = fmt.Sprintf("delta declaring %d bytes with instructions for %d", n, len(d)+4)
	case 5: // instructions within the limit, declared result just beyond it
		c.intact = false
		sz := []int64{0, 1, 100, 70000}[r.N(4)]
		c.src = seam.Virtual{N: sz, Seed: r.Seed()}
		n := int64(1000 + r.N(5))
		if limit >= 0 && limit < math.MaxInt64-10 {
			n = limit + int64(r.N(4))
		}
		x := model.AppendVarint(nil, uint64(sz), 0)
		x = model.AppendVarint(x, uint64(n), 0)
		total := int64(0)
		for k := r.N(4); k > 0; k-- {
			o := model.DeltaOp{Data: make([]byte, 1+b.N(20))}
			if sz > 0 && r.Bool() {
				o = model.DeltaOp{Size: 1 + int64(b.N(int(sz)))}
			}
			total += o.Size + int64(len(o.Data))
			x = model.AppendOp(b, 0, x, o)
		}
		if total == n {
			x = append(x, 1, 'x')
		}
		c.result = n
		c.f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(x)), RawData: model.Deflate(x, 1)}
		c.what = fmt.Sprintf("delta declaring %d bytes with instructions for %d from a source of %d", n, total, sz)
	}
	if !c.intact {
		r.Fault("sender: contents disagree with what is declared")
	}
	c.stream = c.f.Size
	c.declared = c.stream
	if c.f.Method == gitdiff.BinaryPatchDelta {
		c.declared = c.result
	}
	return c
}

func c15(r *sim.Run) {
	if r.Chance(1, 800) {
		c15default(r)
		return
	}
	limit := int64(defaultLimit)
	var opts []gitdiff.ApplyOption
	switch r.Pick(3, 2, 5) {
	case 1:
		limit = -1 - int64(r.N(2))*int64(r.N(1000))
		opts = []gitdiff.ApplyOption{gitdiff.WithMaxBinaryFragmentBytes(limit)}
	case 2:
		limit = []int64{0, 1, 10, 100, 1000, 32768, 65536, 100000, defaultLimit, math.MaxInt64}[r.N(10)]
		if r.Chance(1, 40) {
			limit = 1<<20 - 2 + int64(r.N(4)) // zlib cannot pack what genFrag draws in less
		}
		if r.Bool() {
			limit = int64(r.N(500))
		}
		opts = []gitdiff.ApplyOption{gitdiff.WithMaxBinaryFragmentBytes(limit)}
	}
	for len(opts) > 0 && len(opts) < 4 && r.Chance(1, 4) { // the last one counts
		before := []int64{-1, 0, limit - 1, limit / 2, 2, defaultLimit, math.MaxInt64, math.MinInt64, int64(r.N(2000) - 1000)}[r.N(9)]
		opts = append([]gitdiff.ApplyOption{gitdiff.WithMaxBinaryFragmentBytes(before)}, opts...)
	}
	judgeLimit(r, genFrag(r, limit), limit, opts)
}

func judgeLimit(r *sim.Run, c *fragCase, limit int64, opts []gitdiff.ApplyOption) {
	j := &job{file: &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: c.f}, src: c.src, how: r.Pick(3, 1), desc: c.what, opts: opts}
	j.surround(r)
	src, ls, snk := j.world()
	if c.intact {
		snk.Want, snk.WantCls = c.want, "wrong output"
	}
	over := limit >= 0 && (c.stream > limit || c.result > limit)
	if len(c.f.RawData) < 70000 && r.Chance(1, 6) { // the patch arrives as text
		n := allocated(func() { j.file = overWire(r, j.file) })
		if n > 16<<20 {
			r.Fail("memory use out of proportion", "parsing %d bytes of binary data, %s, allocated %d MiB", len(c.f.RawData), c.what, n>>20)
		}
		c.what += " parsed from text"
	}
	var err error
	alloc := allocated(func() { err = j.run(r, src, ls, snk) })
	r.NonTrivial()
	where := fmt.Sprintf("%s, limit %d, through %s: %d bytes accepted, %d bytes allocated, result %v", c.what, limit, hows[j.how], snk.N, alloc, err)
	r.Sample("%s", strings.Replace(where, fmt.Sprintf(", %d bytes allocated", alloc), "", 1))
	if over {
		r.Probe("declared more than the limit")
		if err == nil {
			r.Fail("fragment beyond the limit accepted", "%s", where)
		}
		if snk.N > 0 {
			r.Fail("output before a fragment beyond the limit was refused", "%s", where)
		}
	}
	if !over && c.intact && err != nil {
		r.Fail("fragment within the limits refused", "%s", where)
	}
	if !over && c.intact && snk.N != c.want.Len() {
		r.Fail("incomplete output", "%s", where)
	}
	if !c.intact && err == nil {
		r.Fail("fragment that disagrees with its declaration accepted", "%s", where)
	}
	if c.declared < math.MaxInt64 && snk.N > c.declared+1 {
		r.Fail("more output than declared", "%d bytes declared; %s", c.declared, where)
	}
	// what may be used: a small multiple of what is declared (and really
	// there), one maximal copy, and fixed buffers
	budget := float64(32 << 20)
	if c.stream <= limit || limit < 0 {
		budget += 8 * float64(min(c.stream, bombSize))
		if c.result > 0 && (c.result <= limit || limit < 0) {
			budget += 4 * float64(c.result)
		}
	}
	if float64(alloc) > budget {
		r.Fail("memory use out of proportion", "%s; at most %.0f bytes expected", strings.Replace(where, fmt.Sprintf("%d bytes allocated", alloc), fmt.Sprintf("%d MiB allocated", alloc>>20), 1), budget)
	}
}

// c15default works at the default limit itself.
func c15default(r *sim.Run) {
	var opts []gitdiff.ApplyOption
	limit := int64(defaultLimit)
	n := limit + int64(r.N(2))
	if r.Chance(1, 4) {
		limit = -1
		opts = append(opts, gitdiff.WithMaxBinaryFragmentBytes(-1))
	}
	c := &fragCase{result: -1, intact: true, want: zeros(n), src: seam.Bytes(nil)}
	if r.Bool() {
		c.f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: n, RawData: hundred[n]()}
		c.what = fmt.Sprintf("literal of %d bytes", n)
	} else {
		c.src = zeros(1 << 20)
		d := model.AppendVarint(nil, 1<<20, 0)
		d = model.AppendVarint(d, uint64(n), 0)
		for left := n; left > 0; {
			k := min(left, 1<<20)
			d = model.AppendOp(nil, 0, d, model.DeltaOp{Size: k})
			left -= k
		}
		c.result = n
		c.f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(d)), RawData: model.Deflate(d, 1)}
		c.what = fmt.Sprintf("delta making %d bytes", n)
	}
	c.stream, c.declared = c.f.Size, n
	r.Probe("at the default limit")
	judgeLimit(r, c, limit, opts)
}

// ---------------------------------------------------------------- C17

type fragReader struct {
	rd      io.Reader
	got     []byte
	verdict error
	done    bool
	after   int
	style   int
	unit    int
	reads   int
	phase   int
	gaveUp  bool
	copyAt  int // the read from which on the rest is copied; 0: never
}

func c17(r *sim.Run) {
	var f gitdiff.BinaryFragment
	what := "intact"
	if r.Chance(1, 6) { // larger, several window flushes
		d := make([]byte, 30000+r.N(120000))
		choice.NewBulk(r.Seed()).Fill(d)
		if r.Bool() {
			for i := range d {
				d[i] &= 1
			}
		}
		f = gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: int64(len(d)), RawData: model.Deflate(d, []int{-1, 0, 1, -2}[r.N(4)])}
	} else {
		g, _ := model.MakeBinary(r, model.GenBytes(r, 500), nil, 6000)
		f = *g
	}
	switch r.Pick(6, 2, 3, 1, 1, 1) {
	case 1:
		f.Size = max(0, f.Size+int64(r.N(5)-2))
		if r.Chance(1, 4) {
			f.Size += 1 << []int{8, 15, 16, 24, 31, 32, 33, 40, 48, 62}[r.N(10)]
		}
		what = "declared size changed"
	case 2:
		f.RawData, what = damageBytes(r, f.RawData)
	case 3: // checksum
		f.RawData = bytes.Clone(f.RawData)
		f.RawData[len(f.RawData)-1-r.N(4)] ^= byte(1 << r.N(8))
		what = "checksum changed"
	case 4:
		f.RawData = f.RawData[:len(f.RawData)-min(len(f.RawData), 1+r.N(5))]
		what = "checksum cut off"
	case 5: // truncated content with a valid size for what remains
		f.Size = f.Size / 2
		what = "half the size declared"
	}
	if what != "intact" {
		r.Fault("storage: " + what)
	}
	f.Method = gitdiff.BinaryPatchMethod(r.N(2)) // means nothing for the data
	raw, size := bytes.Clone(f.RawData), f.Size
	want, werr := model.Inflate(raw, size)

	n := 1 + r.N(4)
	rds := make([]*fragReader, n)
	lazy := r.Bool() // opened when first used
	for i := range rds {
		rds[i] = &fragReader{style: r.N(6), unit: 1 + r.N(100), after: 1 + r.N(4), phase: r.N(5)}
		if r.Chance(1, 6) {
			rds[i].copyAt = 1 + r.N(4)
		}
		if !lazy {
			rds[i].rd = f.Data()
		}
	}
	left := n
	abandon := -1
	if n > 1 && r.Chance(1, 4) {
		abandon = 1 + r.N(n-1)
	}
	total := 0
	for left > 0 {
		k := 0
		if n > 1 {
			k = r.N(n)
		}
		for rds[k].done && rds[k].after == 0 {
			k = (k + 1) % n
		}
		x := rds[k]
		if x.rd == nil {
			x.rd = f.Data()
		}
		// a burst of reads by one reader
		burst := 1
		if n == 1 || r.Bool() {
			burst = 1 + r.N(200)
		}
		for ; burst > 0 && !(x.done && x.after == 0); burst-- {
			if k == abandon && x.reads > 3 {
				x.done, x.after, x.gaveUp = true, 0, true
				r.Probe("reader abandoned")
				break
			}
			total++
			c17read(r, x, size, what)
		}
		if x.done && x.after == 0 {
			left--
		}
		if total > 4_000_000 {
			r.Fail("no-progress: reading binary data", "no verdict after %d reads (%s)", total, what)
		}
	}
	var first *fragReader
	for _, x := range rds {
		if x.gaveUp {
			continue
		}
		r.NonTrivial()
		if x.verdict == io.EOF {
			if int64(len(x.got)) != size {
				r.Fail("end of file after the wrong amount of data", "%d bytes delivered, %d declared (%s)", len(x.got), size, what)
			}
			if werr != nil {
				r.Fail("end of file although the data is bad", "%d bytes delivered, but: %v (%s)", len(x.got), werr, what)
			}
			if !bytes.Equal(x.got, want) {
				r.Fail("wrong data", "%d bytes differ from what the fragment decodes to (%s)", len(x.got), what)
			}
		} else if werr == nil {
			r.Fail("good data rejected", "%v after %d of %d bytes (%s)", x.verdict, len(x.got), size, what)
		}
		if first == nil {
			first = x
			continue
		}
		if (x.verdict == io.EOF) != (first.verdict == io.EOF) {
			r.Fail("verdict depends on the read pattern", "%v and %v (%s)", first.verdict, x.verdict, what)
		}
		if !bytes.Equal(x.got, first.got) {
			r.Fail("data depends on the read pattern", "%d and %d bytes (%s)", len(first.got), len(x.got), what)
		}
	}
	if f.Size != size || !bytes.Equal(f.RawData, raw) {
		r.Fail("reading changed the fragment", "%s", what)
	}
	r.Sample("%d readers of %d compressed bytes declared as %d (%s), %d reads; model: %v", n, len(raw), size, what, total, werr)
}

func c17read(r *sim.Run, x *fragReader, size int64, what string) {
	k := x.unit
	switch x.style {
	case 1:
		k = 1
		if size > 2000 {
			k = 1 + int(min(size/500, 1<<30))
		}
	case 2:
		k = x.unit * (1 + x.reads*7%13)
	case 3:
		k = int(min(size, 1<<30)) + 3
	case 4:
		k = int(min(size, 1<<30))
	case 5:
		k = 512
	}
	k = min(max(k, 1), 1<<20)
	if size > 20000 {
		k = max(k, 60)
	}
	if (x.reads+x.phase)%5 == 4 && x.unit%3 == 0 {
		k = 0
	}
	x.reads++
	var m int
	var err error
	if x.copyAt > 0 && x.reads == x.copyAt && !x.done { // hand the rest over to a copying function
		var rest bytes.Buffer
		r.Call("io.Copy(Data)", 0, func() { _, err = io.Copy(&rest, x.rd) })
		r.Ev("copy", rest.Len(), errStr(err))
		x.got = append(x.got, rest.Bytes()...)
		if int64(len(x.got)) > size+1 {
			r.Fail("more data than declared", "%d bytes, %d declared (%s)", len(x.got), size, what)
		}
		if err == nil {
			err = io.EOF
		}
		x.done, x.verdict = true, err
		return
	}
	p := make([]byte, k)
	for i := range p {
		p[i] = 0xa5
	}
	defer func() { // the caller uses its memory for other things
		for i := range p {
			p[i] = 0x5a
		}
	}()
	r.Call("Data.Read", 0, func() { m, err = x.rd.Read(p) })
	r.Ev("read", k, m, errStr(err))
	if m < 0 || m > k {
		r.Fail("impossible read count", "%d of %d", m, k)
	}
	if x.done {
		x.after--
		if m > 0 {
			r.Fail("data after the verdict", "%d bytes after %v (%s)", m, x.verdict, what)
		}
		if k > 0 && err == nil {
			r.Fail("verdict not repeated", "a read after %v reports neither data nor an error (%s)", x.verdict, what)
		}
		if err == io.EOF && x.verdict != io.EOF {
			r.Fail("error turned into end of file", "after %v (%s)", x.verdict, what)
		}
		return
	}
	x.got = append(x.got, p[:m]...)
	if int64(len(x.got)) > size+1 {
		r.Fail("more data than declared", "%d bytes, %d declared (%s)", len(x.got), size, what)
	}
	if err != nil {
		x.done, x.verdict = true, err
	}
}
