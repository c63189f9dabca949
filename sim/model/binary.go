package model

import (
	"bytes"
	"compress/zlib"
	"errors"
	"fmt"
	"io"

	"gitdiffsim/choice"
	"gitdiffsim/seam"
	"gitdiffsim/sim"
)

// ---------------------------------------------------------------- content

// Segments is content pieced together from ranges of other content.
type Segments struct {
	Parts []Segment
	total int64
}

type Segment struct {
	C     seam.Content
	Off   int64
	N     int64
	start int64
}

func (s *Segments) Add(c seam.Content, off, n int64) {
	if n > 0 {
		s.Parts = append(s.Parts, Segment{c, off, n, s.total})
		s.total += n
	}
}

func (s *Segments) Len() int64 { return s.total }
func (s *Segments) At(p []byte, off int64) {
	lo, hi := 0, len(s.Parts)
	for lo < hi {
		m := (lo + hi) / 2
		if s.Parts[m].start+s.Parts[m].N <= off {
			lo = m + 1
		} else {
			hi = m
		}
	}
	for i := lo; len(p) > 0; i++ {
		g := s.Parts[i]
		k := min(int64(len(p)), g.start+g.N-off)
		g.C.At(p[:k], g.Off+off-g.start)
		p = p[k:]
		off += k
	}
}

// ReadAll materialises content.
func ReadAll(c seam.Content) []byte {
	b := make([]byte, c.Len())
	c.At(b, 0)
	return b
}

// ---------------------------------------------------------------- delta

// DeltaOp is one instruction: Data is inserted, or Size bytes from Off copied.
type DeltaOp struct {
	Data []byte
	Off  int64
	Size int64
}

const maxCopy = 1<<24 - 1

// GenDelta draws an instruction sequence for a source.
func GenDelta(r *sim.Run, src seam.Content, maxOps int, maxOut int64) []DeltaOp {
	b := choice.NewBulk(r.Seed())
	n := r.N(maxOps + 1)
	srcLen := src.Len()
	var ops []DeltaOp
	var out int64
	for i := 0; i < n && out < maxOut; i++ {
		if srcLen == 0 || r.Chance(1, 3) {
			k := 1
			switch r.Pick(4, 2, 1, 1) {
			case 0:
				k = 1 + r.N(20)
			case 1:
				k = 1 + r.N(126)
			case 2:
				k = 127
			}
			d := make([]byte, k)
			if b.N(3) == 0 {
				for j := range d {
					d[j] = "abc\n\x00"[b.N(5)]
				}
			} else {
				b.Fill(d)
			}
			ops = append(ops, DeltaOp{Data: d})
			out += int64(k)
			continue
		}
		size := int64(1)
		switch r.Pick(5, 3, 2, 2, 2, 1) {
		case 0:
			size = int64(1 + r.N(64))
		case 1:
			size = int64(1 + r.N(1000))
		case 2:
			size = []int64{0x100, 0xff, 0x101, 0xff00, 0xffff, 0x10000, 0x10001, 0x1ff00}[r.N(8)]
		case 3:
			size = int64(1 + r.N(0x20000))
		case 4:
			size = 0x10000
		case 5:
			size = maxCopy - int64(b.N(3)) - int64(r.N(2))*int64(b.N(maxCopy-10))
		}
		if out+size > maxOut {
			size = maxOut - out
			if size <= 0 {
				break
			}
		}
		size = min(size, srcLen)
		room := srcLen - size
		var off int64
		switch r.Pick(3, 4, 3, 3) {
		case 0:
		case 1:
			off = int64(choice.NewBulk(r.Seed()).Uint64() % uint64(room+1))
		case 2: // end of the source
			off = room
		case 3: // offsets with particular bytes zero
			off = int64(b.Uint64()) & []int64{0xff, 0xff00, 0xff0000, 0xff000000, 0xff00ff, 0xff0000ff, 0xffff0000, 0xffffffff}[r.N(8)]
		}
		if off > 0xffffffff {
			off = 0xffffffff - int64(b.N(100))
		}
		if off > room {
			off = room
		}
		if off > 0xffffffff { // room beyond what an instruction can address
			off = 0xffffffff
		}
		ops = append(ops, DeltaOp{Off: off, Size: size})
		out += size
	}
	return ops
}

// DeltaTarget is what the instructions produce.
func DeltaTarget(src seam.Content, ops []DeltaOp) *Segments {
	s := &Segments{}
	for _, o := range ops {
		if o.Data != nil {
			s.Add(seam.Bytes(o.Data), 0, int64(len(o.Data)))
		} else {
			s.Add(src, o.Off, o.Size)
		}
	}
	return s
}

// AppendVarint encodes a size; pad adds redundant continuation bytes.
func AppendVarint(p []byte, v uint64, pad int) []byte {
	for v > 0x7f {
		p = append(p, byte(v)|0x80)
		v >>= 7
	}
	for ; pad > 0; pad-- {
		p = append(p, byte(v)|0x80)
		v = 0
	}
	return append(p, byte(v))
}

// EncodeDelta writes an instruction stream. style 0 is git's own encoding;
// other styles use redundant zero bytes and both encodings of 0x10000.
func EncodeDelta(b *choice.Bulk, style int, srcSize, dstSize int64, ops []DeltaOp) []byte {
	pad := func() int {
		if style == 2 && b.N(4) == 0 {
			return 1 + b.N(2)
		}
		return 0
	}
	p := AppendVarint(nil, uint64(srcSize), pad())
	p = AppendVarint(p, uint64(dstSize), pad())
	for _, o := range ops {
		p = AppendOp(b, style, p, o)
	}
	return p
}

// AppendOp encodes one instruction.
func AppendOp(b *choice.Bulk, style int, p []byte, o DeltaOp) []byte {
	if o.Data != nil {
		d := o.Data
		for len(d) > 127 {
			p = append(p, 127)
			p = append(p, d[:127]...)
			d = d[127:]
		}
		p = append(p, byte(len(d)))
		return append(p, d...)
	}
	op := byte(0x80)
	var args []byte
	for i := uint(0); i < 4; i++ {
		c := byte(o.Off >> (8 * i))
		if c != 0 || (style > 0 && b.N(3) == 0) {
			op |= 1 << i
			args = append(args, c)
		}
	}
	size := o.Size
	if size == 0x10000 && (style == 0 || b.N(2) == 0) {
		size = 0
	}
	for i := uint(0); i < 3; i++ {
		c := byte(size >> (8 * i))
		if c != 0 || (style > 0 && b.N(3) == 0) {
			op |= 1 << (4 + i)
			args = append(args, c)
		}
	}
	p = append(p, op)
	return append(p, args...)
}

var errDelta = errors.New("model: bad delta")

func readVarint(d []byte) (v uint64, rest []byte, ok bool) {
	shift := uint(0)
	for i, c := range d {
		x := uint64(c & 0x7f)
		if shift >= 63 && x != 0 || shift < 63 && x<<shift>>shift != x {
			return 0, nil, false
		}
		if shift < 64 {
			v |= x << shift
		}
		shift += 7
		if c < 0x80 {
			if int64(v) < 0 {
				return 0, nil, false
			}
			return v, d[i+1:], true
		}
	}
	return 0, nil, false
}

// DecodeDelta is an independent interpreter of instruction streams. It fails
// if the stream is malformed in any way or does not fit the source.
func DecodeDelta(src []byte, d []byte) ([]byte, error) {
	ss, d, ok := readVarint(d)
	if !ok || ss != uint64(len(src)) {
		return nil, errDelta
	}
	ds, d, ok := readVarint(d)
	if !ok {
		return nil, errDelta
	}
	var out []byte
	for len(d) > 0 {
		op := d[0]
		d = d[1:]
		if op == 0 {
			return nil, errDelta
		}
		if op < 0x80 {
			if len(d) < int(op) {
				return nil, errDelta
			}
			out = append(out, d[:op]...)
			d = d[op:]
		} else {
			var arg [7]int
			for i := range arg {
				if op>>i&1 == 1 {
					if len(d) == 0 {
						return nil, errDelta
					}
					arg[i] = int(d[0])
					d = d[1:]
				}
			}
			off := arg[0] + arg[1]*256 + arg[2]*65536 + arg[3]*16777216
			size := arg[4] + arg[5]*256 + arg[6]*65536
			if size == 0 {
				size = 65536
			}
			if off+size > len(src) {
				return nil, errDelta
			}
			out = append(out, src[off:off+size]...)
		}
		if uint64(len(out)) > ds {
			return nil, errDelta
		}
	}
	if uint64(len(out)) != ds {
		return nil, errDelta
	}
	return out, nil
}

// ---------------------------------------------------------------- transport encoding

const levelStep = 1_000_000

// GenLevel draws a level and, at times, what other programs write at the
// start of the stream.
func GenLevel(r *sim.Run, level int) int {
	if r.Chance(1, 6) {
		level += levelStep * (1 + r.N(32))
	}
	return level
}

// Deflate compresses at a level (-1..9; -2 Huffman only); from level 100 on,
// it flushes after each level-99 bytes, so that the result is much larger. Multiples of levelStep stand
// for window sizes and levels announced by the first two bytes.
func Deflate(data []byte, level int) []byte {
	var b bytes.Buffer
	if v := (level + 2) / levelStep; v > 0 {
		raw := Deflate(data, level-v*levelStep)
		if window := (v - 1) / 4; len(data) <= 1<<(8+window) {
			raw[0] = byte(window<<4 | 8)
		}
		raw[1] = byte((v-1)%4) << 6
		raw[1] += byte(31-(int(raw[0])<<8|int(raw[1]))%31) % 31
		return raw
	}
	if level >= 100 {
		w := zlib.NewWriter(&b)
		for n := level - 99; len(data) > 0; data = data[min(n, len(data)):] {
			w.Write(data[:min(n, len(data))])
			w.Flush()
		}
		w.Close()
		return b.Bytes()
	}
	w, err := zlib.NewWriterLevel(&b, level)
	if err != nil {
		panic(err)
	}
	w.Write(data)
	w.Close()
	return b.Bytes()
}

// Inflate decompresses completely, verifying the checksum; it fails if the
// result is not exactly size bytes.
func Inflate(raw []byte, size int64) ([]byte, error) {
	zr, err := zlib.NewReader(bytes.NewReader(raw))
	if err != nil {
		return nil, err
	}
	out, err := io.ReadAll(io.LimitReader(zr, size+2))
	if err != nil {
		return nil, err
	}
	if int64(len(out)) != size {
		return nil, fmt.Errorf("model: %d bytes, not %d", len(out), size)
	}
	return out, zr.Close()
}

const b85 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"

// B85Line encodes up to 52 bytes as one line.
func B85Line(d []byte) string {
	l := []byte{0}
	if len(d) <= 26 {
		l[0] = byte('A' + len(d) - 1)
	} else {
		l[0] = byte('a' + len(d) - 27)
	}
	for len(d) > 0 {
		var g [4]byte
		d = d[copy(g[:], d):]
		v := uint64(g[0])<<24 | uint64(g[1])<<16 | uint64(g[2])<<8 | uint64(g[3])
		var e [5]byte
		for i := 4; i >= 0; i-- {
			e[i] = b85[v%85]
			v /= 85
		}
		l = append(l, e[:]...)
	}
	return string(l) + "\n"
}

// B85Lines encodes data; width is git's 52 or another line length.
func B85Lines(d []byte, width int) []string {
	var out []string
	for len(d) > 0 {
		k := min(width, len(d))
		out = append(out, B85Line(d[:k]))
		d = d[k:]
	}
	return out
}

var b85rev = func() (t [256]int) {
	for i := range t {
		t[i] = -1
	}
	for i := 0; i < len(b85); i++ {
		t[b85[i]] = i
	}
	return
}()

// B85Decode decodes one line (with its newline). Values beyond 32 bits are
// reduced, with over set.
func B85Decode(line string) (d []byte, over, ok bool) {
	if len(line) < 7 || line[len(line)-1] != '\n' {
		return nil, false, false
	}
	n := 0
	switch c := line[0]; {
	case c >= 'A' && c <= 'Z':
		n = int(c-'A') + 1
	case c >= 'a' && c <= 'z':
		n = int(c-'a') + 27
	default:
		return nil, false, false
	}
	body := line[1 : len(line)-1]
	if len(body)%5 != 0 || len(body)/5*4 < n || len(body)/5*4 > n+3 {
		return nil, false, false
	}
	for i := 0; i < len(body); i += 5 {
		var v uint64
		for j := 0; j < 5; j++ {
			x := b85rev[body[i+j]]
			if x < 0 {
				return nil, false, false
			}
			v = v*85 + uint64(x)
		}
		if v>>32 != 0 {
			over = true
		}
		d = append(d, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return d[:n], over, true
}
