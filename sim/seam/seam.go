// Package seam contains everything the library under test can observe of the
// outside world: streams, random-access sources and destinations. Each obeys
// its Go interface contract in every legal way, and fails when told to.
package seam

import (
	"bufio"
	"bytes"
	"compress/flate"
	"compress/zlib"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"os"
	"strings"
	"syscall"

	"gitdiffsim/choice"
	"gitdiffsim/sim"
)

// IOError is an injected failure. Its identity (pointer) is what oracles look
// for in returned errors.
type IOError struct {
	Msg   string
	Inner error
	Tmp   bool
}

func (e *IOError) Error() string   { return e.Msg }
func (e *IOError) Unwrap() error   { return e.Inner }
func (e *IOError) Timeout() bool   { return e.Tmp }
func (e *IOError) Temporary() bool { return e.Tmp }

// commonErrs are errors real sources, destinations and streams return as they
// are. None of them is a regular end of data.
var commonErrs = []error{
	io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, os.ErrClosed, os.ErrNotExist, os.ErrInvalid, os.ErrPermission,
	os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded, syscall.EIO, syscall.EINTR, syscall.EAGAIN,
	syscall.ENOSPC, syscall.EPIPE, syscall.EINVAL, bufio.ErrTooLong, net.ErrClosed, zlib.ErrChecksum, flate.CorruptInputError(7),
}

var innerErrs = []error{nil, syscall.EIO, syscall.EINTR, syscall.EAGAIN, io.ErrClosedPipe, errors.New("link reset"), syscall.ENOSPC, io.ErrNoProgress}

// NewErr draws an injected error value.
func NewErr(r *sim.Run, where string) error {
	if r.Chance(1, 6) {
		e := commonErrs[r.N(len(commonErrs))]
		switch r.N(4) {
		case 1:
			return &os.PathError{Op: "io", Path: "injected " + where, Err: e}
		case 2:
			return fmt.Errorf("injected %s: %w", where, e)
		case 3:
			return errors.Join(errors.New("injected "+where), e)
		}
		return e
	}
	if r.Chance(1, 16) {
		// a connection that was cut, as HTTP and RPC clients report it: not the
		// regular end of the data
		if r.Bool() {
			return fmt.Errorf("injected %s: %w", where, io.EOF)
		}
		return &url.Error{Op: "Get", URL: "http://host/injected-" + strings.ReplaceAll(where, " ", "-"), Err: io.EOF}
	}
	in := innerErrs[r.N(len(innerErrs))]
	e := &IOError{Msg: "injected " + where, Inner: in, Tmp: r.Bool()}
	if in != nil {
		e.Msg += ": " + in.Error()
	}
	return e
}

// NewReadErr is NewErr, sometimes a bare standard error that must not be
// confused with a regular end of data.
func NewReadErr(r *sim.Run, where string) error {
	if r.Chance(1, 6) {
		return io.ErrUnexpectedEOF
	}
	return NewErr(r, where)
}

// NewWriteErr is NewErr, sometimes the bare error of a wrapper that noticed a
// short write below it.
func NewWriteErr(r *sim.Run, where string) error {
	if r.Chance(1, 8) {
		return io.ErrShortWrite
	}
	if r.Chance(1, 16) {
		return io.EOF // as closed channels of some transports do
	}
	return NewErr(r, where)
}

// ---------------------------------------------------------------- content

// Content is immutable data behind a source.
type Content interface {
	Len() int64
	// At fills p from offset off; off+len(p) <= Len().
	At(p []byte, off int64)
}

type Bytes []byte

func (b Bytes) Len() int64             { return int64(len(b)) }
func (b Bytes) At(p []byte, off int64) { copy(p, b[off:]) }

// Virtual is procedurally generated content of any size.
type Virtual struct {
	N    int64
	Seed uint64
}

func (v Virtual) Len() int64 { return v.N }
func (v Virtual) At(p []byte, off int64) {
	for len(p) > 0 {
		blk := off >> 5
		var w [32]byte
		choice.NewBulk(v.Seed ^ uint64(blk)*0x9e3779b97f4a7c15).Fill(w[:])
		k := copy(p, w[off&31:])
		p = p[k:]
		off += int64(k)
	}
}

// ---------------------------------------------------------------- source

// FaultKind says how an operation fails.
type FaultKind int

const (
	None    FaultKind = iota // no data, error
	Partial                  // some data, error
	Full                     // all data, error
	Short                    // some data, no error (destinations only)
	Abort                    // the callback panics
)

func (k FaultKind) String() string {
	return [...]string{"none", "partial", "full", "short", "abort"}[k]
}

// Fault fails the operation with the given index.
type Fault struct {
	Op     int
	Kind   FaultKind
	Frac   int  // thousandths of the data transferred for Partial, Short
	Sticky bool // all later operations fail too
	Err    error
}

// Source is a simulated random-access source (disk, network file).
type Source struct {
	R       *sim.Run
	Name    string
	C       Content
	EOFMode int    // end-of-data style of full reads that end exactly at the end: 0 nil, 1 EOF, 2 varying
	Scratch bool   // use all of p as scratch space
	Lat     int64  // simulated latency per operation
	Bits    uint64 // per-operation variation
	Faults  []Fault
	Ops     int
	Fired   []error
	broken  error
	MaxOps  int
	Outages []Outage // periods of simulated time in which reads fail
}

// Outage is a period in which a source cannot be read.
type Outage struct {
	From, To int64
	Kind     FaultKind
	Err      error
}

func (s *Source) outage() *Outage {
	for i := range s.Outages {
		if o := &s.Outages[i]; s.R.Clock >= o.From && s.R.Clock < o.To {
			return o
		}
	}
	return nil
}

// NewSource draws a conforming behaviour for a source.
func NewSource(r *sim.Run, name string, c Content) *Source {
	s := &Source{R: r, Name: name, C: c, Lat: 1000}
	s.EOFMode = r.N(3)
	s.Scratch = r.Bool()
	s.Bits = choice.NewBulk(r.Seed()).Uint64()
	s.Lat = int64(r.N(4)) * 500_000
	return s
}

// Clone returns a source with the same behaviour and content and its own
// fault plan.
func (s *Source) Clone() *Source {
	c := *s
	c.Faults, c.Fired, c.Ops, c.broken, c.Outages = nil, nil, 0, nil, nil
	return &c
}

func (s *Source) ReadAt(p []byte, off int64) (n int, err error) {
	op := s.Ops
	s.Ops++
	if s.MaxOps > 0 && op > s.MaxOps {
		s.R.Fail("no-progress: reads of "+s.Name, "more than %d reads of %s", s.MaxOps, s.Name)
	}
	late := s.Bits>>(uint(op)%61)&2 != 0
	if !late {
		n, err = s.read(p, off, op)
	}
	s.R.Tick("read", s.Lat)
	if late {
		n, err = s.read(p, off, op)
	}
	s.R.Ev(s.Name+".ReadAt", len(p), off, n, errText(err))
	return
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func (s *Source) read(p []byte, off int64, op int) (int, error) {
	if s.Scratch {
		for i := 0; i < len(p); i += 1 + i/7 {
			p[i] = 0xA5
		}
	}
	if s.broken != nil {
		s.R.Fault("source read: still failing")
		return 0, s.broken
	}
	if off < 0 {
		return 0, errors.New("source: negative offset")
	}
	n := int64(len(p))
	end := false
	if off >= s.C.Len() {
		n, end = 0, len(p) > 0
	} else if off+n > s.C.Len() {
		n, end = s.C.Len()-off, true
	}
	faults := s.Faults
	if o := s.outage(); o != nil {
		faults = []Fault{{Op: op, Kind: o.Kind, Frac: int(s.Bits>>(uint(op)%50)) & 1023, Err: o.Err}}
		s.R.Fault("source read: outage")
	}
	for _, f := range faults {
		if f.Op != op {
			continue
		}
		if f.Kind == Abort {
			s.R.Fault("source read: callback panics")
			panic(sim.AbortSentinel{Where: s.Name})
		}
		if f.Sticky {
			s.broken = f.Err
		}
		s.Fired = append(s.Fired, f.Err)
		k := int64(0)
		switch f.Kind {
		case Partial:
			k = n * int64(f.Frac) / 1000
			if k >= int64(len(p)) {
				k = int64(len(p)) - 1
			}
			if k < 0 {
				k = 0
			}
		case Full:
			k = n
		}
		if k > 0 {
			s.C.At(p[:k], off)
		}
		s.R.Fault("source read: " + f.Kind.String() + sticky(f.Sticky))
		return int(k), f.Err
	}
	if n > 0 {
		s.C.At(p[:n], off)
	}
	if s.Scratch && int(n) < len(p) {
		for i := int(n); i < len(p); i++ {
			p[i] = '\n' ^ byte(i*31)
		}
	}
	if end {
		return int(n), io.EOF
	}
	if len(p) > 0 && off+n == s.C.Len() {
		if s.EOFMode == 1 || (s.EOFMode == 2 && s.Bits>>(uint(op)%64)&1 == 1) {
			s.R.Probe("full read ending at end of data reported with EOF")
			return int(n), io.EOF
		}
	}
	return int(n), nil
}

func sticky(b bool) string {
	if b {
		return ", permanent"
	}
	return ", once"
}

// LineSource is a source that also reads lines, as a caller may supply. It
// keeps to the documented contract: fewer lines than asked for only with an
// error, io.EOF at the end.
type LineSource struct {
	*Source
	Lines   []string
	Shared  [][]byte // if set, these slices are handed out
	LFaults []Fault
	LOps    int
	lbroken error
}

// Share makes the source hand out its own memory.
func (l *LineSource) Share() {
	l.Shared = make([][]byte, len(l.Lines))
	for i, x := range l.Lines {
		l.Shared[i] = []byte(x)
	}
}

// Changed tells whether memory handed out was modified.
func (l *LineSource) Changed() bool {
	for i, x := range l.Shared {
		if string(x) != l.Lines[i] {
			return true
		}
	}
	return false
}

func (l *LineSource) ReadLinesAt(lines [][]byte, offset int64) (n int, err error) {
	op := l.LOps
	l.LOps++
	if l.MaxOps > 0 && op > l.MaxOps {
		l.R.Fail("no-progress: line reads", "more than %d line reads", l.MaxOps)
	}
	l.R.Tick("readlines", l.Lat)
	defer func() { l.R.Ev(l.Name+".ReadLinesAt", len(lines), offset, n, errText(err)) }()
	if l.lbroken != nil {
		l.R.Fault("line read: still failing")
		return 0, l.lbroken
	}
	if offset < 0 {
		return 0, errors.New("line source: negative offset")
	}
	// like io.ReaderAt, reads that end at the end may say so
	early := l.EOFMode == 1 || l.EOFMode == 2 && l.Bits>>(uint(op)%64)&1 == 1
	if len(lines) == 0 {
		if early && offset >= int64(len(l.Lines)) {
			return 0, io.EOF
		}
		return 0, nil
	}
	avail := int64(len(l.Lines)) - offset
	if avail < 0 {
		avail = 0
	}
	n = len(lines)
	if int64(n) > avail {
		n = int(avail)
		err = io.EOF
	} else if int64(n) == avail && early {
		l.R.Probe("full line read ending at end of data reported with EOF")
		err = io.EOF
	}
	faults := l.LFaults
	if o := l.outage(); o != nil {
		faults = []Fault{{Op: op, Kind: o.Kind, Frac: int(l.Bits>>(uint(op)%50)) & 1023, Err: o.Err}}
		l.R.Fault("line read: outage")
	}
	for _, f := range faults {
		if f.Op != op {
			continue
		}
		if f.Kind == Abort {
			l.R.Fault("line read: callback panics")
			panic(sim.AbortSentinel{Where: l.Name})
		}
		if f.Sticky {
			l.lbroken = f.Err
		}
		l.Fired = append(l.Fired, f.Err)
		k := 0
		if f.Kind == Partial {
			k = n * f.Frac / 1000
			if k >= len(lines) {
				k = len(lines) - 1
			}
		}
		n, err = k, f.Err
		l.R.Fault("line read: " + f.Kind.String() + sticky(f.Sticky))
		break
	}
	for i := 0; i < n; i++ {
		if l.Shared != nil {
			lines[i] = l.Shared[offset+int64(i)]
			continue
		}
		lines[i] = []byte(l.Lines[offset+int64(i)])
	}
	return n, err
}

// wide is a source with a read position and a size of its own, as files and
// in-memory readers have.
type wide struct {
	*Source
	cur int64
}

func (w *wide) Read(p []byte) (int, error) {
	n, err := w.Source.ReadAt(p, w.cur)
	w.cur += int64(n)
	return n, err
}

func (w *wide) ReadByte() (byte, error) {
	var b [1]byte
	n, err := w.Read(b[:])
	if n == 1 {
		return b[0], nil
	}
	return 0, err
}

// Len is the number of bytes not yet read through Read.
func (w *wide) Len() int { return int(max(0, w.C.Len()-w.cur)) }

func (w *wide) Size() int64 { return w.C.Len() }

func (w *wide) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += w.cur
	case io.SeekEnd:
		off += w.C.Len()
	}
	if off < 0 {
		return 0, errors.New("source: negative position")
	}
	w.cur = off
	return off, nil
}

func (w *wide) WriteTo(dst io.Writer) (int64, error) {
	return io.Copy(dst, struct{ io.Reader }{w})
}

type wideLines struct {
	*wide
	LineReader
}

// LineReader reads lines by number.
type LineReader interface {
	ReadLinesAt(lines [][]byte, offset int64) (n int, err error)
}

// Offer gives a source the other methods its type may have: 1 a position, a
// size and sequential reading; 2 a section reader. ra is s or a LineSource on
// s.
func Offer(kind int, s *Source, ra io.ReaderAt) io.ReaderAt {
	switch kind {
	case 1:
		w := &wide{s, int64(s.Bits>>7&3) * s.C.Len() / 3}
		if l, ok := ra.(LineReader); ok {
			return &wideLines{w, l}
		}
		return w
	case 2:
		if _, ok := ra.(LineReader); ok {
			return ra
		}
		n := s.C.Len()
		if s.Bits>>9&1 == 1 {
			n = 1 << 62
		}
		w := io.NewSectionReader(s, 0, n)
		w.Seek(int64(s.Bits>>7&3)*s.C.Len()/3, io.SeekStart)
		return w
	}
	return ra
}

// ---------------------------------------------------------------- sink

// Sink is a simulated destination. Data is taken over at the end of each
// write, so a caller that changes the slice while the write is in progress is
// noticed.
type Sink struct {
	R       *sim.Run
	Name    string
	Keep    bool    // keep accepted bytes in Buf
	Want    Content // if set, every accepted byte is compared with it
	WantCls string  // violation class of a mismatch
	Buf     []byte
	N       int64 // bytes accepted
	Cap     int64 // disk full beyond this many bytes; < 0: unlimited
	CapErr  error
	Lat     int64
	Faults  []Fault
	Ops     int
	Fired   []error
	Failed  bool // a failing result was returned by an operation
	AfterBy int64
	broken  error
	OnWrite func()
	MaxOps  int
	Short   bool // a Short fault fired
	failAt  int64
	late    int64
	buf     []byte
}

// NewSink draws a conforming destination.
func NewSink(r *sim.Run, name string) *Sink {
	return &Sink{R: r, Name: name, Keep: true, Cap: -1, Lat: int64(r.N(4)) * 700_000}
}

// LateBytes is the number of bytes accepted after a failing result.
func (w *Sink) LateBytes() int64 { return w.late }

func (w *Sink) Write(p []byte) (n int, err error) {
	op := w.Ops
	w.Ops++
	if w.MaxOps > 0 && op > w.MaxOps {
		w.R.Fail("no-progress: writes to "+w.Name, "more than %d writes to %s", w.MaxOps, w.Name)
	}
	w.R.Tick("write", w.Lat)
	defer func() { w.R.Ev(w.Name+".Write", len(p), n, errText(err), p[:min(n, 64)]) }()
	if w.broken != nil {
		w.R.Fault("write: still failing")
		return 0, w.broken
	}
	for _, f := range w.Faults {
		if f.Op != op {
			continue
		}
		if f.Kind == Abort {
			w.R.Fault("write: callback panics")
			panic(sim.AbortSentinel{Where: w.Name})
		}
		k := 0
		e := f.Err
		switch f.Kind {
		case Partial, Short:
			k = len(p) * f.Frac / 1000
			if k >= len(p) {
				k = len(p) - 1
			}
			if k < 0 {
				k = 0
			}
		case Full:
			k = len(p)
		}
		if f.Kind == Short {
			if len(p) == 0 {
				break // nothing to cut short
			}
			e = nil
			w.Short = true
		} else {
			w.Fired = append(w.Fired, e)
		}
		if f.Sticky && f.Kind != Short {
			w.broken = f.Err
		}
		w.R.Fault("write: " + f.Kind.String() + sticky(f.Sticky && f.Kind != Short))
		if w.Cap >= 0 && w.N+int64(k) > w.Cap {
			k = int(max(0, w.Cap-w.N))
		}
		w.accept(p[:k])
		w.Failed = true
		return k, e
	}
	if w.Cap >= 0 && w.N+int64(len(p)) > w.Cap {
		k := int(max(0, w.Cap-w.N))
		w.R.Fault("write: disk full")
		w.Fired = append(w.Fired, w.CapErr)
		w.accept(p[:k])
		w.Failed = true
		return k, w.CapErr
	}
	w.accept(p)
	return len(p), nil
}

func (w *Sink) accept(p []byte) {
	if w.Failed {
		w.late += int64(len(p))
	}
	if w.Want != nil && len(p) > 0 {
		if w.buf == nil {
			w.buf = make([]byte, 4096)
		}
		buf := w.buf
		off := w.N
		if off+int64(len(p)) > w.Want.Len() {
			w.R.Fail(w.WantCls, "%s received %d bytes, %d is all there should be; last write %s", w.Name, off+int64(len(p)), w.Want.Len(), clip(p))
		}
		for q := p; len(q) > 0; {
			k := min(len(q), len(buf))
			w.Want.At(buf[:k], off)
			if !bytes.Equal(buf[:k], q[:k]) {
				i := 0
				for buf[i] == q[i] {
					i++
				}
				w.R.Fail(w.WantCls, "%s received %s at offset %d where %s belongs", w.Name, clip(q[i:k]), off+int64(i), clip(buf[i:k]))
			}
			q = q[k:]
			off += int64(k)
		}
	}
	w.N += int64(len(p))
	if w.Keep {
		w.Buf = append(w.Buf, p...)
	}
	if w.OnWrite != nil {
		w.OnWrite()
	}
}

func clip(p []byte) string {
	if len(p) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", p[:40], len(p))
	}
	return fmt.Sprintf("%q", p)
}

type stringSink struct{ *Sink }

func (s stringSink) WriteString(x string) (int, error) { return s.Sink.Write([]byte(x)) }

type readerFromSink struct{ *Sink }

// ReadFrom copies with a small buffer of its own, as files and sockets may.
func (s readerFromSink) ReadFrom(rd io.Reader) (n int64, err error) {
	buf := make([]byte, 777)
	idle := 0
	for {
		k, rerr := rd.Read(buf)
		if k > 0 {
			idle = 0
			m, werr := s.Sink.Write(buf[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
			if m < k {
				return n, io.ErrShortWrite
			}
		} else if rerr == nil {
			if idle++; idle > 100 {
				return n, io.ErrNoProgress
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

type bothSink struct{ *Sink }

func (s bothSink) WriteString(x string) (int, error) { return s.Sink.Write([]byte(x)) }
func (s bothSink) ReadFrom(rd io.Reader) (int64, error) {
	return readerFromSink{s.Sink}.ReadFrom(rd)
}

// wideSink is a destination with all a buffered file may offer. Closing it
// makes later writes fail.
type wideSink struct {
	bothSink
	closed *bool
}

func (s wideSink) Write(p []byte) (int, error) {
	if *s.closed {
		return 0, os.ErrClosed
	}
	return s.Sink.Write(p)
}
func (s wideSink) WriteString(x string) (int, error) { return s.Write([]byte(x)) }
func (s wideSink) WriteByte(c byte) error {
	_, err := s.Write([]byte{c})
	return err
}
func (s wideSink) ReadFrom(rd io.Reader) (int64, error) {
	if *s.closed {
		return 0, os.ErrClosed
	}
	return s.bothSink.ReadFrom(rd)
}
func (s wideSink) Flush() error   { return nil }
func (s wideSink) Sync() error    { return nil }
func (s wideSink) Len() int       { return int(s.N) }
func (s wideSink) Size() int      { return 4096 }
func (s wideSink) Available() int { return 4096 }
func (s wideSink) Close() error {
	*s.closed = true
	return nil
}

// DstKinds is the number of kinds As knows.
const DstKinds = 5

// As draws which optional interfaces the destination offers.
func (w *Sink) As(kind int) io.Writer {
	switch kind {
	case 4:
		return wideSink{bothSink{w}, new(bool)}
	case 1:
		return stringSink{w}
	case 2:
		return readerFromSink{w}
	case 3:
		return bothSink{w}
	}
	return w
}

// ---------------------------------------------------------------- stream

// Stream is a simulated byte stream (pipe, socket).
type Stream struct {
	R        *sim.Run
	Name     string
	Data     []byte
	Mode     int // how it is split
	Unit     int
	EOFWith  bool // last data and EOF in one read
	Stalls   int  // reads that return nothing, per mille
	FailAt   int  // byte position of a failure; < 0: none
	FailErr  error
	FailWith bool // deliver the error together with the preceding data
	OneShot  bool // the stream continues after the failure
	AbortAt  int  // byte position at which Read panics; < 0: never
	Lat      int64
	pos      int
	failed   bool
	Fired    bool
	bulk     *choice.Bulk
	stallRun int
	ops      int
	sawEOF   int
}

// NewStream draws how a stream delivers data.
func NewStream(r *sim.Run, name string, data []byte) *Stream {
	s := &Stream{R: r, Name: name, Data: data, FailAt: -1, AbortAt: -1}
	s.Mode = r.N(6)
	s.Unit = 1 + r.N(64)
	if len(data) > 20000 && s.Mode == 1 {
		s.Unit += 100
	}
	s.EOFWith = r.Bool()
	if r.Chance(1, 3) {
		s.Stalls = 20 + r.N(300)
	}
	s.Lat = int64(r.N(4)) * 2_000_000
	s.bulk = choice.NewBulk(r.Seed())
	return s
}

// Clone returns an unread stream with the same behaviour.
func (s *Stream) Clone() *Stream {
	c := *s
	b := *s.bulk
	c.bulk = &b
	return &c
}

func (s *Stream) chunk(max int) int {
	k := max
	switch s.Mode {
	case 1:
		k = s.Unit
	case 2:
		k = 1 + s.bulk.N(s.Unit*2)
	case 3: // up to and including the next newline
		if i := bytes.IndexByte(s.Data[s.pos:min(len(s.Data), s.pos+max+1)], '\n'); i >= 0 {
			k = i + 1
		}
	case 4: // just before or after a newline
		if i := bytes.IndexByte(s.Data[s.pos:min(len(s.Data), s.pos+max+1)], '\n'); i >= 0 {
			k = i + s.bulk.N(3)
		}
	case 5:
		k = 1 + s.bulk.N(4096)
	}
	if k < 1 {
		k = 1
	}
	return min(k, max)
}

func (s *Stream) Read(p []byte) (n int, err error) {
	s.ops++
	if s.ops > 20*len(s.Data)+2000 {
		s.R.Fail("no-progress: reads of "+s.Name, "%d reads of a stream of %d bytes", s.ops, len(s.Data))
	}
	s.R.Tick("stream", s.Lat)
	defer func() { s.R.Ev(s.Name+".Read", len(p), n, errText(err)) }()
	if len(p) == 0 {
		return 0, nil
	}
	if s.failed && !s.OneShot {
		return 0, s.FailErr
	}
	if s.pos == s.AbortAt {
		s.R.Fault("stream: callback panics")
		panic(sim.AbortSentinel{Where: s.Name})
	}
	if s.Stalls > 0 && s.stallRun < 20 && s.bulk.N(1000) < s.Stalls {
		s.stallRun++
		s.R.Fault("stream: stall")
		return 0, nil
	}
	s.stallRun = 0
	if s.FailAt == s.pos && !s.failed {
		s.failed, s.Fired = true, true
		s.R.Fault("stream: error" + sticky(!s.OneShot))
		return 0, s.FailErr
	}
	if s.pos >= len(s.Data) {
		s.sawEOF++
		return 0, io.EOF
	}
	limit := len(s.Data) - s.pos
	if s.FailAt > s.pos && !s.failed {
		limit = min(limit, s.FailAt-s.pos)
	}
	if s.AbortAt > s.pos {
		limit = min(limit, s.AbortAt-s.pos)
	}
	k := s.chunk(min(limit, len(p)))
	copy(p, s.Data[s.pos:s.pos+k])
	s.pos += k
	if s.FailWith && s.pos == s.FailAt && !s.failed {
		s.failed, s.Fired = true, true
		s.R.Fault("stream: error with data" + sticky(!s.OneShot))
		return k, s.FailErr
	}
	if s.EOFWith && s.pos == len(s.Data) && s.FailAt < s.pos && s.AbortAt < s.pos {
		return k, io.EOF
	}
	return k, nil
}

// lineStream is a caller-supplied reader that can already read strings.
type lineStream struct {
	s    *Stream
	late error // an error that came with the last byte of a line
}

func (l *lineStream) Read(p []byte) (int, error) { return l.s.Read(p) }

// ReadString returns an error if and only if the data does not end with the
// delimiter, as bufio.Reader and bytes.Buffer do.
func (l *lineStream) ReadString(delim byte) (string, error) {
	if err := l.late; err != nil {
		l.late = nil
		return "", err
	}
	var b strings.Builder
	var one [1]byte
	for {
		n, err := l.s.Read(one[:])
		if n > 0 {
			b.WriteByte(one[0])
			if one[0] == delim {
				l.late = err
				return b.String(), nil
			}
		}
		if err != nil {
			return b.String(), err
		}
	}
}

// wideStream is a stream with what else a connection, pipe or file may offer.
type wideStream struct {
	*Stream
	back   int // the last byte read, if it can be put back; else -1
	again  bool
	closed bool
}

func (w *wideStream) Read(p []byte) (int, error) {
	if w.closed {
		return 0, os.ErrClosed
	}
	if w.again && len(p) > 0 {
		w.again = false
		p[0] = byte(w.back)
		return 1, nil
	}
	n, err := w.Stream.Read(p)
	w.back = -1
	if n > 0 {
		w.back = int(p[n-1])
	}
	return n, err
}

func (w *wideStream) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 100; i++ {
		n, err := w.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

func (w *wideStream) UnreadByte() error {
	if w.back < 0 || w.again {
		return bufio.ErrInvalidUnreadByte
	}
	w.again = true
	return nil
}

func (w *wideStream) WriteTo(dst io.Writer) (int64, error) {
	return io.Copy(dst, struct{ io.Reader }{w})
}

// Buffered is what can be read without waiting.
func (w *wideStream) Buffered() int { return 0 }

func (w *wideStream) Close() error {
	w.closed = true
	return nil
}

// Reader draws what kind of reader the caller passes on. In-memory readers,
// which lose fault behaviour, are only used when withMem.
func (s *Stream) Reader(withMem bool) io.Reader {
	k := s.R.Pick(8, 4, 2, 2, 2, 2, 3, 2, 2, 2)
	if !withMem && (k == 4 || k == 5 || k == 7 || k == 8) {
		k = 0
	}
	size := 0
	if k == 1 {
		size = s.R.N(200)
	}
	return s.Wrap(k, size)
}

// Readers are reader objects a caller uses for one stream after the other.
type Readers struct {
	bare *Stream
	buf  *bufio.Reader
	line *lineStream
	wide *wideStream
	mem  *bytes.Reader
}

// Wrap is Stream.Wrap with reader objects that may have been used before.
func (q *Readers) Wrap(s *Stream, k, size int) io.Reader {
	switch k {
	case 0:
		if q.bare == nil {
			q.bare = &Stream{}
		}
		*q.bare = *s
		return q.bare
	case 1:
		if q.buf == nil {
			q.buf = bufio.NewReaderSize(nil, 16+size)
		}
		q.buf.Reset(s)
		return q.buf
	case 2:
		if q.line == nil {
			q.line = &lineStream{}
		}
		*q.line = lineStream{s: s}
		return q.line
	case 5:
		if q.mem == nil {
			q.mem = bytes.NewReader(nil)
		}
		q.mem.Reset(s.Data)
		return q.mem
	case 6:
		if q.wide == nil {
			q.wide = &wideStream{}
		}
		*q.wide = wideStream{Stream: s, back: -1}
		return q.wide
	}
	return s.Wrap(k, size)
}

// Wrap passes the stream through a reader of some kind.
func (s *Stream) Wrap(k, size int) io.Reader {
	switch k {
	case 1:
		return bufio.NewReaderSize(s, 16+size)
	case 2:
		return &lineStream{s: s}
	case 3:
		return struct{ io.Reader }{bufio.NewReaderSize(s, 16)}
	case 4:
		return bytes.NewBuffer(append([]byte(nil), s.Data...))
	case 5:
		return bytes.NewReader(s.Data)
	case 6:
		return &wideStream{Stream: s, back: -1}
	case 7: // read before
		rd := strings.NewReader("diff --git a/x b/x\n" + string(s.Data))
		rd.Seek(19, io.SeekStart)
		return rd
	case 8: // read before
		b := bytes.NewBufferString("\n@@ -1 +1 @@\n-\n" + string(s.Data))
		b.Next(15)
		return b
	case 9:
		return io.TeeReader(s, io.Discard)
	}
	return s
}
