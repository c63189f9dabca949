// Package choice is the single source of every decision in a simulated run.
//
// In search mode the decisions come from one PRNG seeded with one integer; in
// replay mode they come from a recorded list, and are 0 beyond its end. Every
// decision is made so that 0 is the simplest possibility (no fault, smallest
// workload, no pre-emption), which makes a recorded list minimisable by
// deleting and lowering its entries.
package choice

type Source struct {
	state     uint64
	Rec       []uint32
	replay    []uint32
	replaying bool
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Derive combines integers into a seed.
func Derive(parts ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, p := range parts {
		h = mix(h ^ mix(p+0x9e3779b97f4a7c15))
	}
	return h
}

func New(seed uint64) *Source { return &Source{state: seed} }

func Replay(vals []uint32) *Source { return &Source{replay: vals, replaying: true} }

func (s *Source) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	return mix(s.state)
}

// N returns a decision in [0, n).
func (s *Source) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.replaying {
		if i := len(s.Rec); i < len(s.replay) {
			v = s.replay[i] % uint32(n)
		}
	} else {
		v = uint32(s.next() % uint64(n))
	}
	s.Rec = append(s.Rec, v)
	return int(v)
}

func (s *Source) Bool() bool { return s.N(2) == 1 }

// Chance is true in num of den cases; the simplest outcome is false.
func (s *Source) Chance(num, den int) bool { return s.N(den) >= den-num }

// Range returns a decision in [lo, hi]; lo is the simplest.
func (s *Source) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.N(hi-lo+1)
}

// Pick returns an index with probability proportional to its weight; the
// first index with a non-zero weight is the simplest.
func (s *Source) Pick(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	v := s.N(t)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Seed returns a seed for bulk content that is not worth minimising.
func (s *Source) Seed() uint64 { return uint64(s.N(1 << 30)) }

// Bulk is a cheap generator for bulk content derived from one decision.
type Bulk struct{ state uint64 }

func NewBulk(seed uint64) *Bulk { return &Bulk{mix(seed + 1)} }

func (b *Bulk) Uint64() uint64 {
	b.state += 0x9e3779b97f4a7c15
	return mix(b.state)
}

func (b *Bulk) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(b.Uint64() % uint64(n))
}

func (b *Bulk) Fill(p []byte) {
	var v uint64
	for i := range p {
		if i&7 == 0 {
			v = b.Uint64()
		}
		p[i] = byte(v)
		v >>= 8
	}
}
