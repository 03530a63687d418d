// Package simrt is the deterministic runtime the instrumented code runs on:
// choice streams, a cooperative task scheduler and the stand-ins for goroutines,
// channel operations, select, map iteration and sleeping.
package simrt

import "math/rand/v2"

// Stream is a recorded sequence of decisions. In generating mode values come from
// a seeded PRNG; in replay mode they come from a list and are 0 once it is used up.
// 0 is always the simplest decision (no fault, smallest value, keep running).
type Stream struct {
	rng    *rand.Rand
	replay []uint32
	pos    int
	Rec    []uint32
}

func NewStream(seed, id uint64) *Stream {
	return &Stream{rng: rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+0x1234567, id*0xBF58476D1CE4E5B9+seed))}
}

func ReplayStream(vals []uint32) *Stream { return &Stream{replay: vals} }

func (s *Stream) next(gen func() uint32, mod uint32) uint32 {
	var v uint32
	if s.rng != nil {
		v = gen()
	} else if s.pos < len(s.replay) {
		v = s.replay[s.pos]
		if mod > 0 {
			v %= mod
		}
		s.pos++
	}
	s.Rec = append(s.Rec, v)
	return v
}

// N returns a value in [0,n).
func (s *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.next(func() uint32 { return uint32(s.rng.IntN(n)) }, uint32(n)))
}

// Per1000 is true with probability p/1000.
func (s *Stream) Per1000(p int) bool {
	if p <= 0 {
		return false
	}
	return s.next(func() uint32 {
		if s.rng.IntN(1000) < p {
			return 1
		}
		return 0
	}, 2) == 1
}

// Weighted returns an index chosen with the given weights; index 0 is the simplest.
func (s *Stream) Weighted(w ...int) int {
	total := 0
	for _, x := range w {
		total += x
	}
	if total == 0 {
		return 0
	}
	v := int(s.next(func() uint32 {
		r := s.rng.IntN(total)
		for i, x := range w {
			if r < x {
				return uint32(i)
			}
			r -= x
		}
		return 0
	}, uint32(len(w))))
	return v
}

// U64 returns 64 random bits (two recorded words).
func (s *Stream) U64() uint64 {
	hi := s.next(func() uint32 { return s.rng.Uint32() }, 0)
	lo := s.next(func() uint32 { return s.rng.Uint32() }, 0)
	return uint64(hi)<<32 | uint64(lo)
}
