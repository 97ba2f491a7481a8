// Package core is the deterministic simulator: seeded choices, the scheduler,
// simulated byte streams with faults, the run loop, minimisation and the
// driver that fans seeds out over worker processes.
package core

import (
	"hash/fnv"
	"sort"
)

// Choices is every decision of one run, split into named streams so that one
// component's decisions do not depend on when another drew. A run is a pure
// function of (seed, nothing recorded) or of (recorded decisions).
type Choices struct {
	Seed    uint64
	replay  map[string][]uint32
	replayF bool
	srcs    map[string]*Src
}

// NewChoices draws every decision from the seed.
func NewChoices(seed uint64) *Choices {
	return &Choices{Seed: seed, srcs: map[string]*Src{}}
}

// ReplayChoices replays recorded decisions; a stream that runs out yields 0,
// the simplest choice.
func ReplayChoices(rec map[string][]uint32) *Choices {
	return &Choices{replay: rec, replayF: true, srcs: map[string]*Src{}}
}

// Src returns the named decision stream.
func (c *Choices) Src(name string) *Src {
	if s, ok := c.srcs[name]; ok {
		return s
	}
	h := fnv.New64a()
	h.Write([]byte(name))
	s := &Src{state: mix(c.Seed ^ mix(h.Sum64()))}
	if c.replayF {
		s.replay, s.isReplay = c.replay[name], true
	}
	c.srcs[name] = s
	return s
}

// Recorded returns the decisions taken, trimmed of trailing zeros.
func (c *Choices) Recorded() map[string][]uint32 {
	out := map[string][]uint32{}
	for n, s := range c.srcs {
		r := s.rec
		for len(r) > 0 && r[len(r)-1] == 0 {
			r = r[:len(r)-1]
		}
		if len(r) > 0 {
			out[n] = append([]uint32(nil), r...)
		}
	}
	return out
}

// Total counts the decisions in a recording.
func Total(rec map[string][]uint32) (n int) {
	for _, r := range rec {
		n += len(r)
	}
	return
}

// StreamNames lists the streams in order.
func StreamNames(rec map[string][]uint32) []string {
	var ns []string
	for n := range rec {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// Src is one decision stream. Choice 0 is by convention the simplest.
type Src struct {
	state    uint64
	rec      []uint32
	replay   []uint32
	isReplay bool
	pos      int
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn draws from [0,n).
func (s *Src) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.isReplay {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			if v >= uint32(n) {
				v %= uint32(n)
			}
		}
		s.pos++
	} else {
		s.state += 0x9e3779b97f4a7c15
		z := mix(s.state)
		v = uint32((z >> 33) % uint64(n))
	}
	s.rec = append(s.rec, v)
	return int(v)
}

// Range draws from [lo,hi].
func (s *Src) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.Intn(hi-lo+1)
}

// Chance is true with probability num/den; false is the simple choice.
func (s *Src) Chance(num, den int) bool {
	return s.Intn(den) >= den-num
}

// Weighted picks an index with the given weights; index 0 is the simplest.
func (s *Src) Weighted(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	v := s.Intn(t)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Pick chooses one of the arguments.
func Pick[T any](s *Src, xs ...T) T { return xs[s.Intn(len(xs))] }

// Perm draws a permutation.
func (s *Src) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		// draw so that 0 keeps the element in place
		j := i - s.Intn(i+1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
