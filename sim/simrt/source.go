//go:build go1.25

// Package simrt is the run time of the simulator: one seeded source of every choice, a cooperative
// scheduler with preemption points in the code under test, a simulated clock, and the recording of
// choices that makes a run replayable and shrinkable.
package simrt

// A Source provides named streams of choices. One seed decides all of them. Every choice is recorded;
// a recorded (or shrunk) list of choices can be replayed instead of the seed.
type Source struct {
	Seed    uint64
	streams []*Stream
	replay  map[string][]uint64

	OnDraw func(stream string, v uint64) // told of every choice, for runs that kill the process
}

// A Stream is one named sequence of choices. 0 is always the simplest choice.
type Stream struct {
	src    *Source
	name   string
	rec    []uint64
	state  uint64
	in     []uint64
	replay bool
}

func NewSource(seed uint64) *Source {
	return &Source{Seed: seed}
}

// ReplaySource replays recorded choices; past the end of a stream every choice is 0.
func ReplaySource(choices map[string][]uint64) *Source {
	return &Source{replay: choices}
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Mix derives a seed from a seed and a label.
func Mix(seed uint64, label string) uint64 {
	h := seed ^ 0xcbf29ce484222325
	for i := 0; i < len(label); i++ {
		h = (h ^ uint64(label[i])) * 0x100000001b3
	}
	return mix(h)
}

func (s *Source) Stream(name string) *Stream {
	for _, st := range s.streams {
		if st.name == name {
			return st
		}
	}
	st := &Stream{src: s, name: name}
	if s.replay != nil {
		st.replay = true
		for n, in := range s.replay { // which nobody changes
			if n == name {
				st.in = in
			}
		}
	} else {
		st.state = Mix(s.Seed, name)
	}
	s.streams = append(s.streams, st)
	return st
}

// Choices returns what was drawn so far, per stream, with trailing zeros removed.
func (s *Source) Choices() map[string][]uint64 {
	out := map[string][]uint64{}
	for _, st := range s.streams {
		rec := st.rec
		for len(rec) > 0 && rec[len(rec)-1] == 0 {
			rec = rec[:len(rec)-1]
		}
		if len(rec) > 0 {
			out[st.name] = append([]uint64(nil), rec...)
		}
	}
	return out
}

// N returns a choice in [0,n).
func (s *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.replay {
		if i := len(s.rec); i < len(s.in) {
			v = s.in[i] % uint64(n)
		}
	} else {
		s.state += 0x9e3779b97f4a7c15
		x := s.state
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		x = (x ^ (x >> 27)) * 0x94d049bb133111eb
		x ^= x >> 31
		v = x % uint64(n)
	}
	s.rec = append(s.rec, v)
	if s.src.OnDraw != nil {
		s.src.OnDraw(s.name, v)
	}
	return int(v)
}

// U64 returns 64 arbitrary bits, as two choices.
func (s *Stream) U64() uint64 {
	return uint64(s.N(1<<32))<<32 | uint64(s.N(1<<32))
}

// Bool is true with probability num in den; the simplest choice is false.
func (s *Stream) Bool(num, den int) bool {
	return s.N(den) >= den-num
}

// Range returns a choice in [lo,hi].
func (s *Stream) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// Pick picks an index by weight; index 0 is the simplest.
func (s *Stream) Pick(weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	v := s.N(total)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}
