// Package pbt is a small property-based testing engine. A case is generated
// from a sequence of choices; failures are shrunk by simplifying that
// sequence, so that every generator shrinks without code of its own.
package pbt

import (
	"math/rand"
)

// T is the source of choices of a generator.
type T struct {
	rng    *rand.Rand
	replay []uint32
	rec    []uint32
	pos    int
	spans  [][2]int
}

// New returns a source of random choices.
func New(seed int64) *T { return &T{rng: rand.New(rand.NewSource(seed))} }

// Replay returns a source that repeats the given choices, followed by zeroes.
func Replay(c []uint32) *T { return &T{replay: c} }

// Tape returns the first n choices of New(seed), before they are reduced to
// what is asked for.
func Tape(seed int64, n int) []uint32 {
	r := rand.New(rand.NewSource(seed))
	l := make([]uint32, n)
	for i := range l {
		l[i] = r.Uint32()
	}
	return l
}

// Choices returns the choices made so far.
func (t *T) Choices() []uint32 { return t.rec }

// Spans returns which choices belong together.
func (t *T) Spans() [][2]int { return t.spans }

// Span marks the choices that f makes as belonging together.
func (t *T) Span(f func()) {
	n := len(t.rec)
	f()
	if len(t.rec) > n {
		t.spans = append(t.spans, [2]int{n, len(t.rec)})
	}
}

// Many calls f from lo to hi times. Every call can be dropped when shrinking.
func (t *T) Many(lo, hi int, f func(i int)) {
	den := []int{2, 4, 10}[t.Weighted(5, 3, 1)]
	for i := 0; i < hi; i++ {
		stop := false
		t.Span(func() {
			if stop = !t.Chance(den-1, den) && i >= lo; !stop {
				f(i)
			}
		})
		if stop {
			break
		}
	}
}

// MaxChoices bounds the number of choices a single case can take from
// a random source; after that, all choices are zero (the simplest).
const MaxChoices = 200000

// N returns a number from 0 to n-1. 0 is the simplest choice.
func (t *T) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	switch {
	case t.rng != nil:
		if len(t.rec) < MaxChoices {
			v = t.rng.Uint32() % uint32(n)
		}
	case t.pos < len(t.replay):
		v = t.replay[t.pos] % uint32(n)
	}
	t.pos++
	t.rec = append(t.rec, v)
	return int(v)
}

// Range returns a number from lo to hi, both included.
func (t *T) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }

// Bool returns true half of the time. false is simpler.
func (t *T) Bool() bool { return t.N(2) == 1 }

// Chance returns true num times out of den. false is simpler.
func (t *T) Chance(num, den int) bool { return t.N(den) >= den-num }

// Pick returns one of the options. The first is the simplest.
func Pick[X any](t *T, opts ...X) X { return opts[t.N(len(opts))] }

// Weighted returns an index into the weights. The first is the simplest.
func (t *T) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := t.N(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Perm returns a permutation of 0..n-1; the identity is the simplest.
func (t *T) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + t.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Size returns a number from 0 to max, small ones being more likely.
func (t *T) Size(max int) int {
	switch t.Weighted(6, 3, 1) {
	case 0:
		return t.N(min(max, 3) + 1)
	case 1:
		return t.N(min(max, 8) + 1)
	default:
		return t.N(max + 1)
	}
}
