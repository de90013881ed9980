//go:build go1.27

package kit

// Tape is the single source of every choice a simulated run makes. In search
// mode the choices come from a PRNG seeded with (property, seed) and are
// recorded; in replay mode they come from the recorded tape. Choice 0 is
// always the simplest one, so minimisation can zero, shorten and delete.
type Tape struct {
	rec    []uint32
	in     []uint32
	replay bool
	pos    int
	s      uint64
	limit  int
}

func NewTape(seed uint64) *Tape { return &Tape{s: seed*0x9e3779b97f4a7c15 + 0x1234567, limit: 200000} }

func ReplayTape(in []uint32) *Tape { return &Tape{in: in, replay: true, limit: 200000} }

func mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (t *Tape) next() uint64 {
	t.s += 0x9e3779b97f4a7c15
	return mix64(t.s)
}

// N draws a value in [0,n).
func (t *Tape) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if t.replay {
		if t.pos < len(t.in) {
			v = t.in[t.pos]
		}
		if v >= uint32(n) {
			v = v % uint32(n)
		}
	} else {
		v = uint32(t.next() % uint64(n))
	}
	t.pos++
	if len(t.rec) < t.limit {
		t.rec = append(t.rec, v)
	}
	return int(v)
}

// Range draws from lo..hi, lo being the simplest.
func (t *Tape) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }

// Prob is true with probability num/den; false is the simplest choice.
func (t *Tape) Prob(num, den int) bool {
	v := t.N(den)
	return v >= den-num
}

// W picks an index by weight; index 0 is the simplest choice.
func (t *Tape) W(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	v := t.N(sum)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Size draws a small number in [0,max], biased to small values.
func (t *Tape) Size(max int) int {
	switch t.W(4, 4, 2, 1) {
	case 0:
		return t.N(min(max, 2) + 1)
	case 1:
		return t.N(min(max, 5) + 1)
	case 2:
		return t.N(min(max, 12) + 1)
	}
	return t.N(max + 1)
}

// U64 draws 64 bits.
func (t *Tape) U64() uint64 {
	a := uint64(t.N(1 << 30))
	b := uint64(t.N(1 << 30))
	return a<<34 ^ b<<4 ^ a>>20
}

// Pick chooses one of the strings, the first being simplest.
func (t *Tape) Pick(s ...string) string { return s[t.N(len(s))] }

// Perm draws a permutation of n elements; zeros give identity.
func (t *Tape) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + t.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// bulk deterministic bytes that are not worth recording one by one.
type bulk struct{ s uint64 }

func (b *bulk) u64() uint64 { b.s += 0x9e3779b97f4a7c15; return mix64(b.s) }

func (b *bulk) bytes(n int) []byte {
	out := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := b.u64()
		for j := i; j < n && j < i+8; j++ {
			out[j] = byte(v)
			v >>= 8
		}
	}
	return out
}

func (b *bulk) n(n int) int { return int(b.u64() % uint64(n)) }

// Pickn chooses one of the numbers, the first being simplest.
func (t *Tape) Pickn(n ...int) int { return n[t.N(len(n))] }
