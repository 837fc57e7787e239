package zzsim

// Choices is the single source of every decision of a simulated run.  While
// exploring, values come from a PRNG seeded by the run's seed and are recorded;
// while replaying, they come from the recorded list (0 once it is exhausted).
// 0 is always the simplest alternative: no fault, first in, first out.
type Choices struct {
	in     []int32
	replay bool
	out    []int32
	s      uint64
	rec    func(int32)
}

func NewRandom(seed uint64) *Choices { return &Choices{s: seed} }

func NewReplay(in []int32) *Choices { return &Choices{in: in, replay: true} }

func (c *Choices) next() uint64 {
	c.s += 0x9e3779b97f4a7c15
	x := c.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// N returns a value in [0,n).
func (c *Choices) N(n int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	if c.replay {
		if len(c.out) < len(c.in) {
			v = int(c.in[len(c.out)])
			if v < 0 {
				v = 0
			}
			v %= n
		}
	} else {
		v = int(c.next() % uint64(n))
	}
	c.out = append(c.out, int32(v))
	if c.rec != nil {
		c.rec(int32(v))
	}
	return v
}

// Range returns a value in [lo,hi].
func (c *Choices) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + c.N(hi-lo+1)
}

// Pct is true with the given probability in percent; false is the default.
func (c *Choices) Pct(p int) bool {
	if p <= 0 {
		return false
	}
	if p >= 100 {
		return true
	}
	return c.N(100) >= 100-p
}

// W picks an index by weight; index 0 is the default.
func (c *Choices) W(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	if sum == 0 {
		return 0
	}
	v := c.N(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

func pick[T any](c *Choices, xs []T) T { return xs[c.N(len(xs))] }

// perm returns a permutation; the identity is the default.
func (c *Choices) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + c.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix64(h)
}
