package main

// Rng is the only source of randomness of the generators: splitmix64.
type Rng struct{ s uint64 }

// NewRng derives an independent stream from any number of integers.
func NewRng(seeds ...uint64) *Rng {
	r := &Rng{0x243F6A8885A308D3}
	for _, s := range seeds {
		r.s ^= s
		r.s = r.U64()
	}
	return r
}

// U64 ...
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N is uniform in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// R is uniform in [a,b].
func (r *Rng) R(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability pc percent.
func (r *Rng) P(pc int) bool { return r.N(100) < pc }

// Log is roughly log-uniform in [0,max].
func (r *Rng) Log(max int) int {
	if max <= 0 {
		return 0
	}
	bits := 0
	for m := max; m > 0; m >>= 1 {
		bits++
	}
	b := r.N(bits + 1)
	v := 0
	if b > 0 {
		v = 1<<(b-1) + r.N(1<<(b-1))
	}
	if v > max {
		v = r.N(max + 1)
	}
	return v
}

// Pick ...
func Pick[T any](r *Rng, l ...T) T { return l[r.N(len(l))] }

// W picks an index by weight.
func (r *Rng) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

func hashString(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001B3
	}
	return h
}

// Shuffle orders n things at random.
func (r *Rng) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.N(i+1))
	}
}
