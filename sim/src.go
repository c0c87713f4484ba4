package main

// Src is the choice stream: every decision of a run is one call of N.
//
// With a seed it is a pseudo random generator; with a script it replays the
// recorded decisions and answers 0, the simplest decision, behind their end.
type Src struct {
	state    uint64
	script   []uint32
	scripted bool
	rec      []uint32
}

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix64(h)
}

func hash2(h, x uint64) uint64 { return mix64(h*0x9e3779b97f4a7c15 + x + 0x632be59bd9b4e019) }

func seedSrc(seed uint64) *Src { return &Src{state: seed} }

func scriptSrc(script []uint32) *Src { return &Src{script: script, scripted: true} }

// N draws a number in [0, n).
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.scripted {
		if len(s.rec) < len(s.script) {
			v = s.script[len(s.rec)]
			if uint64(v) >= uint64(n) {
				v = uint32(uint64(v) % uint64(n))
			}
		}
	} else {
		s.state += 0x9e3779b97f4a7c15
		z := mix64(s.state)
		v = uint32((z >> 32) * uint64(n) >> 32)
	}
	s.rec = append(s.rec, v)
	return int(v)
}

// Range draws a number in [lo, hi]; lo is the simplest.
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// Chance is true k times out of n; false is the simplest.
func (s *Src) Chance(k, n int) bool {
	if k <= 0 {
		return false
	}
	return s.N(n) >= n-k
}

// Rate draws how often a kind of fault strikes, in thousandths; often never.
func (s *Src) Rate() int {
	rates := []int{0, 0, 0, 10, 30, 100, 250, 500}
	return rates[s.N(len(rates))]
}

// U64 draws 64 bits.
func (s *Src) U64() uint64 { return uint64(s.N(1<<32))<<32 | uint64(s.N(1<<32)) }
