package ref

import "math/big"

const fnvP = 1099511628211

func mixB(h uint64, b *big.Int) uint64 {
	if b == nil {
		return h * fnvP
	}
	if b.Sign() < 0 {
		h = (h ^ 0x9e3779b97f4a7c15) * fnvP
	}
	for _, w := range b.Bits() {
		h = (h ^ uint64(w)) * fnvP
		h ^= h >> 29
	}
	return (h ^ 0x55) * fnvP
}
func mixI(h uint64, i int) uint64 {
	h = (h ^ uint64(i)) * fnvP
	return h ^ h>>31
}

// Hash identifies the complete state.
func (p *Pool) Hash() uint64 {
	h := uint64(14695981039346656037)
	h = mixI(h, p.Tick)
	h = mixB(h, p.P)
	h = mixB(h, p.Liq)
	h = mixB(h, p.G0)
	h = mixB(h, p.G1)
	var x uint64
	for t, v := range p.Ticks {
		k := mixI(77, t)
		k = mixB(k, v.Net)
		k = mixB(k, v.Gross)
		k = mixB(k, v.Out0)
		k = mixB(k, v.Out1)
		x += k
	}
	for t, v := range p.Pos {
		k := mixI(mixI(99, t.Lo), t.Hi)
		k = mixB(k, v.Liq)
		k = mixB(k, v.In0)
		k = mixB(k, v.In1)
		k = mixB(k, v.Owed0)
		k = mixB(k, v.Owed1)
		x += k
	}
	for t, v := range p.Ext {
		if v.Sign() != 0 {
			x += mixB(mixI(mixI(111, t.Lo), t.Hi), v)
		}
	}
	return (h ^ x) * fnvP
}
