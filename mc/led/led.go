// Package led keeps, outside the pool under test, the books of who provided
// what liquidity, updated only with operations that the pool carried out.
package led

import (
	"math/big"
	"sort"

	"uniswap-simulator/lib/pool"
	"verifmc/drv"
	"verifmc/hist"
	"verifmc/ref"
)

type B = *big.Int
type Key = ref.PosKey

type Ledger struct {
	Pos map[Key]B // tracked positions
	Ext map[Key]B // liquidity without tracking
}

func New() *Ledger { return &Ledger{map[Key]B{}, map[Key]B{}} }

func add(m map[Key]B, k Key, d B) {
	v, ok := m[k]
	if !ok {
		v = ref.Zero
	}
	m[k] = ref.Add(v, d)
}

// Note books one executed step.
func (l *Ledger) Note(n *hist.Node) {
	if n.Panic != nil || !n.Accept {
		return
	}
	k := Key{n.Op.Lo, n.Op.Hi}
	switch n.Op.K {
	case "mint":
		add(l.Pos, k, n.Op.A)
	case "burn":
		add(l.Pos, k, ref.Neg(n.Op.A))
	case "emint":
		add(l.Ext, k, n.Op.A)
	case "eburn":
		add(l.Ext, k, ref.Neg(n.Op.A))
	}
}

func Sorted(m map[Key]B) []Key {
	r := make([]Key, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].Lo != r[j].Lo {
			return r[i].Lo < r[j].Lo
		}
		return r[i].Hi < r[j].Hi
	})
	return r
}

// At is the liquidity of all ranges containing tick t.
func (l *Ledger) At(t int) B {
	s := ref.Zero
	for _, m := range []map[Key]B{l.Pos, l.Ext} {
		for k, v := range m {
			if k.Lo <= t && t < k.Hi {
				s = ref.Add(s, v)
			}
		}
	}
	return s
}

// Ticks returns net and gross liquidity by tick.
func (l *Ledger) Ticks() (net, gross map[int]B) {
	net, gross = map[int]B{}, map[int]B{}
	ad := func(m map[int]B, t int, d B) {
		v, ok := m[t]
		if !ok {
			v = ref.Zero
		}
		m[t] = ref.Add(v, d)
	}
	for _, m := range []map[Key]B{l.Pos, l.Ext} {
		for k, v := range m {
			if v.Sign() == 0 {
				continue
			}
			ad(net, k.Lo, v)
			ad(net, k.Hi, ref.Neg(v))
			ad(gross, k.Lo, v)
			ad(gross, k.Hi, v)
		}
	}
	return
}

// Principal is what liquidity l of the range costs (up) or pays (down) at the real pool's price.
func Principal(p *pool.Pool, lo, hi int, l B, up bool) (B, B) {
	P, t := drv.G(p.SqrtRatioX96), p.TickCurrent
	a, b := ref.SqrtRatioAtTick(lo), ref.SqrtRatioAtTick(hi)
	switch {
	case t < lo:
		return ref.Amount0Delta(a, b, l, up), ref.Zero
	case t < hi:
		return ref.Amount0Delta(P, b, l, up), ref.Amount1Delta(a, P, l, up)
	}
	return ref.Zero, ref.Amount1Delta(a, b, l, up)
}
