package ref

import (
	"fmt"
	"sort"
	"strings"
)

var Spacing = map[int]int{500: 10, 3000: 60, 10000: 200}

type Tick struct{ Net, Gross, Out0, Out1 B }

type PosKey struct{ Lo, Hi int }
type Position struct{ Liq, In0, In1, Owed0, Owed1 B }

// Pool is the reference pool.  Values are immutable, so Clone is cheap.
type Pool struct {
	Fee, Spacing int
	P            B // sqrt price X96
	Tick         int
	Liq          B
	G0, G1       B
	Ticks        map[int]Tick
	Pos          map[PosKey]Position
	Ext          map[PosKey]B // liquidity minted without tracking, by range (ghost)
	// Steps of the last swap; Words/Crossed classify it for coverage.
	Steps, Crossed int
	Fees           []FeeStep // fees charged by the last swap or flash, with the range they go to
}

// FeeStep is one fee event: Fee of token0 (Z) or token1 shared by the liquidity Liq at Tick.
type FeeStep struct {
	Tick     int
	Liq, Fee B
	Z        bool
}

func NewPool(fee int, p B) *Pool {
	return &Pool{Fee: fee, Spacing: Spacing[fee], P: p, Tick: TickAtSqrtRatio(p), Liq: Zero, G0: Zero, G1: Zero,
		Ticks: map[int]Tick{}, Pos: map[PosKey]Position{}, Ext: map[PosKey]B{}}
}

func (p *Pool) Clone() *Pool {
	q := *p
	q.Ticks = make(map[int]Tick, len(p.Ticks))
	for k, v := range p.Ticks {
		q.Ticks[k] = v
	}
	q.Pos = make(map[PosKey]Position, len(p.Pos))
	for k, v := range p.Pos {
		q.Pos[k] = v
	}
	q.Ext = make(map[PosKey]B, len(p.Ext))
	for k, v := range p.Ext {
		q.Ext[k] = v
	}
	return &q
}

func floorDiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// NextInit is TickBitmap.nextInitializedTickWithinOneWord over the set of initialised ticks.
func (p *Pool) NextInit(tick int, lte bool) (int, bool) {
	best, found := 0, false
	c := floorDiv(tick, p.Spacing)
	if lte {
		bound := (c >> 8 << 8) * p.Spacing
		for t := range p.Ticks {
			if t <= tick && (!found || t > best) {
				best, found = t, true
			}
		}
		if found && best >= bound {
			return best, true
		}
		return bound, false
	}
	bound := (((c+1)>>8+1)<<8 - 1) * p.Spacing
	for t := range p.Ticks {
		if t > tick && (!found || t < best) {
			best, found = t, true
		}
	}
	if found && best <= bound {
		return best, true
	}
	return bound, false
}

func (p *Pool) updateTick(t int, d B, upper bool) (clear bool) {
	v, ok := p.Ticks[t]
	if !ok {
		v = Tick{Zero, Zero, Zero, Zero}
		if t <= p.Tick {
			v.Out0, v.Out1 = p.G0, p.G1
		}
	}
	v.Gross = Add(v.Gross, d)
	require(v.Gross.Sign() >= 0, "LS")
	if upper {
		v.Net = Sub(v.Net, d)
	} else {
		v.Net = Add(v.Net, d)
	}
	p.Ticks[t] = v
	return v.Gross.Sign() == 0
}

func (p *Pool) FeeInside(lo, hi int) (B, B) {
	l, u := p.Ticks[lo], p.Ticks[hi]
	b0, b1 := l.Out0, l.Out1
	if p.Tick < lo {
		b0, b1 = Sub(p.G0, l.Out0), Sub(p.G1, l.Out1)
	}
	a0, a1 := u.Out0, u.Out1
	if p.Tick >= hi {
		a0, a1 = Sub(p.G0, u.Out0), Sub(p.G1, u.Out1)
	}
	return Wrap(Sub(Sub(p.G0, b0), a0)), Wrap(Sub(Sub(p.G1, b1), a1))
}

func checkTicks(lo, hi int) {
	require(lo < hi, "TLU")
	require(lo >= MinTick, "TLM")
	require(hi <= MaxTick, "TUM")
}

// modify is UniswapV3Pool._modifyPosition; track says whether a position is kept.
func (p *Pool) modify(lo, hi int, d B, track bool) (a0, a1 B) {
	checkTicks(lo, hi)
	if track && d.Sign() <= 0 {
		q, ok := p.Pos[PosKey{lo, hi}]
		require(ok && q.Liq.Sign() > 0, "NP")
		require(q.Liq.Cmp(Neg(d)) >= 0, "LS")
	}
	var cl, cu bool
	if d.Sign() != 0 {
		cl = p.updateTick(lo, d, false)
		cu = p.updateTick(hi, d, true)
	}
	if track {
		i0, i1 := p.FeeInside(lo, hi)
		k := PosKey{lo, hi}
		q, ok := p.Pos[k]
		if !ok {
			q = Position{Zero, Zero, Zero, Zero, Zero}
		}
		q.Owed0 = Add(q.Owed0, MulDiv(Wrap(Sub(i0, q.In0)), q.Liq, Q128))
		q.Owed1 = Add(q.Owed1, MulDiv(Wrap(Sub(i1, q.In1)), q.Liq, Q128))
		q.In0, q.In1 = i0, i1
		q.Liq = Add(q.Liq, d)
		p.Pos[k] = q
	}
	if d.Sign() < 0 {
		if cl {
			delete(p.Ticks, lo)
		}
		if cu {
			delete(p.Ticks, hi)
		}
	}
	a0, a1 = Zero, Zero
	if d.Sign() == 0 {
		return
	}
	ra, rb := SqrtRatioAtTick(lo), SqrtRatioAtTick(hi)
	if p.Tick < lo {
		a0 = Amount0DeltaS(ra, rb, d)
	} else if p.Tick < hi {
		a0 = Amount0DeltaS(p.P, rb, d)
		a1 = Amount1DeltaS(ra, p.P, d)
		p.Liq = Add(p.Liq, d)
		require(p.Liq.Sign() >= 0, "LS")
	} else {
		a1 = Amount1DeltaS(ra, rb, d)
	}
	return
}

// MintTracked returns the amounts paid by the minter.
func (p *Pool) MintTracked(lo, hi int, d B) (B, B) {
	require(d.Sign() > 0, "mint zero")
	return p.modify(lo, hi, d, true)
}

// BurnTracked returns the principal credited to the position.
func (p *Pool) BurnTracked(lo, hi int, d B) (B, B) {
	require(d.Sign() >= 0, "burn negative")
	a0, a1 := p.modify(lo, hi, Neg(d), true)
	a0, a1 = Neg(a0), Neg(a1)
	k := PosKey{lo, hi}
	q := p.Pos[k]
	q.Owed0, q.Owed1 = Add(q.Owed0, a0), Add(q.Owed1, a1)
	p.Pos[k] = q
	return a0, a1
}

func (p *Pool) Collect(lo, hi int) (B, B) {
	k := PosKey{lo, hi}
	q, ok := p.Pos[k]
	if !ok {
		return Zero, Zero
	}
	a0, a1 := q.Owed0, q.Owed1
	q.Owed0, q.Owed1 = Zero, Zero
	p.Pos[k] = q
	return a0, a1
}

// MintMarket and BurnMarket change liquidity without tracking a position; the
// amounts (signed, paid by the provider) are what the contract would charge.
func (p *Pool) MintMarket(lo, hi int, d B) (B, B) {
	require(d.Sign() > 0, "mint zero")
	k := PosKey{lo, hi}
	if e, ok := p.Ext[k]; ok {
		p.Ext[k] = Add(e, d)
	} else {
		p.Ext[k] = d
	}
	return p.modify(lo, hi, d, false)
}
func (p *Pool) BurnMarket(lo, hi int, d B) (B, B) {
	e, ok := p.Ext[PosKey{lo, hi}]
	require(ok && d.Sign() >= 0 && e.Cmp(d) >= 0, "LS")
	p.Ext[PosKey{lo, hi}] = Sub(e, d)
	if d.Sign() == 0 {
		return Zero, Zero
	}
	return p.modify(lo, hi, Neg(d), false)
}

func (p *Pool) Flash(a0, a1 B) (f0, f1 B) {
	require(p.Liq.Sign() > 0, "L")
	f0 = MulDivUp(a0, N(int64(p.Fee)), E6)
	f1 = MulDivUp(a1, N(int64(p.Fee)), E6)
	p.Fees = []FeeStep{{p.Tick, p.Liq, f0, true}, {p.Tick, p.Liq, f1, false}}
	p.G0 = Wrap(Add(p.G0, MulDiv(f0, Q128, p.Liq)))
	p.G1 = Wrap(Add(p.G1, MulDiv(f1, Q128, p.Liq)))
	return
}

// Swap is UniswapV3Pool.swap; lim zero means no limit (as the simulator and the router use it).
func (p *Pool) Swap(zfo bool, spec, lim B) (B, B) {
	require(spec.Sign() != 0, "AS")
	if lim.Sign() == 0 {
		if zfo {
			lim = Add(MinSqrt, One)
		} else {
			lim = Sub(MaxSqrt, One)
		}
	}
	if zfo {
		require(lim.Cmp(p.P) < 0 && lim.Cmp(MinSqrt) > 0, "SPL")
	} else {
		require(lim.Cmp(p.P) > 0 && lim.Cmp(MaxSqrt) < 0, "SPL")
	}
	exactIn := spec.Sign() > 0
	rem, calc := spec, Zero
	P, tick, liq := p.P, p.Tick, p.Liq
	g := p.G0
	if !zfo {
		g = p.G1
	}
	p.Steps, p.Crossed, p.Fees = 0, 0, nil
	for rem.Sign() != 0 && P.Cmp(lim) != 0 {
		p.Steps++
		start := P
		nt, init := p.NextInit(tick, zfo)
		if nt < MinTick {
			nt = MinTick
		} else if nt > MaxTick {
			nt = MaxTick
		}
		pn := SqrtRatioAtTick(nt)
		target := pn
		if zfo && pn.Cmp(lim) < 0 || !zfo && pn.Cmp(lim) > 0 {
			target = lim
		}
		var in, out, fee B
		P, in, out, fee = SwapStep(P, target, liq, rem, p.Fee)
		if exactIn {
			rem = Sub(rem, Add(in, fee))
			calc = Sub(calc, out)
		} else {
			rem = Add(rem, out)
			calc = Add(calc, Add(in, fee))
		}
		if liq.Sign() > 0 {
			p.Fees = append(p.Fees, FeeStep{tick, liq, fee, zfo})
			g = Wrap(Add(g, MulDiv(fee, Q128, liq)))
		}
		if P.Cmp(pn) == 0 {
			if init {
				p.Crossed++
				t := p.Ticks[nt]
				if zfo {
					t.Out0, t.Out1 = Wrap(Sub(g, t.Out0)), Wrap(Sub(p.G1, t.Out1))
				} else {
					t.Out0, t.Out1 = Wrap(Sub(p.G0, t.Out0)), Wrap(Sub(g, t.Out1))
				}
				p.Ticks[nt] = t
				if zfo {
					liq = Sub(liq, t.Net)
				} else {
					liq = Add(liq, t.Net)
				}
				require(liq.Sign() >= 0, "liquidity underflow")
			}
			if zfo {
				tick = nt - 1
			} else {
				tick = nt
			}
		} else if P.Cmp(start) != 0 {
			tick = TickAtSqrtRatio(P)
		}
	}
	p.P, p.Tick, p.Liq = P, tick, liq
	if zfo {
		p.G0 = g
	} else {
		p.G1 = g
	}
	if zfo == exactIn {
		return Sub(spec, rem), calc
	}
	return calc, Sub(spec, rem)
}

// TickList returns the initialised ticks in ascending order.
func (p *Pool) TickList() []int {
	r := make([]int, 0, len(p.Ticks))
	for t := range p.Ticks {
		r = append(r, t)
	}
	sort.Ints(r)
	return r
}

// String is a canonical rendering of the complete state.
func (p *Pool) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "P=%v tick=%d L=%v G0=%v G1=%v", p.P, p.Tick, p.Liq, p.G0, p.G1)
	for _, t := range p.TickList() {
		v := p.Ticks[t]
		fmt.Fprintf(&b, " t%d(net=%v gross=%v o0=%v o1=%v)", t, v.Net, v.Gross, v.Out0, v.Out1)
	}
	ks := make([]PosKey, 0, len(p.Pos))
	for k := range p.Pos {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Lo != ks[j].Lo {
			return ks[i].Lo < ks[j].Lo
		}
		return ks[i].Hi < ks[j].Hi
	})
	for _, k := range ks {
		v := p.Pos[k]
		fmt.Fprintf(&b, " pos[%d,%d](L=%v i0=%v i1=%v o0=%v o1=%v)", k.Lo, k.Hi, v.Liq, v.In0, v.In1, v.Owed0, v.Owed1)
	}
	return b.String()
}
