// Package strat explores histories of a liquidity strategy trading against a
// market: the real strategy on the real pool, and a reference strategy written
// from the strategies' descriptions on the reference pool.
package strat

import (
	"fmt"
	"math/big"

	"uniswap-simulator/lib/pool"
	st "uniswap-simulator/lib/strategy"
	ui "uniswap-simulator/uint256"
	"verifmc/ref"
)

type B = *big.Int

// Kinds lists the eleven strategies.
var Kinds = []string{"NoProvision", "V2", "ConstantInterval", "IntervalAroundPrice", "IntervalAroundPriceAndSwap",
	"IntervalAroundAverage", "TwoIntervalAroundPrice", "FillUp", "LimitOrder", "BollingerBands", "BollingerBandsFillUp", "VolatilitySized"}

// Windowed says whether the strategy looks at sampled prices.
func Windowed(kind string) bool {
	switch kind {
	case "IntervalAroundAverage", "BollingerBands", "BollingerBandsFillUp", "VolatilitySized":
		return true
	}
	return false
}

// Params of a strategy; which ones matter depends on the kind.
type Params struct {
	A   int // half width in ticks
	B   int // width of the second interval in ticks
	N   int // number of sampled prices
	Mul int // volatility multiplier, in 1/1024
}

// New makes the real strategy.
func New(kind string, a0, a1 *ui.Int, p *pool.Pool, k Params) st.Strategy {
	switch kind {
	case "NoProvision":
		return st.NewNoProvisionStrategy(a0, a1, p)
	case "V2":
		return st.NewV2Strategy(a0, a1, p)
	case "ConstantInterval":
		return st.NewConstantIntervalStrategy(a0, a1, p, k.A)
	case "IntervalAroundPrice":
		return st.NewIntervalAroundPriceStrategy(a0, a1, p, k.A)
	case "IntervalAroundPriceAndSwap":
		return st.NewIntervalAroundPriceAndSwapStrategy(a0, a1, p, k.A)
	case "IntervalAroundAverage":
		return st.NewIntervalAroundAverageStrategy(a0, a1, p, k.A, k.N)
	case "TwoIntervalAroundPrice":
		return st.NewTwoIntervalAroundPriceStrategy(a0, a1, p, k.A, k.B)
	case "FillUp":
		return st.NewFillUpStrategy(a0, a1, p, k.A)
	case "LimitOrder":
		return st.NewLimitOrderStrategy(a0, a1, p, k.A)
	case "BollingerBands":
		return st.NewBollingerBandsStrategy(a0, a1, p, k.N, k.Mul)
	case "BollingerBandsFillUp":
		return st.NewBollingerBandsFillUpStrategy(a0, a1, p, k.N, k.Mul)
	case "VolatilitySized":
		return st.NewVolatilitySizedIntervalStrategy(a0, a1, p, k.N, k.Mul)
	}
	panic("kind " + kind)
}

// Range is an open position of the reference strategy.
type Range struct {
	Lo, Hi int
	L      B
}

func (r Range) String() string { return fmt.Sprintf("[%d,%d]L=%v", r.Lo, r.Hi, r.L) }

// Ref is the reference strategy. Values are immutable; Clone is cheap.
type Ref struct {
	Kind   string
	K      Params
	P      *ref.Pool
	A0, A1 B
	Open   []Range
	Inited bool
	lo, hi int // constant interval
	Lim    int // outer end and side of the last limit order
	LimUp  bool
	win    []B // squares of the last N sampled square-root prices, ring
	idx    int
}

func NewRef(kind string, a0, a1 B, p *ref.Pool, k Params) *Ref {
	r := &Ref{Kind: kind, K: k, P: p, A0: a0, A1: a1}
	if Windowed(kind) {
		for i := 0; i < k.N; i++ {
			r.win = append(r.win, ref.Zero)
		}
	}
	return r
}

func (s *Ref) Clone() *Ref {
	q := *s
	q.P = s.P.Clone()
	q.Open = append([]Range{}, s.Open...)
	q.win = append([]B{}, s.win...)
	return &q
}

func (s *Ref) Sample() {
	if len(s.win) == 0 {
		return
	}
	s.win[s.idx] = ref.Mul(s.P.P, s.P.P)
	s.idx = (s.idx + 1) % len(s.win)
}

func (s *Ref) average() B {
	t := ref.Zero
	for _, x := range s.win {
		t = ref.Add(t, x)
	}
	return ref.Div(t, ref.N(int64(len(s.win))))
}

func (s *Ref) volatility() B {
	m := s.average()
	t := ref.Zero
	for _, x := range s.win {
		d := ref.Sub(x, m)
		t = ref.Add(t, ref.Mul(d, d))
	}
	return new(big.Int).Sqrt(ref.Div(t, ref.N(int64(len(s.win)-1))))
}

// Rounding to multiples of the spacing: nearest (halves away from zero), down, up.
func floor(t, u int) int {
	q := t / u
	if t%u != 0 && t < 0 {
		q--
	}
	return q * u
}
func ceil(t, u int) int { return -floor(-t, u) }
func round(t, u int) int {
	if t < 0 {
		return -round(-t, u)
	}
	return (2*t + u) / (2 * u) * u
}

func (s *Ref) around(t int) (int, int) {
	return round(t-s.K.A, s.P.Spacing), round(t+s.K.A, s.P.Spacing)
}

// bound cuts a range off at the outermost ticks the pool's spacing allows.
func (s *Ref) bound(lo, hi int) (int, int) {
	m := ref.MaxTick / s.P.Spacing * s.P.Spacing
	if s.Kind == "BollingerBands" || s.Kind == "BollingerBandsFillUp" || s.Kind == "VolatilitySized" {
		m = ref.MaxTick // these do not align their bands (a recorded finding)
	}
	if lo < -m {
		lo = -m
	}
	if hi > m {
		hi = m
	}
	return lo, hi
}

// band is [centre - d, centre + d] in square-root prices, as ticks.
func band(centre, d B) (lo, hi int) {
	a, b := ref.Sub(centre, d), ref.Add(centre, d)
	lo, hi = ref.MinTick, ref.MaxTick
	if a.Cmp(ref.MinSqrt) >= 0 {
		lo = ref.TickAtSqrtRatio(a)
	}
	if b.Cmp(ref.MaxSqrt) <= 0 {
		hi = ref.TickAtSqrtRatio(b)
	}
	return
}

func (s *Ref) spread() B {
	return new(big.Int).Sqrt(new(big.Int).Rsh(ref.Mul(s.volatility(), ref.N(int64(s.K.Mul))), 10))
}

// liquidity is the largest liquidity of [lo,hi] the budget affords. Where even the
// contract's library overflows (a price within a hair of the range end), it reverts.
func (s *Ref) liquidity(lo, hi int) B {
	a, b := ref.SqrtRatioAtTick(lo), ref.SqrtRatioAtTick(hi)
	if m := s.P.P; m.Cmp(b) < 0 {
		if m.Cmp(a) < 0 {
			m = a
		}
		if ref.MulDiv(s.A0, ref.MulDiv(m, b, ref.Q96), ref.Sub(b, m)).BitLen() > 256 {
			panic(ref.Revert{Msg: "liquidity overflows"})
		}
	}
	return ref.LiquidityForAmounts(s.P.P, a, b, s.A0, s.A1)
}

// mint opens [lo,hi] with the n-th part of the largest liquidity the budget affords.
func (s *Ref) mint(lo, hi int, part int64) {
	if lo, hi = s.bound(lo, hi); lo >= hi {
		return
	}
	l := s.liquidity(lo, hi)
	l = ref.Div(l, ref.N(part))
	if l.Sign() == 0 {
		return
	}
	a0, a1 := s.P.MintTracked(lo, hi, l)
	s.A0, s.A1 = ref.Sub(s.A0, a0), ref.Sub(s.A1, a1)
	s.Open = append(s.Open, Range{lo, hi, l})
}

func (s *Ref) Liquidate() {
	for _, r := range s.Open {
		s.P.BurnTracked(r.Lo, r.Hi, r.L)
		x0, x1 := s.P.Collect(r.Lo, r.Hi)
		s.A0, s.A1 = ref.Add(s.A0, x0), ref.Add(s.A1, x1)
	}
	s.Open = nil
}

// Value is the free balance plus the principal of the open positions.
func (s *Ref) Value() (B, B) {
	a0, a1 := s.A0, s.A1
	for _, r := range s.Open {
		x0, x1 := ref.AmountsForLiquidity(s.P.P, ref.SqrtRatioAtTick(r.Lo), ref.SqrtRatioAtTick(r.Hi), r.L)
		a0, a1 = ref.Add(a0, x0), ref.Add(a1, x1)
	}
	return a0, a1
}

// Init and Rebalance: liquidate, then open the documented ranges.
func (s *Ref) Place(first bool) {
	s.Inited = true
	if s.Kind == "NoProvision" {
		return
	}
	s.Liquidate()
	sp, t := s.P.Spacing, s.P.Tick
	second := func(up bool, w int, part int64) {
		if up {
			lo := ceil(t, sp)
			s.mint(lo, lo+w, part)
		} else {
			hi := floor(t, sp)
			s.mint(hi-w, hi, part)
		}
	}
	// The rest of the budget on the side of the token that is left, up to the end of the main range.
	fill := func(lo, hi int) {
		if s.A0.Sign() > 0 {
			s.mint(ceil(t, sp), hi, 1)
		} else if s.A1.Sign() > 0 {
			s.mint(lo, floor(t, sp), 1)
		}
	}
	switch s.Kind {
	case "V2":
		m := ref.MaxTick / sp * sp
		s.mint(-m, m, 1)
	case "ConstantInterval":
		if first {
			s.lo, s.hi = s.around(t)
		}
		s.mint(s.lo, s.hi, 1)
	case "IntervalAroundPrice":
		lo, hi := s.around(t)
		s.mint(lo, hi, 1)
	case "IntervalAroundAverage":
		m, at := new(big.Int).Sqrt(s.average()), ref.MinTick
		if m.Cmp(ref.MinSqrt) >= 0 {
			at = ref.TickAtSqrtRatio(m)
		}
		lo, hi := s.around(at)
		s.mint(lo, hi, 1)
	case "TwoIntervalAroundPrice":
		lo, hi := s.around(t)
		s.mint(lo, hi, 1)
		if s.A0.Sign() > 0 {
			second(true, s.K.B, 1)
		}
		if s.A1.Sign() > 0 {
			second(false, s.K.B, 1)
		}
	case "FillUp":
		lo, hi := s.around(t)
		s.mint(lo, hi, 1)
		fill(lo, hi)
	case "LimitOrder":
		lo, hi := s.around(t)
		s.mint(lo, hi, 1)
		if s.A0.Sign() > 0 {
			second(true, sp, 2)
			s.Lim, s.LimUp = ceil(t, sp)+sp, true
		}
		if s.A1.Sign() > 0 {
			second(false, sp, 2)
			s.Lim, s.LimUp = floor(t, sp)-sp, false
		}
	case "BollingerBands":
		lo, hi := band(new(big.Int).Sqrt(s.average()), s.spread())
		s.mint(lo, hi, 1)
	case "BollingerBandsFillUp":
		lo, hi := band(new(big.Int).Sqrt(s.average()), s.spread())
		s.mint(lo, hi, 1)
		if !first && lo <= t && t <= hi {
			fill(lo, hi)
		}
	case "VolatilitySized":
		lo, hi := band(s.P.P, s.spread())
		s.mint(lo, hi, 1)
	case "IntervalAroundPriceAndSwap":
		lo, hi := s.bound(s.around(t))
		if lo >= hi {
			return
		}
		s.swapHalf(lo, hi)
		s.mint(lo, hi, 1)
	default:
		panic("kind")
	}
}

// swapHalf sells half of what the range cannot use of the more plentiful token
// (one unit of token0 counting as 2^9 of token1, as in the USDC/WETH pool).
func (s *Ref) swapHalf(lo, hi int) {
	ra, rb := ref.SqrtRatioAtTick(lo), ref.SqrtRatioAtTick(hi)
	l := s.liquidity(lo, hi)
	u0, u1 := ref.AmountsForLiquidity(s.P.P, ra, rb, l)
	d0, d1 := ref.Sub(s.A0, u0), ref.Sub(s.A1, u1)
	// At the end of the price range there is nothing to swap against.
	if ref.Lsh(d0, 9).Cmp(d1) > 0 {
		if h := ref.Div(d0, ref.N(2)); h.Sign() > 0 && s.P.P.Cmp(ref.Add(ref.MinSqrt, ref.One)) > 0 {
			x0, x1 := s.P.Swap(true, h, ref.Zero)
			s.A0, s.A1 = ref.Sub(s.A0, x0), ref.Sub(s.A1, x1)
		}
	} else if h := ref.Div(d1, ref.N(2)); h.Sign() > 0 && s.P.P.Cmp(ref.Sub(ref.MaxSqrt, ref.One)) < 0 {
		x0, x1 := s.P.Swap(false, h, ref.Zero)
		s.A0, s.A1 = ref.Sub(s.A0, x0), ref.Sub(s.A1, x1)
	}
}
