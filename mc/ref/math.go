// Package ref is an independent reference model of the Uniswap v3 core and
// periphery arithmetic, written on math/big from the contract's Solidity
// sources.  It shares no code with the simulator.  Numbers are immutable by
// convention: no function modifies an argument.
package ref

import (
	"fmt"
	"math/big"
	"sync"
)

type B = *big.Int

// Revert is what a reference operation panics with when the contract would revert.
type Revert struct{ Msg string }

func (r Revert) Error() string { return "revert: " + r.Msg }

func require(c bool, m string) {
	if !c {
		panic(Revert{m})
	}
}

func N(i int64) B { return big.NewInt(i) }
func S(s string) B {
	b, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("bad number " + s)
	}
	return b
}
func Pow2(n uint) B     { return new(big.Int).Lsh(big.NewInt(1), n) }
func Add(a, b B) B      { return new(big.Int).Add(a, b) }
func Sub(a, b B) B      { return new(big.Int).Sub(a, b) }
func Mul(a, b B) B      { return new(big.Int).Mul(a, b) }
func Neg(a B) B         { return new(big.Int).Neg(a) }
func Lsh(a B, n uint) B { return new(big.Int).Lsh(a, n) }

// FloorDiv on non-negative operands.
func Div(a, b B) B { return new(big.Int).Quo(a, b) }
func DivUp(a, b B) B {
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() != 0 {
		q.Add(q, One)
	}
	return q
}
func MulDiv(a, b, d B) B   { return Div(Mul(a, b), d) }
func MulDivUp(a, b, d B) B { return DivUp(Mul(a, b), d) }
func Min(a, b B) B {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}

var (
	Zero    = big.NewInt(0)
	One     = big.NewInt(1)
	Q96     = Pow2(96)
	Q128    = Pow2(128)
	Q192    = Pow2(192)
	Q256    = Pow2(256)
	Max256  = Sub(Q256, One)
	Max160  = Sub(Pow2(160), One)
	E6      = big.NewInt(1_000_000)
	MinSqrt = big.NewInt(4295128739)
	MaxSqrt = S("1461446703485210103287273052203988822378723970342")
)

// Wrap reduces modulo 2^256 (uint256 arithmetic that is meant to wrap).
func Wrap(a B) B {
	if a.Sign() >= 0 && a.BitLen() <= 256 {
		return a
	}
	r := new(big.Int).And(a, Max256)
	return r
}

const (
	MinTick = -887272
	MaxTick = 887272
)

var tickFactors = []string{
	"0xfffcb933bd6fad37aa2d162d1a594001",
	"0xfff97272373d413259a46990580e213a",
	"0xfff2e50f5f656932ef12357cf3c7fdcc",
	"0xffe5caca7e10e4e61c3624eaa0941cd0",
	"0xffcb9843d60f6159c9db58835c926644",
	"0xff973b41fa98c081472e6896dfb254c0",
	"0xff2ea16466c96a3843ec78b326b52861",
	"0xfe5dee046a99a2a811c461f1969c3053",
	"0xfcbe86c7900a88aedcffc83b479aa3a4",
	"0xf987a7253ac413176f2b074cf7815e54",
	"0xf3392b0822b70005940c7a398e4b70f3",
	"0xe7159475a2c29b7443b29c7fa6e889d9",
	"0xd097f3bdfd2022b8845ad8f792aa5825",
	"0xa9f746462d870fdf8a65dc1f90e061e5",
	"0x70d869a156d2a1b890bb3df62baf32f7",
	"0x31be135f97d08fd981231505542fcfa6",
	"0x9aa508b5b7a84e1c677de54f3e99bc9",
	"0x5d6af8dedb81196699c329225ee604",
	"0x2216e584f5fa1ea926041bedfe98",
	"0x48a170391f7dc42444e8fa2",
}
var tickFactorsB = func() (r []B) {
	for _, s := range tickFactors {
		r = append(r, S(s))
	}
	return
}()

// ComputeSqrtRatioAtTick is TickMath.getSqrtRatioAtTick.
func ComputeSqrtRatioAtTick(tick int) B {
	abs := tick
	if abs < 0 {
		abs = -abs
	}
	require(abs <= MaxTick, "T")
	ratio := new(big.Int).Set(Q128)
	for i, f := range tickFactorsB {
		if abs>>uint(i)&1 == 1 {
			ratio.Mul(ratio, f)
			ratio.Rsh(ratio, 128)
		}
	}
	if tick > 0 {
		ratio.Quo(Max256, ratio)
	}
	return DivUp(ratio, Pow2(32))
}

var tickCache sync.Map

func SqrtRatioAtTick(tick int) B {
	if v, ok := tickCache.Load(tick); ok {
		return v.(B)
	}
	v := ComputeSqrtRatioAtTick(tick)
	tickCache.Store(tick, v)
	return v
}

// TickAtSqrtRatio is TickMath.getTickAtSqrtRatio: greatest tick whose ratio is <= p.
func TickAtSqrtRatio(p B) int {
	require(p.Cmp(MinSqrt) >= 0 && p.Cmp(MaxSqrt) < 0, "R")
	lo, hi := MinTick, MaxTick
	for lo < hi {
		m := lo + (hi-lo+1)/2
		if SqrtRatioAtTick(m).Cmp(p) <= 0 {
			lo = m
		} else {
			hi = m - 1
		}
	}
	return lo
}

func sort2(a, b B) (B, B) {
	if a.Cmp(b) > 0 {
		return b, a
	}
	return a, b
}

// SqrtPriceMath

func Amount0Delta(a, b, l B, up bool) B {
	a, b = sort2(a, b)
	n1, n2 := Lsh(l, 96), Sub(b, a)
	if up {
		return DivUp(MulDivUp(n1, n2, b), a)
	}
	return Div(MulDiv(n1, n2, b), a)
}

func Amount1Delta(a, b, l B, up bool) B {
	a, b = sort2(a, b)
	if up {
		return MulDivUp(l, Sub(b, a), Q96)
	}
	return MulDiv(l, Sub(b, a), Q96)
}

// Signed liquidity variants.
func Amount0DeltaS(a, b, l B) B {
	if l.Sign() < 0 {
		return Neg(Amount0Delta(a, b, Neg(l), false))
	}
	return Amount0Delta(a, b, l, true)
}
func Amount1DeltaS(a, b, l B) B {
	if l.Sign() < 0 {
		return Neg(Amount1Delta(a, b, Neg(l), false))
	}
	return Amount1Delta(a, b, l, true)
}

func nextFromAmount0Up(p, l, amt B, add bool) B {
	if amt.Sign() == 0 {
		return p
	}
	n1 := Lsh(l, 96)
	if add {
		prod := Mul(amt, p)
		if prod.BitLen() <= 256 {
			den := Add(n1, prod)
			if den.BitLen() <= 256 {
				return MulDivUp(n1, p, den)
			}
		}
		return DivUp(n1, Add(Div(n1, p), amt))
	}
	prod := Mul(amt, p)
	require(prod.BitLen() <= 256 && n1.Cmp(prod) > 0, "price underflow")
	r := MulDivUp(n1, p, Sub(n1, prod))
	require(r.BitLen() <= 160, "price overflow")
	return r
}

func nextFromAmount1Down(p, l, amt B, add bool) B {
	if add {
		var q B
		if amt.Cmp(Max160) <= 0 {
			q = Div(Lsh(amt, 96), l)
		} else {
			q = MulDiv(amt, Q96, l)
		}
		r := Add(p, q)
		require(q.BitLen() <= 256 && r.BitLen() <= 160, "price overflow")
		return r
	}
	q := MulDivUp(amt, Q96, l)
	require(p.Cmp(q) > 0, "price underflow")
	return Sub(p, q)
}

func NextSqrtFromInput(p, l, amt B, zeroForOne bool) B {
	require(p.Sign() > 0 && l.Sign() > 0, "zero")
	if zeroForOne {
		return nextFromAmount0Up(p, l, amt, true)
	}
	return nextFromAmount1Down(p, l, amt, true)
}
func NextSqrtFromOutput(p, l, amt B, zeroForOne bool) B {
	require(p.Sign() > 0 && l.Sign() > 0, "zero")
	if zeroForOne {
		return nextFromAmount1Down(p, l, amt, false)
	}
	return nextFromAmount0Up(p, l, amt, false)
}

// SwapStep is SwapMath.computeSwapStep.
func SwapStep(cur, target, l, rem B, fee int) (next, in, out, feeAmt B) {
	zfo := cur.Cmp(target) >= 0
	exactIn := rem.Sign() >= 0
	f := N(int64(fee))
	if exactIn {
		less := MulDiv(rem, Sub(E6, f), E6)
		if zfo {
			in = Amount0Delta(target, cur, l, true)
		} else {
			in = Amount1Delta(cur, target, l, true)
		}
		if less.Cmp(in) >= 0 {
			next = target
		} else {
			next = NextSqrtFromInput(cur, l, less, zfo)
		}
	} else {
		if zfo {
			out = Amount1Delta(target, cur, l, false)
		} else {
			out = Amount0Delta(cur, target, l, false)
		}
		if Neg(rem).Cmp(out) >= 0 {
			next = target
		} else {
			next = NextSqrtFromOutput(cur, l, Neg(rem), zfo)
		}
	}
	max := target.Cmp(next) == 0
	if zfo {
		if !(max && exactIn) {
			in = Amount0Delta(next, cur, l, true)
		}
		if !(max && !exactIn) {
			out = Amount1Delta(next, cur, l, false)
		}
	} else {
		if !(max && exactIn) {
			in = Amount1Delta(cur, next, l, true)
		}
		if !(max && !exactIn) {
			out = Amount0Delta(cur, next, l, false)
		}
	}
	if !exactIn && out.Cmp(Neg(rem)) > 0 {
		out = Neg(rem)
	}
	if exactIn && next.Cmp(target) != 0 {
		feeAmt = Sub(rem, in)
	} else {
		feeAmt = MulDivUp(in, f, Sub(E6, f))
	}
	return
}

// LiquidityAmounts

func liq0(a, b, amt B) B {
	a, b = sort2(a, b)
	return MulDiv(amt, MulDiv(a, b, Q96), Sub(b, a))
}
func liq1(a, b, amt B) B {
	a, b = sort2(a, b)
	return MulDiv(amt, Q96, Sub(b, a))
}
func LiquidityForAmounts(p, a, b, a0, a1 B) B {
	a, b = sort2(a, b)
	if p.Cmp(a) <= 0 {
		return liq0(a, b, a0)
	} else if p.Cmp(b) < 0 {
		return Min(liq0(p, b, a0), liq1(a, p, a1))
	}
	return liq1(a, b, a1)
}
func amt0(a, b, l B) B {
	a, b = sort2(a, b)
	return Div(MulDiv(Lsh(l, 96), Sub(b, a), b), a)
}
func amt1(a, b, l B) B {
	a, b = sort2(a, b)
	return MulDiv(l, Sub(b, a), Q96)
}
func AmountsForLiquidity(p, a, b, l B) (B, B) {
	a, b = sort2(a, b)
	if p.Cmp(a) <= 0 {
		return amt0(a, b, l), Zero
	} else if p.Cmp(b) < 0 {
		return amt0(p, b, l), amt1(a, p, l)
	}
	return Zero, amt1(a, b, l)
}

// Value0 is token0 plus token1 converted to token0 at sqrt price p (rounded down).
func Value0(a0, a1, p B) B { return Add(a0, MulDiv(a1, Q192, Mul(p, p))) }

var _ = fmt.Sprint
