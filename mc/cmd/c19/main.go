// C19: liquidity and token amounts convert as in the contract's periphery.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	la "uniswap-simulator/lib/liquidity_amounts"
	"uniswap-simulator/lib/pool"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/fx"
	"verifmc/ref"
)

type B = *big.Int

var max128 = ref.Sub(ref.Pow2(128), ref.One)

func changed(ins []*ui.Int, a []B) string {
	for i := range a {
		if !drv.Same(ins[i], a[i]) {
			return fmt.Sprintf("argument %d was changed to %v", i, drv.G(ins[i]))
		}
	}
	return ""
}

func us(a []B) (r []*ui.Int) {
	for _, b := range a {
		r = append(r, drv.U(b))
	}
	return
}

// liq: budgets to liquidity.
func liq(p B, lo, hi int, a0, a1 B) (class, msg string, L B) {
	ra, rb := ref.SqrtRatioAtTick(lo), ref.SqrtRatioAtTick(hi)
	L = ref.LiquidityForAmounts(p, ra, rb, a0, a1)
	if L.Cmp(max128) > 0 {
		return "", "", nil
	}
	if p.Cmp(ra) > 0 && p.Cmp(rb) < 0 {
		// the contract computes both candidates as uint128
		if ref.LiquidityForAmounts(p, p, rb, a0, ref.Zero).Cmp(max128) > 0 || ref.LiquidityForAmounts(p, ra, p, ref.Zero, a1).Cmp(max128) > 0 {
			return "", "", nil
		}
	}
	for k, a := range [][]B{{p, ra, rb, a0, a1}, {p, rb, ra, a0, a1}} {
		ins := us(a)
		var g *ui.Int
		if pan := ex.Protect(func() { g = la.GetLiquidityForAmount(ins[0], ins[1], ins[2], ins[3], ins[4]) }); pan != "" {
			return "x", fmt.Sprintf("GetLiquidityForAmount%v panicked: %s", a, pan), nil
		}
		if !drv.Same(g, L) {
			return "x", fmt.Sprintf("GetLiquidityForAmount%v = %v, contract %v (range ends swapped: %v)", a, drv.G(g), L, k == 1), nil
		}
		if m := changed(ins, a); m != "" {
			return "x", m, nil
		}
		g.SetUint64(99)
		if m := changed(ins, a); m != "" {
			return "x", "result shares an argument: " + m, nil
		}
	}
	return "liquidity for amounts", "", L
}

// amt: liquidity to amounts; equal to what a burn pays out, and minting costs at most the budgets (nil: not judged).
func amt(p B, lo, hi int, L B, below bool, b0, b1 B) (class, msg string) {
	ra, rb := ref.SqrtRatioAtTick(lo), ref.SqrtRatioAtTick(hi)
	w0, w1 := ref.AmountsForLiquidity(p, ra, rb, L)
	for k, a := range [][]B{{p, ra, rb, L}, {p, rb, ra, L}} {
		ins := us(a)
		var g0, g1 *ui.Int
		if pan := ex.Protect(func() { g0, g1 = la.GetAmountsForLiquidity(ins[0], ins[1], ins[2], ins[3]) }); pan != "" {
			return "x", fmt.Sprintf("GetAmountsForLiquidity%v panicked: %s", a, pan)
		}
		if !drv.Same(g0, w0) || !drv.Same(g1, w1) {
			return "x", fmt.Sprintf("GetAmountsForLiquidity%v = (%v, %v), contract (%v, %v) (range ends swapped: %v)", a, drv.G(g0), drv.G(g1), w0, w1, k == 1)
		}
		g0.SetUint64(99)
		g1.SetUint64(98)
		if m := changed(ins, a); m != "" {
			return "x", m
		}
	}
	if L.Sign() == 0 {
		return "amounts for zero liquidity", ""
	}
	tick := ref.TickAtSqrtRatio(p)
	if below {
		if ref.SqrtRatioAtTick(tick).Cmp(p) != 0 || tick == ref.MinTick {
			return "", ""
		}
		tick--
	}
	pan := ex.Protect(func() {
		pl := pool.NewPool(drv.T0, drv.T1, 500, drv.U(p))
		pl.TickCurrent = tick
		m0, m1 := pl.MintStrategy(lo, hi, drv.U(L))
		if b0 != nil && (drv.GS(m0).Cmp(b0) > 0 || drv.GS(m1).Cmp(b1) > 0) {
			msg = fmt.Sprintf("minting the liquidity %v computed for (%v, %v) in [%d,%d] at price %v costs (%v, %v)", L, b0, b1, lo, hi, p, drv.GS(m0), drv.GS(m1))
			return
		}
		o0, o1 := pl.BurnStrategy(lo, hi, drv.U(L))
		if !drv.Same(o0, w0) || !drv.Same(o1, w1) {
			msg = fmt.Sprintf("burning %v of [%d,%d] at price %v tick %d pays (%v, %v), GetAmountsForLiquidity says (%v, %v)", L, lo, hi, p, tick, drv.GS(o0), drv.GS(o1), w0, w1)
		}
	})
	if pan != "" {
		return "x", fmt.Sprintf("mint and burn of %v in [%d,%d] at price %v panicked: %s", L, lo, hi, p, pan)
	}
	switch {
	case p.Cmp(ra) < 0:
		class = "amounts below the range"
	case p.Cmp(ra) == 0:
		class = "amounts at the lower end"
	case p.Cmp(rb) < 0:
		class = "amounts inside the range"
	case p.Cmp(rb) == 0:
		class = "amounts at the upper end"
	default:
		class = "amounts above the range"
	}
	return
}

func main() {
	ex.Run("C19", "exploration", explore, func(c *ex.Ctx, raw json.RawMessage) string {
		var k fx.Case
		json.Unmarshal(raw, &k)
		a := fx.Nums(k.Args)
		if len(a) < 5 {
			return ""
		}
		lo, hi := int(a[1].Int64()), int(a[2].Int64())
		if k.F == "liq" {
			_, m, L := liq(a[0], lo, hi, a[3], a[4])
			if m == "" && L != nil {
				_, m = amt(a[0], lo, hi, L, false, a[3], a[4])
			}
			return m
		}
		_, m := amt(a[0], lo, hi, a[3], a[4].Sign() != 0, nil, nil)
		return m
	})
}

func explore(c *ex.Ctx) {
	ticks := []int{-887270, -443640, -276330, -10000, -60, -10, 0, 10, 200, 10000, 195000, 198080, 443640, 887270}
	budgets := []B{ref.Zero, ref.One, ref.N(1009), ref.N(1000000), ref.S("366874042000000"), ref.S("1000000000000000003"), ref.Pow2(64), ref.Sub(ref.Pow2(96), ref.One), ref.Sub(ref.Pow2(128), ref.One), ref.Pow2(160)}
	if c.Thorough {
		ticks = append(ticks, -887272, -700000, -200000, -195000, -200, -1, 1, 60, 198070, 198090, 276330, 700000, 887271, 887272)
		budgets = append(budgets, ref.N(2), ref.N(999), ref.Pow2(32), ref.Sub(ref.Pow2(64), ref.One), ref.Pow2(80), ref.Pow2(112), ref.Pow2(127))
	}
	type rg struct{ lo, hi int }
	var rs []rg
	for _, a := range ticks {
		for _, b := range ticks {
			if a < b {
				rs = append(rs, rg{a, b})
			}
		}
	}
	ps := fx.Prices(c.Thorough)
	liqs := fx.Liquidities(c.Thorough)
	c.Rule = "every (price, range, budget pair) and (price, range, liquidity) of the product of alphabets, with both orders of range ends, prices including both ends of each range and their neighbours; each liquidity is then minted and burned in a real pool at that price (also with the current tick one below, as left by a downward swap onto the tick). Distinct by argument tuple; non-trivial when the contract's uint128 checks pass"
	c.Extra["ranges"], c.Extra["prices"], c.Extra["budgets"], c.Extra["liquidities"] = len(rs), len(ps), len(budgets), len(liqs)
	c.Par(len(rs), func(w, ri int) {
		r := rs[ri]
		cls := map[string]int64{}
		var n, non int64
		note := func(class string) {
			n++
			if class != "" {
				non++
				cls[class]++
			}
		}
		qs := append([]B{}, ps...)
		for _, t := range []int{r.lo, r.hi} {
			for d := int64(-1); d <= 1; d++ {
				q := ref.Add(ref.SqrtRatioAtTick(t), ref.N(d))
				if q.Cmp(ref.MinSqrt) >= 0 && q.Cmp(ref.MaxSqrt) < 0 {
					qs = append(qs, q)
				}
			}
		}
		qs = append(qs, ref.Div(ref.Add(ref.SqrtRatioAtTick(r.lo), ref.SqrtRatioAtTick(r.hi)), ref.N(2)))
		for _, p := range qs {
			c.Beat(w, func() interface{} {
				return fx.Case{F: "liq", Args: []string{p.String(), fmt.Sprint(r.lo), fmt.Sprint(r.hi), "1", "1"}}
			})
			for _, a0 := range budgets {
				for _, a1 := range budgets {
					class, m, L := liq(p, r.lo, r.hi, a0, a1)
					note(class)
					if m == "" && L != nil && L.Sign() > 0 {
						class, m = amt(p, r.lo, r.hi, L, false, a0, a1)
						note(class)
					}
					if m != "" {
						c.Fail(fx.Case{F: "liq", Args: []string{p.String(), fmt.Sprint(r.lo), fmt.Sprint(r.hi), a0.String(), a1.String()}}, m)
					}
				}
			}
			for _, L := range liqs {
				for b := int64(0); b < 2; b++ {
					if class, m := amt(p, r.lo, r.hi, L, b == 1, nil, nil); m != "" {
						c.Fail(fx.Case{F: "amt", Args: []string{p.String(), fmt.Sprint(r.lo), fmt.Sprint(r.hi), L.String(), fmt.Sprint(b)}}, m)
					} else {
						note(class)
					}
				}
			}
		}
		c.Evals.Add(n)
		c.Distinct.Add(non)
		for k, v := range cls {
			c.Class(k, v)
		}
		if ri%17 == 3 {
			c.Sample(fmt.Sprintf("range [%d,%d], price %v, budgets (10^6, 366874042000000) -> liquidity %v", r.lo, r.hi, ps[len(ps)-1], ref.LiquidityForAmounts(ps[len(ps)-1], ref.SqrtRatioAtTick(r.lo), ref.SqrtRatioAtTick(r.hi), ref.N(1000000), ref.S("366874042000000"))))
		}
	})
}
