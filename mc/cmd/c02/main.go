// C02: swap steps and price moves are exact with the contract's rounding.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"uniswap-simulator/lib/sqrtprice_math"
	"uniswap-simulator/lib/swapmath"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/fx"
	"verifmc/ref"
)

type B = *big.Int

var fees = []int{0, 100, 500, 3000, 10000, 999999}

// try runs a reference computation; ok is false when the contract would revert.
func try(f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(ref.Revert); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	f()
	return true
}

func fits(bs ...B) bool {
	for _, b := range bs {
		if b.BitLen() > 256 || b.Sign() < 0 {
			return false
		}
	}
	return true
}

// eval evaluates one call on both sides.  class is "" when the contract would
// revert (nothing is claimed).
func eval(f string, a []B) (class, msg string) {
	var want, got []interface{}
	ins := make([]*ui.Int, len(a))
	for i := range a {
		ins[i] = drv.U(a[i])
	}
	var outs []*ui.Int
	var wants []B
	_ = want
	_ = got
	switch f {
	case "step":
		fee := int(a[4].Int64())
		var n, in, out, fe B
		if !try(func() { n, in, out, fe = ref.SwapStep(a[0], a[1], a[2], a[3], fee) }) || !fits(n, in, out, fe) {
			return "", ""
		}
		wants = []B{n, in, out, fe}
		pan := ex.Protect(func() {
			x, y, z, w := swapmath.ComputeSwapStep(ins[0], ins[1], ins[2], ins[3], fee)
			outs = []*ui.Int{x, y, z, w}
		})
		if pan != "" {
			return "x", "ComputeSwapStep panicked: " + pan
		}
		switch {
		case a[0].Cmp(a[1]) == 0:
			class = "step with equal prices"
		case n.Cmp(a[1]) == 0:
			class = "step reaching the target"
		default:
			class = "step stopping before the target"
		}
	case "fromInput", "fromOutput":
		zfo := a[3].Sign() != 0
		var n B
		if f == "fromInput" {
			if !try(func() { n = ref.NextSqrtFromInput(a[0], a[1], a[2], zfo) }) {
				return "", ""
			}
		} else if !try(func() { n = ref.NextSqrtFromOutput(a[0], a[1], a[2], zfo) }) {
			return "", ""
		}
		if !fits(n) {
			return "", ""
		}
		wants = []B{n}
		pan := ex.Protect(func() {
			if f == "fromInput" {
				outs = []*ui.Int{sqrtprice_math.GetNextSqrtPriceFromInput(ins[0], ins[1], ins[2], zfo)}
			} else {
				outs = []*ui.Int{sqrtprice_math.GetNextSqrtPriceFromOutput(ins[0], ins[1], ins[2], zfo)}
			}
		})
		if pan != "" {
			return "x", f + " panicked: " + pan
		}
		class = "next price " + f
	case "d0up", "d0down", "d1up", "d1down", "d0s", "d1s":
		var w B
		pan := ex.Protect(func() {
			switch f {
			case "d0up", "d0down":
				w = ref.Amount0Delta(a[0], a[1], a[2], f == "d0up")
				outs = []*ui.Int{sqrtprice_math.GetAmount0Delta(ins[0], ins[1], ins[2], f == "d0up")}
			case "d1up", "d1down":
				w = ref.Amount1Delta(a[0], a[1], a[2], f == "d1up")
				outs = []*ui.Int{sqrtprice_math.GetAmount1Delta(ins[0], ins[1], ins[2], f == "d1up")}
			case "d0s":
				w = ref.Amount0DeltaS(a[0], a[1], a[2])
				outs = []*ui.Int{sqrtprice_math.GetAmount0DeltaRounded(ins[0], ins[1], ins[2])}
			case "d1s":
				w = ref.Amount1DeltaS(a[0], a[1], a[2])
				outs = []*ui.Int{sqrtprice_math.GetAmount1DeltaRounded(ins[0], ins[1], ins[2])}
			}
		})
		if pan != "" {
			return "x", f + " panicked: " + pan
		}
		wants = []B{w}
		class = "token delta"
	default:
		return "", ""
	}
	for i := range wants {
		if !drv.Same(outs[i], wants[i]) {
			return class, fmt.Sprintf("%s%v: result %d is %v, contract %v", f, a, i, drv.GS(outs[i]), wants[i])
		}
	}
	for i := range a {
		if !drv.Same(ins[i], a[i]) {
			return class, fmt.Sprintf("%s%v: argument %d was changed to %v", f, a, i, drv.GS(ins[i]))
		}
	}
	return class, ""
}

func uniq(bs []B, ok func(B) bool) (r []B) {
	m := map[string]bool{}
	for _, b := range bs {
		if s := b.String(); !m[s] && ok(b) {
			m[s] = true
			r = append(r, b)
		}
	}
	return
}

func around(r []B, b B, ds ...int64) []B {
	for _, d := range ds {
		r = append(r, ref.Add(b, ref.N(d)))
	}
	return r
}

func main() {
	ex.Run("C02", "exploration", run, func(c *ex.Ctx, raw json.RawMessage) string {
		var k fx.Case
		json.Unmarshal(raw, &k)
		_, m := eval(k.F, fx.Nums(k.Args))
		return m
	})
}

func run(c *ex.Ctx) {
	ps, ls := fx.Prices(c.Thorough), fx.Liquidities(c.Thorough)
	fixed := []B{ref.Zero, ref.One, ref.N(2), ref.N(999999), ref.S("1000000000000000000"), ref.Pow2(128),
		ref.Sub(ref.Pow2(160), ref.One), ref.Pow2(160), ref.Add(ref.Pow2(160), ref.One), ref.Pow2(236), ref.Sub(ref.Pow2(255), ref.One)}
	if c.Thorough {
		fixed = append(fixed, ref.N(3), ref.N(1000000), ref.N(1000001), ref.Pow2(64), ref.Pow2(96), ref.Pow2(192), ref.Pow2(224), ref.Pow2(235), ref.Pow2(250), ref.Pow2(254))
	}
	is256 := func(b B) bool { return b.Sign() >= 0 && b.BitLen() <= 255 }
	c.Rule = "every (price, target, liquidity, amount, fee) of the product of alphabets below, plus every next-price and token-delta call on it; amounts include the exact amount that reaches the target, that amount with the fee on top, halves, and their neighbours; a case is non-trivial when the contract would not revert, and distinct by its full argument tuple"
	c.Extra["prices"], c.Extra["liquidities"], c.Extra["fees"] = len(ps), len(ls), fees
	c.Assumptions = []string{"arguments the contract would revert on are not judged (e.g. output larger than the reserves, price overflowing 160 bits)"}
	type pl struct{ i, j int }
	var tasks []pl
	for i := range ps {
		for j := range ps {
			tasks = append(tasks, pl{i, j})
		}
	}
	c.Par(len(tasks), func(w, ti int) {
		p, t := ps[tasks[ti].i], ps[tasks[ti].j]
		var cur fx.Case
		cls := map[string]int64{}
		var n, non int64
		do := func(f string, a ...B) {
			n++
			class, msg := eval(f, a)
			if class != "" {
				non++
				cls[class]++
			}
			if msg != "" {
				c.Fail(fx.Case{F: f, Args: fx.Strs(a...)}, msg)
			}
		}
		_ = cur
		c.Beat(w, func() interface{} { return fx.Case{F: "step", Args: fx.Strs(p, t)} })
		for _, l := range ls {
			zfo := p.Cmp(t) >= 0
			var in, out B
			if zfo {
				in, out = ref.Amount0Delta(t, p, l, true), ref.Amount1Delta(t, p, l, false)
			} else {
				in, out = ref.Amount1Delta(p, t, l, true), ref.Amount0Delta(p, t, l, false)
			}
			for _, f := range []string{"d0up", "d0down", "d1up", "d1down", "d0s", "d1s"} {
				do(f, p, t, l)
			}
			do("d0s", p, t, ref.Neg(l))
			do("d1s", p, t, ref.Neg(l))
			half := ref.Div(in, ref.N(2))
			base := uniq(append(around(around(nil, in, -1, 0, 1), half, 0), fixed...), is256)
			ob := uniq(append(around(around(nil, out, -1, 0, 1), ref.Div(out, ref.N(2)), 0), fixed...), is256)
			for _, fee := range fees {
				f := ref.N(int64(fee))
				gross := ref.DivUp(ref.Mul(in, ref.E6), ref.Sub(ref.E6, f))
				withfee := ref.Add(in, ref.MulDivUp(in, f, ref.Sub(ref.E6, f)))
				for _, a := range uniq(around(around(append([]B{}, base...), gross, -1, 0, 1), withfee, -1, 0, 1), is256) {
					do("step", p, t, l, a, f)
				}
				for _, a := range ob {
					if a.Sign() > 0 {
						do("step", p, t, l, ref.Neg(a), f)
					}
				}
			}
			if l.Sign() > 0 {
				for _, a := range base {
					do("fromInput", p, l, a, ref.One)
					do("fromInput", p, l, a, ref.Zero)
				}
				for _, a := range ob {
					do("fromOutput", p, l, a, ref.One)
					do("fromOutput", p, l, a, ref.Zero)
				}
			}
		}
		c.Evals.Add(n)
		c.Distinct.Add(non)
		for k, v := range cls {
			c.Class(k, v)
		}
		if ti%701 == 5 {
			l := ls[len(ls)/2]
			nx, in, out, fe := ref.SwapStep(p, t, l, ref.N(999999), 3000)
			c.Sample(fmt.Sprintf("step(price=%v target=%v L=%v amount=999999 fee=3000) = next %v in %v out %v fee %v", p, t, l, nx, in, out, fe))
		}
	})
}
