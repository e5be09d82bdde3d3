// C07: tick and price conversions equal the contract on the whole range.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"

	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/fx"
	"verifmc/ref"
)

func atoi(s string) int {
	b, _ := new(big.Int).SetString(s, 10)
	if b == nil {
		return 0
	}
	return int(b.Int64())
}

// price of a tick: value, ownership.
func checkTick(t int) string {
	w := ref.ComputeSqrtRatioAtTick(t)
	var g *ui.Int
	if p := ex.Protect(func() { g = tickmath.TM.GetSqrtRatioAtTick(t) }); p != "" {
		return fmt.Sprintf("GetSqrtRatioAtTick(%d) panicked: %s", t, p)
	}
	if !drv.Same(g, w) {
		return fmt.Sprintf("price of tick %d is %v, contract %v", t, drv.G(g), w)
	}
	// The price belongs to the caller: scribbling on it changes nothing.
	g.SetUint64(0xdeadbeef)
	if h := tickmath.TM.GetSqrtRatioAtTick(t); !drv.Same(h, w) {
		return fmt.Sprintf("price of tick %d became %v after a returned price was overwritten", t, drv.G(h))
	}
	return ""
}

func tickOf(p *big.Int) (t int, pan string, mod bool) {
	x := drv.U(p)
	pan = ex.Protect(func() { t = tickmath.TM.GetTickAtSqrtRatio(x) })
	return t, pan, !drv.Same(x, p)
}

// tick of a price, against want.
func checkPrice(p *big.Int, want int) string {
	t, pan, mod := tickOf(p)
	if pan != "" {
		return fmt.Sprintf("GetTickAtSqrtRatio(%v) panicked: %s", p, pan)
	}
	if t != want {
		return fmt.Sprintf("tick of price %v is %d, contract %d", p, t, want)
	}
	if mod {
		return fmt.Sprintf("GetTickAtSqrtRatio(%v) changed its argument", p)
	}
	return ""
}

func floorDiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// rounding of t to multiples of u.
func checkRound(t, u int) string {
	fl := floorDiv(t, u) * u
	ce := fl
	if fl != t {
		ce = fl + u
	}
	if g := tickmath.Floor(t, u); g != fl {
		return fmt.Sprintf("Floor(%d,%d) = %d, want %d", t, u, g, fl)
	}
	if g := tickmath.Ceil(t, u); g != ce {
		return fmt.Sprintf("Ceil(%d,%d) = %d, want %d", t, u, g, ce)
	}
	g := tickmath.Round(t, u)
	switch { // exact halves may go either way
	case 2*(t-fl) < u && g != fl, 2*(t-fl) > u && g != ce, g != fl && g != ce:
		return fmt.Sprintf("Round(%d,%d) = %d, neighbours %d and %d", t, u, g, fl, ce)
	}
	return ""
}

func eval(f string, a []string) string {
	switch f {
	case "tick":
		return checkTick(atoi(a[0]))
	case "price":
		p := fx.Nums(a[:1])[0]
		return checkPrice(p, ref.TickAtSqrtRatio(p))
	case "reject":
		p := fx.Nums(a[:1])[0]
		if t, pan, _ := tickOf(p); pan == "" {
			return fmt.Sprintf("price %v outside the range was given tick %d instead of being rejected", p, t)
		}
	case "rejecttick":
		t := atoi(a[0])
		if pan := ex.Protect(func() { tickmath.TM.GetSqrtRatioAtTick(t) }); pan == "" {
			return fmt.Sprintf("tick %d outside the range was given a price instead of being rejected", t)
		}
	case "mono":
		t := atoi(a[0])
		if tickmath.TM.GetSqrtRatioAtTick(t).Cmp(tickmath.TM.GetSqrtRatioAtTick(t+1)) >= 0 {
			return fmt.Sprintf("price of tick %d is not below that of tick %d", t, t+1)
		}
	case "round":
		return checkRound(atoi(a[0]), atoi(a[1]))
	}
	return ""
}

func main() {
	ex.Run("C07", "exploration", run, func(c *ex.Ctx, raw json.RawMessage) string {
		var k fx.Case
		json.Unmarshal(raw, &k)
		return eval(k.F, k.Args)
	})
}

func run(c *ex.Ctx) {
	c.Rule = "all 1,774,545 ticks: price value and ownership, order, the tick of the price itself, of the price one below the next tick's and of the price one below and one above its own (these decide the boundary between every two neighbouring ticks), rounding to every spacing in units; the middle price of every tick (thorough: quarters and the last prices with 32, 64 and 96 zero low bits, and one below); all prices of one run of equal bits +-1; prices and ticks around both ends of the range for rejection. Every case is distinct by its arguments; non-trivial: all (each has exactly one right answer computed by the reference)"
	units := []int{1, 2, 7, 10, 60, 200}
	if c.Thorough {
		units = append(units, 3, 4, 5, 50, 100, 1000, 30, 600, 2000, 887272)
	}
	c.Extra["units"] = units
	const chunk = 4096
	n := (ref.MaxTick - ref.MinTick + 1 + chunk - 1) / chunk
	c.Par(n, func(w, i int) {
		lo := ref.MinTick + i*chunk
		hi := lo + chunk
		if hi > ref.MaxTick+1 {
			hi = ref.MaxTick + 1
		}
		c.Beat(w, func() interface{} { return fx.Case{F: "tick", Args: []string{fmt.Sprint(lo)}} })
		var ev int64
		fail := func(m, f string, a ...string) {
			ev++
			if m != "" {
				c.Fail(fx.Case{F: f, Args: a}, m)
			}
		}
		for t := lo; t < hi; t++ {
			s := fmt.Sprint(t)
			fail(checkTick(t), "tick", s)
			p := ref.ComputeSqrtRatioAtTick(t)
			if t < ref.MaxTick {
				fail(eval("mono", []string{s}), "mono", s)
				q := ref.ComputeSqrtRatioAtTick(t + 1)
				if q.Cmp(p) <= 0 {
					panic("reference not monotone")
				}
				fail(checkPrice(p, t), "price", p.String())
				top := ref.Sub(q, ref.One)
				fail(checkPrice(top, t), "price", top.String())
				mid := ref.Div(ref.Add(p, q), ref.N(2))
				fail(checkPrice(mid, t), "price", mid.String())
				if up := ref.Add(p, ref.One); up.Cmp(q) < 0 {
					fail(checkPrice(up, t), "price", up.String())
				}
				if c.Thorough {
					for _, k := range []int64{1, 3} {
						x := ref.Div(ref.Add(ref.Mul(p, ref.N(4-k)), ref.Mul(q, ref.N(k))), ref.N(4))
						fail(checkPrice(x, t), "price", x.String())
					}
					// The last price of the tick whose low word is zero, and the one before.
					for _, e := range []uint{32, 64, 96} {
						x := ref.Mul(ref.Div(top, ref.Pow2(e)), ref.Pow2(e))
						if x.Cmp(p) >= 0 {
							fail(checkPrice(x, t), "price", x.String())
						}
						if y := ref.Sub(x, ref.One); y.Cmp(p) >= 0 {
							fail(checkPrice(y, t), "price", y.String())
						}
					}
				}
			}
			for _, u := range units {
				fail(checkRound(t, u), "round", s, fmt.Sprint(u))
			}
		}
		c.Evals.Add(ev)
		c.Distinct.Add(ev)
	})
	var bad []*big.Int
	for d := int64(1); d <= 1000; d++ {
		bad = append(bad, ref.Sub(ref.MinSqrt, ref.N(d)), ref.Add(ref.MaxSqrt, ref.N(d-1)))
	}
	for e := uint(0); e < 256; e++ {
		p := ref.Pow2(e)
		for _, d := range []int64{-1, 0, 1} {
			q := ref.Add(p, ref.N(d))
			if q.Sign() >= 0 && (q.Cmp(ref.MinSqrt) < 0 || q.Cmp(ref.MaxSqrt) >= 0) {
				bad = append(bad, q)
			}
		}
	}
	bad = append(bad, ref.Max256)
	for _, p := range bad {
		if m := eval("reject", []string{p.String()}); m != "" {
			c.Fail(fx.Case{F: "reject", Args: []string{p.String()}}, m)
		}
	}
	// Prices made of one run of equal bits, and their neighbours.
	pats := map[string]*big.Int{}
	for e := uint(32); e <= 160; e++ {
		for l := uint(0); l <= e; l++ {
			for _, x := range []*big.Int{ref.Sub(ref.Pow2(e), ref.Pow2(l)), ref.Add(ref.Pow2(e), ref.Pow2(l))} {
				for _, d := range []int64{-1, 0, 1} {
					q := ref.Add(x, ref.N(d))
					if q.Cmp(ref.MinSqrt) >= 0 && q.Cmp(ref.MaxSqrt) < 0 {
						pats[q.String()] = q
					}
				}
			}
		}
	}
	pk := make([]string, 0, len(pats))
	for k := range pats {
		pk = append(pk, k)
	}
	sort.Strings(pk)
	c.Par(len(pk), func(w, i int) {
		if m := eval("price", []string{pk[i]}); m != "" {
			c.Fail(fx.Case{F: "price", Args: []string{pk[i]}}, m)
		}
	})
	c.Evals.Add(int64(len(pk)))
	c.Distinct.Add(int64(len(pk)))
	c.Class("prices of one run of bits", int64(len(pk)))
	var far []int
	for d := 1; d <= 1000; d++ {
		far = append(far, ref.MaxTick+d, ref.MinTick-d)
	}
	for _, t := range far {
		if m := eval("rejecttick", []string{fmt.Sprint(t)}); m != "" {
			c.Fail(fx.Case{F: "rejecttick", Args: []string{fmt.Sprint(t)}}, m)
		}
	}
	c.Evals.Add(int64(len(bad) + len(far)))
	c.Distinct.Add(int64(len(bad) + len(far)))
	c.Class("prices rejected", int64(len(bad)))
	c.Class("ticks rejected", int64(len(far)))
	// After everything above (every price handed out was overwritten) the table is intact.
	for t := ref.MinTick; t <= ref.MaxTick; t += 97 {
		if !drv.Same(tickmath.TM.GetSqrtRatioAtTick(t), ref.ComputeSqrtRatioAtTick(t)) {
			c.Fail(fx.Case{F: "tick", Args: []string{fmt.Sprint(t)}}, fmt.Sprintf("price of tick %d changed during the run", t))
			break
		}
	}
	for _, t := range []int{-887272, -1, 0, 1, 198080, 887272} {
		c.Sample(fmt.Sprintf("tick %d price %v", t, drv.G(tickmath.TM.GetSqrtRatioAtTick(t))))
	}
}
