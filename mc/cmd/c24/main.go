// C24: swaps respect amount, limit and direction and cannot be profitable round trips.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"uniswap-simulator/lib/pool"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/hist"
	"verifmc/led"
	"verifmc/ref"
	"verifmc/scn"
)

var ctx *ex.Ctx

type trader struct {
	*led.Ledger
	p      *big.Int // price before the step
	n0, n1 *big.Int // what swapping brought in since liquidity last changed
	since  int
	bad    string
	last   swapRes
}

type swapRes struct {
	ok      bool
	in, out *big.Int
}

const fix = 96 // fractional bits of curve amounts

// curve returns, in units of 2^-fix, the exact amounts of token0 and token1
// that the liquidity on the books moves between two prices, rounded down and up.
func (t *trader) curve(a, b *big.Int) (lo0, hi0, lo1, hi1 *big.Int) {
	lo0, hi0, lo1, hi1 = ref.Zero, ref.Zero, ref.Zero, ref.Zero
	if a.Cmp(b) > 0 {
		a, b = b, a
	}
	for _, m := range []map[led.Key]*big.Int{t.Pos, t.Ext} {
		for k, l := range m {
			x, y := ref.SqrtRatioAtTick(k.Lo), ref.SqrtRatioAtTick(k.Hi)
			if x.Cmp(a) < 0 {
				x = a
			}
			if y.Cmp(b) > 0 {
				y = b
			}
			if x.Cmp(y) >= 0 || l.Sign() == 0 {
				continue
			}
			d := ref.Mul(l, ref.Sub(y, x))
			n0, d0 := ref.Lsh(d, 96+fix), ref.Mul(x, y)
			lo0, hi0 = ref.Add(lo0, ref.Div(n0, d0)), ref.Add(hi0, ref.DivUp(n0, d0))
			lo1, hi1 = ref.Add(lo1, d), ref.Add(hi1, d) // exact: 2^96 = 2^fix
		}
	}
	return
}

func judge(t *trader, o drv.Op, fee int, p0, p1, x0, x1 *big.Int) string {
	lim := o.Lim
	in, out := x0, x1
	if !o.Z {
		in, out = x1, x0
	}
	if lim.Sign() == 0 {
		lim = ref.Add(ref.MinSqrt, ref.One)
		if !o.Z {
			lim = ref.Sub(ref.MaxSqrt, ref.One)
		}
	}
	if o.Z && (p1.Cmp(p0) > 0 || p1.Cmp(lim) < 0) || !o.Z && (p1.Cmp(p0) < 0 || p1.Cmp(lim) > 0) {
		return fmt.Sprintf("%v moved the price from %v to %v (limit %v)", o, p0, p1, lim)
	}
	if in.Sign() < 0 || out.Sign() > 0 {
		return fmt.Sprintf("%v: input %v, other token's change %v", o, in, out)
	}
	spec := in
	if o.K == "out" {
		spec = ref.Neg(out)
	}
	if c := spec.Cmp(o.A); c > 0 || c < 0 && p1.Cmp(lim) != 0 {
		return fmt.Sprintf("%v: used %v of the specified amount (price %v, limit %v)", o, spec, p1, lim)
	}
	lo0, hi0, lo1, hi1 := t.curve(p0, p1)
	need, most := lo0, hi1
	if !o.Z {
		need, most = lo1, hi0
	}
	// input less the fee rate covers what the curve requires
	if ref.Mul(ref.Lsh(in, fix), ref.N(int64(1000000-fee))).Cmp(ref.Mul(need, ref.N(1000000))) < 0 {
		return fmt.Sprintf("%v: input %v does not cover the fee rate and the curve's %v", o, in, ref.Div(need, ref.Pow2(fix)))
	}
	if ref.Lsh(ref.Neg(out), fix).Cmp(most) > 0 {
		return fmt.Sprintf("%v: paid out %v, the curve gives %v", o, ref.Neg(out), ref.Div(most, ref.Pow2(fix)))
	}
	return ""
}

func gains(n0, n1 *big.Int) bool {
	return n0.Sign() >= 0 && n1.Sign() >= 0 && n0.Sign()+n1.Sign() > 0
}

func ghost(n *hist.Node) {
	t := n.User.(*trader)
	t.last.ok = false
	if n.Panic != nil || !n.Accept {
		return
	}
	t.Note(n)
	p1 := drv.G(n.Real.SqrtRatioX96)
	switch n.Op.K {
	case "mint", "burn", "emint", "eburn":
		if n.Op.A.Sign() > 0 {
			t.n0, t.n1, t.since = ref.Zero, ref.Zero, 0
		}
	case "in", "out":
		x0, x1 := drv.GS(n.X0), drv.GS(n.X1)
		t.n0, t.n1 = ref.Sub(t.n0, x0), ref.Sub(t.n1, x1)
		t.since++
		t.last = swapRes{true, x0, ref.Neg(x1)}
		if !n.Op.Z {
			t.last = swapRes{true, x1, ref.Neg(x0)}
		}
		if t.bad == "" {
			t.bad = judge(t, n.Op, n.S.Fee, t.p, p1, x0, x1)
		}
		if t.bad == "" && gains(t.n0, t.n1) {
			t.bad = fmt.Sprintf("the last %d swaps, with nobody changing liquidity, brought the trader %v of token0 and %v of token1", t.since, t.n0, t.n1)
		}
	}
	t.p = p1
}

func step(n *hist.Node) string { return n.User.(*trader).bad }

func swap(p *pool.Pool, o drv.Op) (in, out *big.Int, pan interface{}) {
	ctx.Transitions.Add(1)
	x0, x1, pan, _ := drv.Apply(p, o)
	if pan != nil {
		return nil, nil, pan
	}
	if o.Z {
		return drv.GS(x0), ref.Neg(drv.GS(x1)), nil
	}
	return drv.GS(x1), ref.Neg(drv.GS(x0)), nil
}

func final(n *hist.Node) string {
	t := n.User.(*trader)
	if !t.last.ok || len(n.Path) == 0 {
		return ""
	}
	o, in, out := n.Op, t.last.in, t.last.out
	pre := n.Path[:len(n.Path)-1]
	ctx.Traces.Add(1)
	// Back: sell what was bought, or buy back what was sold.
	if out.Sign() > 0 {
		b := drv.In(!o.Z, out, ref.Zero)
		i2, o2, pan := swap(n.Real, b)
		if pan == nil {
			// net: token in: o2-in, token out: out-i2
			if gains(ref.Sub(o2, in), ref.Sub(out, i2)) {
				return fmt.Sprintf("%v and then %v: paid %v got %v, paid %v got %v back", o, b, in, out, i2, o2)
			}
		}
		if in.Sign() > 0 {
			q := n.S.Build(n.Path)
			b := drv.Out(!o.Z, in, ref.Zero)
			i2, o2, pan := swap(q, b)
			if pan == nil && gains(ref.Sub(o2, in), ref.Sub(out, i2)) {
				return fmt.Sprintf("%v and then %v: paid %v got %v, paid %v got %v back", o, b, in, out, i2, o2)
			}
		}
	}
	// Split the swap in two.
	h := ref.Div(o.A, ref.N(2))
	seventh := ref.Div(o.A, ref.N(7))
	tried := map[string]bool{}
	for _, a := range []*big.Int{ref.One, h, seventh, ref.Sub(o.A, ref.One), ref.Div(in, ref.N(2)), ref.Sub(in, ref.One)} {
		b := ref.Sub(o.A, a)
		if a.Sign() <= 0 || b.Sign() <= 0 || tried[a.String()] {
			continue
		}
		tried[a.String()] = true
		q := n.S.Build(pre)
		o1, o2 := o, o
		o1.A, o2.A = a, b
		i1, g1, pan := swap(q, o1)
		if pan != nil {
			continue // a crash is C01's matter
		}
		i2, g2 := ref.Zero, ref.Zero
		lim := o.Lim
		if lim.Sign() == 0 {
			lim = ref.Add(ref.MinSqrt, ref.One)
			if !o.Z {
				lim = ref.Sub(ref.MaxSqrt, ref.One)
			}
		}
		if drv.G(q.SqrtRatioX96).Cmp(lim) != 0 {
			if i2, g2, pan = swap(q, o2); pan != nil {
				continue
			}
		}
		ti, tg := ref.Add(i1, i2), ref.Add(g1, g2)
		if tg.Cmp(out) > 0 || o.K == "out" && ti.Cmp(in) < 0 || o.K == "in" && tg.Cmp(out) == 0 && ti.Cmp(in) < 0 && drv.G(q.SqrtRatioX96).Cmp(drv.G(n.S.Build(n.Path).SqrtRatioX96)) == 0 {
			return fmt.Sprintf("%v pays %v for %v; split after %v it pays %v for %v", o, out, in, a, tg, ti)
		}
	}
	return ""
}

func engine(c *ex.Ctx) *hist.Engine {
	ctx = c
	return &hist.Engine{C: c, Scns: append(scn.Inv(c.Thorough), scn.Trades(c.Thorough)...), Step: step, Final: final, Every: true, Ghost: ghost,
		Init: func(s *hist.Scn) interface{} {
			return &trader{Ledger: led.New(), p: s.P, n0: ref.Zero, n1: ref.Zero}
		}}
}

func main() {
	ex.Run("C24", "model_checking", func(c *ex.Ctx) {
		e := engine(c)
		e.Trees()
		c.Extra["per_swap"] = "every swap of every history is also reversed twice (sell what was bought; buy back what was sold) and split in up to 6 ways"
	}, func(c *ex.Ctx, raw json.RawMessage) string { return engine(c).Replay(raw) })
}
