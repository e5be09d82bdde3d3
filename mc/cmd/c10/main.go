// C10: strategies conserve their budget and liquidate completely.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
	"verifmc/strat"
)

type B = *big.Int

// over sums a cost or payout over the strategy's open ranges at price q.
func over(open []strat.Range, q *ref.Pool, up bool) (a0, a1 B) {
	a0, a1 = ref.Zero, ref.Zero
	for _, o := range open {
		a, b := ref.SqrtRatioAtTick(o.Lo), ref.SqrtRatioAtTick(o.Hi)
		switch {
		case q.Tick < o.Lo:
			a0 = ref.Add(a0, ref.Amount0Delta(a, b, o.L, up))
		case q.Tick < o.Hi:
			a0 = ref.Add(a0, ref.Amount0Delta(q.P, b, o.L, up))
			a1 = ref.Add(a1, ref.Amount1Delta(a, q.P, o.L, up))
		default:
			a1 = ref.Add(a1, ref.Amount1Delta(a, b, o.L, up))
		}
	}
	return
}

func pair(a, b B) string { return fmt.Sprintf("(%v, %v)", a, b) }

func judge(n *strat.Node) string {
	l := n.Last()
	r := n.RunValued(len(n.Steps), strat.All(len(n.Steps))) // valued at every moment
	if r.Crash != "" {
		return fmt.Sprintf("%v panics: %s", n.Steps[r.At].Act, r.Crash)
	}
	if m := ex.Protect(func() { r.St.GetAmounts() }); m != "" {
		return "GetAmounts panics: " + m
	}
	x0, x1, ok := r.Free()
	var f0, f1 B
	if ok {
		f0, f1 = drv.GS(x0), drv.GS(x1)
		if f0.Sign() < 0 || f1.Sign() < 0 {
			return fmt.Sprintf("after %v: a free balance is negative: %s", l.Act, pair(f0, f1))
		}
	}
	same := n.SameRanges(r) == "" && drv.Same(r.P.SqrtRatioX96, l.After.P.P)
	placed := l.Act.S == 'I' || l.Act.S == 'R'
	var had0, had1 B // owned before placing, everything liquidated
	if placed {
		had0, had1 = n.S.A0, n.S.A1
		if l.Act.S == 'R' {
			p := n.Run(len(n.Steps) - 1)
			p.Do(strat.Act{S: 'L'})
			if p.Crash != "" || p.R0 == nil || p.R1 == nil {
				return fmt.Sprintf("liquidation before %v failed: %s", l.Act, p.Crash)
			}
			had0, had1 = drv.GS(p.R0), drv.GS(p.R1)
		}
		if (r.R0 == nil) != (r.R1 == nil) || l.Act.S == 'I' && r.R0 == nil { // the replay converts what Init returns
			return fmt.Sprintf("%v returns no amounts", l.Act)
		}
		if r.R0 != nil && r.R1 != nil && (!drv.Same(r.R0, had0) || !drv.Same(r.R1, had1)) {
			return fmt.Sprintf("%v reports %s, the strategy owned %s", l.Act, pair(drv.GS(r.R0), drv.GS(r.R1)), pair(had0, had1))
		}
		if ok && same && n.S.Kind != "IntervalAroundPriceAndSwap" {
			c0, c1 := over(l.After.Open, l.After.P, true)
			if ref.Add(f0, c0).Cmp(had0) != 0 || ref.Add(f1, c1).Cmp(had1) != 0 {
				return fmt.Sprintf("after %v: free %s + paid for the ranges %s is not what it owned %s", l.Act, pair(f0, f1), pair(c0, c1), pair(had0, had1))
			}
		}
		if ok && same && n.S.Kind == "IntervalAroundPriceAndSwap" && (f0.Cmp(l.After.A0) != 0 || f1.Cmp(l.After.A1) != 0) {
			return fmt.Sprintf("after %v: free %s, it should be left with %s", l.Act, pair(f0, f1), pair(l.After.A0, l.After.A1))
		}
	}
	// Liquidation.
	fee0, fee1, found := n.Poke(r)
	open := 0
	for _, p := range r.P.Positions {
		if !p.Liquidity.IsZero() {
			open++
		}
	}
	r.Do(strat.Act{S: 'L'})
	if r.Crash != "" {
		return "BurnAll panics: " + r.Crash
	}
	if r.R0 == nil || r.R1 == nil {
		return "BurnAll returns no amounts"
	}
	b0, b1 := drv.GS(r.R0), drv.GS(r.R1)
	if ok {
		if x0, x1, _ = r.Free(); !drv.Same(x0, b0) || !drv.Same(x1, b1) {
			return fmt.Sprintf("BurnAll returns %s, the free balances are %s", pair(b0, b1), pair(drv.GS(x0), drv.GS(x1)))
		}
		if same && found {
			p0, p1 := over(l.After.Open, l.After.P, false)
			if w0, w1 := ref.Add(ref.Add(f0, p0), fee0), ref.Add(ref.Add(f1, p1), fee1); w0.Cmp(b0) != 0 || w1.Cmp(b1) != 0 {
				return fmt.Sprintf("BurnAll returns %s; free %s + principal %s + fees %s", pair(b0, b1), pair(f0, f1), pair(p0, p1), pair(fee0, fee1))
			}
		}
	}
	if placed && n.S.Kind != "IntervalAroundPriceAndSwap" {
		// Placing and liquidating at once costs at most one unit per range, and gains nothing.
		k := ref.N(int64(open))
		for _, d := range []B{ref.Sub(had0, b0), ref.Sub(had1, b1)} {
			if d.Sign() < 0 || d.Cmp(k) > 0 {
				return fmt.Sprintf("owned %s before %v, liquidating right after returns %s", pair(had0, had1), l.Act, pair(b0, b1))
			}
		}
	}
	for _, p := range r.P.Positions {
		if !p.Liquidity.IsZero() || !p.TokensOwed0.IsZero() || !p.TokensOwed1.IsZero() {
			return fmt.Sprintf("after BurnAll a position holds liquidity %v and is owed (%v, %v)", drv.G(p.Liquidity), drv.G(p.TokensOwed0), drv.G(p.TokensOwed1))
		}
	}
	if m := ex.Protect(func() { r.R0, r.R1 = r.St.GetAmounts() }); m != "" || !drv.Same(r.R0, b0) || !drv.Same(r.R1, b1) {
		return fmt.Sprintf("after BurnAll the strategy reports other amounts than BurnAll returned %s %s", pair(b0, b1), m)
	}
	if m := others(n, r); m != "" {
		return "after BurnAll: " + m
	}
	ts := n.Ticks()
	snap := drv.Snapshot(r.P, ts)
	r.Do(strat.Act{S: 'L'})
	if r.Crash != "" {
		return "a second BurnAll panics: " + r.Crash
	}
	if !drv.Same(r.R0, b0) || !drv.Same(r.R1, b1) {
		return fmt.Sprintf("a second BurnAll returns %s after %s", pair(drv.GS(r.R0), drv.GS(r.R1)), pair(b0, b1))
	}
	if s := drv.Snapshot(r.P, ts); s != snap {
		return "a second BurnAll changes the pool: " + drv.Diff(snap, s)
	}
	return ""
}

// others: without the strategy's liquidity the pool holds exactly the other providers' ranges.
func others(n *strat.Node, r *strat.Real) (m string) {
	defer func() {
		if e := recover(); e != nil {
			m = fmt.Sprintf("panic while observing the pool: %v", e)
		}
	}()
	net, gross, at := map[int]B{}, map[int]B{}, ref.Zero
	add := func(x map[int]B, t int, d B) {
		if v, ok := x[t]; ok {
			d = ref.Add(v, d)
		}
		x[t] = d
	}
	for k, v := range n.Last().After.P.Ext {
		if v.Sign() == 0 {
			continue
		}
		add(net, k.Lo, v)
		add(net, k.Hi, ref.Neg(v))
		add(gross, k.Lo, v)
		add(gross, k.Hi, v)
		if k.Lo <= r.P.TickCurrent && r.P.TickCurrent < k.Hi {
			at = ref.Add(at, v)
		}
	}
	if !drv.Same(r.P.Liquidity, at) {
		return fmt.Sprintf("active liquidity %v, the other providers' is %v", drv.GS(r.P.Liquidity), at)
	}
	for _, t := range n.Ticks() {
		i, init := r.P.TickData.NextInitializedTickWithinOneWord(t, true)
		g, want := gross[t]
		if (init && i == t) != want {
			return fmt.Sprintf("tick %d initialised: %v, by other providers: %v", t, init && i == t, want)
		}
		if want {
			if v := r.P.TickData.GetTick(t); !drv.Same(v.LiquidityGross, g) || !drv.Same(v.LiquidityNet, net[t]) {
				return fmt.Sprintf("tick %d net %v gross %v, the other providers' are %v and %v", t, drv.GS(v.LiquidityNet), drv.G(v.LiquidityGross), net[t], g)
			}
		}
	}
	return ""
}

func engine(c *ex.Ctx) *strat.Engine {
	depth := 3
	if c.Thorough {
		depth = 4
	}
	return &strat.Engine{C: c, Scns: append(append(strat.Scenarios(c.Thorough, depth), strat.Longs(c.Thorough)...), append(strat.Wholes(c.Thorough), strat.Edges(c.Thorough)...)...), Judge: judge}
}

func main() {
	ex.Run("C10", "model_checking", func(c *ex.Ctx) {
		c.Assumptions = append(c.Assumptions, "sampled square-root prices below 2^115 (larger ones are documented to be rejected), parameters: half width of at least one tick spacing, at least two samples",
			"histories in which the contract's own liquidity arithmetic overflows are outside the domain")
		engine(c).Run()
	}, func(c *ex.Ctx, raw json.RawMessage) string { return engine(c).Replay(raw) })
}
