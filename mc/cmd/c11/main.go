// C11: a strategy's valuation is what liquidating it would return, without fees.
package main

import (
	"encoding/json"
	"fmt"

	"uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
	"verifmc/strat"
)

// judge values the strategy at the end of the history: never having asked before
// (histories below the full depth) or having asked at every moment before (full depth);
// thorough: at every set of the last three moments as well.
func judge(n *strat.Node) string {
	k := uint(len(n.Steps))
	asks := []uint{0}
	if n.S.Long > 0 || len(n.Path) == n.S.Depth {
		asks[0] = strat.All(len(n.Steps))
	}
	if n.C.Thorough {
		asks = asks[:0]
		m := k
		if n.S.Long > 0 {
			m = 0
		}
		if m > 3 {
			m = 3
		}
		for a := uint(0); a < 1<<m; a++ {
			asks = append(asks, a<<(k-m))
		}
		asks = append(asks, strat.All(len(n.Steps)))
	}
	for _, a := range asks {
		if m := valued(n, a); m != "" {
			if a != 0 {
				m += fmt.Sprintf(" (amounts asked for before at moments %b)", a)
			}
			return m
		}
	}
	return ""
}

func valued(n *strat.Node, ask uint) string {
	r := n.RunValued(len(n.Steps), ask)
	if r.Crash != "" {
		return "" // C10's matter
	}
	ts := n.Ticks()
	snap := func() string {
		f0, f1, ok := r.Free()
		s := drv.Snapshot(r.P, ts)
		if ok {
			s += fmt.Sprintf(" free (%v, %v)", drv.GS(f0), drv.GS(f1))
		}
		return s
	}
	before := snap()
	var v [2][2]*uint256.Int
	for i := 0; i < 2; i++ {
		if m := ex.Protect(func() { v[i][0], v[i][1] = r.St.GetAmounts() }); m != "" {
			return "GetAmounts panics: " + m
		}
		if v[i][0] == nil || v[i][1] == nil {
			return "GetAmounts returns no amounts"
		}
		if s := snap(); s != before {
			return "asking for the amounts changed the strategy: " + drv.Diff(before, s)
		}
	}
	if !drv.SameInt(v[0][0], v[1][0]) || !drv.SameInt(v[0][1], v[1][1]) {
		return fmt.Sprintf("asking twice gives (%v, %v) and (%v, %v)", drv.GS(v[0][0]), drv.GS(v[0][1]), drv.GS(v[1][0]), drv.GS(v[1][1]))
	}
	v0, v1 := drv.GS(v[0][0]), drv.GS(v[0][1])
	f0, f1, ok := n.Poke(r)
	if !ok {
		n.C.Class("positions not found", 1)
		return ""
	}
	r.Do(strat.Act{S: 'L'})
	if r.Crash != "" {
		return ""
	}
	if r.R0 == nil || r.R1 == nil {
		return "BurnAll returns no amounts"
	}
	b0, b1 := drv.GS(r.R0), drv.GS(r.R1)
	if ref.Add(v0, f0).Cmp(b0) != 0 || ref.Add(v1, f1).Cmp(b1) != 0 {
		return fmt.Sprintf("reported amounts (%v, %v); liquidating returns (%v, %v), of which uncollected fees (%v, %v)", v0, v1, b0, b1, f0, f1)
	}
	if f0.Sign() > 0 || f1.Sign() > 0 {
		n.C.Distinct.Add(1)
	}
	return ""
}

func engine(c *ex.Ctx) *strat.Engine {
	depth := 3
	if c.Thorough {
		depth = 4
	}
	return &strat.Engine{C: c, Scns: append(append(strat.Scenarios(c.Thorough, depth), strat.Longs(c.Thorough)...), append(strat.Wholes(c.Thorough), strat.Edges(c.Thorough)...)...), Judge: judge}
}

func main() {
	ex.Run("C11", "model_checking", func(c *ex.Ctx) {
		engine(c).Run()
		c.Extra["valuations_with_uncollected_fees"] = c.Distinct.Get()
	}, func(c *ex.Ctx, raw json.RawMessage) string { return engine(c).Replay(raw) })
}
