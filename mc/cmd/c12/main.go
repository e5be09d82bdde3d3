// C12: strategies place exactly the ranges they document.
package main

import (
	"encoding/json"
	"fmt"

	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
	"verifmc/strat"
)

func judge(n *strat.Node) string {
	l := n.Last()
	if l.Act.S != 'I' && l.Act.S != 'R' {
		return ""
	}
	for _, ask := range []uint{0, strat.All(len(n.Steps))} { // never valued, valued at every moment
		if m := placed(n, l, n.RunValued(len(n.Steps), ask)); m != "" {
			return m
		}
	}
	return ""
}

func placed(n *strat.Node, l *strat.Step, r *strat.Real) string {
	if r.Crash != "" {
		return fmt.Sprintf("%v: panic: %s", n.Steps[r.At].Act, r.Crash)
	}
	if d := n.SameRanges(r); d != "" {
		return fmt.Sprintf("after %v at tick %d: %s (documented ranges: %v)", l.Act, l.Before.P.Tick, d, l.After.Open)
	}
	if a0, a1, ok := r.Free(); ok && (!drv.Same(a0, l.After.A0) || !drv.Same(a1, l.After.A1)) {
		return fmt.Sprintf("after %v: free balances (%v, %v), the documented ranges leave (%v, %v)", l.Act, drv.GS(a0), drv.GS(a1), l.After.A0, l.After.A1)
	}
	sp := l.After.P.Spacing
	if o, ok := r.St.(interface {
		GetCurrentLimitTick() int
		GetDirection() bool
	}); ok && n.S.Kind == "LimitOrder" && l.After.Lim >= ref.MinTick && l.After.Lim <= ref.MaxTick &&
		(o.GetCurrentLimitTick() != l.After.Lim || o.GetDirection() != l.After.LimUp) {
		return fmt.Sprintf("after %v at tick %d: the limit order is said to end at %d (up: %v), it ends at %d (up: %v)", l.Act, l.Before.P.Tick,
			o.GetCurrentLimitTick(), o.GetDirection(), l.After.Lim, l.After.LimUp)
	}
	for _, o := range l.After.Open {
		if o.Lo >= o.Hi || o.Lo < ref.MinTick || o.Hi > ref.MaxTick {
			return fmt.Sprintf("range %v", o)
		}
		if o.Lo%sp != 0 || o.Hi%sp != 0 {
			n.C.Finding(n.S.Kind+"/unaligned", n.Case(), fmt.Sprintf("range %v is not aligned to the pool's tick spacing %d", o, sp))
		}
	}
	return ""
}

func engine(c *ex.Ctx) *strat.Engine {
	depth := 3
	if c.Thorough {
		depth = 4
	}
	return &strat.Engine{C: c, Scns: append(append(strat.Scenarios(c.Thorough, depth), strat.Longs(c.Thorough)...), append(strat.Wholes(c.Thorough), strat.Edges(c.Thorough)...)...), Judge: judge, Wants: func(a strat.Act) bool { return a.S == 'R' }}
}

func main() {
	ex.Run("C12", "model_checking", func(c *ex.Ctx) { engine(c).Run() },
		func(c *ex.Ctx, raw json.RawMessage) string { return engine(c).Replay(raw) })
}
