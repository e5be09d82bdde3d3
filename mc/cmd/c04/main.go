// C04: active liquidity, tick nets and price stay mutually consistent.
package main

import (
	"encoding/json"
	"fmt"

	"verifmc/drv"
	"verifmc/ex"
	"verifmc/hist"
	"verifmc/led"
	"verifmc/ref"
	"verifmc/scn"
)

func step(n *hist.Node) (msg string) {
	if n.Panic != nil {
		return "" // a crash is C01's and C22's matter; the books are unchanged
	}
	l := n.User.(*led.Ledger)
	p := n.Real
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("after %v: panic while observing the ticks: %v", n.Op, e)
		}
	}()
	P := drv.G(p.SqrtRatioX96)
	if P.Cmp(ref.MinSqrt) < 0 || P.Cmp(ref.MaxSqrt) >= 0 {
		return fmt.Sprintf("after %v: price %v outside the range", n.Op, P)
	}
	t := ref.TickAtSqrtRatio(P)
	if p.TickCurrent != t && !(p.TickCurrent == t-1 && P.Cmp(ref.SqrtRatioAtTick(t)) == 0) {
		return fmt.Sprintf("after %v: current tick %d but the price %v belongs to tick %d", n.Op, p.TickCurrent, P, t)
	}
	if p.TickCurrent == t-1 && !(n.Op.Z && (n.Op.K == "in" || n.Op.K == "out")) && n.Before != nil && n.Before.Tick != p.TickCurrent {
		return fmt.Sprintf("after %v: current tick %d one below the price's tick although the price did not come from above", n.Op, p.TickCurrent)
	}
	if want := l.At(p.TickCurrent); !drv.Same(p.Liquidity, want) {
		return fmt.Sprintf("after %v: active liquidity %v, the open ranges containing tick %d hold %v", n.Op, drv.G(p.Liquidity), p.TickCurrent, want)
	}
	net, gross := l.Ticks()
	for _, u := range n.S.Universe() {
		at, init := p.TickData.NextInitializedTickWithinOneWord(u, true)
		init = init && at == u
		g, want := gross[u]
		if init != want {
			return fmt.Sprintf("after %v: tick %d initialised=%v, open ranges start or end there: %v", n.Op, u, init, want)
		}
		if !want {
			continue
		}
		v := p.TickData.GetTick(u)
		if !drv.Same(v.LiquidityNet, net[u]) || !drv.Same(v.LiquidityGross, g) {
			return fmt.Sprintf("after %v: tick %d net %v gross %v, open ranges give net %v gross %v", n.Op, u, drv.GS(v.LiquidityNet), drv.G(v.LiquidityGross), net[u], g)
		}
	}
	// No tick is initialised anywhere near the used ones except those.
	sp := n.S.Spacing()
	if len(n.S.Universe()) > 0 {
		un := n.S.Universe()
		lo, hi := un[0]-sp, un[len(un)-1]+sp
		for q, i := hi, 0; q >= lo && i < 4000; i++ {
			at, init := p.TickData.NextInitializedTickWithinOneWord(q, true)
			if init {
				if _, ok := gross[at]; !ok {
					return fmt.Sprintf("after %v: tick %d is initialised but no open range starts or ends there", n.Op, at)
				}
			}
			if at > q {
				return fmt.Sprintf("after %v: searching down from %d found %d", n.Op, q, at)
			}
			q = at - 1
			if hi-lo > 400000 && !init {
				break
			}
		}
	}
	return ""
}

func engine(c *ex.Ctx) *hist.Engine {
	return &hist.Engine{C: c, Scns: scn.Inv(c.Thorough), Step: step,
		Init:  func(*hist.Scn) interface{} { return led.New() },
		Ghost: func(n *hist.Node) { n.User.(*led.Ledger).Note(n) },
	}
}

func main() {
	ex.Run("C04", "model_checking", func(c *ex.Ctx) {
		e := engine(c)
		e.Trees()
		c.Assumptions = append(c.Assumptions, "the harness keeps its own list of open ranges; ticks are looked for at every tick the alphabet mentions and by walking the tick search between them")
	}, func(c *ex.Ctx, raw json.RawMessage) string { return engine(c).Replay(raw) })
}
