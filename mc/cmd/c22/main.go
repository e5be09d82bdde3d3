// C22: rejected pool operations leave no trace.
package main

import (
	"encoding/json"
	"fmt"

	"uniswap-simulator/lib/pool"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/hist"
	"verifmc/scn"
)

// twin is a second real pool that never gets the requests the contract rejects.
type twin struct {
	p   *pool.Pool
	bad string
	c   *ex.Ctx
}

func ghost(n *hist.Node) {
	t := n.User.(*twin)
	if t.bad != "" {
		return
	}
	if !n.Accept {
		if n.Panic == nil {
			t.bad = fmt.Sprintf("%v was carried out, the contract rejects it", n.Op)
			return
		}
		if n.Mod != "" {
			t.bad = fmt.Sprintf("rejected %v: %s", n.Op, n.Mod)
			return
		}
		if a, b := drv.Snapshot(n.Real, n.S.Universe()), drv.Snapshot(t.p, n.S.Universe()); a != b {
			t.bad = fmt.Sprintf("rejected %v left a trace: %s", n.Op, drv.Diff(b, a))
		}
		return
	}
	y0, y1, pan, _ := drv.Apply(t.p, n.Op)
	switch {
	case (pan == nil) != (n.Panic == nil):
		t.bad = fmt.Sprintf("%v: panics with %v after a rejected request, with %v had the request never been made", n.Op, n.Panic, pan)
	case pan != nil:
		// Both fail alike: not this property's matter.
	case !drv.SameInt(n.X0, y0) || !drv.SameInt(n.X1, y1):
		t.bad = fmt.Sprintf("%v returns (%v, %v) after a rejected request, (%v, %v) had the request never been made", n.Op, drv.GS(n.X0), drv.GS(n.X1), drv.GS(y0), drv.GS(y1))
	default:
		if a, b := drv.Snapshot(n.Real, n.S.Universe()), drv.Snapshot(t.p, n.S.Universe()); a != b {
			t.bad = fmt.Sprintf("after %v the pool differs from one that never got the rejected request: %s", n.Op, drv.Diff(b, a))
		}
	}
}

func step(n *hist.Node) string { return n.User.(*twin).bad }

func engine(c *ex.Ctx) *hist.Engine {
	return &hist.Engine{C: c, Scns: scn.Reject(c.Thorough), Step: step, Rejects: true,
		Init:  func(s *hist.Scn) interface{} { return &twin{p: drv.NewReal(s.Fee, s.P), c: c} },
		Ghost: ghost}
}

func main() {
	ex.Run("C22", "model_checking", func(c *ex.Ctx) {
		crowds(c)
		e := engine(c)
		e.Trees()
		c.Assumptions = append(c.Assumptions, "which requests the contract rejects is decided by the reference model; burning untracked liquidity that nobody provided is outside the alphabets, since the simulator keeps no account to check it against")
	}, func(c *ex.Ctx, raw json.RawMessage) string {
		var k CrowdCase
		if json.Unmarshal(raw, &k) == nil && k.Crowd != "" {
			return k.run(c, scn.Crowds(150, c.Thorough), func() {})
		}
		return engine(c).Replay(raw)
	})
}
