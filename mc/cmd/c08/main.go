// C08: clones are complete and independent.
package main

import (
	"encoding/json"
	"math/big"

	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
	"verifmc/strat"
)

type B = *big.Int

func main() {
	ex.Run("C08", "model_checking", func(c *ex.Ctx) {
		crowds(c)
		ps, ss := poolScns(c.Thorough), sysScns(c.Thorough)
		type task struct {
			p     *poolScn
			pre   []int
			s     *sysScn
			start int
		}
		var ts []task
		for _, s := range ss {
			for i := 0; i < nstarts; i++ {
				ts = append(ts, task{s: s, start: i})
			}
		}
		for _, p := range ps {
			for _, h := range p.pre {
				ts = append(ts, task{p: p, pre: h})
			}
		}
		c.Par(len(ts), func(w, i int) {
			if t := ts[i]; t.p != nil {
				t.p.explore(c, w, t.pre)
			} else {
				t.s.explore(c, w, t.start)
			}
		})
		c.Extra["pool_scenarios"] = len(ps)
		c.Extra["strategy_pairs"] = len(ss)
		c.Assumptions = append(c.Assumptions, "at most three pools, or two strategies, exist at a time; operations the contract rejects are C22's matter")
	}, func(c *ex.Ctx, raw json.RawMessage) string {
		var q CrowdCase
		if json.Unmarshal(raw, &q) == nil && q.Crowd != "" {
			return q.run(c.Thorough, func() {})
		}
		var k SysCase
		if json.Unmarshal(raw, &k) != nil {
			return ""
		}
		for _, s := range sysScns(c.Thorough) {
			if s.name == k.Scenario {
				return s.replay(k.Events)
			}
		}
		var p PoolCase
		if json.Unmarshal(raw, &p) != nil {
			return ""
		}
		for _, s := range poolScns(c.Thorough) {
			if s.Name == p.Scenario {
				return s.run(&solo{s, map[string]*alone{}}, p.Before, p.Events)
			}
		}
		return ""
	})
}

// replay runs one sequence with the ticks its strategies use as the universe.
func (s *sysScn) replay(evs []sev) string {
	ticks := map[int]bool{}
	base := ref.NewPool(s.fee, s.p)
	for _, o := range s.pre {
		drv.RefApply(base, o)
	}
	var st [3]*strat.Ref
	mark := func(p *ref.Pool) {
		for t := range p.Ticks {
			ticks[t] = true
		}
	}
	mark(base)
	for _, e := range evs {
		switch {
		case e.Who == 0:
			drv.RefApply(base, s.base[e.Act])
			mark(base)
		case e.Act < 0:
			st[e.Who] = strat.NewRef(s.kinds[e.Who-1], s.a0, s.a1, base.Clone(), s.k)
		default:
			y, _, _, ok := strat.Next(st[e.Who], s.acts[e.Act])
			if !ok {
				return ""
			}
			st[e.Who] = y
			mark(y.P)
		}
	}
	o := &sworld{s: s, m: map[string]*alone{}}
	for t := range ticks {
		o.univ = append(o.univ, t)
	}
	return s.run(o, evs)
}
