package main

import (
	"fmt"
	"sync"

	"uniswap-simulator/lib/pool"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/hist"
	"verifmc/ref"
	"verifmc/scn"
)

// CrowdCase: a pool with hundreds of ranges is copied at operation At of its long history,
// the copy is copied again, and then the original goes on with its history while the copies do other things.
type CrowdCase struct {
	Crowd  string
	At     int
	Sparse int // every how manieth operation the copies execute
}

// other is what a copy taken at operation at does: operations of the history, last first, as far as the contract accepts them.
func other(s *hist.Scn, r *ref.Pool, at, sparse, max int, beat func()) (h []drv.Op) {
	for i := len(s.Pre) - 1; i >= 0 && len(h) < max; i -= sparse {
		beat()
		if q, _, _, ok := drv.TryRef(r, s.Pre[i]); ok {
			r = q
			h = append(h, s.Pre[i])
		}
	}
	return
}

func crowdCases(thorough bool) (ks []CrowdCase) {
	n := 6
	if thorough {
		n = 14
	}
	for _, s := range crowdScns(thorough) {
		for i := 1; i <= n; i++ {
			ks = append(ks, CrowdCase{s.Name, len(s.Pre) * i / (n + 1), 3 + i%5})
		}
	}
	return
}

const crowdSize = 220

var (
	crowdOnce sync.Once
	crowdList []*hist.Scn
)

func crowdScns(thorough bool) []*hist.Scn {
	crowdOnce.Do(func() { crowdList = scn.Crowds(crowdSize, thorough) })
	return crowdList
}

// strand is one pool with the operations it still has to execute, and what it did.
type strand struct {
	p    *pool.Pool
	ops  []drv.Op
	done []string
}

func (t *strand) step() (string, []*ui.Int) {
	o := t.ops[0]
	t.ops = t.ops[1:]
	r0, r1, pan, mod := drv.Apply(t.p, o)
	if pan != nil {
		t.done = append(t.done, fmt.Sprint(o, " panics ", pan))
		return "", nil
	}
	if mod != "" {
		return fmt.Sprintf("%v changes its argument: %s", o, mod), nil
	}
	t.done = append(t.done, fmt.Sprint(o, " returns ", show(r0), " ", show(r1)))
	return "", []*ui.Int{r0, r1}
}

func (k CrowdCase) run(thorough bool, beat func()) (msg string) {
	var s *hist.Scn
	for _, x := range crowdScns(thorough) {
		if x.Name == k.Crowd {
			s = x
		}
	}
	if s == nil {
		return ""
	}
	r := ref.NewPool(s.Fee, s.P)
	for _, o := range s.Pre[:k.At] {
		drv.RefApply(r, o)
	}
	alt := [][]drv.Op{s.Pre[k.At:], other(s, r, k.At, k.Sparse, 250, beat), other(s, r, k.At, k.Sparse+2, 150, beat)}
	univ := drv.Universe(s.Pre)
	begin := func() *pool.Pool {
		p := drv.NewReal(s.Fee, s.P)
		for i, o := range s.Pre[:k.At] {
			drv.Apply(p, o)
			if i%100 == 0 {
				beat()
			}
		}
		return p
	}
	if m := ex.Protect(func() { msg = k.compare(begin, alt, univ, beat) }); m != "" {
		return "panic: " + m
	}
	return
}

func (k CrowdCase) compare(begin func() *pool.Pool, alt [][]drv.Op, univ []int, beat func()) string {
	// each alone
	var want []*strand
	var first string
	var snaps []string
	for _, ops := range alt {
		t := &strand{p: begin(), ops: ops}
		first = drv.Snapshot(t.p, univ)
		for len(t.ops) > 0 {
			beat()
			if m, _ := t.step(); m != "" {
				return m
			}
		}
		want = append(want, t)
		snaps = append(snaps, drv.Snapshot(t.p, univ))
	}
	// together
	p := begin()
	a := p.Clone()
	b := a.Clone()
	ts := []*strand{{p: p, ops: alt[0]}, {p: a, ops: alt[1]}, {p: b, ops: alt[2]}}
	names := []string{"the original", "the copy", "the copy of the copy"}
	for i, t := range ts {
		if g := drv.Snapshot(t.p, univ); g != first {
			return fmt.Sprintf("%s differs at once: %s", names[i], drv.Diff(first, g))
		}
	}
	var hs []held
	for more := true; more; {
		more = false
		for i, t := range ts {
			if len(t.ops) == 0 {
				continue
			}
			beat()
			more = true
			m, xs := t.step()
			if m != "" {
				return names[i] + ": " + m
			}
			n := len(t.done) - 1
			if t.done[n] != want[i].done[n] {
				return fmt.Sprintf("%s, %d operations after the copies were taken: %s; alone: %s", names[i], n, t.done[n], want[i].done[n])
			}
			for _, x := range xs {
				if x != nil {
					hs = append(hs, held{x, *x, t.done[n]})
				}
			}
		}
	}
	for i, t := range ts {
		if g := drv.Snapshot(t.p, univ); g != snaps[i] {
			return fmt.Sprintf("%s does not end as it would alone: %s", names[i], drv.Diff(snaps[i], g))
		}
	}
	for _, h := range hs {
		if *h.x != h.was {
			return fmt.Sprintf("a result was changed later: %s, now %v", h.what, drv.G(h.x))
		}
	}
	return ""
}

func crowds(c *ex.Ctx) {
	ks := crowdCases(c.Thorough)
	c.Par(len(ks), func(w, i int) {
		k := ks[i]
		n := 0
		m := k.run(c.Thorough, func() {
			if n++; n%50 == 1 {
				c.Beat(w, func() interface{} { return k })
			}
		})
		if m != "" {
			c.Fail(k, fmt.Sprintf("%s, copied after %d operations: %s", k.Crowd, k.At, m))
		}
		c.Traces.Add(1)
		c.States.Add(int64(n))
		c.Transitions.Add(int64(n))
		c.Class("copies of pools with hundreds of ranges", 2)
		c.Idle(w)
	})
}
