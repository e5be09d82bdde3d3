package main

import (
	"fmt"

	"uniswap-simulator/lib/pool"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/hist"
	"verifmc/ref"
	"verifmc/scn"
)

// CrowdCase: a history of thousands of operations on hundreds of ranges, with bad requests in between.
type CrowdCase struct {
	Crowd string
	Every int // bad requests before every how manieth operation
}

// bad are requests that the contract rejects in state r.
func bad(r *ref.Pool, near drv.Op, i int) (out []drv.Op) {
	sp := r.Spacing
	c := r.Tick / sp * sp
	end := ref.MaxTick/sp*sp + sp
	lo, hi := near.Lo, near.Hi
	if lo >= hi {
		lo, hi = c-sp, c+sp
	}
	one, big := ref.One, ref.Pow2(120)
	cand := []drv.Op{
		drv.Mint(hi, lo, big), drv.EMint(lo, lo, one), drv.Mint(-end, hi, one), drv.EMint(lo, end, one), drv.Mint(lo, hi, ref.Zero), drv.EMint(lo, hi, ref.Zero),
		drv.Burn(lo, hi, big), drv.Burn(lo-sp, hi+sp, one), drv.Burn(lo+3*sp, hi+4*sp, ref.Zero), drv.Burn(hi, lo, one),
		drv.In(true, ref.Zero, ref.Zero), drv.Out(false, ref.Zero, ref.Zero), drv.In(true, big, ref.Add(r.P, one)), drv.In(false, big, ref.Sub(r.P, one)),
		drv.Out(true, big, ref.Add(r.P, one)), drv.Out(false, big, ref.Sub(r.P, one)), drv.In(true, big, ref.MinSqrt), drv.In(false, big, ref.MaxSqrt),
	}
	for j := range cand {
		o := cand[(i+j)%len(cand)]
		if o.K != "in" && o.K != "out" && o.Lo < o.Hi && (o.Lo < -end || o.Hi > end) {
			continue
		}
		if _, _, _, ok := drv.TryRef(r, o); !ok {
			out = append(out, o)
		}
	}
	return
}

func (k CrowdCase) run(c *ex.Ctx, ss []*hist.Scn, beat func()) (msg string) {
	var s *hist.Scn
	for _, x := range ss {
		if x.Name == k.Crowd {
			s = x
		}
	}
	if s == nil {
		return ""
	}
	u := drv.Universe(s.Pre)
	r := ref.NewPool(s.Fee, s.P)
	p, t := drv.NewReal(s.Fee, s.P), drv.NewReal(s.Fee, s.P)
	same := func(p, t *pool.Pool, what string) string {
		if a, b := drv.Snapshot(p, u), drv.Snapshot(t, u); a != b {
			return what + ": " + drv.Diff(b, a)
		}
		return ""
	}
	tried := int64(0)
	for i, o := range s.Pre {
		beat()
		if i%k.Every == k.Every-1 {
			bs := bad(r, o, i)
			for _, q := range bs {
				tried++
				if _, _, pan, mod := drv.Apply(p, q); pan == nil {
					return fmt.Sprintf("after %d operations %v was carried out, the contract rejects it", i, q)
				} else if mod != "" {
					return fmt.Sprintf("rejected %v: %s", q, mod)
				}
				if i%(k.Every*16) == k.Every-1 {
					if m := same(p, t, fmt.Sprintf("after %d operations the rejected %v left a trace", i, q)); m != "" {
						return m
					}
				}
			}
			if m := same(p, t, fmt.Sprintf("after %d operations the rejected %v left a trace", i, bs)); m != "" {
				return m
			}
		}
		drv.RefApply(r, o)
		x0, x1, p1, _ := drv.Apply(p, o)
		y0, y1, p2, _ := drv.Apply(t, o)
		if (p1 == nil) != (p2 == nil) || !drv.SameInt(x0, y0) || !drv.SameInt(x1, y1) {
			return fmt.Sprintf("operation %d %v gives (%v, %v, panic %v) after rejected requests, (%v, %v, panic %v) had they never been made", i, o, drv.GS(x0), drv.GS(x1), p1, drv.GS(y0), drv.GS(y1), p2)
		}
	}
	c.Class("rejected requests in long histories", tried)
	return same(p, t, "in the end the pool differs from one that never got the rejected requests")
}

func crowds(c *ex.Ctx) {
	ss := scn.Crowds(150, c.Thorough)
	var ks []CrowdCase
	for _, s := range ss {
		for _, e := range []int{3, 11, 29} {
			ks = append(ks, CrowdCase{s.Name, e})
		}
	}
	c.Par(len(ks), func(w, i int) {
		n := 0
		m := ""
		if e := ex.Protect(func() {
			m = ks[i].run(c, ss, func() {
				if n++; n%50 == 1 {
					c.Beat(w, func() interface{} { return ks[i] })
				}
			})
		}); e != "" {
			m = "panic: " + e
		}
		if m != "" {
			c.Fail(ks[i], fmt.Sprintf("%s: %s", ks[i].Crowd, m))
		}
		c.Traces.Add(1)
		c.States.Add(int64(n))
		c.Transitions.Add(int64(n))
		c.Idle(w)
	})
}
