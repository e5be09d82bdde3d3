package main

import (
	"fmt"
	"math/big"

	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
)

// crowdCase: very many accounts in one pool. Kind "lower": two lower ends next to each other with
// upper ends whose differences are every multiple of the spacing there is; "upper": the mirror
// image; "mirror": ends with every combination of signs. No two different accounts may ever be the same one.
type crowdCase struct {
	Fee  int
	Kind string
}

// basis: numbers below n such that every difference below n occurs.
func basis(n int) (r []int) {
	k := 1
	for k*k < n {
		k++
	}
	for i := 0; i < k; i++ {
		r = append(r, i)
	}
	for i := k; i < n; i += k {
		r = append(r, i)
	}
	return append(r, n-1)
}

func (k crowdCase) ranges() (r [][2]int) {
	sp := ref.Spacing[k.Fee]
	m := ref.MaxTick / sp
	seen := map[[2]int]bool{}
	add := func(lo, hi int) {
		x := [2]int{lo * sp, hi * sp}
		if lo < hi && lo >= -m && hi <= m && !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	switch k.Kind {
	case "lower":
		for _, b := range basis(2*m - 1) {
			add(-m, -m+2+b)
			add(-m+1, -m+2+b)
		}
	case "upper":
		for _, b := range basis(2*m - 1) {
			add(m-2-b, m)
			add(m-2-b, m-1)
		}
	case "mirror":
		var g []int
		for _, x := range []int{1, 2, 3, 4, 9, 10, 11, 12, 25, 64, 99, 100, 101, 110, 128, 255, 256, 257, 512, 1000, 1001, 1010, 1024, 3276, 3277, 4096, 6553, 6554, 8192, 10000, 16384, 32768, 65535, 65536} {
			if x <= m {
				g = append(g, x, -x)
			}
		}
		g = append(g, 0, m, -m, m-1, 1-m)
		for _, a := range g {
			for _, b := range g {
				add(a, b)
			}
		}
	}
	return
}

func (k crowdCase) run(beat func()) (msg string) {
	rs := k.ranges()
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("%d accounts (%v): panic: %v", len(rs), k, e)
		}
	}()
	price := ref.SqrtRatioAtTick(5)
	r, p := ref.NewPool(k.Fee, price), drv.NewReal(k.Fee, price)
	do := func(o drv.Op) string {
		beat()
		r0, r1 := drv.RefApply(r, o)
		x0, x1, pan, _ := drv.Apply(p, o)
		if pan != nil {
			return fmt.Sprintf("%d accounts (%v): %v panicked: %v", len(rs), k, o, pan)
		}
		if r0 != nil && (!drv.Same(x0, r0) || !drv.Same(x1, r1)) {
			return fmt.Sprintf("%d accounts (%v): %v gave (%v, %v), alone in its account it would be (%v, %v)", len(rs), k, o, drv.GS(x0), drv.GS(x1), r0, r1)
		}
		return ""
	}
	liq := func(i int) *big.Int { return ref.N(1_000_000_000_000 + int64(i)*int64(i)) }
	flash := drv.Flash(ref.S("1000000000000000"), ref.S("7000000000000000"))
	end := ref.MaxTick / ref.Spacing[k.Fee] * ref.Spacing[k.Fee]
	if m := do(drv.EMint(-end, end, liq(0))); m != "" {
		return m
	}
	for i, x := range rs {
		if m := do(drv.Mint(x[0], x[1], liq(i))); m != "" {
			return m
		}
		if i%97 == 0 {
			if m := do(flash); m != "" {
				return m
			}
		}
	}
	if m := do(flash); m != "" {
		return m
	}
	// every other account takes its fees out, in the reverse order, and is left alone from then on
	for i := len(rs) - 1; i >= 0; i -= 2 {
		for _, o := range []drv.Op{drv.Burn(rs[i][0], rs[i][1], ref.Zero), drv.Collect(rs[i][0], rs[i][1])} {
			if m := do(o); m != "" {
				return m
			}
		}
	}
	for i, x := range rs {
		beat()
		if _, _, pan, _ := drv.Apply(p, drv.Burn(x[0], x[1], ref.Add(liq(i), ref.One))); pan == nil {
			return fmt.Sprintf("%d accounts (%v): [%d,%d] holds %v but one more could be burned from it", len(rs), k, x[0], x[1], liq(i))
		}
		for _, o := range []drv.Op{drv.Burn(x[0], x[1], liq(i)), drv.Collect(x[0], x[1])} {
			if m := do(o); m != "" {
				return m
			}
		}
		if i%97 == 0 {
			if m := do(flash); m != "" {
				return m
			}
		}
	}
	return ""
}

func accounts(c *ex.Ctx) {
	var ks []crowdCase
	for _, f := range []int{500, 3000, 10000} {
		for _, d := range []string{"lower", "upper", "mirror"} {
			ks = append(ks, crowdCase{f, d})
		}
	}
	c.Par(len(ks), func(w, i int) {
		k := ks[i]
		n := int64(len(k.ranges()))
		if m := k.run(func() { c.Beat(w, func() interface{} { return k }) }); m != "" {
			c.Fail(k, m)
		}
		c.Traces.Add(1)
		c.Transitions.Add(5 * n)
		c.Class("accounts kept apart in one pool", n)
		c.Idle(w)
	})
}
