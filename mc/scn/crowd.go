package scn

import (
	"fmt"

	"verifmc/drv"
	"verifmc/hist"
	"verifmc/ref"
)

// Crowd is one long history: n ranges are opened in some layout, traded over from end to end,
// touched, and closed again in some order. It has no alphabet: the prelude is all of it, and
// every step is judged. Its purpose is length: many ticks, many positions, many operations.
func Crowd(fee, centre, n int, layout, shrink string) *hist.Scn {
	sp := ref.Spacing[fee]
	c := centre * sp
	L := e18
	s := &hist.Scn{Name: fmt.Sprintf("crowd_fee%d_c%d_%d_%s_%s", fee, c, n, layout, shrink), Fee: fee, P: price(c, sp, "mid"), Depth: 1}
	type rng struct{ lo, hi int }
	var rs []rng
	seen := map[rng]bool{}
	for i := 0; i < n; i++ {
		var x rng
		switch layout {
		case "side": // one beside the other
			x = rng{i - n/2, i - n/2 + 1}
		case "nested": // all around the price
			x = rng{-i - 1, i + 1}
		case "stairs": // overlapping ones
			x = rng{i - n/2, i - n/2 + 17}
		case "fan": // all with the same lower end
			x = rng{-3, i - 1}
			if x.hi <= x.lo {
				x.hi = n + 5
			}
		case "words": // several words apart
			x = rng{(i - n/2) * 13, (i-n/2)*13 + 5 + i%11}
		}
		x.lo, x.hi = clampT((centre+x.lo)*sp, sp), clampT((centre+x.hi)*sp, sp)
		if x.lo < x.hi && !seen[x] {
			seen[x] = true
			rs = append(rs, x)
		}
	}
	lo, hi := rs[0].lo, rs[0].hi
	for _, x := range rs {
		if x.lo < lo {
			lo = x.lo
		}
		if x.hi > hi {
			hi = x.hi
		}
	}
	r := ref.NewPool(fee, s.P)
	do := func(os ...drv.Op) { // what the contract accepts
		for _, o := range os {
			if q, _, _, ok := drv.TryRef(r, o); ok {
				r = q
				s.Pre = append(s.Pre, o)
			}
		}
	}
	wlo, whi := clampT(lo-5*sp, sp), clampT(hi+5*sp, sp)
	do(drv.EMint(wlo, whi, frac(L, 1, 10)))
	liq := func(i int) B { return ref.Add(frac(L, int64(1+i%7), int64(10+i%13)), ref.N(int64(i))) }
	s0, _, s1, _ := amounts(c, sp, L)
	huge := ref.Pow2(110)
	sweep := func() {
		do(drv.In(true, huge, Sq(lo)), drv.In(false, huge, Sq(hi)), drv.Out(true, huge, Sq(lo+(hi-lo)/3)), drv.Out(false, huge, Sq(c+sp/2)))
	}
	trade := func(i int) {
		switch i % 6 {
		case 0:
			do(drv.In(true, s0, Sq(wlo)))
		case 1:
			do(drv.In(false, s1, Sq(whi)))
		case 2:
			do(drv.Out(false, s0, Sq(whi)))
		case 3:
			do(drv.Flash(s0, ref.N(int64(i))))
		case 4:
			do(drv.Out(true, s1, Sq(wlo)))
		case 5:
			do(drv.Flash(ref.One, s1))
		}
	}
	for i, x := range rs {
		if i%5 == 4 && layout != "fan" {
			do(drv.EMint(x.lo, x.hi, liq(i)))
		} else {
			do(drv.Mint(x.lo, x.hi, liq(i)))
		}
		if i%3 == 0 {
			trade(i / 3)
		}
	}
	sweep()
	for i, x := range rs {
		if i%5 == 4 && layout != "fan" {
			continue
		}
		switch i % 4 {
		case 0:
			do(drv.Burn(x.lo, x.hi, ref.Zero))
		case 1:
			do(drv.Burn(x.lo, x.hi, frac(liq(i), 1, 3)), drv.Collect(x.lo, x.hi), drv.Mint(x.lo, x.hi, frac(liq(i), 1, 3)))
		case 2:
			do(drv.Mint(x.lo, x.hi, ref.One), drv.Burn(x.lo, x.hi, ref.One))
		}
		if i%10 == 0 {
			trade(i / 10)
		}
	}
	for i := 0; i < 3*n; i++ { // a long time without a change of ranges
		trade(i)
	}
	sweep()
	var order []int
	for i := range rs {
		switch shrink {
		case "up":
			order = append(order, i)
		case "down":
			order = append(order, len(rs)-1-i)
		default:
			if i%2 == 0 {
				order = append(order, i/2)
			} else {
				order = append(order, len(rs)-1-i/2)
			}
		}
	}
	for j, i := range order {
		x := rs[i]
		if i%5 == 4 && layout != "fan" {
			do(drv.EBurn(x.lo, x.hi, liq(i)))
		} else {
			do(drv.Burn(x.lo, x.hi, liq(i)))
			if j%2 == 0 {
				do(drv.Collect(x.lo, x.hi))
			}
		}
		if j%4 == 0 {
			trade(j / 4)
		}
	}
	for i, x := range rs { // all of it once more: opened again
		if i%8 == 0 {
			do(drv.Mint(x.lo, x.hi, liq(i)))
		}
	}
	sweep()
	return s
}

// Crowds: n ranges in every layout.
func Crowds(n int, thorough bool) []*hist.Scn {
	if thorough {
		n *= 3
	}
	r := []*hist.Scn{
		Crowd(500, 5530, n, "side", "ends"), Crowd(3000, -1, n, "nested", "up"), Crowd(10000, 0, n, "stairs", "down"),
		Crowd(500, -100, n/2, "fan", "down"), Crowd(500, 0, n/2, "words", "ends"), Crowd(3000, 700, n/2, "words", "up"),
	}
	if thorough {
		r = append(r, Crowd(500, -20000, n, "side", "up"), Crowd(500, 300, n, "nested", "down"), Crowd(3000, 2, n, "stairs", "ends"), Crowd(10000, 10, n/2, "side", "down"))
	}
	return r
}
