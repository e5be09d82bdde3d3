// Package scn is the library of closed drivers for pool histories.
package scn

import (
	"fmt"
	"math/big"

	"verifmc/drv"
	"verifmc/hist"
	"verifmc/ref"
)

type B = *big.Int

func Sq(t int) B { return ref.SqrtRatioAtTick(t) }

func frac(l B, n, d int64) B { return ref.Div(ref.Mul(l, ref.N(n)), ref.N(d)) }
func atLeast1(b B) B {
	if b.Sign() == 0 {
		return ref.One
	}
	return b
}

// Conf describes one scenario of the family.
type Conf struct {
	Fee    int
	Centre int    // in tick spacings
	Off    string // "on": price exactly on the centre tick, "+1", "-1": one unit above/below, "mid": half a spacing above
	L      B      // liquidity unit
	Base   bool   // untracked liquidity over a wide range to begin with
	Depth  int
	BFS    int
}

func price(c int, sp int, off string) B {
	p := Sq(c)
	switch off {
	case "on":
		return p
	case "+1":
		return ref.Add(p, ref.One)
	case "-1":
		return ref.Sub(p, ref.One)
	}
	return ref.Div(ref.Add(Sq(c), Sq(c+sp)), ref.N(2))
}

func clampT(t, sp int) int {
	max := ref.MaxTick / sp * sp
	if t > max {
		return max
	}
	if t < -max {
		return -max
	}
	return t
}

// Amounts that move the price by about half a spacing and by about four
// spacings over liquidity l at tick c.
func amounts(c, sp int, l B) (s0, b0, s1, b1 B) {
	up, dn := clampT(c+4*sp, sp), clampT(c-4*sp, sp)
	s0 = atLeast1(ref.Amount0Delta(Sq(c), Sq(clampT(c-sp, sp)+sp/2), l, true))
	b0 = ref.Add(ref.Amount0Delta(Sq(c), Sq(dn), l, true), ref.N(2))
	s1 = atLeast1(ref.Amount1Delta(Sq(c), Sq(c+sp/2), l, true))
	b1 = ref.Add(ref.Amount1Delta(Sq(c), Sq(up), l, true), ref.N(2))
	return
}

// Family builds the general scenario around a centre tick.
func Family(k Conf) *hist.Scn {
	sp := ref.Spacing[k.Fee]
	c := k.Centre * sp
	L := k.L
	s := &hist.Scn{Name: fmt.Sprintf("fee%d_c%d_%s_L%d_base%v", k.Fee, c, k.Off, L.BitLen(), k.Base), Fee: k.Fee, P: price(c, sp, k.Off), Depth: k.Depth, BFS: k.BFS}
	far := 7
	if k.Base {
		s.Pre = append(s.Pre, drv.EMint(clampT(c-far*sp, sp), clampT(c+far*sp, sp), L))
	} else {
		// one tiny far-away range, so that the tick store is not empty
		s.Pre = append(s.Pre, drv.EMint(clampT(c-far*sp, sp), clampT(c-(far-1)*sp, sp), ref.N(3)), drv.EMint(clampT(c+(far-1)*sp, sp), clampT(c+far*sp, sp), ref.N(5)))
	}
	a, b := c-sp, c+sp
	s0, b0, s1, b1 := amounts(c, sp, L)
	l7 := atLeast1(frac(L, 1, 7))
	half := atLeast1(frac(L, 1, 2))
	lo, hi := Sq(clampT(c-6*sp, sp)), Sq(clampT(c+6*sp, sp))
	s.Ops = []drv.Op{
		drv.Mint(a, b, L),
		drv.In(true, s0, lo),
		drv.In(false, s1, hi),
		drv.In(true, b0, lo),
		drv.In(false, b1, hi),
		drv.Burn(a, b, half),
		drv.Collect(a, b),
		drv.Mint(c, c+2*sp, l7),
		drv.Burn(c, c+2*sp, l7),
		drv.EMint(c-3*sp, a, L),
		drv.EBurn(c-3*sp, a, L),
		drv.Mint(a, c, half),
		drv.Burn(a, b, L),
		drv.Burn(a, b, ref.Zero),
		drv.In(true, b0, Sq(a)),
		drv.In(false, b1, Sq(b)),
		drv.Out(true, s1, lo),
		drv.Out(false, s0, hi),
		drv.Out(true, b1, ref.Add(Sq(a), ref.One)),
		drv.Out(false, b0, ref.Sub(Sq(b), ref.One)),
		drv.Flash(b0, ref.One),
		drv.Flash(ref.One, b1),
	}
	return s
}

var (
	e3   = ref.N(1009)
	e9   = ref.N(1_000_000_007)
	e18  = ref.S("1000000000000000003")
	p80  = ref.Add(ref.Pow2(80), ref.N(12345))
	p96  = ref.Add(ref.Pow2(96), ref.N(777))
	p108 = ref.Add(ref.Pow2(108), ref.N(99991))
)

// Confs is the covering set of scenarios: every fee tier with every kind of
// centre, offset and liquidity magnitude at least once.
func Confs() []Conf {
	return []Conf{
		{Fee: 500, Centre: 0, Off: "on", L: e18, Base: true},
		{Fee: 500, Centre: 0, Off: "mid", L: e9},
		{Fee: 500, Centre: -1, Off: "mid", L: e18, Base: true},
		{Fee: 500, Centre: -3, Off: "-1", L: e18},
		{Fee: 500, Centre: 256, Off: "on", L: e18, Base: true},
		{Fee: 500, Centre: -256, Off: "on", L: e18},
		{Fee: 500, Centre: 19500, Off: "mid", L: e18, Base: true},
		{Fee: 500, Centre: 255, Off: "+1", L: p96},
		{Fee: 500, Centre: -19999, Off: "+1", L: p80, Base: true},
		{Fee: 500, Centre: 88700, Off: "mid", L: e9, Base: true},
		{Fee: 500, Centre: -88700, Off: "on", L: e18},
		{Fee: 3000, Centre: 0, Off: "-1", L: e18},
		{Fee: 3000, Centre: -1, Off: "on", L: e3, Base: true},
		{Fee: 3000, Centre: 256, Off: "-1", L: p80, Base: true},
		{Fee: 3000, Centre: -256, Off: "mid", L: e18, Base: true},
		{Fee: 3000, Centre: 3300, Off: "on", L: p108},
		{Fee: 3000, Centre: 14700, Off: "+1", L: e18, Base: true},
		{Fee: 3000, Centre: -14700, Off: "mid", L: p96, Base: true},
		{Fee: 10000, Centre: 0, Off: "+1", L: p96, Base: true},
		{Fee: 10000, Centre: 1, Off: "on", L: e3},
		{Fee: 10000, Centre: -256, Off: "+1", L: e18},
		{Fee: 10000, Centre: 511, Off: "mid", L: e9, Base: true},
		{Fee: 10000, Centre: 4420, Off: "-1", L: e18},
		{Fee: 10000, Centre: -4420, Off: "on", L: e18, Base: true},
	}
}

// Deep has few operations, for long histories.
func Deep(k Conf, depth int) *hist.Scn {
	s := Family(k)
	s.Name = "deep_" + s.Name
	s.Depth, s.BFS = depth, 0
	o := s.Ops
	s.Ops = []drv.Op{o[0], o[3], o[4], o[5], o[6], o[7], o[14], o[15]}
	return s
}

// NoLimit: swaps without a price limit, through whole empty words and to both ends of the range.
func NoLimit(fee int, depth int) *hist.Scn {
	sp := ref.Spacing[fee]
	s := &hist.Scn{Name: fmt.Sprintf("nolimit_fee%d", fee), Fee: fee, P: price(0, sp, "mid"), Depth: depth}
	w := 256 * sp
	a, b := clampT(-3*w, sp), clampT(3*w, sp)
	end := ref.MaxTick / sp * sp
	s.Pre = []drv.Op{drv.EMint(a, b, e18)}
	s.Ops = []drv.Op{
		drv.In(true, ref.S("100000000000000000000000"), ref.Zero),
		drv.In(false, ref.S("100000000000000000000000"), ref.Zero),
		drv.Mint(a-w+sp, a, e9),
		drv.Mint(b, b+w-sp, e9),
		drv.Out(true, e9, ref.Zero),
		drv.Out(false, e9, ref.Zero),
		drv.Mint(-end, end, e3),
		drv.Burn(-end, end, e3),
		drv.Collect(-end, end),
		drv.In(true, e9, ref.Zero),
		drv.In(false, e9, ref.Zero),
		drv.In(true, ref.Pow2(200), ref.Zero),
		drv.In(false, ref.Pow2(250), ref.Zero),
		drv.Out(true, ref.Pow2(254), ref.Zero),
	}
	return s
}

// Wrap: fee growth accumulators that overflow 256 bits, as the contract lets them.
func Wrap(depth int, near bool) *hist.Scn {
	s := &hist.Scn{Name: "wrap_fee_growth", Fee: 10000, P: price(200, 200, "mid"), Depth: depth}
	l := ref.N(3)
	big := frac(ref.Pow2(127), 100, 1) // fee of about 2^127
	s.Pre = []drv.Op{drv.EMint(-2000, 4000, l)}
	if near { // one flash loan or two from the overflow
		s.Name = "wrap_fee_growth_near"
		for i := 0; i < 5; i++ {
			s.Pre = append(s.Pre, drv.Flash(big, frac(big, 9, 10)))
		}
	}
	s.Ops = []drv.Op{
		drv.Flash(big, frac(big, 9, 10)),
		drv.Mint(0, 400, l),
		drv.Mint(400, 600, ref.N(2)),
		drv.Burn(0, 400, l),
		drv.Collect(0, 400),
		drv.Burn(400, 600, ref.One),
		drv.In(true, ref.N(50), Sq(-600)),
		drv.In(false, ref.N(50), Sq(800)),
		drv.In(true, frac(big, 1, 1), Sq(100)),
		drv.In(false, frac(big, 1, 1), Sq(500)),
		drv.Burn(0, 400, ref.Zero),
		drv.Flash(ref.Zero, big),
	}
	return s
}

// Store: many ticks coming and going, so that every insertion and removal order occurs.
func Store(fee int, c int, depth int) *hist.Scn {
	sp := ref.Spacing[fee]
	c *= sp
	s := &hist.Scn{Name: fmt.Sprintf("store_fee%d_c%d", fee, c), Fee: fee, P: price(c, sp, "mid"), Depth: depth}
	lo, hi := Sq(c-9*sp), Sq(c+9*sp)
	big0 := ref.Amount0Delta(Sq(c), lo, e18, true)
	big1 := ref.Amount1Delta(Sq(c), hi, e18, true)
	r := [][2]int{{-1, 1}, {-4, 2}, {-2, 4}, {1, 3}, {-6, -4}}
	for i, x := range r {
		l := frac(e18, int64(i+1), 3)
		s.Ops = append(s.Ops, drv.Mint(c+x[0]*sp, c+x[1]*sp, l), drv.Burn(c+x[0]*sp, c+x[1]*sp, l))
	}
	s.Ops = append(s.Ops, drv.EMint(c-8*sp, c+8*sp, e9), drv.EBurn(c-8*sp, c+8*sp, e9),
		drv.In(true, frac(big0, 1, 2), lo), drv.In(false, frac(big1, 1, 2), hi))
	s.Pre = []drv.Op{drv.EMint(c-3*sp, c+3*sp, e18)}
	return s
}

// Empty: a pool that starts without any liquidity and may return to that.
func Empty(fee int, c int, depth int) *hist.Scn {
	sp := ref.Spacing[fee]
	c *= sp
	s := &hist.Scn{Name: fmt.Sprintf("empty_fee%d_c%d", fee, c), Fee: fee, P: price(c, sp, "mid"), Depth: depth}
	a, b := clampT(c-sp, sp), clampT(c+sp, sp)
	lo, hi := Sq(clampT(c-300*sp, sp)), Sq(clampT(c+300*sp, sp))
	s0, b0, s1, b1 := amounts(c, sp, e18)
	s.Ops = []drv.Op{
		drv.Mint(a, b, e18),
		drv.Burn(a, b, e18),
		drv.EMint(clampT(b, sp)-sp, clampT(b+sp, sp), e9),
		drv.EBurn(clampT(b, sp)-sp, clampT(b+sp, sp), e9),
		drv.In(true, b0, lo),
		drv.In(false, b1, hi),
		drv.Out(true, s1, Sq(c)),
		drv.Out(false, s0, Sq(b)),
		drv.In(true, s0, Sq(a)),
		drv.In(false, s1, ref.Sub(Sq(b), ref.One)),
		drv.Collect(a, b),
	}
	return s
}

// Grain: moves of one and two units of the square root price around a tick, which need not be
// a multiple of the spacing, with a liquidity of which single tokens move the price by single units.
func Grain(fee, t int, off int64, lbits uint, depth int) *hist.Scn {
	sp := ref.Spacing[fee]
	c := t
	if c %= sp; c < 0 {
		c += sp
	}
	c = t - c
	l := ref.Add(ref.Pow2(lbits), ref.N(3))
	s := &hist.Scn{Name: fmt.Sprintf("grain_fee%d_t%d_%+d_L%d", fee, t, off, lbits), Fee: fee, P: ref.Add(Sq(t), ref.N(off)), Depth: depth}
	s.Pre = []drv.Op{drv.EMint(c-5*sp, c+6*sp, l)}
	big := ref.Pow2(100)
	for d := int64(-2); d <= 2; d++ {
		s.Ops = append(s.Ops, drv.In(true, big, ref.Add(Sq(t), ref.N(d))), drv.In(false, big, ref.Add(Sq(t), ref.N(d))))
	}
	for _, n := range []int64{1, 2, 4} {
		s.Ops = append(s.Ops, drv.In(true, ref.N(n), ref.Zero), drv.In(false, ref.N(n), ref.Zero))
	}
	s.Ops = append(s.Ops, drv.Out(true, ref.One, ref.Zero), drv.Out(false, ref.One, ref.Zero), drv.Mint(c, c+sp, l), drv.Burn(c, c+sp, l), drv.Mint(c-sp, c, l))
	return s
}

// Words: liquidity in whole multiples of 2^64, so that what is left of a position or at a tick often
// has a lowest word of zero, and amounts of that kind.
func Words(fee, c, depth int) *hist.Scn {
	sp := ref.Spacing[fee]
	c *= sp
	w := func(n int64) B { return ref.Mul(ref.Pow2(64), ref.N(n)) }
	s := &hist.Scn{Name: fmt.Sprintf("words_fee%d_c%d", fee, c), Fee: fee, P: price(c, sp, "mid"), Depth: depth}
	s.Pre = []drv.Op{drv.EMint(c-4*sp, c+4*sp, w(5)), drv.Mint(c-sp, c+sp, w(3))}
	s.Ops = []drv.Op{
		drv.Mint(c-sp, c+sp, w(1)), drv.Burn(c-sp, c+sp, w(2)), drv.Burn(c-sp, c+sp, w(1)), drv.Mint(c-sp, c+sp, ref.One), drv.Burn(c-sp, c+sp, ref.Zero),
		drv.EMint(c, c+2*sp, w(2)), drv.EBurn(c, c+2*sp, w(1)), drv.EBurn(c-4*sp, c+4*sp, w(4)),
		drv.In(true, w(1), Sq(c-3*sp)), drv.In(false, w(1), Sq(c+3*sp)), drv.Out(true, w(1), Sq(c-sp)), drv.Out(false, w(1), Sq(c+sp)),
		drv.Flash(w(1), w(2)), drv.Collect(c-sp, c+sp),
	}
	return s
}

// Strides: the price stands a few whole words away from an initialised tick, and single amounts
// move it by one whole word at a time (by n<<bits, with a liquidity of 2^32).
func Strides(fee, t int, off int64, bits uint, depth int) *hist.Scn {
	sp := ref.Spacing[fee]
	t *= sp
	l := ref.Pow2(32)
	s := &hist.Scn{Name: fmt.Sprintf("strides_fee%d_t%d_%+d_%d", fee, t, off, bits), Fee: fee, P: ref.Add(Sq(t), ref.Mul(ref.N(off), ref.Pow2(bits))), Depth: depth}
	s.Pre = []drv.Op{drv.EMint(t-6*sp, t+5*sp, l)}
	if off < 0 { // a crossing that comes too early or too late shows
		s.Pre = append(s.Pre, drv.EMint(t, t+3*sp, l))
	} else {
		s.Pre = append(s.Pre, drv.EMint(t-2*sp, t, l))
	}
	for _, n := range []int64{1, 2, 3, 5, 7} {
		a := ref.Mul(ref.N(n), ref.Pow2(bits-64))
		s.Ops = append(s.Ops, drv.In(false, ref.Add(a, ref.Add(ref.Div(a, ref.N(1999)), ref.One)), ref.Zero), drv.Out(true, a, ref.Zero))
		q := ref.Add(Sq(t), ref.Mul(ref.N(n-4), ref.Pow2(bits)))
		s.Ops = append(s.Ops, drv.In(true, ref.Pow2(100), q), drv.In(false, ref.Pow2(120), q))
	}
	s.Ops = append(s.Ops, drv.Mint(t-sp, t+sp, l), drv.Burn(t-sp, t+sp, l))
	return s
}

// Wholes is the set of scenarios in whole words.
func Wholes(d int) []*hist.Scn {
	return []*hist.Scn{Words(500, 3, d), Words(3000, -2, d), Strides(500, 0, -5, 64, d), Strides(500, 7, 5, 64, d), Strides(3000, -100, -3, 64, d),
		Strides(10000, 3000, -5, 128, d), Strides(3000, 10000, 5, 128, d)}
}

// Behind: ranges that begin at a new tick and end at an older one which the price has left
// downwards: their fee growth starts a little below zero, as 256-bit numbers, and soon passes it.
func Behind(fee, c, depth int) *hist.Scn {
	sp := ref.Spacing[fee]
	c *= sp
	s := &hist.Scn{Name: fmt.Sprintf("behind_fee%d_c%d", fee, c), Fee: fee, P: ref.Add(Sq(c+sp), ref.One), Depth: depth}
	_, b0, _, b1 := amounts(c, sp, e18)
	s.Pre = []drv.Op{
		drv.EMint(c-7*sp, c+7*sp, e18),
		drv.EMint(c+sp, c+4*sp, ref.N(3)),
		drv.Flash(atLeast1(frac(b0, 1, 999)), atLeast1(frac(b1, 1, 999))),
		drv.In(true, b0, ref.Div(ref.Add(Sq(c), Sq(c+sp)), ref.N(2))),
	}
	lo, hi := Sq(c-3*sp), Sq(c+3*sp)
	s.Ops = []drv.Op{
		drv.Mint(c, c+sp, e18),
		drv.Mint(c-sp, c+sp, frac(e18, 1, 2)),
		drv.In(true, b0, lo),
		drv.In(false, b1, hi),
		drv.Flash(b0, b1),
		drv.Burn(c, c+sp, ref.Zero),
		drv.Burn(c, c+sp, frac(e18, 1, 2)),
		drv.Collect(c-sp, c+sp),
		drv.Burn(c-sp, c+sp, frac(e18, 1, 2)),
		drv.Mint(c-2*sp, c+2*sp, e9),
	}
	return s
}

// Tracked turns the untracked liquidity of a scenario into positions.
func Tracked(s *hist.Scn) *hist.Scn {
	q := *s
	q.Name += "_tracked"
	f := func(l []drv.Op) []drv.Op {
		r := append([]drv.Op{}, l...)
		for i := range r {
			switch r[i].K {
			case "emint":
				r[i].K = "mint"
			case "eburn":
				r[i].K = "burn"
			}
		}
		return r
	}
	q.Pre, q.Ops = f(s.Pre), f(s.Ops)
	return &q
}

func C01(thorough bool) []*hist.Scn {
	var r []*hist.Scn
	d, x := 4, 0
	if thorough {
		d, x = 5, 1
	}
	r = append(r, Grains(3+x)...)
	r = append(r, Wholes(3+x)...)
	r = append(r, Behind(500, 100, 4+x), Behind(3000, -2, 4+x))
	for i, k := range Confs() {
		k.Depth = d
		r = append(r, Family(k))
		if i%3 == 0 || thorough {
			r = append(r, Deep(k, 5+x))
		}
	}
	r = append(r, NoLimit(10000, 4), NoLimit(3000, 3+x), NoLimit(500, 2+x), Wrap(4+x, false), Wrap(3+x, true), Store(500, -1, 4+x), Store(3000, 0, 4+x), Store(10000, 255, 4+x),
		Empty(500, -1, 4+x), Empty(3000, 256, 4+x), Empty(10000, -256, 4+x))
	return append(r, Crowds(300, thorough)...)
}

// Grains around aligned, unaligned and negative ticks, for liquidity of which one token moves
// the price by about one unit, by several, and by less than one.
func Grains(d int) []*hist.Scn {
	return []*hist.Scn{
		Grain(500, 0, 0, 96, d), Grain(500, 10, 1, 97, d), Grain(500, -3, 0, 96, d), Grain(500, 5, -1, 95, d),
		Grain(3000, -60, 0, 97, d), Grain(3000, 59, 0, 96, d), Grain(10000, 200, -1, 96, d), Grain(10000, -201, 1, 98, d),
	}
}

// Inv is the scenario set of the invariant checks: as C01, one operation shallower in the widest trees.
func Inv(thorough bool) []*hist.Scn {
	var r []*hist.Scn
	d, x := 3, 0
	if thorough {
		d, x = 4, 1
	}
	r = append(r, Grains(2+x)...)
	r = append(r, Wholes(3+x)...)
	r = append(r, Behind(500, 100, 4+x), Behind(3000, -2, 4+x))
	for i, k := range Confs() {
		k.Depth = d
		if i%2 == 0 && !thorough {
			k.Depth = 4
		}
		r = append(r, Family(k))
		if i%3 == 0 || thorough {
			r = append(r, Deep(k, 5+x))
		}
	}
	r = append(r, NoLimit(10000, 3), NoLimit(3000, 3), Wrap(3+x, false), Wrap(3+x, true), Store(500, -1, 3+x), Store(3000, 0, 3+x), Store(10000, 255, 3+x),
		Empty(500, -1, 4+x), Empty(3000, 256, 4), Empty(10000, -256, 4))
	return append(r, Crowds(280, thorough)...)
}

// Many: overlapping, nested, adjacent and far apart positions around the price.
func Many(thorough bool) []*hist.Scn {
	var r []*hist.Scn
	d := 4
	if thorough {
		d = 5
	}
	for _, k := range []Conf{
		{Fee: 500, Centre: 5530, Off: "mid", L: e18},
		{Fee: 3000, Centre: -1, Off: "mid", L: e18},
		{Fee: 10000, Centre: 0, Off: "on", L: p80},
	} {
		sp := ref.Spacing[k.Fee]
		c := k.Centre * sp
		s := &hist.Scn{Name: fmt.Sprintf("many_fee%d_c%d", k.Fee, c), Fee: k.Fee, P: price(c, sp, k.Off), Depth: d}
		L := k.L
		s.Pre = []drv.Op{drv.EMint(c-9*sp, c+9*sp, frac(L, 1, 10)), drv.Mint(c-2*sp, c+3*sp, L), drv.Mint(c, c+sp, frac(L, 1, 3))}
		s0, b0, s1, b1 := amounts(c, sp, L)
		lo, hi := Sq(c-8*sp), Sq(c+8*sp)
		s.Ops = []drv.Op{
			drv.In(true, s0, lo), drv.In(false, s1, hi), drv.In(true, b0, lo), drv.In(false, b1, hi),
			drv.Out(true, b1, Sq(c-2*sp)), drv.Out(false, b0, Sq(c+3*sp)),
			drv.Mint(c-2*sp, c, L), drv.Mint(c+sp, c+3*sp, L), drv.Mint(c-5*sp, c+5*sp, frac(L, 1, 9)),
			drv.Burn(c, c+sp, frac(L, 1, 3)), drv.Mint(c, c+sp, frac(L, 1, 5)), drv.Burn(c-2*sp, c+3*sp, frac(L, 1, 2)),
			drv.Collect(c-2*sp, c+3*sp), drv.Flash(b0, b1),
		}
		r = append(r, s)
	}
	return r
}

// Reject mixes accepted operations with requests the contract rejects for their arguments.
func Reject(thorough bool) []*hist.Scn {
	var r []*hist.Scn
	for i, k := range Confs() {
		sp := ref.Spacing[k.Fee]
		c := k.Centre * sp
		L := k.L
		s := Family(k)
		s.Name = "reject_" + s.Name
		o := s.Ops
		a, b := c-sp, c+sp
		end := ref.MaxTick/sp*sp + sp
		one, big := ref.One, ref.Add(L, ref.One)
		s.Ops = []drv.Op{
			o[0], o[3], o[4], o[5], o[6], // mint, swaps across, burn half, collect
			drv.Mint(b, a, L), drv.Mint(a, a, L), drv.EMint(b, a, L), drv.EMint(c, c, one),
			drv.Mint(-end, b, L), drv.Mint(a, end, L), drv.EMint(-end, b, L), drv.EMint(a, end, L),
			drv.Mint(a, b, ref.Zero), drv.EMint(a, b, ref.Zero),
			drv.Burn(a, b, big), drv.Burn(a, b, ref.Mul(L, ref.N(2))), drv.Burn(a, c, one), drv.Burn(c, b, ref.Zero), drv.Burn(b, a, one),
			drv.Burn(a, b, ref.Add(frac(L, 1, 2), ref.N(2))),
			drv.In(true, ref.Zero, ref.Zero), drv.In(false, ref.Zero, Sq(clampT(c+6*sp, sp))), drv.Out(true, ref.Zero, ref.Zero), drv.Out(false, ref.Zero, ref.Zero),
			drv.In(true, one, Sq(clampT(c+6*sp, sp))), drv.In(false, one, Sq(clampT(c-6*sp, sp))),
			drv.Out(true, one, Sq(clampT(c+6*sp, sp))), drv.Out(false, one, Sq(clampT(c-6*sp, sp))),
			drv.In(true, one, ref.MinSqrt), drv.In(false, one, ref.MaxSqrt),
			drv.In(true, one, one), drv.In(false, one, ref.Pow2(161)), drv.Out(false, one, ref.Pow2(255)),
			drv.In(true, one, s.P), drv.In(false, one, s.P),
			drv.Flash(ref.N(1000), ref.N(7)), drv.Flash(ref.Zero, ref.Zero),
		}
		s.Depth, s.BFS = 3, 0
		if !thorough && i%4 != 0 {
			s.Depth = 2
		}
		r = append(r, s)
		// Few operations, long histories: a rejected request in the middle.
		d := *s
		d.Name = "deep" + d.Name
		d.Ops = []drv.Op{o[0], o[3], o[4], o[5], drv.Burn(a, b, big), drv.Mint(b, a, L), drv.In(true, one, Sq(clampT(c+6*sp, sp))), drv.Mint(a, b, ref.Zero), drv.Flash(L, L), drv.Burn(a, c, one)}
		d.Depth = 4
		if thorough {
			d.Depth = 5
		}
		if i%3 == 0 || thorough {
			r = append(r, &d)
		}
	}
	// no active liquidity: flash is rejected, everything else goes on
	s := Empty(3000, 0, 4)
	s.Name = "reject_" + s.Name
	s.Ops = append(s.Ops[:0:0], s.Ops[0], s.Ops[1], s.Ops[2], s.Ops[4], s.Ops[5], drv.Flash(ref.N(1000), ref.N(7)), drv.Flash(ref.Zero, ref.Zero), drv.Burn(-60, 60, e18), drv.Burn(-60, 60, e9))
	return append(r, s)
}

// Trades: only swaps, of many sizes, over uneven liquidity.
func Trades(thorough bool) []*hist.Scn {
	var r []*hist.Scn
	d := 4
	if thorough {
		d = 5
	}
	for i, k := range Confs() {
		if i%3 != 1 && !thorough {
			continue
		}
		sp := ref.Spacing[k.Fee]
		c := k.Centre * sp
		L := k.L
		s := &hist.Scn{Name: fmt.Sprintf("trades_fee%d_c%d_%s_L%d", k.Fee, c, k.Off, L.BitLen()), Fee: k.Fee, P: price(c, sp, k.Off), Depth: d}
		s.Pre = []drv.Op{drv.EMint(clampT(c-5*sp, sp), clampT(c+5*sp, sp), L), drv.Mint(c-sp, c+2*sp, frac(L, 7, 3)), drv.EMint(clampT(c+3*sp, sp), clampT(c+4*sp, sp), frac(L, 1, 9)), drv.EMint(clampT(c+6*sp, sp), clampT(c+9*sp, sp)+sp, L)}
		if clampT(c+3*sp, sp) >= clampT(c+4*sp, sp) || clampT(c+6*sp, sp) >= ref.MaxTick/sp*sp {
			s.Pre = s.Pre[:2]
		}
		s0, b0, s1, b1 := amounts(c, sp, L)
		lo, hi := Sq(clampT(c-8*sp, sp)), Sq(clampT(c+12*sp, sp))
		s.Ops = []drv.Op{
			drv.In(true, s0, lo), drv.In(false, s1, hi), drv.In(true, b0, lo), drv.In(false, b1, hi),
			drv.In(true, ref.One, lo), drv.In(false, ref.One, hi), drv.Out(true, ref.One, lo), drv.Out(false, ref.One, hi),
			drv.Out(true, frac(b1, 1, 2), lo), drv.Out(false, frac(b0, 1, 2), hi),
			drv.In(true, frac(b0, 2, 1), Sq(c-sp)), drv.In(false, frac(b1, 2, 1), Sq(c+2*sp)),
		}
		r = append(r, s)
	}
	return r
}
