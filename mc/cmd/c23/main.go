// C23: splitting, merging and tracking liquidity do not change the market.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"uniswap-simulator/lib/pool"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/hist"
	"verifmc/led"
	"verifmc/ref"
	"verifmc/scn"
)

// shadow is a second real pool that gets the same history without position tracking.
type shadow struct {
	*led.Ledger
	p   *pool.Pool
	bad string
}

func ghost(n *hist.Node) {
	t := n.User.(*shadow)
	if t.bad != "" || n.Panic != nil {
		return
	}
	t.Note(n)
	o := n.Op
	switch o.K {
	case "mint":
		o.K = "emint"
	case "burn":
		o.K = "eburn"
		if o.A.Sign() == 0 {
			return
		}
	case "collect":
		return
	}
	y0, y1, pan, _ := drv.Apply(t.p, o)
	if pan != nil {
		t.bad = fmt.Sprintf("%v works with position tracking but %v panics without: %v", n.Op, o, pan)
		return
	}
	if (o.K == "in" || o.K == "out") && (!drv.SameInt(n.X0, y0) || !drv.SameInt(n.X1, y1)) {
		t.bad = fmt.Sprintf("%v gives (%v, %v) with tracked liquidity, (%v, %v) with the same liquidity untracked", o, drv.GS(n.X0), drv.GS(n.X1), drv.GS(y0), drv.GS(y1))
		return
	}
	if a, b := drv.Market(n.Real, n.S.Universe()), drv.Market(t.p, n.S.Universe()); a != b {
		t.bad = fmt.Sprintf("after %v the market differs between tracked and untracked liquidity: %s", n.Op, drv.Diff(b, a))
	}
}

func step(n *hist.Node) string { return n.User.(*shadow).bad }

var ctx *ex.Ctx

// run applies ops and sums what they return.
func run(p *pool.Pool, ops []drv.Op) (s0, s1 *big.Int, err string) {
	s0, s1 = ref.Zero, ref.Zero
	ctx.Transitions.Add(int64(len(ops)))
	for _, o := range ops {
		x0, x1, pan, _ := drv.Apply(p, o)
		if pan != nil {
			return s0, s1, fmt.Sprintf("%v panicked: %v", o, pan)
		}
		if x0 != nil {
			s0, s1 = ref.Add(s0, drv.GS(x0)), ref.Add(s1, drv.GS(x1))
		}
	}
	return
}

// parts lists ways to split l.
func parts(l *big.Int) [][]*big.Int {
	one := ref.One
	h := ref.Div(l, ref.N(2))
	t := ref.Div(l, ref.N(3))
	var r [][]*big.Int
	add := func(xs ...*big.Int) {
		s := ref.Zero
		for _, x := range xs {
			if x.Sign() <= 0 {
				return
			}
			s = ref.Add(s, x)
		}
		if s.Cmp(l) == 0 {
			r = append(r, xs)
		}
	}
	add(one, ref.Sub(l, one))
	add(ref.Sub(l, one), one)
	add(h, ref.Sub(l, h))
	add(t, t, ref.Sub(l, ref.Mul(t, ref.N(2))))
	add(one, one, ref.Sub(l, ref.N(2)))
	f := ref.Div(l, ref.N(5))
	add(f, one, f, f, ref.Sub(ref.Sub(l, one), ref.Mul(f, ref.N(3))))
	return r
}

// final tries, in the state reached, every split and the neutral pairs, and
// then moves the price across the ranges both ways.
func final(n *hist.Node) string {
	s := n.S
	if len(s.Pre) > 1600 {
		return ""
	}
	sh := n.User.(*shadow)
	u := s.Universe()
	if u = append(u[:len(u):len(u)], extra(s)...); len(u) == 0 {
		return ""
	}
	base := s.Build(n.Path)
	before := drv.Market(base, u)
	cont := conts(s)
	follow := func(a, b *pool.Pool, what string) string {
		if x, y := drv.Market(a, u), drv.Market(b, u); x != y {
			return fmt.Sprintf("%s: market state differs: %s", what, drv.Diff(x, y))
		}
		ctx.Transitions.Add(int64(len(cont)))
		ctx.Traces.Add(1)
		for _, o := range cont {
			x0, x1, p1, _ := drv.Apply(a, o)
			y0, y1, p2, _ := drv.Apply(b, o)
			if (p1 == nil) != (p2 == nil) || !drv.SameInt(x0, y0) || !drv.SameInt(x1, y1) {
				return fmt.Sprintf("%s: a later %v gives (%v, %v, panic %v) instead of (%v, %v, panic %v)", what, o, drv.GS(y0), drv.GS(y1), p2, drv.GS(x0), drv.GS(x1), p1)
			}
			if x, y := drv.Market(a, u), drv.Market(b, u); x != y {
				return fmt.Sprintf("%s: after a later %v the market state differs: %s", what, o, drv.Diff(x, y))
			}
		}
		return ""
	}
	type job struct {
		whole []drv.Op
		split [][]drv.Op
	}
	var jobs []job
	for _, k := range ranges(s) {
		for _, l := range sizes(s) {
			for _, mk := range []func(int, int, *big.Int) drv.Op{drv.Mint, drv.EMint} {
				j := job{whole: []drv.Op{mk(k.Lo, k.Hi, l)}}
				for _, xs := range parts(l) {
					var ops []drv.Op
					for _, x := range xs {
						ops = append(ops, mk(k.Lo, k.Hi, x))
					}
					j.split = append(j.split, ops)
				}
				jobs = append(jobs, j)
			}
		}
	}
	burns := func(m map[led.Key]*big.Int, mk func(int, int, *big.Int) drv.Op) {
		for _, k := range led.Sorted(m) {
			if m[k].Sign() <= 0 {
				continue
			}
			j := job{whole: []drv.Op{mk(k.Lo, k.Hi, m[k])}}
			for _, xs := range parts(m[k]) {
				var ops []drv.Op
				for _, x := range xs {
					ops = append(ops, mk(k.Lo, k.Hi, x))
				}
				j.split = append(j.split, ops)
			}
			jobs = append(jobs, j)
		}
	}
	burns(sh.Pos, drv.Burn)
	burns(sh.Ext, drv.EBurn)
	for _, j := range jobs {
		for _, sp := range j.split {
			a, b := s.Build(n.Path), s.Build(n.Path)
			w0, w1, e1 := run(a, j.whole)
			t0, t1, e2 := run(b, sp)
			what := fmt.Sprintf("%v in %d parts", j.whole[0], len(sp))
			if e1 != "" || e2 != "" {
				if (e1 == "") != (e2 == "") {
					return fmt.Sprintf("%s: whole: %q, in parts: %q", what, e1, e2)
				}
				continue
			}
			// Minting: the parts cost at least the whole; burning: they pay at most the whole.
			d0, d1 := ref.Sub(t0, w0), ref.Sub(t1, w1)
			if j.whole[0].K == "burn" {
				d0, d1 = ref.Neg(d0), ref.Neg(d1)
			}
			k := int64(len(sp))
			if d0.Sign() < 0 || d1.Sign() < 0 || d0.Cmp(ref.N(k)) > 0 || d1.Cmp(ref.N(k)) > 0 {
				return fmt.Sprintf("%s: tokens (%v, %v), in one go (%v, %v)", what, t0, t1, w0, w1)
			}
			if m := follow(a, b, what); m != "" {
				return m
			}
		}
	}
	// Minting and burning the same is neutral.
	for _, k := range ranges(s) {
		for _, l := range sizes(s) {
			for _, tr := range []bool{true, false} {
				b := s.Build(n.Path)
				ops := []drv.Op{drv.Mint(k.Lo, k.Hi, l), drv.Burn(k.Lo, k.Hi, l)}
				if !tr {
					ops = []drv.Op{drv.EMint(k.Lo, k.Hi, l), drv.EBurn(k.Lo, k.Hi, l)}
				}
				_, _, e := run(b, ops)
				if e != "" {
					return e
				}
				if m := follow(s.Build(n.Path), b, fmt.Sprintf("%v and burned again", ops[0])); m != "" {
					return m
				}
			}
		}
	}
	// Collecting twice pays once, and does not touch the market.
	for _, k := range led.Sorted(sh.Pos) {
		p := s.Build(n.Path)
		if sh.Pos[k].Sign() > 0 {
			if _, _, pan, _ := drv.Apply(p, drv.Burn(k.Lo, k.Hi, ref.Zero)); pan != nil {
				return fmt.Sprintf("burn of zero from [%d,%d]: %v", k.Lo, k.Hi, pan)
			}
		}
		if _, _, pan, _ := drv.Apply(p, drv.Collect(k.Lo, k.Hi)); pan != nil {
			return fmt.Sprintf("collect [%d,%d]: %v", k.Lo, k.Hi, pan)
		}
		for i := 0; i < 2; i++ {
			x0, x1, pan, _ := drv.Apply(p, drv.Collect(k.Lo, k.Hi))
			if pan != nil || !x0.IsZero() || !x1.IsZero() {
				return fmt.Sprintf("collecting [%d,%d] again paid (%v, %v), panic %v", k.Lo, k.Hi, drv.G(x0), drv.G(x1), pan)
			}
			if sh.Pos[k].Sign() > 0 {
				drv.Apply(p, drv.Burn(k.Lo, k.Hi, ref.Zero))
			}
		}
		if x := drv.Market(p, u); x != before {
			return fmt.Sprintf("collecting [%d,%d] changed the market: %s", k.Lo, k.Hi, drv.Diff(before, x))
		}
	}
	return ""
}

// ranges, sizes and continuations used on top of a scenario.
func ranges(s *hist.Scn) []led.Key {
	sp := s.Spacing()
	t := ref.TickAtSqrtRatio(s.P)
	c := t / sp * sp
	lim := ref.MaxTick/sp*sp - 4*sp
	if c > lim {
		c = lim
	}
	if c < -lim {
		c = -lim
	}
	return []led.Key{{Lo: c - sp, Hi: c + sp}, {Lo: c - 3*sp, Hi: c - sp}, {Lo: c, Hi: c + 3*sp}, {Lo: c + 2*sp, Hi: c + 4*sp}}
}

func extra(s *hist.Scn) (r []int) {
	for _, k := range ranges(s) {
		r = append(r, k.Lo, k.Hi)
	}
	return
}

func sizes(s *hist.Scn) []*big.Int {
	l := ref.S("1000000000000000003")
	for _, o := range s.Ops {
		if o.K == "mint" {
			l = o.A
			break
		}
	}
	return []*big.Int{l, ref.Add(ref.Div(l, ref.N(7)), ref.N(2))}
}

func conts(s *hist.Scn) (r []drv.Op) {
	ks := ranges(s)
	lo, hi := ref.SqrtRatioAtTick(ks[1].Lo-s.Spacing()/2), ref.SqrtRatioAtTick(ks[3].Hi-1)
	big := ref.Pow2(120)
	return []drv.Op{drv.In(true, big, lo), drv.In(false, big, hi), drv.In(true, big, lo)}
}

func engine(c *ex.Ctx) *hist.Engine {
	ctx = c
	var ss []*hist.Scn
	for i, k := range scn.Confs() {
		k.Depth = 2
		if c.Thorough {
			k.Depth = 3
		}
		s := scn.Family(k)
		s.BFS = 0
		ss = append(ss, s)
		if i%6 == 0 || c.Thorough {
			ss = append(ss, scn.Deep(k, 3))
		}
	}
	ss = append(ss, scn.Empty(500, -1, 3), scn.Store(3000, 0, 2))
	ss = append(ss, scn.Crowds(50, c.Thorough)...)
	ss = append(ss, scn.Crowds(201, c.Thorough)...) // of these only the histories are judged, not the splits in the end
	return &hist.Engine{C: c, Scns: ss, Step: step, Final: final, Every: true, Ghost: ghost,
		Init: func(s *hist.Scn) interface{} { return &shadow{Ledger: led.New(), p: drv.NewReal(s.Fee, s.P)} }}
}

func main() {
	ex.Run("C23", "model_checking", func(c *ex.Ctx) {
		e := engine(c)
		e.Trees()
		c.Extra["per_state"] = "in every state reached: 4 ranges x 2 sizes, tracked and untracked, minted whole and in up to 6 splits of 2 to 5 parts; every position burned whole and in up to 6 splits; mint+burn; double collects; each followed by three swaps across all ranges"
	}, func(c *ex.Ctx, raw json.RawMessage) string { return engine(c).Replay(raw) })
}
