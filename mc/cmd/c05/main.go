// C05: each position is its own account and earns exactly its own range's fees.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"verifmc/drv"
	"verifmc/ex"
	"verifmc/hist"
	"verifmc/led"
	"verifmc/ref"
	"verifmc/scn"
)

// acct is what a position is entitled to, in units of 2^-256 of a token.
type acct struct {
	fee0, fee1   *big.Int // its share of the fees charged while the price was in its range
	dust         *big.Int // most that rounding may keep from it, per token
	got0, got1   *big.Int // fees received: collected minus burn proceeds
	owed0, owed1 *big.Int // burn proceeds not collected yet
	g0, g1       *big.Int // fee growth since the position was last touched
}

type books struct {
	*led.Ledger
	a   map[led.Key]*acct
	bad string
}

func (b *books) acct(k led.Key) *acct {
	a := b.a[k]
	if a == nil {
		a = &acct{ref.Zero, ref.Zero, ref.Zero, ref.Zero, ref.Zero, ref.Zero, ref.Zero, ref.Zero, ref.Zero}
		b.a[k] = a
	}
	return a
}

func (a *acct) touch() {
	a.dust = ref.Add(a.dust, ref.Q256)
	a.g0, a.g1 = ref.Zero, ref.Zero
}

// round takes off what a whole round of the 256-bit accumulator is worth: as in the
// contract, a position nobody touches while it goes round loses that.
func (a *acct) round(l *big.Int) {
	if a.g0.BitLen() > 256 {
		a.g0, a.fee0 = ref.Sub(a.g0, ref.Q256), ref.Sub(a.fee0, ref.Lsh(l, 384))
	}
	if a.g1.BitLen() > 256 {
		a.g1, a.fee1 = ref.Sub(a.g1, ref.Q256), ref.Sub(a.fee1, ref.Lsh(l, 384))
	}
}

func (a *acct) collected(x0, x1 *big.Int) {
	a.got0, a.got1 = ref.Add(a.got0, ref.Sub(x0, a.owed0)), ref.Add(a.got1, ref.Sub(x1, a.owed1))
	a.owed0, a.owed1 = ref.Zero, ref.Zero
}

func (a *acct) String() string {
	f := func(x *big.Int) string {
		r, _ := new(big.Float).Quo(new(big.Float).SetInt(x), new(big.Float).SetInt(ref.Q256)).Float64()
		return fmt.Sprintf("%.6g", r)
	}
	return fmt.Sprintf("entitled to fees (%s, %s) less at most %s of rounding", f(a.fee0), f(a.fee1), f(a.dust))
}

func (a *acct) check() string {
	for i, e := range []*big.Int{a.fee0, a.fee1} {
		g := a.got0
		if i == 1 {
			g = a.got1
		}
		x := ref.Lsh(g, 256)
		if g.Sign() < 0 || x.Cmp(e) > 0 || ref.Add(x, a.dust).Cmp(e) < 0 {
			return fmt.Sprintf("received fees (%v, %v) but is %v", a.got0, a.got1, a)
		}
	}
	return ""
}

func ghost(n *hist.Node) {
	b := n.User.(*books)
	b.Note(n)
	if n.Panic != nil || !n.Accept {
		if n.Panic != nil && n.Accept && b.bad == "" && (n.Op.K == "mint" || n.Op.K == "burn" || n.Op.K == "collect") {
			b.bad = fmt.Sprintf("%v: the position's owner is refused: %v", n.Op, n.Panic)
		}
		return
	}
	k := led.Key{Lo: n.Op.Lo, Hi: n.Op.Hi}
	switch n.Op.K {
	case "mint":
		b.acct(k).touch()
	case "burn":
		a := b.acct(k)
		a.touch()
		a.owed0, a.owed1 = ref.Add(a.owed0, drv.G(n.X0)), ref.Add(a.owed1, drv.G(n.X1))
	case "collect":
		if _, ok := b.a[k]; ok {
			b.acct(k).collected(drv.G(n.X0), drv.G(n.X1))
		} else if b.bad == "" && (!n.X0.IsZero() || !n.X1.IsZero()) {
			b.bad = fmt.Sprintf("%v paid (%v, %v) although nothing was ever minted there", n.Op, drv.G(n.X0), drv.G(n.X1))
		}
	case "in", "out", "flash":
		for _, f := range n.After.Fees {
			for q, l := range b.Pos {
				if l.Sign() > 0 && q.Lo <= f.Tick && f.Tick < q.Hi {
					a := b.acct(q)
					g := ref.Div(ref.Lsh(f.Fee, 128), f.Liq)
					share := ref.DivUp(ref.Mul(ref.Lsh(f.Fee, 256), l), f.Liq)
					if f.Z {
						a.fee0, a.g0 = ref.Add(a.fee0, share), ref.Add(a.g0, g)
					} else {
						a.fee1, a.g1 = ref.Add(a.fee1, share), ref.Add(a.g1, g)
					}
					a.round(l)
					a.dust = ref.Add(a.dust, ref.Add(ref.Lsh(l, 128), ref.One))
				}
			}
		}
	}
}

func step(n *hist.Node) string { return n.User.(*books).bad }

// final pokes and collects every position, each on its own, and compares with its entitlement.
func final(n *hist.Node) string {
	b := n.User.(*books)
	p := n.Real
	for _, k := range led.Sorted(b.Pos) {
		l := b.Pos[k]
		a := b.acct(k)
		if l.Sign() > 0 {
			if _, _, pan, _ := drv.Apply(p, drv.Burn(k.Lo, k.Hi, ref.Zero)); pan != nil {
				return fmt.Sprintf("position [%d,%d] with liquidity %v cannot be poked: %v", k.Lo, k.Hi, l, pan)
			}
			a.touch()
		}
		x0, x1, pan, _ := drv.Apply(p, drv.Collect(k.Lo, k.Hi))
		if pan != nil {
			return fmt.Sprintf("position [%d,%d] cannot be collected: %v", k.Lo, k.Hi, pan)
		}
		a.collected(drv.G(x0), drv.G(x1))
		if m := a.check(); m != "" {
			return fmt.Sprintf("position [%d,%d] %s", k.Lo, k.Hi, m)
		}
	}
	for _, k := range led.Sorted(b.Pos) {
		l := b.Pos[k]
		// The account holds the liquidity that was put in, and no more.
		if _, _, pan, _ := drv.Apply(p, drv.Burn(k.Lo, k.Hi, ref.Add(l, ref.One))); pan == nil {
			return fmt.Sprintf("position [%d,%d] holds %v but %v could be burned from it", k.Lo, k.Hi, l, ref.Add(l, ref.One))
		}
		if l.Sign() > 0 {
			if _, _, pan, _ := drv.Apply(p, drv.Burn(k.Lo, k.Hi, l)); pan != nil {
				return fmt.Sprintf("position [%d,%d] holds %v, which cannot be burned: %v", k.Lo, k.Hi, l, pan)
			}
		}
	}
	return ""
}

func engine(c *ex.Ctx) *hist.Engine {
	var ss []*hist.Scn
	for i, s := range scn.Inv(c.Thorough) {
		if i%2 == 0 || c.Thorough {
			ss = append(ss, scn.Tracked(s))
		}
		if i%2 == 1 || c.Thorough {
			ss = append(ss, s)
		}
	}
	return &hist.Engine{C: c, Scns: append(ss, scn.Many(c.Thorough)...), Step: step, Final: final, Every: true, Ghost: ghost,
		Init: func(*hist.Scn) interface{} { return &books{Ledger: led.New(), a: map[led.Key]*acct{}} }}
}

// pairCase: two ranges in one pool.
type pairCase struct {
	Fee            int
	A0, A1, B0, B1 int
	Order          int
}

// pair: liquidity, fees and owed tokens of range A never show in range B, and the reverse.
func pair(k pairCase) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("ranges [%d,%d] and [%d,%d]: panic: %v", k.A0, k.A1, k.B0, k.B1, e)
		}
	}()
	same := k.A0 == k.B0 && k.A1 == k.B1
	sp := ref.Spacing[k.Fee]
	la, lb := ref.S("1000000000000000000000"), ref.S("3000000000000000000007")
	// the price sits in range A (order 0) or in range B (order 1)
	mid := (k.A0 + k.A1) / 2
	if k.Order == 1 {
		mid = (k.B0 + k.B1) / 2
	}
	r := ref.NewPool(k.Fee, ref.SqrtRatioAtTick(mid))
	p := drv.NewReal(k.Fee, ref.SqrtRatioAtTick(mid))
	end := ref.MaxTick / sp * sp
	do := func(o drv.Op) string {
		r0, r1 := drv.RefApply(r, o)
		x0, x1, pan, _ := drv.Apply(p, o)
		if pan != nil {
			return fmt.Sprintf("ranges [%d,%d] and [%d,%d]: %v panicked: %v", k.A0, k.A1, k.B0, k.B1, o, pan)
		}
		if r0 != nil && (!drv.Same(x0, r0) || !drv.Same(x1, r1)) {
			return fmt.Sprintf("ranges [%d,%d] and [%d,%d]: %v gave (%v, %v), alone in its account it would be (%v, %v)", k.A0, k.A1, k.B0, k.B1, o, drv.GS(x0), drv.GS(x1), r0, r1)
		}
		return ""
	}
	ops := []drv.Op{
		drv.EMint(-end, end, la),
		drv.Mint(k.A0, k.A1, la),
		drv.Flash(ref.S("1000000000000000"), ref.S("7000000000000000")),
		drv.Mint(k.B0, k.B1, lb),
		drv.Flash(ref.S("3000000000000000"), ref.S("11000000000000000")),
		drv.Burn(k.A0, k.A1, ref.N(1000)),
		drv.Burn(k.B0, k.B1, ref.Zero),
		drv.Collect(k.A0, k.A1),
		drv.Collect(k.B0, k.B1),
		drv.Flash(ref.S("3000000000000000"), ref.S("11000000000000000")),
		drv.Burn(k.B0, k.B1, lb),
		drv.Collect(k.B0, k.B1),
		drv.Burn(k.A0, k.A1, ref.Sub(la, ref.N(1000))),
		drv.Collect(k.A0, k.A1),
	}
	for _, o := range ops {
		if m := do(o); m != "" {
			return m
		}
	}
	want := 2
	if same {
		want = 1
	}
	if len(p.Positions) != want {
		return fmt.Sprintf("ranges [%d,%d] and [%d,%d] are %d accounts, want %d", k.A0, k.A1, k.B0, k.B1, len(p.Positions), want)
	}
	return ""
}

func pairTicks(thorough bool) map[int][]int {
	m := map[int][]int{
		500:   {-887270, -100010, -57340, -55300, -20480, -1010, -1000, -110, -100, -20, -10, 0, 10, 20, 100, 110, 1000, 1010, 1020, 10100, 32760, 32770, 55290, 55300, 57340, 57350, 65530, 65540, 101010, 887270},
		3000:  {-887220, -65520, -55320, -660, -60, 0, 60, 660, 6060, 55320, 57300, 65520, 65580, 887220},
		10000: {-887200, -65600, -200, 0, 200, 1000, 2000, 20200, 55400, 57200, 65400, 65600, 887200},
	}
	if thorough {
		for t := -57360; t <= 66000; t += 3720 {
			m[500] = append(m[500], t/10*10+(func() int {
				if t < 0 {
					return -10
				}
				return 10
			})())
		}
	}
	for f := range m {
		u := map[int]bool{}
		var l []int
		for _, t := range m[f] {
			if !u[t] {
				u[t] = true
				l = append(l, t)
			}
		}
		m[f] = l
	}
	return m
}

func pairs(c *ex.Ctx) {
	for fee, ts := range pairTicks(c.Thorough) {
		var rs [][2]int
		for _, a := range ts {
			for _, b := range ts {
				if a < b {
					rs = append(rs, [2]int{a, b})
				}
			}
		}
		fee := fee
		c.Par(len(rs), func(w, i int) {
			for _, y := range rs {
				for o := 0; o < 2; o++ {
					k := pairCase{fee, rs[i][0], rs[i][1], y[0], y[1], o}
					c.Beat(w, func() interface{} { return k })
					c.Transitions.Add(14)
					c.Traces.Add(1)
					if m := pair(k); m != "" {
						c.Fail(k, m)
						if c.Stop() {
							return
						}
					}
				}
			}
			c.Class("range pairs", int64(2*len(rs)))
		})
	}
}

func main() {
	ex.Run("C05", "model_checking", func(c *ex.Ctx) {
		e := engine(c)
		e.Trees()
		pairs(c)
		accounts(c)
		c.Assumptions = append(c.Assumptions, "the fees charged by each swap step are the contract's (C01, C02 decide that the pool charges those)")
	}, func(c *ex.Ctx, raw json.RawMessage) string {
		var k pairCase
		if json.Unmarshal(raw, &k) == nil && k.A0 < k.A1 {
			return pair(k)
		}
		var q crowdCase
		if json.Unmarshal(raw, &q) == nil && q.Kind != "" {
			return q.run(func() {})
		}
		return engine(c).Replay(raw)
	})
}
