// C03: the pool never pays out more than it took in.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"uniswap-simulator/lib/pool"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/hist"
	"verifmc/led"
	"verifmc/ref"
	"verifmc/scn"
)

// books: the tokens in the pool's till, from the amounts it reported.
type books struct {
	*led.Ledger
	c0, c1 *big.Int // cash: received minus paid, burn proceeds are paid when collected
	d0, d1 *big.Int // most that rounding may have left over
	g0, g1 *big.Int // most that the fees may have added to a growth accumulator
	bad    string
	track  bool
}

func newBooks(s *hist.Scn) interface{} {
	b := &books{Ledger: led.New(), c0: ref.Zero, c1: ref.Zero, d0: ref.Zero, d1: ref.Zero, g0: ref.Zero, g1: ref.Zero, track: true}
	for _, l := range [][]drv.Op{s.Pre, s.Ops} {
		for _, o := range l {
			if o.K == "emint" || o.K == "eburn" {
				b.track = false
			}
		}
	}
	return b
}

func (b *books) add(x0, x1 *big.Int) { b.c0, b.c1 = ref.Add(b.c0, x0), ref.Add(b.c1, x1) }

func ghost(n *hist.Node) {
	b := n.User.(*books)
	b.Note(n)
	if n.Panic != nil || !n.Accept {
		return
	}
	steps := int64(2)
	switch n.Op.K {
	case "mint":
		b.add(drv.GS(n.X0), drv.GS(n.X1))
	case "in", "out":
		b.add(drv.GS(n.X0), drv.GS(n.X1))
		if n.Op.Z {
			b.grow(n.Before, drv.GS(n.X0), ref.Zero)
		} else {
			b.grow(n.Before, ref.Zero, drv.GS(n.X1))
		}
		steps += int64(n.After.Steps)
		// one unit of price is worth this much
		lm := ref.Zero
		for _, v := range n.Before.Ticks {
			lm = ref.Add(lm, v.Gross)
		}
		pm := ref.Min(n.Before.P, n.After.P)
		b.d1 = ref.Add(b.d1, ref.Mul(ref.N(steps), ref.Div(lm, ref.Pow2(96))))
		b.d0 = ref.Add(b.d0, ref.Mul(ref.N(steps), ref.Div(ref.Lsh(lm, 96), ref.Mul(pm, pm))))
	case "collect":
		b.add(ref.Neg(drv.G(n.X0)), ref.Neg(drv.G(n.X1)))
	case "flash":
		b.grow(n.Before, ref.MulDivUp(n.Op.A, ref.N(int64(n.S.Fee)), ref.E6), ref.MulDivUp(n.Op.A1, ref.N(int64(n.S.Fee)), ref.E6))
		b.add(ref.MulDivUp(n.Op.A, ref.N(int64(n.S.Fee)), ref.E6), ref.MulDivUp(n.Op.A1, ref.N(int64(n.S.Fee)), ref.E6))
	case "emint":
		b.add(led.Principal(n.Real, n.Op.Lo, n.Op.Hi, n.Op.A, true))
	case "eburn":
		x0, x1 := led.Principal(n.Real, n.Op.Lo, n.Op.Hi, n.Op.A, false)
		b.add(ref.Neg(x0), ref.Neg(x1))
	}
	k := ref.N(2 * (steps + int64(len(b.Pos))))
	b.d0, b.d1 = ref.Add(b.d0, k), ref.Add(b.d1, k)
	if b.bad == "" && (b.c0.Sign() < 0 || b.c1.Sign() < 0) {
		b.bad = fmt.Sprintf("after %v the pool has paid out more than it took in: balances %v and %v", n.Op, b.c0, b.c1)
	}
}

// grow notes fees of at most f0 and f1. The accumulators wrap, as the contract's do: a
// position that is not touched while one of them goes round once loses what a whole
// round is worth, so from there on nothing is said about how little is left over.
func (b *books) grow(p *ref.Pool, f0, f1 *big.Int) {
	var l *big.Int
	for _, v := range p.Ticks {
		if l == nil || v.Gross.Cmp(l) < 0 {
			l = v.Gross
		}
	}
	if l == nil || l.Sign() == 0 {
		return
	}
	b.g0, b.g1 = ref.Add(b.g0, ref.Div(ref.Lsh(f0, 128), l)), ref.Add(b.g1, ref.Div(ref.Lsh(f1, 128), l))
	if b.g0.BitLen() > 256 || b.g1.BitLen() > 256 {
		b.track = false
	}
}

func step(n *hist.Node) string { return n.User.(*books).bad }

// withdraw empties the pool in the given order of positions.
func withdraw(p *pool.Pool, b *books, order []int, keys []led.Key) string {
	c0, c1 := b.c0, b.c1
	pay := func(x0, x1 *big.Int, what string) string {
		c0, c1 = ref.Sub(c0, x0), ref.Sub(c1, x1)
		if c0.Sign() < 0 || c1.Sign() < 0 {
			return fmt.Sprintf("withdrawing everything (order %v of %v): at %s the pool is short: balances %v and %v", order, keys, what, c0, c1)
		}
		return ""
	}
	for _, i := range order {
		k := keys[i]
		if l, ok := b.Pos[k]; ok {
			if l.Sign() > 0 {
				if _, _, pan, _ := drv.Apply(p, drv.Burn(k.Lo, k.Hi, l)); pan != nil {
					return fmt.Sprintf("position [%d,%d] cannot be withdrawn (order %v of %v): %v", k.Lo, k.Hi, order, keys, pan)
				}
			}
			x0, x1, pan, _ := drv.Apply(p, drv.Collect(k.Lo, k.Hi))
			if pan != nil {
				return fmt.Sprintf("position [%d,%d] cannot be collected: %v", k.Lo, k.Hi, pan)
			}
			if m := pay(drv.G(x0), drv.G(x1), fmt.Sprintf("position [%d,%d]", k.Lo, k.Hi)); m != "" {
				return m
			}
		}
		if l, ok := b.Ext[k]; ok && l.Sign() > 0 {
			x0, x1 := led.Principal(p, k.Lo, k.Hi, l, false)
			if _, _, pan, _ := drv.Apply(p, drv.EBurn(k.Lo, k.Hi, l)); pan != nil {
				return fmt.Sprintf("liquidity of [%d,%d] cannot be withdrawn: %v", k.Lo, k.Hi, pan)
			}
			if m := pay(x0, x1, fmt.Sprintf("untracked [%d,%d]", k.Lo, k.Hi)); m != "" {
				return m
			}
		}
	}
	if b.track && (c0.Cmp(b.d0) > 0 || c1.Cmp(b.d1) > 0) {
		return fmt.Sprintf("after everything was withdrawn %v and %v are left in the pool; rounding explains at most %v and %v", c0, c1, b.d0, b.d1)
	}
	return ""
}

var orders = func() map[int][][]int {
	r := map[int][][]int{}
	var perm func(pre, rest []int) [][]int
	perm = func(pre, rest []int) (out [][]int) {
		if len(rest) == 0 {
			return [][]int{append([]int{}, pre...)}
		}
		for i := range rest {
			q := append(append([]int{}, rest[:i]...), rest[i+1:]...)
			out = append(out, perm(append(append([]int{}, pre...), rest[i]), q)...)
		}
		return
	}
	for n := 0; n <= 4; n++ {
		var x []int
		for i := 0; i < n; i++ {
			x = append(x, i)
		}
		r[n] = perm(nil, x)
	}
	return r
}()

var allOrders int // history length up to which every order of withdrawal is tried

func final(n *hist.Node) string {
	b := n.User.(*books)
	m := map[led.Key]*big.Int{}
	for k, v := range b.Pos {
		m[k] = v
	}
	for k, v := range b.Ext {
		if v.Sign() > 0 {
			m[k] = v
		}
	}
	keys := led.Sorted(m)
	all := orders[len(keys)]
	if len(keys) > 4 {
		var up, dn []int
		for i := range keys {
			up = append(up, i)
			dn = append(dn, len(keys)-1-i)
		}
		all = [][]int{up, dn}
	} else if len(n.Path) > allOrders {
		all = [][]int{all[0], all[len(all)-1]}
		if len(keys) < 2 {
			all = all[:1]
		}
	}
	for i, o := range all {
		p := n.Real
		if i > 0 {
			p = n.S.Build(n.Path)
		}
		if s := withdraw(p, b, o, keys); s != "" {
			return s
		}
	}
	return ""
}

func engine(c *ex.Ctx) *hist.Engine {
	var ss []*hist.Scn
	allOrders = 2
	if c.Thorough {
		allOrders = 3
	}
	for i, s := range scn.Inv(c.Thorough) {
		if t := scn.Tracked(s); i%2 == 0 {
			ss = append(ss, t)
			if c.Thorough {
				ss = append(ss, s)
			}
		} else {
			ss = append(ss, s)
			if c.Thorough {
				ss = append(ss, t)
			}
		}
	}
	return &hist.Engine{C: c, Scns: ss, Step: step, Init: newBooks, Ghost: ghost, Final: final, Every: true}
}

func main() {
	ex.Run("C03", "model_checking", func(c *ex.Ctx) {
		e := engine(c)
		e.Trees()
		c.Extra["withdrawal_orders"] = fmt.Sprintf("after every history everything is withdrawn; all orders (up to 4 ranges) after at most %d operations, ascending and descending beyond", allOrders)
		c.Assumptions = append(c.Assumptions, "flash fees are taken to be the amount times the fee, rounded up; untracked liquidity pays and receives the contract's principal at the pool's price")
	}, func(c *ex.Ctx, raw json.RawMessage) string { return engine(c).Replay(raw) })
}
