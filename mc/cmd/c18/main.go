// C18: full-precision multiply-divide is exact.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"uniswap-simulator/lib/fullmath"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/fx"
	"verifmc/ref"
)

type B = *big.Int

// muldiv judges one triple; shared: equal values are one object.
func muldiv(a, b, d B, ia, ib, id *ui.Int) (class int, msg string) {
	if d.Sign() == 0 {
		return 0, ""
	}
	p := new(big.Int).Mul(a, b)
	q, r := new(big.Int).QuoRem(p, d, new(big.Int))
	if q.BitLen() > 256 {
		return 0, ""
	}
	oa, ob, od := *ia, *ib, *id
	class = 1
	if p.BitLen() > 256 {
		class = 2
	}
	var g *ui.Int
	if pan := ex.Protect(func() { g = fullmath.MulDiv(ia, ib, id) }); pan != "" {
		return class, fmt.Sprintf("MulDiv(%v, %v, %v) panicked: %s", a, b, d, pan)
	}
	if !drv.Same(g, q) {
		return class, fmt.Sprintf("MulDiv(%v, %v, %v) = %v, want %v", a, b, d, drv.G(g), q)
	}
	if g == ia || g == ib || g == id {
		return class, fmt.Sprintf("MulDiv(%v, %v, %v) returned an operand", a, b, d)
	}
	if r.Sign() != 0 {
		q.Add(q, ref.One)
		class += 2
	}
	if q.BitLen() <= 256 {
		var u *ui.Int
		if pan := ex.Protect(func() { u = fullmath.MulDivRoundingUp(ia, ib, id) }); pan != "" {
			return class, fmt.Sprintf("MulDivRoundingUp(%v, %v, %v) panicked: %s", a, b, d, pan)
		}
		if !drv.Same(u, q) {
			return class, fmt.Sprintf("MulDivRoundingUp(%v, %v, %v) = %v, want %v", a, b, d, drv.G(u), q)
		}
		u[0]++ // the result is the caller's
	}
	g[0]++
	if *ia != oa || *ib != ob || *id != od {
		return class, fmt.Sprintf("MulDiv(%v, %v, %v) changed an operand (or its result shares one)", a, b, d)
	}
	return class, ""
}

// udivrem judges (q*d+r)/d.
func udivrem(q, d, r B) string {
	u := new(big.Int).Mul(q, d)
	u.Add(u, r)
	if u.BitLen() > 512 {
		return ""
	}
	var w [8]uint64
	for i, x := range u.Bits() {
		w[i] = uint64(x)
	}
	cp := w
	id := drv.U(d)
	var quot [8]uint64
	var rem ui.Int
	if pan := ex.Protect(func() { rem = ui.Udivrem(quot[:], w[:], id) }); pan != "" {
		return fmt.Sprintf("Udivrem(%v, %v) panicked: %s", u, d, pan)
	}
	g := new(big.Int)
	for i := 7; i >= 0; i-- {
		g.Lsh(g, 64)
		g.Or(g, new(big.Int).SetUint64(quot[i]))
	}
	if g.Cmp(q) != 0 || !drv.Same(&rem, r) {
		return fmt.Sprintf("Udivrem(%v, %v) = %v remainder %v, want %v remainder %v", u, d, g, drv.G(&rem), q, r)
	}
	if w != cp || !drv.Same(id, d) {
		return fmt.Sprintf("Udivrem(%v, %v) changed its operands", u, d)
	}
	return ""
}

func values(limbs []uint64) (bs []B, is []*ui.Int) {
	k := len(limbs)
	for i := 0; i < k*k*k*k; i++ {
		x := &ui.Int{limbs[i%k], limbs[i/k%k], limbs[i/k/k%k], limbs[i/k/k/k]}
		is = append(is, x)
		bs = append(bs, drv.G(x))
	}
	return
}

func main() {
	ex.Run("C18", "exploration", explore, func(c *ex.Ctx, raw json.RawMessage) string {
		var k fx.Case
		json.Unmarshal(raw, &k)
		a := fx.Nums(k.Args)
		if len(a) < 3 {
			return ""
		}
		if k.F == "udivrem" {
			return udivrem(a[0], a[1], a[2])
		}
		ia, ib, id := drv.U(a[0]), drv.U(a[1]), drv.U(a[2])
		if k.F == "shared" {
			if a[0].Cmp(a[1]) == 0 {
				ib = ia
			}
			if a[2].Cmp(a[0]) == 0 {
				id = ia
			} else if a[2].Cmp(a[1]) == 0 {
				id = ib
			}
		}
		_, m := muldiv(a[0], a[1], a[2], ia, ib, id)
		return m
	})
}

func explore(c *ex.Ctx) {
	limbs := []uint64{0, 1, 1 << 63, ^uint64(0)}
	ql := []uint64{0, 1, 1<<63 - 1, 1 << 63, ^uint64(0)}
	if c.Thorough {
		limbs = []uint64{0, 1, 1<<63 - 1, 1 << 63, ^uint64(0)}
		ql = []uint64{0, 1, 2, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0)}
	}
	bs, is := values(limbs)
	for _, b := range []B{ref.N(3), ref.N(500), ref.N(3000), ref.N(1000000), ref.N(997000), ref.Sub(ref.Q96, ref.One), ref.Q96, ref.Q192, ref.S("1350174849792634181862360983626536"), ref.S("366874042000000"), ref.Add(ref.Pow2(161), ref.One), ref.S("1461446703485210103287273052203988822378723970341"), ref.Pow2(32), ref.Sub(ref.Pow2(32), ref.One)} {
		bs, is = append(bs, b), append(is, drv.U(b))
	}
	c.Rule = "every triple (a, b, d) of the value alphabet with a defined quotient below 2^256 (words from limbs plus named constants), through both roundings, also with equal operands being one object; every (q, d, r) of a second alphabet, r in {0, 1, d/2, d-1}, as the 512-bit division (q*d+r)/d; distinct by triple; non-trivial: quotient defined and representable"
	c.Extra["limbs"], c.Extra["limbs_division"], c.Extra["values"] = fmt.Sprintf("%x", limbs), fmt.Sprintf("%x", ql), len(bs)
	n := len(bs)
	names := []string{"undefined", "product fits, exact", "product exceeds 256 bits, exact", "product fits, inexact", "product exceeds 256 bits, inexact"}
	c.Par(n*n, func(w, ij int) {
		i, j := ij/n, ij%n
		c.Beat(w, func() interface{} { return fx.Case{F: "muldiv", Args: fx.Strs(bs[i], bs[j], ref.One)} })
		var cl [5]int64
		for k := range bs {
			x, m := muldiv(bs[i], bs[j], bs[k], is[i].Clone(), is[j].Clone(), is[k].Clone())
			cl[x]++
			if m != "" {
				c.Fail(fx.Case{F: "muldiv", Args: fx.Strs(bs[i], bs[j], bs[k])}, m)
			}
			if i == j || j == k || i == k {
				ia, ib, id := is[i].Clone(), is[j].Clone(), is[k].Clone()
				if i == j {
					ib = ia
				}
				if k == i {
					id = ia
				} else if k == j {
					id = ib
				}
				x, m := muldiv(bs[i], bs[j], bs[k], ia, ib, id)
				cl[x]++
				if m != "" {
					c.Fail(fx.Case{F: "shared", Args: fx.Strs(bs[i], bs[j], bs[k])}, "one object for equal operands: "+m)
				}
			}
		}
		for x, v := range cl {
			c.Evals.Add(v)
			if x > 0 {
				c.Distinct.Add(v)
			}
			c.Class(names[x], v)
		}
	})
	qb, _ := values(ql)
	c.Par(len(qb), func(w, i int) {
		d := qb[i]
		if d.Sign() == 0 {
			return
		}
		c.Beat(w, func() interface{} { return fx.Case{F: "udivrem", Args: fx.Strs(ref.One, d, ref.Zero)} })
		rs := []B{ref.Zero}
		for _, r := range []B{ref.One, ref.Div(d, ref.N(2)), ref.Sub(d, ref.One)} {
			if r.Cmp(d) < 0 && r.Cmp(rs[len(rs)-1]) > 0 {
				rs = append(rs, r)
			}
		}
		for _, q := range qb {
			for _, r := range rs {
				c.Evals.Add(1)
				c.Distinct.Add(1)
				if m := udivrem(q, d, r); m != "" {
					c.Fail(fx.Case{F: "udivrem", Args: fx.Strs(q, d, r)}, m)
				}
			}
		}
	})
	c.Sample(fmt.Sprintf("MulDiv(%v, %v, %v)", bs[n/2], bs[n/3], bs[n-1]))
}
