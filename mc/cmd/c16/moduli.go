package main

import (
	"fmt"
	"math/big"

	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/fx"
	"verifmc/ref"
)

// words is an alphabet of 64-bit words: runs of ones at either end, single bits, regular patterns.
func words(dense int) (r []uint64) {
	seen := map[uint64]bool{}
	add := func(x uint64) {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	for _, x := range []uint64{0, 1, 2, 3, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0) - 1, ^uint64(0), 0xffffffff, 0xffffffff00000000, 0x5555555555555555, 0x123456789abcdef1, 1 << 32} {
		add(x)
	}
	for i := 1; i < 64; i += dense {
		add(1 << i)
		add(1<<i - 1)
		add(^uint64(0) << i)
		add(^(uint64(1) << i))
		add(uint64(0xb504f333f9de6484) >> i)
	}
	return
}

// moduli: for every divisor of a large structured set, the reciprocal, and divisions
// and modular products whose remainder is as large or as small as it can be.
func moduli(c *ex.Ctx) {
	tops, low := words(1), words(64)[:14]
	if c.Thorough {
		low = words(8)
	}
	n := len(low) * len(low) * len(low)
	tol := ref.N(16)
	p512 := ref.Pow2(512)
	qs := quots()
	lens := 4 // words in the divisor
	c.Par(len(tops)*lens, func(w, ti int) {
		top, l := tops[ti/lens], ti%lens+1
		if top == 0 {
			return
		}
		var ev int64
		k := n
		for i := l; i < 4; i++ {
			k /= len(low)
		}
		for i := 0; i < k; i++ {
			var m ui.Int
			m[l-1] = top
			for j, x := l-2, i; j >= 0; j-- {
				m[j] = low[x%len(low)]
				x /= len(low)
			}
			if i%256 == 0 {
				c.Beat(w, func() interface{} { return fx.Case{F: "divisor", Args: fx.Strs(drv.G(&m))} })
			}
			if msg := divisor(&m, qs, tol, p512, i); msg != "" {
				c.Fail(fx.Case{F: "divisor", Args: fx.Strs(drv.G(&m))}, msg)
				return
			}
			ev++
		}
		c.Evals.Add(9 * ev)
		c.Distinct.Add(9 * ev)
		c.Class("divisors with extreme remainders", ev)
	})
}

func divisor(m *ui.Int, qs []B, tol, p512 B, i int) (msg string) {
	if e := ex.Protect(func() { msg = divisor1(m, qs, tol, p512, i) }); e != "" {
		return fmt.Sprintf("divisor %x: panic: %s", drv.G(m), e)
	}
	return
}

func divisor1(m *ui.Int, qs []B, tol, p512 B, i int) string {
	b := drv.G(m)
	keep := *m
	if m[3] != 0 {
		mu := ui.Reciprocal(m)
		g := new(big.Int)
		for i := 4; i >= 0; i-- {
			g.Lsh(g, 64).Or(g, new(big.Int).SetUint64(mu[i]))
		}
		d := new(big.Int).Quo(p512, b)
		if d.Sub(d, g); d.Sign() < 0 || d.Cmp(tol) > 0 {
			return fmt.Sprintf("Reciprocal(%x) is %x, 2^512 divided by it is %x", b, g, d.Add(d, g))
		}
	}
	last := new(big.Int).Sub(b, ref.One)
	for j := 0; j < 2; j++ {
		q := qs[(i*2+j)%len(qs)]
		for _, r := range []B{last, ref.Zero} {
			// q*b + r
			x := new(big.Int).Mul(q, b)
			x.Add(x, r)
			var words [8]uint64
			for k, t := 0, new(big.Int).Set(x); k < 8; k++ {
				words[k] = t.Uint64()
				t.Rsh(t, 64)
			}
			if x.BitLen() > 512 {
				continue
			}
			var quot [8]uint64
			rem := ui.Udivrem(quot[:], words[:], m)
			g := new(big.Int)
			for k := 7; k >= 0; k-- {
				g.Lsh(g, 64).Or(g, new(big.Int).SetUint64(quot[k]))
			}
			if g.Cmp(q) != 0 || !drv.Same(&rem, r) {
				return fmt.Sprintf("Udivrem of %x by %x is %x remainder %x, want %x remainder %x", x, b, g, drv.G(&rem), q, r)
			}
			if x.BitLen() <= 256 {
				u := drv.U(x)
				if z := new(ui.Int).Div(u, m); !drv.Same(z, q) {
					return fmt.Sprintf("Div(%x, %x) is %x", x, b, drv.G(z))
				}
				if z := new(ui.Int).Mod(u, m); !drv.Same(z, r) {
					return fmt.Sprintf("Mod(%x, %x) is %x", x, b, drv.G(z))
				}
			}
		}
	}
	if *m != keep {
		return fmt.Sprintf("divisor %x was changed", b)
	}
	// (m-1)^2 = 1, (2^256-1)^2, and a product just below a multiple of m
	u := drv.U(last)
	if z := new(ui.Int).MulMod(u, u, m); b.Cmp(ref.One) != 0 && !drv.Same(z, ref.One) {
		return fmt.Sprintf("MulMod(m-1, m-1, m) is %x for m = %x", drv.G(z), b)
	}
	for _, y := range []B{qs[i%len(qs)], ref.Max256} {
		x := new(big.Int).Quo(ref.Max256, y)
		x.Mul(x, b)
		x.Add(x, y).Quo(x, y) // x*y is a little above a multiple of m
		x.Rem(x, ref.Q256)
		p := new(big.Int).Mul(x, y)
		p.Rem(p, b)
		if z := new(ui.Int).MulMod(drv.U(x), drv.U(y), m); !drv.Same(z, p) {
			return fmt.Sprintf("MulMod(%x, %x, %x) is %x, want %x", x, y, b, drv.G(z), p)
		}
		p.Mul(y, ref.Max256).Rem(p, b)
		if z := new(ui.Int).MulMod(drv.U(y), drv.U(ref.Max256), m); !drv.Same(z, p) {
			return fmt.Sprintf("MulMod(%x, 2^256-1, %x) is %x, want %x", y, b, drv.G(z), p)
		}
	}
	return ""
}

func quots() []B {
	return []B{ref.One, ref.Sub(ref.Pow2(64), ref.One), ref.Pow2(64), ref.Sub(ref.Pow2(128), ref.Pow2(63)), ref.S("0xfffffffffffffffe0000000000000000ffffffffffffffff"), ref.Sub(ref.Pow2(255), ref.One), ref.Sub(ref.Q256, ref.One), ref.Sub(ref.Pow2(192), ref.Pow2(127))}
}

func replayDivisor(m B) string {
	for i := range quots() {
		if s := divisor(drv.U(m), quots(), ref.N(16), ref.Pow2(512), i); s != "" {
			return s
		}
	}
	return ""
}
