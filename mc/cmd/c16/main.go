// C16: 256-bit integer arithmetic is exact modulo 2^256.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/fx"
	"verifmc/ref"
)

type B = *big.Int
type I = *ui.Int

var (
	half = ref.Pow2(255)
	mod  = ref.Q256
)

func signed(x B) B {
	if x.Cmp(half) >= 0 {
		return ref.Sub(x, mod)
	}
	return x
}
func lo64(y B) B { return new(big.Int).And(y, ref.Sub(ref.Pow2(64), ref.One)) }
func b2i(b bool) B {
	if b {
		return ref.One
	}
	return ref.Zero
}

// An operation with up to three operands.  real writes z and returns the
// pointer it got back (nil if none) plus an extra result; ref gives z and extra
// (nil: not judged).
type op struct {
	name string
	n    int
	real func(z, x, y, m I) (I, B)
	ref  func(x, y, m B) (z, extra B)
}

func flag(b bool) B { return b2i(b) }

var ops = []op{
	// unary
	{"Neg", 1, func(z, x, y, m I) (I, B) { return z.Neg(x), nil }, func(x, y, m B) (B, B) { return ref.Neg(x), nil }},
	{"Abs", 1, func(z, x, y, m I) (I, B) { return z.Abs(x), nil }, func(x, y, m B) (B, B) { return new(big.Int).Abs(signed(x)), nil }},
	{"Not", 1, func(z, x, y, m I) (I, B) { return z.Not(x), nil }, func(x, y, m B) (B, B) { return ref.Sub(ref.Max256, x), nil }},
	{"Set", 1, func(z, x, y, m I) (I, B) { return z.Set(x), nil }, func(x, y, m B) (B, B) { return x, nil }},
	{"Sqrt", 1, func(z, x, y, m I) (I, B) { return z.Sqrt(x), nil }, func(x, y, m B) (B, B) { return new(big.Int).Sqrt(x), nil }},
	{"Clone", 1, func(z, x, y, m I) (I, B) {
		c := x.Clone()
		r := drv.G(c)
		c[0], c[1], c[2], c[3] = 7, 7, 7, 7
		z.Set(x)
		return z, r
	}, func(x, y, m B) (B, B) { return x, x }},
	// binary
	{"Add", 2, func(z, x, y, m I) (I, B) { return z.Add(x, y), nil }, func(x, y, m B) (B, B) { return ref.Add(x, y), nil }},
	{"AddOverflow", 2, func(z, x, y, m I) (I, B) { r, o := z.AddOverflow(x, y); return r, flag(o) }, func(x, y, m B) (B, B) {
		s := ref.Add(x, y)
		return s, b2i(s.BitLen() > 256)
	}},
	{"Sub", 2, func(z, x, y, m I) (I, B) { return z.Sub(x, y), nil }, func(x, y, m B) (B, B) { return ref.Sub(x, y), nil }},
	{"SubOverflow", 2, func(z, x, y, m I) (I, B) { r, o := z.SubOverflow(x, y); return r, flag(o) }, func(x, y, m B) (B, B) { return ref.Sub(x, y), b2i(x.Cmp(y) < 0) }},
	{"Mul", 2, func(z, x, y, m I) (I, B) { return z.Mul(x, y), nil }, func(x, y, m B) (B, B) { return ref.Mul(x, y), nil }},
	{"MulOverflow", 2, func(z, x, y, m I) (I, B) { r, o := z.MulOverflow(x, y); return r, flag(o) }, func(x, y, m B) (B, B) {
		s := ref.Mul(x, y)
		return s, b2i(s.BitLen() > 256)
	}},
	{"Div", 2, func(z, x, y, m I) (I, B) { return z.Div(x, y), nil }, func(x, y, m B) (B, B) {
		if y.Sign() == 0 {
			return ref.Zero, nil
		}
		return new(big.Int).Quo(x, y), nil
	}},
	{"Mod", 2, func(z, x, y, m I) (I, B) { return z.Mod(x, y), nil }, func(x, y, m B) (B, B) {
		if y.Sign() == 0 {
			return ref.Zero, nil
		}
		return new(big.Int).Rem(x, y), nil
	}},
	{"SDiv", 2, func(z, x, y, m I) (I, B) { return z.SDiv(x, y), nil }, func(x, y, m B) (B, B) {
		if y.Sign() == 0 {
			return ref.Zero, nil
		}
		return new(big.Int).Quo(signed(x), signed(y)), nil
	}},
	{"SMod", 2, func(z, x, y, m I) (I, B) { return z.SMod(x, y), nil }, func(x, y, m B) (B, B) {
		if y.Sign() == 0 {
			return ref.Zero, nil
		}
		return new(big.Int).Rem(signed(x), signed(y)), nil
	}},
	{"And", 2, func(z, x, y, m I) (I, B) { return z.And(x, y), nil }, func(x, y, m B) (B, B) { return new(big.Int).And(x, y), nil }},
	{"Or", 2, func(z, x, y, m I) (I, B) { return z.Or(x, y), nil }, func(x, y, m B) (B, B) { return new(big.Int).Or(x, y), nil }},
	{"Xor", 2, func(z, x, y, m I) (I, B) { return z.Xor(x, y), nil }, func(x, y, m B) (B, B) { return new(big.Int).Xor(x, y), nil }},
	{"ExtendSign", 2, func(z, x, y, m I) (I, B) { return z.ExtendSign(x, y), nil }, func(x, y, m B) (B, B) {
		if y.Cmp(ref.N(31)) > 0 {
			return x, nil
		}
		bit := uint(y.Int64()*8 + 7)
		low := new(big.Int).And(x, ref.Sub(ref.Pow2(bit+1), ref.One))
		if x.Bit(int(bit)) == 1 {
			return ref.Sub(low, ref.Pow2(bit+1)), nil
		}
		return low, nil
	}},
	{"Cmp", 2, func(z, x, y, m I) (I, B) { return nil, ref.N(int64(x.Cmp(y))) }, func(x, y, m B) (B, B) { return nil, ref.N(int64(x.Cmp(y))) }},
	{"order", 2, func(z, x, y, m I) (I, B) {
		v := int64(0)
		for i, c := range []bool{x.Lt(y), x.Gt(y), x.Eq(y), x.Slt(y), x.Sgt(y)} {
			if c {
				v |= 1 << uint(i)
			}
		}
		return nil, ref.N(v)
	}, func(x, y, m B) (B, B) {
		v := int64(0)
		c, s := x.Cmp(y), signed(x).Cmp(signed(y))
		for i, c := range []bool{c < 0, c > 0, c == 0, s < 0, s > 0} {
			if c {
				v |= 1 << uint(i)
			}
		}
		return nil, ref.N(v)
	}},
	{"uint64s", 2, func(z, x, y, m I) (I, B) {
		n := y[0]
		v := int64(0)
		lo, ov := x.Uint64WithOverflow()
		for i, c := range []bool{x.LtUint64(n), x.GtUint64(n), x.IsUint64(), x.IsZero(), ov, lo == x.Uint64()} {
			if c {
				v |= 1 << uint(i)
			}
		}
		return nil, ref.Add(ref.Mul(new(big.Int).SetUint64(lo), ref.N(1000000)), ref.N(v+100*int64(x.Sign()+1)+1000*int64(x.BitLen())))
	}, func(x, y, m B) (B, B) {
		n := new(big.Int).And(y, ref.Sub(ref.Pow2(64), ref.One))
		lo := new(big.Int).And(x, ref.Sub(ref.Pow2(64), ref.One))
		v := int64(0)
		for i, c := range []bool{x.Cmp(n) < 0, x.Cmp(n) > 0, x.BitLen() <= 64, x.Sign() == 0, x.BitLen() > 64, true} {
			if c {
				v |= 1 << uint(i)
			}
		}
		return nil, ref.Add(ref.Mul(lo, ref.N(1000000)), ref.N(v+100*int64(signed(x).Sign()+1)+1000*int64(x.BitLen())))
	}},
	{"ByteLen", 1, func(z, x, y, m I) (I, B) { return nil, ref.N(int64(x.ByteLen())) }, func(x, y, m B) (B, B) { return nil, ref.N(int64((x.BitLen() + 7) / 8)) }},
	{"AddUint64", 2, func(z, x, y, m I) (I, B) { return z.AddUint64(x, y[0]), nil }, func(x, y, m B) (B, B) {
		return ref.Add(x, new(big.Int).And(y, ref.Sub(ref.Pow2(64), ref.One))), nil
	}},
	{"SubUint64", 2, func(z, x, y, m I) (I, B) { return z.SubUint64(x, y[0]), nil }, func(x, y, m B) (B, B) {
		return ref.Sub(x, new(big.Int).And(y, ref.Sub(ref.Pow2(64), ref.One))), nil
	}},
	{"constants", 1, func(z, x, y, m I) (I, B) {
		if !z.SetAllOne().Eq(&ui.Int{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}) || !z.SetOne().Eq(&ui.Int{1}) || !z.Clear().Eq(&ui.Int{}) || !ui.NewInt(5).Eq(&ui.Int{5}) {
			return nil, ref.One
		}
		return z.SetUint64(0x8000000000000001), ref.Zero
	}, func(x, y, m B) (B, B) { return ref.Add(ref.Pow2(63), ref.One), ref.Zero }},
	// Byte works on its receiver: z takes the byte at position y of x.
	{"Byte", 2, func(z, x, y, m I) (I, B) {
		c := x.Clone()
		if z == x {
			c = z
		}
		if r := c.Byte(y); r != c {
			return r, nil
		}
		if c != z {
			z.Set(c)
		}
		return z, nil
	}, func(x, y, m B) (B, B) {
		if y.Cmp(ref.N(31)) > 0 {
			return ref.Zero, nil
		}
		return new(big.Int).And(new(big.Int).Rsh(x, uint(8*(31-y.Int64()))), ref.N(255)), nil
	}},
	{"Umul", 2, func(z, x, y, m I) (I, B) {
		p := ui.Umul(x, y)
		return nil, ref.Add(drv.G(&ui.Int{p[0], p[1], p[2], p[3]}), ref.Lsh(drv.G(&ui.Int{p[4], p[5], p[6], p[7]}), 256))
	}, func(x, y, m B) (B, B) { return nil, ref.Mul(x, y) }},
	{"UmulStep", 2, func(z, x, y, m I) (I, B) {
		hi, lo := ui.UmulStep(x[0], x[1], y[0], y[1])
		return nil, drv.G(&ui.Int{lo, hi})
	}, func(x, y, m B) (B, B) {
		hi := func(a B) B { return lo64(new(big.Int).Rsh(a, 64)) }
		return nil, ref.Wrap(ref.Add(ref.Add(lo64(x), ref.Mul(hi(x), lo64(y))), hi(y)))
	}},
	{"UmulHop", 2, func(z, x, y, m I) (I, B) {
		hi, lo := ui.UmulHop(x[0], x[1], y[0])
		return nil, drv.G(&ui.Int{lo, hi})
	}, func(x, y, m B) (B, B) {
		return nil, ref.Add(lo64(x), ref.Mul(lo64(new(big.Int).Rsh(x, 64)), lo64(y)))
	}},
	// ternary
	{"AddMod", 3, func(z, x, y, m I) (I, B) { return z.AddMod(x, y, m), nil }, func(x, y, m B) (B, B) {
		if m.Sign() == 0 {
			return ref.Zero, nil
		}
		s := ref.Add(x, y)
		return s.Rem(s, m), nil
	}},
	{"MulMod", 3, func(z, x, y, m I) (I, B) { return z.MulMod(x, y, m), nil }, func(x, y, m B) (B, B) {
		if m.Sign() == 0 {
			return ref.Zero, nil
		}
		s := ref.Mul(x, y)
		return s.Rem(s, m), nil
	}},
	{"MulModWithReciprocal", 3, func(z, x, y, m I) (I, B) {
		mu := ui.Reciprocal(m)
		return z.MulModWithReciprocal(x, y, m, &mu), nil
	}, func(x, y, m B) (B, B) {
		if m.Sign() == 0 {
			return ref.Zero, nil
		}
		s := ref.Mul(x, y)
		return s.Rem(s, m), nil
	}},
}

var slow = []op{
	{"Exp", 2, func(z, x, y, m I) (I, B) { return z.Exp(x, y), nil }, func(x, y, m B) (B, B) { return new(big.Int).Exp(x, y, mod), nil }},
}

var shifts = []op{
	{"Lsh", 2, func(z, x, y, m I) (I, B) { return z.Lsh(x, uint(y[0])), nil }, func(x, y, m B) (B, B) {
		y = lo64(y)
		if y.Cmp(ref.N(256)) >= 0 {
			return ref.Zero, nil
		}
		return ref.Lsh(x, uint(y.Int64())), nil
	}},
	{"Rsh", 2, func(z, x, y, m I) (I, B) { return z.Rsh(x, uint(y[0])), nil }, func(x, y, m B) (B, B) {
		y = lo64(y)
		if y.Cmp(ref.N(256)) >= 0 {
			return ref.Zero, nil
		}
		return new(big.Int).Rsh(x, uint(y.Int64())), nil
	}},
	{"SRsh", 2, func(z, x, y, m I) (I, B) { return z.SRsh(x, uint(y[0])), nil }, func(x, y, m B) (B, B) {
		y = lo64(y)
		n := uint(256)
		if y.Cmp(ref.N(256)) < 0 {
			n = uint(y.Int64())
		}
		return new(big.Int).Rsh(signed(x), n), nil
	}},
}

func all() []op { return append(append(append([]op{}, ops...), slow...), shifts...) }

// alias patterns for (z,x,y,m): equal numbers share an object.
func patterns(n int) [][4]int {
	var r [][4]int
	for x := 0; x < 2; x++ {
		if n == 1 {
			r = append(r, [4]int{0, x, 8, 9})
			continue
		}
		for y := 0; y <= x+1; y++ {
			if n == 2 {
				r = append(r, [4]int{0, x, y, 9})
				continue
			}
			mx := x
			if y > mx {
				mx = y
			}
			for m := 0; m <= mx+1; m++ {
				r = append(r, [4]int{0, x, y, m})
			}
		}
	}
	return r
}

var pats = map[int][][4]int{1: patterns(1), 2: patterns(2), 3: patterns(3)}

// run evaluates o on operand values v under one alias pattern.
func run(o *op, v [3]*ui.Int, wz, we B, pat [4]int) string {
	dirty := ui.Int{0x1234567890abcdef, 0xfedcba0987654321, 0x5555aaaa5555aaaa, 0x8000000000000001}
	var obj [10]ui.Int
	obj[0] = dirty
	for i := 1; i <= o.n; i++ {
		obj[pat[i]] = *v[i-1]
	}
	z, x, y, m := &obj[pat[0]], &obj[pat[1]], &obj[pat[2]], &obj[pat[3]]
	var r I
	var e B
	if pan := ex.Protect(func() { r, e = o.real(z, x, y, m) }); pan != "" {
		return "panicked: " + pan
	}
	if wz != nil {
		if !drv.Same(z, wz) {
			return fmt.Sprintf("= %v, want %v", drv.G(z), ref.Wrap(wz))
		}
		if r != z {
			return "did not return its receiver"
		}
	} else if pat[1] != 0 && pat[2] != 0 && *z != dirty {
		return "changed an object it was not given"
	}
	if we != nil && (e == nil || e.Cmp(we) != 0) {
		return fmt.Sprintf("reported %v, want %v", e, we)
	}
	for i := 1; i <= o.n; i++ {
		if (pat[i] != 0 || wz == nil) && obj[pat[i]] != *v[i-1] {
			return fmt.Sprintf("changed operand %d to %v", i, drv.G(&obj[pat[i]]))
		}
	}
	return ""
}

// judge evaluates o on (x,y,m) under every alias pattern compatible with the values.
func judge(o *op, b [3]B, v [3]*ui.Int, alias bool) (msg string, n int64) {
	wz, we := o.ref(b[0], b[1], b[2])
	for i, p := range pats[o.n] {
		if i > 0 && !alias {
			continue
		}
		p := p
		if !alias {
			p = [4]int{0, 1, 2, 3}
		}
		ok := true
		for i := 1; i <= o.n && ok; i++ {
			for j := 1; j < i; j++ {
				if p[i] == p[j] && *v[i-1] != *v[j-1] {
					ok = false
				}
			}
		}
		if !ok {
			continue
		}
		n++
		if m := run(o, v, wz, we, p); m != "" {
			return fmt.Sprintf("%s%v with receiver/operands sharing %v: %s", o.name, b[:o.n], p[:o.n+1], m), n
		}
	}
	return "", n
}

func values(limbs []uint64) (bs []B, is []*ui.Int) {
	k := len(limbs)
	for i := 0; i < k*k*k*k; i++ {
		x := &ui.Int{limbs[i%k], limbs[i/k%k], limbs[i/k/k%k], limbs[i/k/k/k]}
		is = append(is, x)
		bs = append(bs, drv.G(x))
	}
	return
}

func main() {
	ex.Run("C16", "exploration", explore, func(c *ex.Ctx, raw json.RawMessage) string {
		var k fx.Case
		json.Unmarshal(raw, &k)
		if k.F == "program" {
			return replayProgram(k.Args)
		}
		a := fx.Nums(k.Args)
		if k.F == "divisor" && len(a) == 1 {
			return replayDivisor(a[0])
		}
		for _, o := range all() {
			if o.name == k.F {
				var b [3]B
				var v [3]*ui.Int
				for i := range b {
					b[i], v[i] = ref.Zero, new(ui.Int)
					if i < len(a) {
						b[i], v[i] = a[i], drv.U(a[i])
					}
				}
				m, _ := judge(&o, b, v, true)
				return m
			}
		}
		return ""
	})
}

func explore(c *ex.Ctx) {
	const h = 1 << 63
	m := ^uint64(0)
	two := []uint64{0, 1, h - 1, h, m}
	three := []uint64{0, 1, h, m}
	if c.Thorough {
		two = []uint64{0, 1, 2, 0x00000000ffffffff, h - 1, h, h + 1, m - 1, m}
		three = []uint64{0, 1, h - 1, h, m}
	}
	c.Rule = "every operation on every operand tuple whose four 64-bit words come from the stated alphabet (two- and three-operand alphabets below), under every way in which receiver and operands may be the same object; shifts by every amount 0..520 and large amounts; every program of two operations over three registers. Distinct by operation, operands and sharing pattern; all are non-trivial (one defined answer each)"
	c.Extra["limbs_two_operands"] = fmt.Sprintf("%x", two)
	c.Extra["limbs_three_operands"] = fmt.Sprintf("%x", three)
	names := []string{}
	for _, o := range all() {
		names = append(names, o.name)
	}
	c.Extra["operations"] = names
	zero, zb := new(ui.Int), ref.Zero
	bs, is := values(two)
	// extra operands that exercise particular paths: byte positions, bit lengths, primes
	for i := int64(2); i <= 40; i++ {
		bs = append(bs, ref.N(i))
	}
	for e := uint(3); e < 256; e += 9 {
		bs = append(bs, ref.Sub(ref.Pow2(e), ref.One), ref.Add(ref.Pow2(e), ref.N(int64(e))))
	}
	bs = append(bs, ref.S("0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"), ref.S("0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001"))
	for i := len(is); i < len(bs); i++ {
		is = append(is, drv.U(bs[i]))
	}
	n := len(bs)
	c.Par(n, func(w, i int) {
		var ev int64
		c.Beat(w, func() interface{} { return fx.Case{F: "Add", Args: fx.Strs(bs[i])} })
		for k := range ops {
			o := &ops[k]
			if o.n == 1 {
				msg, e := judge(o, [3]B{bs[i], zb, zb}, [3]*ui.Int{is[i], zero, zero}, true)
				ev += e
				if msg != "" {
					c.Fail(fx.Case{F: o.name, Args: fx.Strs(bs[i])}, msg)
				}
			}
			if o.n != 2 {
				continue
			}
			for j := 0; j < n; j++ {
				msg, e := judge(o, [3]B{bs[i], bs[j], zb}, [3]*ui.Int{is[i], is[j], zero}, true)
				ev += e
				if msg != "" {
					c.Fail(fx.Case{F: o.name, Args: fx.Strs(bs[i], bs[j])}, msg)
				}
			}
		}
		for s := 0; s <= 524; s++ {
			y := ref.N(int64(s))
			if s > 520 {
				y = []B{ref.Pow2(16), ref.Pow2(32), ref.Add(ref.Pow2(32), ref.N(7)), ref.Sub(ref.Pow2(63), ref.One)}[s-521]
			}
			yi := drv.U(y)
			for k := range shifts {
				o := &shifts[k]
				msg, e := judge(o, [3]B{bs[i], y, zb}, [3]*ui.Int{is[i], yi, zero}, true)
				ev += e
				if msg != "" {
					c.Fail(fx.Case{F: o.name, Args: fx.Strs(bs[i], y)}, msg)
				}
			}
		}
		c.Evals.Add(ev)
		c.Distinct.Add(ev)
	})
	c.Class("pairs of operands per binary operation", int64(n)*int64(n))
	tb, ti := values(three)
	extra := append([]B{}, bs[len(bs)-10:]...)
	for _, b := range extra {
		tb, ti = append(tb, b), append(ti, drv.U(b))
	}
	t := len(tb)
	c.Class("triples of operands per ternary operation", int64(t)*int64(t)*int64(t))
	c.Par(t*t, func(w, ij int) {
		i, j := ij/t, ij%t
		c.Beat(w, func() interface{} { return fx.Case{F: "MulMod", Args: fx.Strs(tb[i], tb[j])} })
		var ev int64
		for k := range ops {
			o := &ops[k]
			if o.n != 3 {
				continue
			}
			for l := 0; l < t; l++ {
				// sharing patterns on the part of the space with small index (they depend on identity, not value)
				alias := (i+j+l)%7 == 0 || i == j || j == l || i == l
				msg, e := judge(o, [3]B{tb[i], tb[j], tb[l]}, [3]*ui.Int{ti[i], ti[j], ti[l]}, alias)
				ev += e
				if msg != "" {
					c.Fail(fx.Case{F: o.name, Args: fx.Strs(tb[i], tb[j], tb[l])}, msg)
				}
			}
		}
		c.Evals.Add(ev)
		c.Distinct.Add(ev)
	})
	// exponentiation
	eb, ei := values([]uint64{0, 1, m})
	for _, b := range []int64{2, 3, 5, 7, 10, 16, 63, 64, 65, 96, 128, 160, 192, 255, 256, 257} {
		eb, ei = append(eb, ref.N(b)), append(ei, drv.U(ref.N(b)))
	}
	eb, ei = append(eb, ref.Add(ref.Pow2(192), ref.N(12345))), append(ei, drv.U(ref.Add(ref.Pow2(192), ref.N(12345))))
	c.Par(len(eb), func(w, i int) {
		c.Beat(w, func() interface{} { return fx.Case{F: "Exp", Args: fx.Strs(eb[i])} })
		for j := range eb {
			msg, e := judge(&slow[0], [3]B{eb[i], eb[j], zb}, [3]*ui.Int{ei[i], ei[j], zero}, true)
			c.Evals.Add(e)
			c.Distinct.Add(e)
			if msg != "" {
				c.Fail(fx.Case{F: "Exp", Args: fx.Strs(eb[i], eb[j])}, msg)
			}
		}
	})
	moduli(c)
	programs(c)
	c.Sample("MulMod(2^256-1, 2^256-1, 2^255) = " + func() string { z := new(ui.Int); z.MulMod(is[n-1], is[n-1], ti[3]); return z.Hex() }())
	c.Sample(fmt.Sprintf("Div%v", fx.Strs(bs[n/2], bs[n/3])))
}

// Programs: instr = op and register numbers; three registers; compared with the reference after every instruction.
type instr struct{ o, z, x, y, m int }

var progInits = [][3]string{
	{"7", "3", "115792089237316195423570985008687907853269984665640564039457584007913129639930"},
	{"340282366920938463463374607431768211455", "57896044618658097711785492504343953926634992332820282019728792003956564819968", "2"},
}

func programs(c *ex.Ctx) {
	var code []instr
	for k, o := range all() {
		if o.name == "Clone" || o.name == "Exp" {
			continue
		}
		for z := 0; z < 3; z++ {
			for x := 0; x < 3; x++ {
				for y := 0; y < 3; y++ {
					if o.n < 2 && y > 0 {
						continue
					}
					for m := 0; m < 3; m++ {
						if o.n < 3 && m > 0 {
							continue
						}
						code = append(code, instr{k, z, x, y, m})
					}
				}
			}
		}
	}
	c.Class("two-instruction programs", int64(len(code))*int64(len(code))*int64(len(progInits)))
	c.Par(len(code), func(w, i int) {
		c.Beat(w, func() interface{} { return fx.Case{F: "program", Args: []string{fmt.Sprint(code[i])}} })
		for k := range progInits {
			for j := range code {
				p := []instr{code[i], code[j]}
				if m := runProgram(k, p); m != "" {
					b, _ := json.Marshal([]int{k, p[0].o, p[0].z, p[0].x, p[0].y, p[0].m, p[1].o, p[1].z, p[1].x, p[1].y, p[1].m})
					c.Fail(fx.Case{F: "program", Args: []string{string(b)}}, m)
				}
			}
			c.Evals.Add(int64(len(code)))
			c.Distinct.Add(int64(len(code)))
		}
	})
}

var allOps = all()

func runProgram(k int, p []instr) (msg string) {
	var rb [3]B
	var ri [3]ui.Int
	for i := range rb {
		rb[i] = ref.S(progInits[k][i])
		ri[i] = *drv.U(rb[i])
	}
	for n, in := range p {
		o := &allOps[in.o]
		wz, we := o.ref(rb[in.x], rb[in.y], rb[in.m])
		var e B
		if pan := ex.Protect(func() { _, e = o.real(&ri[in.z], &ri[in.x], &ri[in.y], &ri[in.m]) }); pan != "" {
			return o.name + " panicked: " + pan
		}
		if wz != nil {
			rb[in.z] = ref.Wrap(wz)
		}
		if we != nil && (e == nil || e.Cmp(we) != 0) {
			return fmt.Sprintf("program %v, instruction %d (%s) reported %v, want %v", p, n, o.name, e, we)
		}
		for i := range rb {
			if !drv.Same(&ri[i], rb[i]) {
				return fmt.Sprintf("program %v: after instruction %d (%s) register %d holds %v, want %v", p, n, o.name, i, drv.G(&ri[i]), rb[i])
			}
		}
	}
	return ""
}

func replayProgram(a []string) string {
	var v []int
	if len(a) == 0 || json.Unmarshal([]byte(a[0]), &v) != nil || len(v) != 11 {
		return ""
	}
	return runProgram(v[0], []instr{{v[1], v[2], v[3], v[4], v[5]}, {v[6], v[7], v[8], v[9], v[10]}})
}
