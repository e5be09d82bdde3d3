// Package fx explores a pure function's operand space exhaustively: every
// element of a product of finite alphabets is evaluated on the real code and
// compared with a reference.
package fx

import (
	"math/big"

	"verifmc/ref"
)

type B = *big.Int

// Prices is the alphabet of square-root prices: both ends of the range, powers
// of two, exact tick prices and their neighbours, and prices in between.
func Prices(thorough bool) []B {
	m := map[string]bool{}
	var r []B
	add := func(b B) {
		if b.Cmp(ref.MinSqrt) < 0 || b.Cmp(ref.MaxSqrt) >= 0 || m[b.String()] {
			return
		}
		m[b.String()] = true
		r = append(r, b)
	}
	ticks := []int{-887272, -887271, -443636, -60, -10, -1, 0, 1, 10, 200, 198080, 443636, 887271}
	if thorough {
		ticks = append(ticks, -887270, -700001, -250000, -100000, -20000, -5000, -600, -200, -2, 2, 60, 600, 5000, 20000, 100000, 195000, 250000, 600000, 700001, 887220, 887270)
	}
	for _, t := range ticks {
		p := ref.SqrtRatioAtTick(t)
		add(p)
		add(ref.Add(p, ref.One))
		if thorough || t == 0 || t == 198080 || t == -1 {
			add(ref.Sub(p, ref.One))
		}
	}
	for _, e := range []uint{33, 64, 96, 128, 159} {
		add(ref.Sub(ref.Pow2(e), ref.One))
		add(ref.Pow2(e))
		if thorough {
			add(ref.Add(ref.Pow2(e), ref.One))
		}
	}
	add(ref.Sub(ref.MaxSqrt, ref.One))
	add(ref.S("1350174849792634181862360983626536"))
	if thorough {
		for e := uint(36); e < 160; e += 4 {
			add(ref.Add(ref.Pow2(e), ref.N(int64(e)*7919)))
		}
		add(ref.Sub(ref.MaxSqrt, ref.N(2)))
	}
	return r
}

// Liquidities is the alphabet of uint128 liquidities.
func Liquidities(thorough bool) []B {
	r := []B{ref.Zero, ref.One, ref.N(3), ref.N(1009), ref.N(1000000007), ref.S("1000000000000000003"),
		ref.Sub(ref.Pow2(64), ref.One), ref.Pow2(64), ref.Add(ref.Pow2(96), ref.N(777)), ref.Pow2(127), ref.Sub(ref.Pow2(128), ref.One)}
	if thorough {
		r = append(r, ref.N(2), ref.Pow2(32), ref.Pow2(63), ref.Add(ref.Pow2(80), ref.N(12345)), ref.S("17390874234234112345"),
			ref.Add(ref.Pow2(108), ref.N(99991)), ref.Sub(ref.Pow2(96), ref.One), ref.Add(ref.Pow2(64), ref.One), ref.Sub(ref.Pow2(127), ref.One))
	}
	return r
}

// Strs renders numbers for a case description.
func Strs(bs ...B) []string {
	var r []string
	for _, b := range bs {
		r = append(r, b.String())
	}
	return r
}

// Nums is its inverse.
func Nums(ss []string) []B {
	var r []B
	for _, s := range ss {
		b, _ := new(big.Int).SetString(s, 10)
		if b == nil {
			b = new(big.Int)
		}
		r = append(r, b)
	}
	return r
}

// Case is a serialisable function call.
type Case struct {
	F    string
	Args []string
}
