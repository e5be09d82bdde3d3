package main

import (
	"fmt"
	"math/big"

	"uniswap-simulator/lib/prices"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
)

// many gives k.Many samples to a window of k.N prices and asks after each
// (after some, when the window is a long one). The expected sums are carried
// along exactly.
func many(k Case, beat func()) (msg string) {
	if e := ex.Protect(func() { msg = many1(k, beat) }); e != "" {
		return fmt.Sprintf("window of %d: panic: %s", k.N, e)
	}
	return
}

func many1(k Case, beat func()) string {
	p := prices.NewPrices(k.N)
	sqs := make([]B, k.N) // the last N squares, in no particular order
	for i := range sqs {
		sqs[i] = ref.Zero
	}
	sum, sum2 := new(big.Int), new(big.Int)
	n := big.NewInt(int64(k.N))
	base := []B{ref.SqrtRatioAtTick(194640), ref.Q96, ref.Sub(ref.Pow2(115), ref.One)}[k.Pat%3]
	x := new(big.Int)
	h := uint64(k.Pat)*7919 + uint64(k.N)
	for i := 0; i < k.Many; i++ {
		beat()
		// all samples differ; the steps are of every size
		h = h*6364136223846793005 + 1442695040888963407
		x.SetUint64(h >> (h & 31))
		x.Lsh(x, uint(h>>5&15))
		x.Sub(base, x)
		u := drv.U(x)
		p.Add(u)
		u.Set(ui.NewInt(3))
		sq := new(big.Int).Mul(x, x)
		at := i % k.N
		old := sqs[at]
		sqs[at] = sq
		sum.Add(sum, sq).Sub(sum, old)
		sum2.Add(sum2, new(big.Int).Mul(sq, sq)).Sub(sum2, new(big.Int).Mul(old, old))
		if j := i % k.N; k.N > 400 && j > 3 && j < k.N-3 && i%61 != 0 {
			continue
		}
		avg := new(big.Int).Quo(sum, n)
		if a := p.Average(); !drv.Same(a, avg) {
			return fmt.Sprintf("window of %d, %d samples: Average is %v, not %v", k.N, i+1, drv.G(a), avg)
		}
		if k.N > 1 && (k.N <= 130 || i%7 == 0 || i%k.N < 2 || i%k.N > k.N-3) {
			// sum of (x-avg)^2 = sum x^2 - 2 avg sum x + n avg^2
			v := new(big.Int).Mul(avg, avg)
			v.Mul(v, n)
			t := new(big.Int).Mul(avg, sum)
			v.Sub(v, t.Lsh(t, 1)).Add(v, sum2)
			v.Quo(v, big.NewInt(int64(k.N-1)))
			v.Sqrt(v)
			if g := p.Volatility(); !drv.Same(g, v) {
				return fmt.Sprintf("window of %d, %d samples: Volatility is %v, not %v", k.N, i+1, drv.G(g), v)
			}
		}
	}
	return ""
}

// lengths: windows of every length up to a bound and of lengths around powers of two and
// round numbers beyond it, each through more than two rounds; and short ones through very many.
func lengths(c *ex.Ctx) {
	var ks []Case
	add := func(n, samples int) {
		for pat := 0; pat < 3; pat++ {
			ks = append(ks, Case{N: n, Many: samples, Pat: pat})
		}
	}
	top, many := 260, 140000
	if c.Thorough {
		top, many = 1100, 1100000
	}
	for n := 1; n <= top; n++ {
		add(n, 2*n+5)
	}
	for _, n := range []int{300, 365, 366, 400, 500, 511, 512, 513, 672, 720, 744, 1000, 1023, 1024, 1025, 1440, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 8760} {
		if n > top {
			add(n, 2*n+5)
		}
	}
	for _, n := range []int{1, 2, 3, 24} {
		add(n, many/(1+n/12))
	}
	c.Par(len(ks), func(w, i int) {
		k := ks[len(ks)-1-i]
		if m := many1Beat(c, w, k); m != "" {
			c.Fail(k, m)
		}
		c.Traces.Add(1)
		c.Transitions.Add(int64(k.Many))
		c.States.Add(int64(k.Many))
		c.Class("samples in windows of every length", int64(k.Many))
		c.Idle(w)
	})
}

func many1Beat(c *ex.Ctx, w int, k Case) string {
	c.Beat(w, func() interface{} { return k })
	n := 0
	return many(k, func() {
		if n++; n%1000 == 0 {
			c.Beat(w, func() interface{} { return k })
		}
	})
}
