// C15: the price window holds the last N prices; its statistics are exact.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"uniswap-simulator/lib/prices"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
)

type B = *big.Int

// Case is a window and the samples given to it, as indices into the alphabet.
type Case struct {
	N     int
	Alpha []string `json:",omitempty"`
	Path  []int    `json:",omitempty"`
	Many  int      `json:",omitempty"` // so many samples, see many
	Pat   int      `json:",omitempty"`
}

func alphabet(which int) []B {
	switch which {
	case 0: // small numbers, both ends of what is accepted, and three rejected ones
		return []B{ref.Zero, ref.One, ref.N(3), ref.MinSqrt, ref.Q96, ref.S("1350174849792634181862360983626536"), ref.Sub(ref.Pow2(115), ref.One), ref.Pow2(115), ref.Pow2(128), ref.Sub(ref.Q256, ref.One)}
	case 1: // close prices: tiny variances
		return []B{ref.Q96, ref.Add(ref.Q96, ref.One), ref.Sub(ref.Q96, ref.One), ref.Mul(ref.Q96, ref.N(2)), ref.Pow2(159)}
	case 2:
		return []B{ref.SqrtRatioAtTick(194640), ref.SqrtRatioAtTick(195000), ref.SqrtRatioAtTick(-600000)}
	}
	// squares with the same low words, a square that overflows to a small number
	return []B{ref.Pow2(64), ref.Pow2(32), ref.Add(ref.Pow2(64), ref.Pow2(32)), ref.Add(ref.Pow2(255), ref.One), ref.Pow2(160)}
}

type window struct {
	n   int
	all []B // squares, oldest first, only accepted samples
}

func (w *window) last() []B {
	r := make([]B, 0, w.n)
	for i := 0; i < w.n; i++ {
		if k := len(w.all) - 1 - i; k >= 0 {
			r = append(r, w.all[k])
		} else {
			r = append(r, ref.Zero)
		}
	}
	return r
}
func (w *window) stats() (avg, vol B) {
	l := w.last()
	s := ref.Zero
	for _, x := range l {
		s = ref.Add(s, x)
	}
	avg = ref.Div(s, ref.N(int64(w.n)))
	if w.n < 2 {
		return avg, nil
	}
	v := ref.Zero
	for _, x := range l {
		d := ref.Sub(x, avg)
		v = ref.Add(v, ref.Mul(d, d))
	}
	return avg, new(big.Int).Sqrt(ref.Div(v, ref.N(int64(w.n-1))))
}

func ask(p *prices.Prices, w *window) string {
	avg, vol := w.stats()
	for i := 0; i < 2; i++ {
		a := p.Average()
		if !drv.Same(a, avg) {
			return fmt.Sprintf("Average is %v, the last %d samples average to %v (asked %d times before)", drv.G(a), w.n, avg, i)
		}
		a.Add(a, ui.NewInt(5)) // the answer belongs to the caller
		if vol != nil {
			v := p.Volatility()
			if !drv.Same(v, vol) {
				return fmt.Sprintf("Volatility is %v, it should be %v (asked %d times before)", drv.G(v), vol, i)
			}
			v.Add(v, ui.NewInt(5))
		}
	}
	return ""
}

// run gives the samples to a new window; samples from index `from` on are judged.
// With quiet, statistics are only asked for at the end.
func run(n int, al []B, path []int, from int, quiet bool) (msg string) {
	if e := ex.Protect(func() { msg = run1(n, al, path, from, quiet) }); e != "" {
		return "panic: " + e
	}
	return
}

func run1(n int, al []B, path []int, from int, quiet bool) string {
	p := prices.NewPrices(n)
	w := &window{n: n}
	shared := new(ui.Int) // the caller keeps using one object for the current price
	for i, k := range path {
		x := al[k]
		shared.Set(drv.U(x))
		e := ex.Protect(func() { p.Add(shared) })
		if !drv.Same(shared, x) {
			return fmt.Sprintf("Add changed the price %v to %v", x, drv.G(shared))
		}
		shared.Set(ui.NewInt(77)) // and changes it afterwards
		sq := ref.Mul(x, x)
		if ok := sq.BitLen() <= 230; ok != (e == "") {
			if ok {
				return fmt.Sprintf("sample %d, %v, panics: %s", i, x, e)
			}
			if sq.BitLen() > 256 {
				return fmt.Sprintf("sample %d, %v, cannot be squared in 256 bits and is recorded nevertheless", i, x)
			}
			w.all = append(w.all, sq) // recorded exactly: no harm
		} else if ok {
			w.all = append(w.all, sq)
		}
		if i < from || quiet && i < len(path)-1 {
			continue
		}
		if m := ask(p, w); m != "" {
			return fmt.Sprintf("after %d samples: %s", i+1, m)
		}
	}
	return ""
}

func toCase(n int, al []B, path []int) Case {
	c := Case{N: n, Path: append([]int{}, path...)}
	for _, a := range al {
		c.Alpha = append(c.Alpha, a.String())
	}
	return c
}

// nearSquares lists pairs of prices such that a window holding one of them once and the other
// n-1 times has a variance of m^2 - 1 for some m, the hardest case for the root: the squares
// differ by n*e, the variance is n*e^2, and m^2 - n*e^2 = 1 has infinitely many solutions.
func nearSquares(n int, upTo int64) (r [][2]B) {
	k := ref.N(int64(n))
	m1, e1 := int64(0), int64(1)
	for ; e1 < 1000; e1++ {
		q := int64(n)*e1*e1 + 1
		m1 = new(big.Int).Sqrt(ref.N(q)).Int64()
		if m1*m1 == q {
			break
		}
	}
	if e1 == 1000 {
		return nil
	}
	m, e := ref.N(m1), ref.N(e1)
	for e.BitLen() < 226 {
		d := ref.Mul(k, e)
		for s := int64(1); s <= upTo; s++ {
			q, rem := new(big.Int).QuoRem(d, ref.N(s), new(big.Int))
			if rem.Sign() != 0 || int64(q.Bit(0)) != s&1 || q.Cmp(ref.N(s)) < 0 {
				continue
			}
			a, b := ref.Div(ref.Add(q, ref.N(s)), ref.N(2)), ref.Div(ref.Sub(q, ref.N(s)), ref.N(2))
			if a.BitLen() <= 115 {
				r = append(r, [2]B{a, b})
			}
		}
		m, e = ref.Add(ref.Mul(ref.N(m1), m), ref.Mul(k, ref.Mul(ref.N(e1), e))), ref.Add(ref.Mul(ref.N(m1), e), ref.Mul(ref.N(e1), m))
	}
	return
}

func main() {
	ex.Run("C15", "model_checking", func(c *ex.Ctx) {
		type job struct{ n, al, depth int }
		jobs := []job{{1, 0, 4}, {2, 0, 5}, {3, 0, 5}, {2, 1, 7}, {3, 1, 7}, {4, 1, 7}, {3, 2, 10}, {4, 2, 10}, {5, 2, 11}, {2, 3, 6}, {3, 3, 7}}
		if c.Thorough {
			jobs = []job{{1, 0, 5}, {2, 0, 6}, {3, 0, 6}, {4, 0, 6}, {2, 1, 8}, {3, 1, 9}, {4, 1, 9}, {3, 2, 11}, {4, 2, 12}, {5, 2, 13}, {7, 2, 13}, {2, 3, 7}, {3, 3, 8}, {4, 3, 8}}
		}
		type task struct {
			job
			i, j int
		}
		var ts []task
		for _, j := range jobs {
			k := len(alphabet(j.al))
			for a := 0; a < k; a++ {
				for b := 0; b < k; b++ {
					ts = append(ts, task{j, a, b})
				}
			}
		}
		c.Par(len(ts), func(w, ti int) {
			t := ts[ti]
			al := alphabet(t.al)
			path := []int{t.i, t.j}
			fresh := 0
			if t.j > 0 {
				fresh = 1
			}
			var nodes, rej int64
			var dfs func()
			dfs = func() {
				nodes++
				if ref.Mul(al[path[len(path)-1]], al[path[len(path)-1]]).BitLen() > 230 {
					rej++
				}
				if len(path) == t.depth {
					c.Traces.Add(1)
					p := append([]int{}, path...)
					c.Beat(w, func() interface{} { return toCase(t.n, al, p) })
					if m := run(t.n, al, path, fresh, false); m != "" {
						c.Fail(toCase(t.n, al, path), fmt.Sprintf("window of %d: %s", t.n, m))
					}
					fresh = len(path)
					return
				}
				for k := range al {
					path = append(path, k)
					dfs()
					path = path[:len(path)-1]
					if fresh > len(path) {
						fresh = len(path)
					}
				}
			}
			dfs()
			c.Transitions.Add(nodes)
			c.States.Add(nodes)
			c.Class("rejected samples", rej)
			c.Idle(w)
		})
		// The windows used in practice: wrap-around of a long window, every number of samples up to three rounds,
		// with the statistics asked for only at the end, and after every sample.
		long := []int{24, 100}
		lengths(c)
		c.Par(len(long)*6, func(w, i int) {
			n, pat := long[i/6], i%6
			al := alphabet(2 - i%2)
			var path []int
			for k := 0; k < 3*n+5; k++ {
				path = append(path, []int{k % len(al), (k / 7) % len(al), (k * k / 3) % len(al), 0, k % 2, (k / n) % len(al)}[pat])
				c.Beat(w, func() interface{} { return toCase(n, al, path) })
				c.Traces.Add(1)
				c.Transitions.Add(1)
				c.States.Add(1)
				if m := run(n, al, path, 0, true); m != "" {
					c.Fail(toCase(n, al, path), fmt.Sprintf("window of %d: %s", n, m))
					return
				}
			}
			if m := run(n, al, path, 0, false); m != "" {
				c.Fail(toCase(n, al, path), fmt.Sprintf("window of %d: %s", n, m))
			}
			c.Idle(w)
		})
		// Variances one below a perfect square, of every magnitude.
		ns := []int{2, 3, 5, 6, 7, 8, 10, 24}
		c.Par(len(ns), func(w, i int) {
			n := ns[i]
			upTo := int64(64)
			if c.Thorough {
				upTo = 4096
			}
			for _, ab := range nearSquares(n, upTo) {
				for _, x := range []int{0, 1} { // which of the two is alone, and where
					for at := 0; at < n; at++ {
						al, path := []B{ab[0], ab[1]}, make([]int, n)
						for k := range path {
							path[k] = 1 - x
						}
						path[at] = x
						c.Beat(w, func() interface{} { return toCase(n, al, path) })
						c.Traces.Add(1)
						c.Transitions.Add(int64(n))
						c.States.Add(int64(n))
						c.Class("variances of m^2-1", 1)
						if m := run(n, al, path, 0, true); m != "" {
							c.Fail(toCase(n, al, path), fmt.Sprintf("window of %d: %s", n, m))
							return
						}
					}
				}
			}
			c.Idle(w)
		})
		c.Sample(toCase(3, alphabet(0), []int{4, 7, 5, 1, 6}))
		c.Assumptions = append(c.Assumptions, "the sample variance of a single price is not defined; windows of one price are only asked for the average")
	}, func(c *ex.Ctx, raw json.RawMessage) string {
		var k Case
		if json.Unmarshal(raw, &k) != nil {
			return ""
		}
		if k.Many > 0 {
			return many(k, func() {})
		}
		var al []B
		for _, s := range k.Alpha {
			al = append(al, ref.S(s))
		}
		if m := run(k.N, al, k.Path, 0, false); m != "" {
			return m
		}
		return run(k.N, al, k.Path, 0, true)
	})
}
