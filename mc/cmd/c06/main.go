// C06: tick search finds the nearest initialised tick within one word.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"

	"uniswap-simulator/lib/tickdata"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
)

// conf is a set of ticks (multiples of the spacing) to insert, update and remove.
type conf struct {
	Name    string
	Spacing int
	Ticks   []int
}

func confs(thorough bool) []conf {
	var r []conf
	for _, sp := range []int{10, 60, 200} {
		m := ref.MaxTick / sp
		w := 256
		for _, k := range [][]int{
			{-2, -1, 0, 1, 2, 3},
			{-w - 1, -w, -w + 1, -1, 0, 1},
			{w - 1, w, w + 1, 2*w - 1, 2 * w, 0},
			{-2*w - 1, -2 * w, -2*w + 1, -w, -w - 1, -1},
			{-m, -m + 1, -w, w, m - 1, m},
			{-3 * w, -1, 0, w, 3 * w, 3*w + 100},
		} {
			c := conf{Name: fmt.Sprintf("sp%d_%v", sp, k), Spacing: sp}
			for _, x := range k {
				c.Ticks = append(c.Ticks, x*sp)
			}
			r = append(r, c)
		}
	}
	if thorough {
		for _, sp := range []int{1, 10, 60, 200} {
			c := conf{Name: fmt.Sprintf("wide_sp%d", sp), Spacing: sp}
			for _, x := range []int{-513, -512, -257, -256, -2, -1, 0, 1, 255, 256, 257, 511} {
				c.Ticks = append(c.Ticks, x*sp)
			}
			r = append(r, c)
		}
	}
	return r
}

// model of the tick store: exact sums.
type rec struct{ net, gross, o0, o1 int64 }

func floorDiv(a, b int) int {
	q := a / b
	if a%b != 0 && a < 0 {
		q--
	}
	return q
}

// want is the contract's answer for a set of initialised ticks (sorted).
func want(set []int, sp, tick int, lte bool) (int, bool) {
	c := floorDiv(tick, sp)
	if lte {
		bound := floorDiv(c, 256) * 256 * sp
		i := sort.SearchInts(set, tick+1) - 1
		if i >= 0 && set[i] >= bound {
			return set[i], true
		}
		return bound, false
	}
	bound := (floorDiv(c+1, 256)*256 + 255) * sp
	i := sort.SearchInts(set, tick+1)
	if i < len(set) && set[i] <= bound {
		return set[i], true
	}
	return bound, false
}

func (c conf) queries(dense bool) []int {
	u := map[int]bool{}
	add := func(t int) {
		if t >= ref.MinTick-1 && t <= ref.MaxTick+1 {
			u[t] = true
		}
	}
	sp := c.Spacing
	for _, t := range c.Ticks {
		for _, d := range []int{-sp - 1, -sp, -sp + 1, -1, 0, 1, sp - 1, sp, sp + 1, sp / 2, -sp / 2, 256 * sp, -256 * sp} {
			add(t + d)
		}
		w := floorDiv(floorDiv(t, sp), 256)
		for k := w - 1; k <= w+2; k++ {
			for _, d := range []int{-sp, -sp + 1, -1, 0, 1, sp} {
				add(k*256*sp + d)
			}
		}
	}
	for _, t := range []int{ref.MinTick, ref.MinTick + 1, ref.MaxTick, ref.MaxTick - 1, 0, -1, 1} {
		add(t)
	}
	if dense {
		lo, hi := c.Ticks[0], c.Ticks[0]
		for _, t := range c.Ticks {
			if t < lo {
				lo = t
			}
			if t > hi {
				hi = t
			}
		}
		if hi-lo < 2100*sp {
			for t := lo - 3*sp; t <= hi+3*sp; t++ {
				add(t)
			}
		}
	}
	var r []int
	for t := range u {
		r = append(r, t)
	}
	sort.Ints(r)
	return r
}

func check(td *tickdata.TickData, set []int, sp int, qs []int) (msg string) {
	q, dir := 0, true
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("initialised %v: search from %d (down=%v) panicked: %v", set, q, dir, e)
		}
	}()
	for _, q = range qs {
		for _, dir = range []bool{true, false} {
			g, gi := td.NextInitializedTickWithinOneWord(q, dir)
			w, wi := want(set, sp, q, dir)
			if g != w || gi != wi {
				return fmt.Sprintf("spacing %d, initialised %v: search from %d (down=%v) gives %d,%v; nearest within the word: %d,%v", sp, set, q, dir, g, gi, w, wi)
			}
		}
	}
	return ""
}

func keys(m map[int]rec) []int {
	r := make([]int, 0, len(m))
	for t := range m {
		r = append(r, t)
	}
	sort.Ints(r)
	return r
}

// machine runs a sequence of operations on a store and its model. Operation
// codes: tick index*4 + {0: add as lower, 1: add as upper, 2: take back as lower, 3: take back as upper}.
type machine struct {
	c           conf
	td          *tickdata.TickData
	m           map[int]rec
	lo, up      map[int]int64 // liquidity on the books, by end
	cur         int
	amt, f0, f1 *ui.Int // argument objects, reused and overwritten
	n           int64
}

func newMachine(c conf) *machine {
	return &machine{c: c, td: tickdata.NewTickData(c.Spacing), m: map[int]rec{}, lo: map[int]int64{}, up: map[int]int64{}, amt: new(ui.Int), f0: new(ui.Int), f1: new(ui.Int)}
}

func (k *machine) enabled(op int) bool {
	t := k.c.Ticks[op/4]
	switch op & 3 {
	case 2:
		return k.lo[t] > 0
	case 3:
		return k.up[t] > 0
	}
	return true
}

func set64(x *ui.Int, v int64) { *x = *drv.U(big.NewInt(v)) }

func (k *machine) do(op int) (msg string) {
	t := k.c.Ticks[op/4]
	upper := op&1 == 1
	k.n++
	var d int64
	book := k.lo
	if upper {
		book = k.up
	}
	if op&2 == 0 {
		d = 5 + k.n
	} else {
		d = -book[t] // all of it
	}
	book[t] += d
	// the current tick moves along with the history: at the tick, above it, below it
	k.cur = []int{t, t - 1, t + 1}[k.n%3]
	g0, g1 := 1000*k.n, 7000*k.n
	set64(k.amt, d)
	set64(k.f0, g0)
	set64(k.f1, g1)
	var clear bool
	if p := ex.Protect(func() { clear = k.td.UpdateTick(t, k.cur, k.amt, k.f0, k.f1, upper) }); p != "" {
		return fmt.Sprintf("UpdateTick(%d) panicked: %s", t, p)
	}
	if !drv.Same(k.amt, big.NewInt(d)) || !drv.Same(k.f0, big.NewInt(g0)) || !drv.Same(k.f1, big.NewInt(g1)) {
		return fmt.Sprintf("UpdateTick(%d) changed its arguments", t)
	}
	set64(k.amt, -77)
	set64(k.f0, -78)
	set64(k.f1, -79)
	v, ok := k.m[t]
	if !ok && t <= k.cur {
		v.o0, v.o1 = g0, g1
	}
	v.gross += d
	if upper {
		v.net -= d
	} else {
		v.net += d
	}
	k.m[t] = v
	if clear != (v.gross == 0) {
		return fmt.Sprintf("UpdateTick(%d) says clear=%v with gross liquidity %d left", t, clear, v.gross)
	}
	if clear {
		delete(k.m, t)
		if p := ex.Protect(func() { k.td.ClearTick(t) }); p != "" {
			return fmt.Sprintf("ClearTick(%d) panicked: %s", t, p)
		}
	}
	return ""
}

func (k *machine) check(qs []int) (msg string) {
	set := keys(k.m)
	if m := check(k.td, set, k.c.Spacing, qs); m != "" {
		return m
	}
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("initialised %v: GetTick panicked: %v", set, e)
		}
	}()
	for _, t := range set {
		v, g := k.m[t], k.td.GetTick(t)
		if g.Index != t || !drv.Same(g.LiquidityNet, big.NewInt(v.net)) || !drv.Same(g.LiquidityGross, big.NewInt(v.gross)) ||
			!drv.Same(g.FeeGrowthOutside0X128, big.NewInt(v.o0)) || !drv.Same(g.FeeGrowthOutside1X128, big.NewInt(v.o1)) {
			return fmt.Sprintf("tick %d holds net %v gross %v outside (%v,%v), want %+v", t, drv.GS(g.LiquidityNet), drv.G(g.LiquidityGross), drv.GS(g.FeeGrowthOutside0X128), drv.GS(g.FeeGrowthOutside1X128), v)
		}
	}
	return ""
}

type caseT struct {
	Conf  conf
	Seq   []int
	Dense bool
	Long  *long `json:",omitempty"`
}

func describe(c conf, seq []int) (r []string) {
	for _, op := range seq {
		r = append(r, fmt.Sprintf("%s %d", []string{"add lower", "add upper", "remove lower", "remove upper"}[op&3], c.Ticks[op/4]))
	}
	return
}

// runSeq replays a whole sequence, checking after every operation from index `from` on.
func runSeq(c conf, seq []int, from int, qs []int) string {
	k := newMachine(c)
	if from <= 0 {
		if m := k.check(qs); m != "" {
			return "before any operation: " + m
		}
	}
	for i, op := range seq {
		if !k.enabled(op) {
			return ""
		}
		if m := k.do(op); m != "" {
			return fmt.Sprintf("after %v: %s", describe(c, seq[:i+1]), m)
		}
		if i >= from {
			if m := k.check(qs); m != "" {
				return fmt.Sprintf("after %v: %s", describe(c, seq[:i+1]), m)
			}
		}
	}
	return ""
}

// trees: every sequence of operations up to a depth.
func trees(c *ex.Ctx, cf conf, depth int, upper bool) {
	qs := cf.queries(false)
	var ops []int
	for i := range cf.Ticks {
		ops = append(ops, i*4, i*4+2)
		if upper {
			ops = append(ops, i*4+1, i*4+3)
		}
	}
	c.Par(len(ops), func(w, a int) {
		var seq []int
		books := make([]int, 4*len(cf.Ticks))
		var local, traces int64
		fresh := 0
		var dfs func()
		dfs = func() {
			local++
			leaf := true
			if len(seq) < depth {
				for _, op := range ops {
					if op&2 != 0 && books[op-2] == 0 {
						continue
					}
					leaf = false
					old := 0
					if op&2 != 0 {
						old = books[op-2]
						books[op-2] = 0
					} else {
						books[op]++
					}
					seq = append(seq, op)
					dfs()
					seq = seq[:len(seq)-1]
					if op&2 != 0 {
						books[op-2] = old
					} else {
						books[op]--
					}
					if fresh > len(seq) {
						fresh = len(seq)
					}
				}
			}
			if leaf {
				traces++
				c.Beat(w, func() interface{} { return caseT{Conf: cf, Seq: append([]int{}, seq...)} })
				if m := runSeq(cf, seq, fresh, qs); m != "" {
					c.Fail(caseT{Conf: cf, Seq: append([]int{}, seq...)}, m)
				}
				fresh = len(seq)
			}
		}
		op := ops[a]
		if op&2 != 0 {
			return
		}
		seq = append(seq, op)
		books[op]++
		dfs()
		c.Transitions.Add(local)
		c.Traces.Add(traces)
		c.Class("operation sequences, depth "+fmt.Sprint(depth), traces)
	})
}

// orders: every order of inserting all ticks followed by every order of removing them.
func orders(c *ex.Ctx, cf conf, removals bool) {
	n := len(cf.Ticks)
	if n > 6 {
		n = 6
	}
	qs := cf.queries(false)
	perms := permutations(n)
	c.Par(len(perms), func(w, a int) {
		var ins []int
		for _, i := range perms[a] {
			ins = append(ins, i*4+(i&1))
		}
		second := perms[:1]
		if removals {
			second = perms
		}
		for b, q := range second {
			seq := append([]int{}, ins...)
			for _, i := range q {
				seq = append(seq, i*4+(i&1)+2)
			}
			from := n
			if b == 0 {
				from = 0
			}
			c.Beat(w, func() interface{} { return caseT{Conf: cf, Seq: seq} })
			if m := runSeq(cf, seq, from, qs); m != "" {
				c.Fail(caseT{Conf: cf, Seq: seq}, m)
			}
			c.Traces.Add(1)
			c.Transitions.Add(int64(2 * n))
		}
		c.Class("insertion orders x removal orders", int64(len(second)))
	})
}

func permutations(n int) [][]int {
	var r [][]int
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			r = append(r, append([]int{}, cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(cur, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return r
}

// subsets: every set of initialised ticks, searched from every tick in and around the window.
func subsets(c *ex.Ctx, cf conf) {
	qs := cf.queries(true)
	c.Par(1<<len(cf.Ticks), func(w, mask int) {
		var seq []int
		for i := range cf.Ticks {
			if mask&(1<<i) != 0 {
				seq = append(seq, i*4)
			}
		}
		k := caseT{Conf: cf, Seq: seq, Dense: true}
		c.Beat(w, func() interface{} { return k })
		if m := runSeq(cf, seq, len(seq)-1, qs); m != "" {
			c.Fail(k, m)
		}
		c.States.Add(1)
		c.Traces.Add(1)
		c.Transitions.Add(int64(2 * len(qs)))
		c.Class("searches over complete windows", int64(2*len(qs)))
	})
}

func main() {
	ex.Run("C06", "model_checking", func(c *ex.Ctx) {
		d := 4
		if c.Thorough {
			d = 6
		}
		longs(c)
		for i, cf := range confs(c.Thorough) {
			subsets(c, cf)
			if len(cf.Ticks) > 6 {
				cf.Ticks = cf.Ticks[3:9]
			}
			trees(c, cf, d, true)
			if i%6 < 2 || c.Thorough {
				trees(c, cf, d+2, false)
			}
			orders(c, cf, i%6 == 0 && i < 7 || c.Thorough)
		}
		c.Sample(map[string]interface{}{"configuration": confs(false)[1].Name, "sequence": describe(confs(false)[1], []int{4, 0, 9, 6, 16, 11})})
		c.Assumptions = append(c.Assumptions, "ticks are multiples of the spacing, as the contract requires")
	}, func(c *ex.Ctx, raw json.RawMessage) string {
		var k caseT
		if json.Unmarshal(raw, &k) != nil {
			return ""
		}
		if k.Long != nil {
			return k.Long.run(func() {})
		}
		if k.Conf.Spacing == 0 {
			return ""
		}
		return runSeq(k.Conf, k.Seq, 0, k.Conf.queries(k.Dense))
	})
}
