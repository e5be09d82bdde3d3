package main

import (
	"fmt"
	"math/bits"
	"sort"

	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
)

// long is a history that grows a list of N ticks in one order and takes it
// down again in another; every tick in between is updated, removed and put back.
type long struct {
	Spacing, Step, N int
	Grow, Shrink     string
}

// places gives the order in which 0..n-1 are visited.
func places(kind string, n int) []int {
	r := make([]int, 0, n)
	switch kind {
	case "up":
		for i := 0; i < n; i++ {
			r = append(r, i)
		}
	case "down":
		for i := n - 1; i >= 0; i-- {
			r = append(r, i)
		}
	case "outwards": // from the middle, one side after the other
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				r = append(r, n/2+i/2)
			} else {
				r = append(r, n/2-1-i/2)
			}
		}
		if n%2 == 1 {
			r = r[:0]
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					r = append(r, n/2-i/2)
				} else {
					r = append(r, n/2+1+i/2)
				}
			}
		}
	case "inwards":
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				r = append(r, i/2)
			} else {
				r = append(r, n-1-i/2)
			}
		}
	case "halving": // every gap is halved before any is quartered
		b := bits.Len(uint(n))
		for i := 0; i < 1<<b; i++ {
			if j := int(bits.Reverse64(uint64(i)) >> (64 - b)); j < n {
				r = append(r, j)
			}
		}
	case "bynines":
		for k := 0; k < 9; k++ {
			for i := k; i < n; i += 9 {
				r = append(r, i)
			}
		}
	}
	return r
}

var kinds = []string{"up", "down", "outwards", "inwards", "halving", "bynines"}

func (l long) run(beat func()) string {
	cf := conf{Name: "long", Spacing: l.Spacing}
	for i := 0; i < l.N; i++ {
		t := (i - l.N/2) * l.Spacing * l.Step
		if t < ref.MinTick || t > ref.MaxTick {
			return ""
		}
		cf.Ticks = append(cf.Ticks, t)
	}
	k := newMachine(cf)
	var set []int
	near := func(t int) (q []int) {
		for _, d := range []int{-l.Spacing, -1, 0, 1, l.Spacing} {
			if x := t + d; x >= ref.MinTick && x <= ref.MaxTick {
				q = append(q, x)
			}
		}
		return
	}
	look := func(i int, all bool, what string) string {
		var q, see []int
		if all {
			see = set
		} else {
			at := sort.SearchInts(set, cf.Ticks[i])
			for _, j := range []int{at - 2, at - 1, at, at + 1, at + 2, 0, len(set) / 2, len(set) - 1, len(set) - 2, len(set) / 4, 3 * len(set) / 4} {
				if j >= 0 && j < len(set) {
					see = append(see, set[j])
				}
			}
		}
		for _, t := range see {
			q = append(q, near(t)...)
		}
		q = append(q, near(cf.Ticks[i])...)
		if m := check(k.td, set, l.Spacing, q); m != "" {
			if len(m) > 300 {
				m = m[:100] + " ... " + m[len(m)-200:]
			}
			return fmt.Sprintf("%d ticks, %s tick %d: %s", len(set), what, cf.Ticks[i], m)
		}
		for _, t := range see {
			if m := k.one(t); m != "" {
				return fmt.Sprintf("%d ticks, %s tick %d: %s", len(set), what, cf.Ticks[i], m)
			}
		}
		return ""
	}
	op := func(i, code int, what string, all bool) string {
		t := cf.Ticks[i]
		if m := k.do(i*4 + code); m != "" {
			return fmt.Sprintf("%d ticks, %s: %s", len(set), what, m)
		}
		at := sort.SearchInts(set, t)
		_, in := k.m[t]
		had := at < len(set) && set[at] == t
		switch {
		case in && !had:
			set = append(set, 0)
			copy(set[at+1:], set[at:])
			set[at] = t
		case !in && had:
			set = append(set[:at], set[at+1:]...)
		}
		return look(i, all, what)
	}
	whole := func(n int) bool { return n&(n-1) == 0 || (n+1)&n == 0 || (n-1)&(n-2) == 0 || n%50 == 0 || n <= 24 }
	for _, i := range places(l.Grow, l.N) {
		beat()
		if m := op(i, i&1, "adding", whole(len(set)+1)); m != "" {
			return m
		}
	}
	for i := 0; i < l.N; i++ { // each one in turn at the full length
		beat()
		for _, s := range []struct {
			code int
			what string
		}{{i & 1, "adding to"}, {1 - i&1, "adding the other end to"}, {i & 1, "adding to"}, {2 + i&1, "taking all of one end from"}, {3 - i&1, "removing"}, {i & 1, "putting back"}} {
			if m := op(i, s.code, s.what, false); m != "" {
				return m
			}
		}
	}
	for _, i := range places(l.Shrink, l.N) {
		beat()
		if m := op(i, 2+i&1, "removing", whole(len(set)-1)); m != "" {
			return m
		}
	}
	if len(set) != 0 {
		return fmt.Sprintf("%d ticks left", len(set))
	}
	return ""
}

// one compares one tick's record with the model.
func (k *machine) one(t int) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("GetTick(%d) panicked: %v", t, e)
		}
	}()
	v, g := k.m[t], k.td.GetTick(t)
	if g.Index != t || !same64(g.LiquidityNet, v.net) || !same64(g.LiquidityGross, v.gross) || !same64(g.FeeGrowthOutside0X128, v.o0) || !same64(g.FeeGrowthOutside1X128, v.o1) {
		return fmt.Sprintf("tick %d holds net %v gross %v outside (%v,%v), want %+v", t, drv.GS(g.LiquidityNet), drv.G(g.LiquidityGross), drv.GS(g.FeeGrowthOutside0X128), drv.GS(g.FeeGrowthOutside1X128), v)
	}
	return ""
}

// longs: every pair of orders for every spread of the ticks, at every length of the list up to N.
func longs(c *ex.Ctx) {
	n := 520
	if c.Thorough {
		n = 2100
	}
	var ls []long
	for _, sp := range []struct{ sp, step int }{{10, 1}, {60, 3}, {10, 170}, {1, 1}, {200, 8}} {
		for _, g := range kinds {
			for _, s := range kinds {
				l := long{sp.sp, sp.step, n, g, s}
				for l.N*l.Spacing*l.Step > 2*ref.MaxTick-2*l.Spacing*l.Step {
					l.N--
				}
				ls = append(ls, l)
			}
		}
	}
	c.Par(len(ls), func(w, i int) {
		l := ls[i]
		if m := l.run(func() { c.Beat(w, func() interface{} { return caseT{Long: &l} }) }); m != "" {
			c.Fail(caseT{Long: &l}, fmt.Sprintf("%+v: %s", l, m))
		}
		c.Traces.Add(1)
		c.States.Add(int64(2 * l.N))
		c.Transitions.Add(int64(8 * l.N))
		c.Class("long lists: operations", int64(8*l.N))
	})
}

func same64(x *ui.Int, v int64) bool {
	if x == nil {
		return false
	}
	s := uint64(v >> 63)
	return x[0] == uint64(v) && x[1] == s && x[2] == s && x[3] == s
}
