package main

import (
	"fmt"
	"strings"

	"uniswap-simulator/lib/pool"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/hist"
	"verifmc/ref"
	"verifmc/scn"
)

// A system is up to maxPools pools: the original, and copies taken along the
// way from any of them. An event is an operation on one pool or the taking of
// a copy of one; every sequence of events up to a depth is executed, and each
// pool must end as a pool that had its history alone, never copied.
const maxPools = 3

type ev struct{ Pool, Op int } // Op < 0: copy this pool

type poolScn struct {
	*hist.Scn
	univ  []int
	depth int
	pre   [][]int // histories of the original before the first copy
}

type PoolCase struct {
	Scenario string
	Before   []int
	Events   []ev
	Text     []string
}

type alone struct {
	snap string
	rets []string
	dead bool
}

// solo memoises what a pool that is alone in the world does.
type solo struct {
	s *poolScn
	m map[string]*alone
}

func key(h []int) string {
	b := make([]byte, len(h))
	for i, x := range h {
		b[i] = byte(x)
	}
	return string(b)
}

func show(x *ui.Int) string {
	if x == nil {
		return "none"
	}
	return drv.G(x).String()
}

func (o *solo) get(h []int) *alone {
	k := key(h)
	if a, ok := o.m[k]; ok {
		return a
	}
	a := &alone{}
	p := drv.NewReal(o.s.Fee, o.s.P)
	for _, op := range o.s.Pre {
		drv.Apply(p, op)
	}
	for _, i := range h {
		r0, r1, pan, _ := drv.Apply(p, o.s.Ops[i])
		if pan != nil {
			a.dead = true
			break
		}
		a.rets = append(a.rets, show(r0)+","+show(r1))
	}
	if m := ex.Protect(func() { a.snap = drv.Snapshot(p, o.s.univ) }); m != "" {
		a.dead = true
	}
	o.m[k] = a
	return a
}

// held is a number handed over or returned, and what it was then.
type held struct {
	x    *ui.Int
	was  ui.Int
	what string
}

// args are the operands of all operations, built once per system: every pool
// is given the same objects, as the executor does with recorded transactions.
type args struct{ a, a1, lim *ui.Int }

func (s *poolScn) run(o *solo, before []int, evs []ev) string {
	var hs []held
	hold := func(x *ui.Int, what string) {
		if x != nil {
			hs = append(hs, held{x, *x, what})
		}
	}
	as := make([]args, len(s.Ops))
	arg := func(i int) args {
		if as[i].a == nil && s.Ops[i].A != nil {
			as[i] = args{drv.U(s.Ops[i].A), drv.U(s.Ops[i].A1), drv.U(s.Ops[i].Lim)}
			hold(as[i].a, "amount given to "+s.Ops[i].String())
			hold(as[i].a1, "amount given to "+s.Ops[i].String())
			hold(as[i].lim, "price limit given to "+s.Ops[i].String())
		}
		return as[i]
	}
	price := drv.U(s.P)
	hold(price, "starting price given to NewPool")
	ps := []*pool.Pool{pool.NewPool(drv.T0, drv.T1, s.Fee, price)}
	hs0 := [][]int{{}}
	for _, op := range s.Pre {
		drv.Apply(ps[0], op)
	}
	do := func(k, i int) string {
		h := append(append([]int{}, hs0[k]...), i)
		hs0[k] = h
		want := o.get(h)
		a := arg(i)
		r0, r1, pan := drv.ApplyArgs(ps[k], s.Ops[i], a.a, a.a1, a.lim)
		if want.dead {
			return "-"
		}
		if pan != nil {
			return fmt.Sprintf("%v on pool %d panics (%v); alone it does not", s.Ops[i], k, pan)
		}
		if g := show(r0) + "," + show(r1); g != want.rets[len(h)-1] {
			return fmt.Sprintf("%v on pool %d returns %s; alone it returns %s", s.Ops[i], k, g, want.rets[len(h)-1])
		}
		hold(r0, fmt.Sprintf("first result of %v on pool %d", s.Ops[i], k))
		hold(r1, fmt.Sprintf("second result of %v on pool %d", s.Ops[i], k))
		return ""
	}
	for _, i := range before {
		if m := do(0, i); m == "-" {
			return ""
		} else if m != "" {
			return m
		}
	}
	for _, e := range evs {
		if e.Op < 0 {
			var c *pool.Pool
			if m := ex.Protect(func() { c = ps[e.Pool].Clone() }); m != "" {
				return fmt.Sprintf("copying pool %d panics: %s", e.Pool, m)
			}
			ps = append(ps, c)
			hs0 = append(hs0, append([]int{}, hs0[e.Pool]...))
			continue
		}
		if m := do(e.Pool, e.Op); m == "-" {
			return ""
		} else if m != "" {
			return m
		}
	}
	for k, p := range ps {
		want := o.get(hs0[k])
		if want.dead {
			continue
		}
		var g string
		if m := ex.Protect(func() { g = drv.Snapshot(p, s.univ) }); m != "" {
			return fmt.Sprintf("observing pool %d panics: %s", k, m)
		}
		if g != want.snap {
			return fmt.Sprintf("pool %d is not as it would be alone: %s", k, drv.Diff(want.snap, g))
		}
	}
	for _, h := range hs {
		if *h.x != h.was {
			return fmt.Sprintf("%s was changed later from %v to %v", h.what, drv.G(&h.was), drv.G(h.x))
		}
	}
	return ""
}

func (s *poolScn) text(before []int, evs []ev) (t []string) {
	for _, i := range before {
		t = append(t, "0: "+s.Ops[i].String())
	}
	n := 1
	for _, e := range evs {
		if e.Op < 0 {
			t = append(t, fmt.Sprintf("%d := copy of %d", n, e.Pool))
			n++
		} else {
			t = append(t, fmt.Sprintf("%d: %v", e.Pool, s.Ops[e.Op]))
		}
	}
	return
}

// explore visits every sequence of events after one copy has been taken.
func (s *poolScn) explore(c *ex.Ctx, w int, before []int) {
	r := ref.NewPool(s.Fee, s.P)
	for _, o := range s.Pre {
		drv.RefApply(r, o)
	}
	for _, i := range before {
		q, _, _, ok := drv.TryRef(r, s.Ops[i])
		if !ok {
			return
		}
		r = q
	}
	o := &solo{s, map[string]*alone{}}
	evs := []ev{{0, -1}}
	rs := []*ref.Pool{r, r}
	var runs, states int64
	var dfs func(rs []*ref.Pool)
	dfs = func(rs []*ref.Pool) {
		if c.Stop() {
			return
		}
		states++
		if len(evs) == s.depth+1 || len(evs) == 1 {
			runs++
			cas := func() interface{} {
				return PoolCase{s.Name, before, append([]ev{}, evs...), s.text(before, evs)}
			}
			c.Beat(w, cas)
			if m := s.run(o, before, evs); m != "" {
				c.Fail(cas(), fmt.Sprintf("%s, %s: %s", s.Name, strings.Join(s.text(before, evs), "; "), m))
			} else if runs == 3000 {
				c.Sample(cas())
			}
		}
		if len(evs) == s.depth+1 {
			return
		}
		for k := range rs {
			if len(rs) < maxPools && len(evs) < s.depth { // a copy must be followed by something
				evs = append(evs, ev{k, -1})
				dfs(append(append([]*ref.Pool{}, rs...), rs[k]))
				evs = evs[:len(evs)-1]
			}
			for i := range s.Ops {
				q, _, _, ok := drv.TryRef(rs[k], s.Ops[i])
				if !ok {
					continue
				}
				old := rs[k]
				rs[k] = q
				evs = append(evs, ev{k, i})
				dfs(rs)
				evs = evs[:len(evs)-1]
				rs[k] = old
			}
		}
	}
	dfs(rs)
	c.Traces.Add(runs)
	c.States.Add(states)
	c.Transitions.Add(states)
	c.Idle(w)
}

func poolScns(thorough bool) (out []*poolScn) {
	confs := scn.Confs()
	pick := []int{0, 3, 8, 11}
	pre, depth := 2, 3
	if thorough {
		pick = []int{0, 3, 6, 8, 11, len(confs) - 1}
		depth = 4
	}
	for n, i := range pick {
		f := scn.Family(confs[i])
		// mint, swaps to and fro over several ticks, burn, collect, other ranges, exact output, flash
		var ops []drv.Op
		for _, j := range []int{0, 3, 4, 5, 6, 7, 9, 10, 18, 20, 12} {
			ops = append(ops, f.Ops[j])
		}
		f.Ops = ops
		s := &poolScn{Scn: f, univ: f.Universe(), depth: depth}
		s.pre = append(s.pre, []int{})
		for a := range ops {
			s.pre = append(s.pre, []int{a})
			for b := range ops {
				if pre > 1 && (a == 0 || b == 0 || n == 0) {
					s.pre = append(s.pre, []int{a, b})
				}
			}
		}
		// longer ones: positions and ranges that are closed, emptied and reopened before the copy
		const mint, down, up, burnHalf, collect, other, e, eb, burn = 0, 1, 2, 3, 4, 5, 6, 7, 10
		s.pre = append(s.pre,
			[]int{mint, burn, collect},
			[]int{mint, down, burn, collect},
			[]int{mint, up, down, burn, collect},
			[]int{mint, down, burn, collect, mint},
			[]int{mint, burn, collect, mint, burn, collect},
			[]int{mint, down, up, burnHalf, collect, collect},
			[]int{mint, other, up, burn, collect},
			[]int{e, mint, down, eb, burn})
		out = append(out, s)
	}
	return
}
