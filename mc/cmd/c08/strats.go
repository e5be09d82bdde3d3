package main

import (
	"fmt"
	"sort"
	"strings"

	"uniswap-simulator/lib/pool"
	st "uniswap-simulator/lib/strategy"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
	"verifmc/strat"
)

// sysScn is a base pool from which strategies are made with the same start
// amounts. Each must do what it does when it is the only one, and the base
// pool must end as if no strategy existed.
type sysScn struct {
	name  string
	kinds [2]string
	k     strat.Params
	fee   int
	p     B
	pre   []drv.Op
	a0    B
	a1    B
	base  []drv.Op
	acts  []strat.Act
	depth int
}

type sev struct {
	Who int // 0: the base pool, 1, 2: a strategy
	Act int // -1: create strategy Who
}

type SysCase struct {
	Scenario string
	Events   []sev
	Text     []string
}

func (s *sysScn) text(evs []sev) (t []string) {
	for _, e := range evs {
		switch {
		case e.Who == 0:
			t = append(t, "base: "+s.base[e.Act].String())
		case e.Act < 0:
			t = append(t, fmt.Sprintf("%d := new %s", e.Who, s.kinds[e.Who-1]))
		default:
			t = append(t, fmt.Sprintf("%d: %v", e.Who, s.acts[e.Act]))
		}
	}
	return
}

type sworld struct {
	s    *sysScn
	univ []int
	m    map[string]*alone
}

func (s *sysScn) newBase() *pool.Pool {
	p := drv.NewReal(s.fee, s.p)
	for _, o := range s.pre {
		drv.Apply(p, o)
	}
	return p
}

func sees(r *strat.Real, univ []int) (snap string) {
	if m := ex.Protect(func() {
		x, y := r.St.GetAmounts()
		snap = drv.Snapshot(r.St.GetPool(), univ) + " amounts " + show(x) + "," + show(y)
		if f0, f1, ok := r.Free(); ok {
			snap += " free " + show(f0) + "," + show(f1)
		}
	}); m != "" {
		snap = "panic " + m
	}
	return
}

// solo is what strategy who does on its own, made after the base pool's first operations.
func (o *sworld) solo(who int, base, acts []int) *alone {
	k := fmt.Sprint(who, "|", key(base), "|", key(acts))
	if a, ok := o.m[k]; ok {
		return a
	}
	s := o.s
	a := &alone{}
	o.m[k] = a
	p := s.newBase()
	for _, i := range base {
		if _, _, pan, _ := drv.Apply(p, s.base[i]); pan != nil {
			a.dead = true
			return a
		}
	}
	if who == 0 {
		a.snap = drv.Snapshot(p, o.univ)
		return a
	}
	r := &strat.Real{}
	r.Crash = ex.Protect(func() { r.St = strat.New(s.kinds[who-1], drv.U(s.a0), drv.U(s.a1), p, s.k); r.P = r.St.GetPool() })
	for _, i := range acts {
		if r.Crash == "" {
			r.Do(s.acts[i])
			a.rets = append(a.rets, show(r.R0)+","+show(r.R1))
		}
	}
	if r.Crash != "" {
		a.dead = true
		return a
	}
	a.snap = sees(r, o.univ)
	return a
}

func (s *sysScn) run(o *sworld, evs []sev) string {
	base := s.newBase()
	b0, b1 := drv.U(s.a0), drv.U(s.a1)
	var hs []held
	var baseH []int
	var rs [3]*strat.Real
	var hist [3][]int
	var born [3][]int
	for _, e := range evs {
		switch {
		case e.Who == 0:
			baseH = append(append([]int{}, baseH...), e.Act)
			if o.solo(0, baseH, nil).dead {
				return ""
			}
			if _, _, pan, _ := drv.Apply(base, s.base[e.Act]); pan != nil {
				return fmt.Sprintf("%v on the base pool panics (%v); alone it does not", s.base[e.Act], pan)
			}
		case e.Act < 0:
			born[e.Who] = baseH
			if o.solo(e.Who, baseH, nil).dead {
				return ""
			}
			r := &strat.Real{}
			if m := ex.Protect(func() {
				var x st.Strategy = strat.New(s.kinds[e.Who-1], b0, b1, base, s.k)
				r.St, r.P = x, x.GetPool()
			}); m != "" {
				return "creating the strategy panics: " + m
			}
			rs[e.Who] = r
		default:
			hist[e.Who] = append(append([]int{}, hist[e.Who]...), e.Act)
			want := o.solo(e.Who, born[e.Who], hist[e.Who])
			if want.dead {
				return ""
			}
			r := rs[e.Who]
			r.Do(s.acts[e.Act])
			if r.Crash != "" {
				return fmt.Sprintf("%v of strategy %d panics (%s); alone it does not", s.acts[e.Act], e.Who, r.Crash)
			}
			if g := show(r.R0) + "," + show(r.R1); g != want.rets[len(want.rets)-1] {
				return fmt.Sprintf("%v of strategy %d returns %s; alone it returns %s", s.acts[e.Act], e.Who, g, want.rets[len(want.rets)-1])
			}
			for _, y := range []*ui.Int{r.R0, r.R1} {
				if y != nil {
					hs = append(hs, held{y, *y, fmt.Sprintf("number returned by %v of strategy %d", s.acts[e.Act], e.Who)})
				}
			}
		}
	}
	if want, g := o.solo(0, baseH, nil).snap, drv.Snapshot(base, o.univ); g != want {
		return "the base pool is not as it would be without strategies: " + drv.Diff(want, g)
	}
	for who := 1; who <= 2; who++ {
		if rs[who] == nil {
			continue
		}
		if want, g := o.solo(who, born[who], hist[who]).snap, sees(rs[who], o.univ); g != want {
			return fmt.Sprintf("strategy %d is not as it would be alone: %s", who, drv.Diff(want, g))
		}
	}
	if !drv.Same(b0, s.a0) || !drv.Same(b1, s.a1) {
		return fmt.Sprintf("the start amounts changed from (%v, %v) to (%v, %v)", s.a0, s.a1, drv.G(b0), drv.G(b1))
	}
	for _, h := range hs {
		if *h.x != h.was {
			return fmt.Sprintf("%s was changed later from %v to %v", h.what, drv.G(&h.was), drv.G(h.x))
		}
	}
	return ""
}

func (s *sysScn) explore(c *ex.Ctx, w int, first int) {
	r0 := ref.NewPool(s.fee, s.p)
	for _, o := range s.pre {
		drv.RefApply(r0, o)
	}
	// world state for validity: base, two strategies
	type world struct {
		base *ref.Pool
		st   [3]*strat.Ref
	}
	o := &sworld{s: s, m: map[string]*alone{}}
	ticks := map[int]bool{}
	mark := func(p *ref.Pool) bool {
		n := false
		for t := range p.Ticks {
			if !ticks[t] {
				ticks[t], n = true, true
			}
		}
		return n
	}
	refresh := func() {
		o.univ = nil
		for t := range ticks {
			o.univ = append(o.univ, t)
		}
		sort.Ints(o.univ)
		o.m = map[string]*alone{} // snapshots list the universe's ticks
	}
	mark(r0)
	refresh()
	step := func(q world, e sev) (world, bool) {
		switch {
		case e.Who == 0:
			p, _, _, ok := drv.TryRef(q.base, s.base[e.Act])
			q.base = p
			return q, ok
		case e.Act < 0:
			q.st[e.Who] = strat.NewRef(s.kinds[e.Who-1], s.a0, s.a1, q.base.Clone(), s.k)
			return q, true
		}
		x := q.st[e.Who]
		a := s.acts[e.Act]
		if a.S == 'I' && x.Inited || a.S == 'R' && !x.Inited {
			return q, false
		}
		y, _, _, ok := strat.Next(x, a)
		if ok {
			q.st[e.Who] = y
		}
		return q, ok
	}
	var evs []sev
	var runs, states int64
	var dfs func(q world, depth int)
	dfs = func(q world, depth int) {
		if c.Stop() {
			return
		}
		states++
		n := mark(q.base)
		for _, x := range q.st {
			if x != nil && mark(x.P) {
				n = true
			}
		}
		if n {
			refresh()
		}
		if depth == 0 {
			runs++
			cas := func() interface{} { return SysCase{s.name, append([]sev{}, evs...), s.text(evs)} }
			c.Beat(w, cas)
			if m := s.run(o, evs); m != "" {
				c.Fail(cas(), fmt.Sprintf("%s, %s: %s", s.name, strings.Join(s.text(evs), "; "), m))
			} else if runs == 500 {
				c.Sample(cas())
			}
			return
		}
		try := func(e sev) {
			if q2, ok := step(q, e); ok {
				evs = append(evs, e)
				dfs(q2, depth-1)
				evs = evs[:len(evs)-1]
			}
		}
		for i := range s.base {
			try(sev{0, i})
		}
		for who := 1; who <= 2; who++ {
			if q.st[who] == nil {
				if who == 1 || q.st[1] != nil {
					try(sev{who, -1})
				}
				continue
			}
			for i := range s.acts {
				try(sev{who, i})
			}
		}
	}
	starts := [][]sev{
		{{1, -1}},
		{{1, -1}, {1, 1}, {1, 0}, {2, -1}}, // snapshot, initialised, second made
		{{1, -1}, {2, -1}, {1, 1}, {2, 1}, {1, 0}, {2, 0}}, // both running
	}
	q := world{base: r0}
	for _, e := range starts[first] {
		var ok bool
		if q, ok = step(q, e); !ok {
			return
		}
		evs = append(evs, e)
	}
	dfs(q, s.depth)
	c.Traces.Add(runs)
	c.States.Add(states)
	c.Transitions.Add(states)
	c.Idle(w)
}

const nstarts = 3

func sysScns(thorough bool) (out []*sysScn) {
	for n, kind := range strat.Kinds {
		others := []string{kind, strat.Kinds[(n+5)%len(strat.Kinds)]}
		for oi, other := range others {
			fee := []int{500, 3000}[(n+oi)%2]
			sp := ref.Spacing[fee]
			L := ref.N(1_000_000_007)
			p := ref.Add(ref.SqrtRatioAtTick(3), ref.N(5))
			sq := ref.SqrtRatioAtTick
			big0 := ref.Add(ref.Amount0Delta(sq(-6*sp), p, L, true), ref.One)
			big1 := ref.Add(ref.Amount1Delta(p, sq(6*sp), L, true), ref.One)
			s := &sysScn{name: kind + "+" + other, kinds: [2]string{kind, other}, k: strat.Params{A: 5 * sp, B: 2 * sp, N: 2, Mul: 3000}, fee: fee, p: p,
				pre: []drv.Op{drv.EMint(-20*sp, 20*sp, L), drv.EMint(-sp, 3*sp, L)}, a0: big0, a1: big1,
				base:  []drv.Op{drv.In(true, big0, ref.Zero), drv.EMint(-5*sp, 5*sp, L), drv.Mint(-2*sp, 2*sp, L)},
				acts:  []strat.Act{{S: 'I'}, {S: 'S'}, {S: 'R'}, {S: 'L'}, {Op: drv.In(true, big0, ref.Zero)}, {Op: drv.In(false, big1, ref.Zero)}},
				depth: 3}
			if thorough {
				s.depth = 4
			}
			out = append(out, s)
		}
	}
	return
}
