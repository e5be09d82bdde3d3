package strat

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"sync"

	"uniswap-simulator/lib/pool"
	st "uniswap-simulator/lib/strategy"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
)

// Act is a market operation, or a call of the strategy: 'S'nap, 'I'nit,
// 'R'ebalance, 'L'iquidate.
type Act struct {
	S  byte
	Op drv.Op
}

func (a Act) String() string {
	switch a.S {
	case 'S':
		return "MakeSnapshot"
	case 'I':
		return "Init"
	case 'R':
		return "Rebalance"
	case 'L':
		return "BurnAll"
	}
	return a.Op.String()
}

// Scn is a market, a strategy with a budget, and what may happen.
type Scn struct {
	Name   string
	Kind   string
	K      Params
	A0, A1 B
	Fee    int
	P      B
	Pre    []drv.Op // on the pool the strategy is made from
	Starts [][]Act  // histories up to and including Init
	Acts   []Act    // alphabet after Init
	Depth  int
	Long   int // a single history of this many actions from Acts instead of a tree; Init when Wait samples were taken
	Wait   int
	Walk   int // Acts from here on are trades to a price
}

// Step is what one executed action left.
type Step struct {
	Act    Act
	Before *Ref
	After  *Ref
	R0, R1 B // what the reference returned
}

// Node is a history: Steps, of which the last was executed last.
type Node struct {
	S     *Scn
	Start int
	Path  []int
	Steps []Step
	C     *ex.Ctx
}

type Case struct {
	Scenario string
	Start    int
	Path     []int
	Budget   []string
	Strategy string
	Market   []string
	History  []string
}

func (n *Node) Case() Case {
	c := Case{n.S.Name, n.Start, append([]int{}, n.Path...), []string{n.S.A0.String(), n.S.A1.String()},
		fmt.Sprintf("%s %+v", n.S.Kind, n.S.K), nil, nil}
	for _, o := range n.S.Pre {
		c.Market = append(c.Market, o.String())
	}
	for _, s := range n.Steps {
		c.History = append(c.History, s.Act.String())
	}
	return c
}

func (n *Node) Last() *Step { return &n.Steps[len(n.Steps)-1] }

// Real is the real strategy after a history.
type Real struct {
	St     st.Strategy
	P      *pool.Pool
	R0, R1 *ui.Int
	Crash  string // the last action panicked
	At     int
}

// Run executes the first k steps on a new pool and a new real strategy.
func (n *Node) Run(k int) *Real { return n.RunValued(k, 0) }

// RunValued also asks for the strategy's amounts before the first action (bit 0)
// and after action i (bit i+1); all bits: after every action of however long a history.
func (n *Node) RunValued(k int, ask uint) *Real {
	base := drv.NewReal(n.S.Fee, n.S.P)
	for _, o := range n.S.Pre {
		drv.Apply(base, o)
	}
	r := &Real{}
	r.Crash = ex.Protect(func() {
		r.St = New(n.S.Kind, drv.U(n.S.A0), drv.U(n.S.A1), base, n.S.K)
		r.P = r.St.GetPool()
	})
	value := func(i int) {
		if (ask == ^uint(0) && i < k || ask != ^uint(0) && ask>>uint(i)&1 == 1) && r.Crash == "" {
			r.Crash = ex.Protect(func() { r.St.GetAmounts() })
		}
	}
	value(0)
	for i := 0; i < k && r.Crash == ""; i++ {
		r.At = i
		r.Do(n.Steps[i].Act)
		if ask != 0 {
			x0, x1 := r.R0, r.R1
			value(i + 1)
			r.R0, r.R1 = x0, x1
		}
	}
	return r
}

// All asks for the amounts at every moment of a history of k steps.
func All(k int) uint {
	if k < 60 {
		return 1<<uint(k) - 1
	}
	return ^uint(0)
}

// Do executes one action.
func (r *Real) Do(a Act) {
	if a.S == 0 {
		var pan interface{}
		r.R0, r.R1, pan, _ = drv.Apply(r.P, a.Op)
		if pan != nil {
			r.Crash = fmt.Sprint(pan)
			if r.Crash == "" {
				r.Crash = "panic"
			}
		}
		return
	}
	r.Crash = ex.Protect(func() {
		r.R0, r.R1 = nil, nil
		switch a.S {
		case 'S':
			r.St.MakeSnapshot()
		case 'I':
			r.R0, r.R1 = r.St.Init()
		case 'R':
			r.R0, r.R1 = r.St.Rebalance()
		case 'L':
			r.R0, r.R1 = r.St.BurnAll()
		}
	})
}

// Free reads the exported free balances of the strategy; ok is false if it has none.
func (r *Real) Free() (a0, a1 *ui.Int, ok bool) {
	v := reflect.ValueOf(r.St)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	get := func(n string) *ui.Int {
		f := v.FieldByName(n)
		if !f.IsValid() || !f.CanInterface() {
			return nil
		}
		x, _ := f.Interface().(*ui.Int)
		return x
	}
	a0, a1 = get("Amount0"), get("Amount1")
	return a0, a1, a0 != nil && a1 != nil
}

// Ticks that may be initialised at the end of the history.
func (n *Node) Ticks() []int {
	m := map[int]bool{}
	for _, s := range n.Steps {
		for t := range s.After.P.Ticks {
			m[t] = true
		}
	}
	for t := range n.Steps[0].Before.P.Ticks {
		m[t] = true
	}
	r := make([]int, 0, len(m))
	for t := range m {
		r = append(r, t)
	}
	sort.Ints(r)
	return r
}

// SameRanges says how the real pool's ranges (ticks and liquidity of positions) differ from the reference.
func (n *Node) SameRanges(r *Real) (diff string) {
	defer func() {
		if e := recover(); e != nil {
			diff = fmt.Sprintf("panic while observing the pool: %v", e)
		}
	}()
	q := n.Last().After.P
	for _, t := range n.Ticks() {
		v, want := q.Ticks[t]
		at, init := r.P.TickData.NextInitializedTickWithinOneWord(t, true)
		if (init && at == t) != want {
			return fmt.Sprintf("tick %d is an end of a range: %v, documented %v", t, init && at == t, want)
		}
		if want {
			g := r.P.TickData.GetTick(t)
			if !drv.Same(g.LiquidityNet, v.Net) || !drv.Same(g.LiquidityGross, v.Gross) {
				return fmt.Sprintf("tick %d has net %v gross %v, documented net %v gross %v", t, drv.GS(g.LiquidityNet), drv.G(g.LiquidityGross), v.Net, v.Gross)
			}
		}
	}
	var have, want []string
	for _, p := range r.P.Positions {
		if !p.Liquidity.IsZero() {
			have = append(have, drv.G(p.Liquidity).String())
		}
	}
	for _, p := range q.Pos {
		if p.Liq.Sign() != 0 {
			want = append(want, p.Liq.String())
		}
	}
	sort.Strings(have)
	sort.Strings(want)
	if fmt.Sprint(have) != fmt.Sprint(want) {
		return fmt.Sprintf("liquidity of the open positions %v, documented %v", have, want)
	}
	return ""
}

// Poke brings the fees of every open position up to date and returns their sum;
// ok is false if a position was not found.
func (n *Node) Poke(r *Real) (f0, f1 B, ok bool) {
	ts := n.Ticks()
	try := func() int {
		c := 0
		for i, lo := range ts {
			for _, hi := range ts[i+1:] {
				if ex.Protect(func() { r.P.BurnStrategy(lo, hi, new(ui.Int)) }) == "" {
					c++
				}
			}
		}
		return c
	}
	open := 0
	for _, p := range r.P.Positions {
		if !p.Liquidity.IsZero() {
			open++
		}
	}
	ok = true
	if try() < open {
		ts = walk(r.P)
		ok = try() >= open
	}
	f0, f1 = ref.Zero, ref.Zero
	for _, p := range r.P.Positions {
		f0, f1 = ref.Add(f0, drv.G(p.TokensOwed0)), ref.Add(f1, drv.G(p.TokensOwed1))
	}
	return
}

// walk lists all initialised ticks of the real pool.
func walk(p *pool.Pool) (ts []int) {
	ex.Protect(func() {
		for t := ref.MaxTick; t >= ref.MinTick; {
			at, init := p.TickData.NextInitializedTickWithinOneWord(t, true)
			if init {
				ts = append(ts, at)
			}
			if at > t {
				return
			}
			t = at - 1
		}
	})
	sort.Ints(ts)
	return
}

// step applies an action to a clone of the reference; ok is false if the
// market would reject it or it is outside the property's domain.
func step(s *Ref, a Act) (l Step, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(ref.Revert); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	q := s.Clone()
	l = Step{Act: a, Before: s, After: q}
	switch a.S {
	case 0:
		l.R0, l.R1 = drv.RefApply(q.P, a.Op)
	case 'S':
		if len(q.win) == 0 {
			return l, false
		}
		if ref.Mul(q.P.P, q.P.P).BitLen() > 230 {
			return l, false // such prices are documented to be rejected
		}
		q.Sample()
	case 'I':
		l.R0, l.R1 = q.A0, q.A1
		q.Place(true)
	case 'R':
		if q.Kind == "NoProvision" {
			return l, true
		}
		q.Liquidate()
		l.R0, l.R1 = q.A0, q.A1
		q.Place(false)
	case 'L':
		q.Liquidate()
		l.R0, l.R1 = q.A0, q.A1
	}
	for _, t := range q.P.Ticks {
		if t.Gross.BitLen() > 127 {
			return l, false
		}
	}
	return l, true
}

// Engine explores every history of every scenario.
type Engine struct {
	C     *ex.Ctx
	Scns  []*Scn
	Judge func(n *Node) string
	// Wants, if set, says which actions may end a history.
	Wants func(a Act) bool
}

func (s *Scn) begin() *Ref {
	p := ref.NewPool(s.Fee, s.P)
	for _, o := range s.Pre {
		drv.RefApply(p, o)
	}
	return NewRef(s.Kind, s.A0, s.A1, p, s.K)
}

func (e *Engine) judge(w int, n *Node) {
	e.C.Traces.Add(1)
	e.C.Transitions.Add(1)
	e.C.Beat(w, func() interface{} { return n.Case() })
	if m := e.Judge(n); m != "" {
		e.C.Fail(n.Case(), fmt.Sprintf("%s, budget (%v, %v), after %d actions: %s", n.S.Name, n.S.A0, n.S.A1, len(n.Steps), m))
	}
}

func (e *Engine) Run() {
	type task struct {
		s        *Scn
		start, i int
	}
	var tasks []task
	for _, s := range e.Scns {
		if s.Long > 0 {
			tasks = append([]task{{s: s}}, tasks...)
		}
		for k := range s.Starts {
			for i := -1; i < len(s.Acts); i++ {
				tasks = append(tasks, task{s, k, i})
			}
		}
	}
	e.C.Par(len(tasks), func(w, ti int) {
		t := tasks[ti]
		if t.s.Long > 0 {
			e.long(w, t.s)
			return
		}
		n := &Node{S: t.s, Start: t.start, C: e.C}
		cur := t.s.begin()
		for _, a := range t.s.Starts[t.start] {
			l, ok := step(cur, a)
			if !ok {
				return
			}
			n.Steps = append(n.Steps, l)
			cur = l.After
			if t.i < 0 {
				e.judge(w, n)
			}
		}
		if t.i < 0 {
			e.C.States.Add(1)
			e.C.Idle(w)
			return
		}
		cls := map[string]int64{}
		seen := map[uint64]bool{}
		var dfs func(i int)
		dfs = func(i int) {
			a := t.s.Acts[i]
			if len(n.Path)+1 == t.s.Depth && e.Wants != nil && !e.Wants(a) {
				return
			}
			l, ok := step(n.Last().After, a)
			if !ok {
				return
			}
			n.Steps = append(n.Steps, l)
			n.Path = append(n.Path, i)
			if h := l.After.P.Hash(); !seen[h] {
				seen[h] = true
				e.C.States.Add(1)
			}
			e.judge(w, n)
			if a.S == 'R' || a.S == 'I' {
				cls[fmt.Sprintf("%s placed %d ranges", t.s.Kind, len(l.After.Open))]++
			} else if a.S == 0 && (a.Op.K == "in") && len(l.Before.Open) > 0 {
				cls[fmt.Sprintf("swap moved price, strategy in %d of its ranges", inside(l.After))]++
			}
			if len(n.Path) < t.s.Depth {
				for j := range t.s.Acts {
					dfs(j)
				}
			} else if len(seen) == 7 {
				e.C.Sample(n.Case())
			}
			n.Steps = n.Steps[:len(n.Steps)-1]
			n.Path = n.Path[:len(n.Path)-1]
		}
		dfs(t.i)
		for k, v := range cls {
			e.C.Class(k, v)
		}
		e.C.Idle(w)
	})
}

// long follows one history of s.Long actions, chosen by a fixed rule among those the contract accepts,
// and judges it after Init, at regular intervals after a rebalance, and at the end.
func (e *Engine) long(w int, s *Scn) {
	n := &Node{S: s, C: e.C}
	cur := s.begin()
	take := func(i int) bool {
		l, ok := step(cur, s.Acts[i])
		if ok {
			n.Steps = append(n.Steps, l)
			n.Path = append(n.Path, i)
			cur = l.After
		}
		return ok
	}
	rule(s, func() *Ref { return cur }, take, func(init bool) {
		k := len(n.Steps)
		if k%8 == 0 {
			e.C.Beat(w, func() interface{} { return n.Case() })
		}
		a := s.Acts[n.Path[k-1]].S
		due := init || k >= s.Long
		if q := s.Long / 12; !due && a == 'R' {
			for j := k - 1; j > 0 && k/q == j/q; j-- {
				if s.Acts[n.Path[j-1]].S == 'R' {
					return
				}
				if (j-1)/q != k/q {
					break
				}
			}
			due = true
		}
		if due && (e.Wants == nil || e.Wants(s.Acts[n.Path[k-1]]) || init) {
			e.judge(w, n)
		}
	})
	e.C.States.Add(int64(len(n.Steps)))
	e.C.Class("actions in long histories", int64(len(n.Steps)))
	e.C.Idle(w)
}

const walks = 60 // how many spacings the price of a long history may leave the centre

// rule chooses the actions of a long history: samples and a few trades until Init (Acts[0]), then anything.
// Acts[Walk:] are trades to a price 60 spacings below the centre up to 60 above, downwards and upwards;
// of these it takes steps of at most four spacings.
func rule(s *Scn, at func() *Ref, take func(i int) bool, after func(init bool)) {
	var sample, reb int
	for i, a := range s.Acts {
		if a.S == 'S' {
			sample = i
		}
		if a.S == 'R' {
			reb = i
		}
	}
	sp := ref.Spacing[s.Fee]
	ct := floor(ref.NewPool(s.Fee, s.P).Tick, sp)
	h, k, samples, inited := uint64(len(s.Name)*7919+s.K.N), 0, 0, false
	for tries := 0; k < s.Long && tries < 20*s.Long; tries++ {
		h = h*6364136223846793005 + 1442695040888963407
		i := 1 + int(h>>33)%(s.Walk-1)
		switch x := h >> 56 & 31; {
		case !inited && sample > 0 && x > 2:
			i = sample
		case inited && x < 9:
			i = reb
		case x < 29:
			t := at().P.Tick
			j := floor(t-ct, sp)/sp + int(h>>40)%9 - 4
			if j < -walks || j > walks { // far out: back to the centre
				j = 0
			}
			i = s.Walk + 2*(j+walks)
			if ct+j*sp >= t {
				i++
			}
		}
		if !inited && (s.Acts[i].S == 'R' || s.Acts[i].S == 'L') {
			continue
		}
		if s.Acts[i].S == 'L' && h>>62 > 0 {
			continue
		}
		init := !inited && samples >= s.Wait && k >= 3
		if init {
			i = 0
		}
		if take(i) {
			if k++; s.Acts[i].S == 'S' {
				samples++
			}
			inited = inited || init
			after(init)
		}
	}
}

// Longs are long histories of every kind, with windows of up to hundreds of samples.
func Longs(thorough bool) (out []*Scn) {
	seen := map[string]bool{}
	n := 240
	wins := []int{3, 24, 130, 300}
	if thorough {
		n, wins = 900, []int{3, 24, 130, 168, 257, 300, 1000}
	}
	for _, s := range Scenarios(thorough, 1) {
		id := fmt.Sprint(s.Kind, s.K, s.Fee, s.P)
		if seen[id] || s.A0.Sign() == 0 || s.A1.Sign() == 0 || !thorough && s.Fee == 10000 {
			continue
		}
		seen[id] = true
		for j, win := range wins {
			if !Windowed(s.Kind) && j > 0 {
				break
			}
			q := *s
			q.Starts, q.Acts = nil, []Act{{S: 'I'}}
			sp := ref.Spacing[s.Fee]
			ct := floor(ref.NewPool(s.Fee, s.P).Tick, sp)
			end := map[bool]B{true: ref.SqrtRatioAtTick(ct - walks*sp), false: ref.SqrtRatioAtTick(ct + walks*sp)}
			for _, a := range s.Acts {
				switch {
				case a.S == 'I' || a.Op.K == "eburn":
					continue
				case a.Op.K == "in":
					a.Op.Lim = end[a.Op.Z]
				}
				q.Acts = append(q.Acts, a)
			}
			q.Acts = append(q.Acts, Act{S: 'S'})
			q.Walk = len(q.Acts)
			for k := -walks; k <= walks; k++ {
				lim := ref.SqrtRatioAtTick(ct + k*sp + sp/3)
				q.Acts = append(q.Acts, Act{Op: drv.In(true, ref.Pow2(180), lim)}, Act{Op: drv.In(false, ref.Pow2(180), lim)})
			}
			if s.K.A == 5*sp && s.Kind != "TwoIntervalAroundPrice" {
				q.K.A = 40 * sp // wide enough to be rebalanced before the price leaves it
			}
			q.Long = n
			if Windowed(s.Kind) {
				q.K.N = win
				q.Wait = win + win/8
				q.Long = n + win*3/2
			}
			q.Name = fmt.Sprintf("%s_long%d_n%d", s.Name, q.Long, q.K.N)
			out = append(out, &q)
		}
	}
	return
}

// Wholes are short histories with budgets in whole multiples of 2^64, and with budgets for which
// the first, second or third range opened holds a whole multiple of 2^64 of liquidity.
func Wholes(thorough bool) (out []*Scn) {
	var wg sync.WaitGroup
	var slots []*[]*Scn
	w := func(n, d int64) B { return ref.Add(ref.Mul(ref.Pow2(64), ref.N(n)), ref.N(d)) }
	for _, centre := range []int{19464, -19464, 0} {
		const fee, sp = 500, 10
		ct := centre * sp
		sq := ref.SqrtRatioAtTick
		full := ref.MaxTick / sp * sp
		L := ref.Add(ref.Pow2(80), ref.N(12345))
		p := ref.Div(ref.Add(sq(ct), sq(ct+sp)), ref.N(2))
		pre := []drv.Op{drv.EMint(ct-20*sp, ct+20*sp, L), drv.EMint(-full, full, ref.Div(L, ref.N(50)))}
		small0 := ref.Add(ref.Amount0Delta(sq(ct), sq(ct+sp), L, true), ref.One)
		small1 := ref.Add(ref.Amount1Delta(sq(ct), sq(ct+sp), L, true), ref.One)
		much0 := ref.Mul(ref.Add(ref.Amount0Delta(sq(ct-20*sp), p, L, true), ref.One), ref.N(1000))
		much1 := ref.Mul(ref.Add(ref.Amount1Delta(p, sq(ct+20*sp), L, true), ref.One), ref.N(1000))
		for _, kind := range Kinds {
			if kind == "NoProvision" {
				continue
			}
			kind, slot := kind, new([]*Scn)
			slots = append(slots, slot)
			wg.Add(1)
			go func() {
				defer wg.Done()
				var out []*Scn
				defer func() { *slot = out }()
				k := Params{A: 5 * sp, B: 2 * sp, N: 3, Mul: 40}
				start := []Act{{S: 'I'}}
				if Windowed(kind) {
					start = []Act{{S: 'S'}, {Op: drv.In(false, small1, ref.Zero)}, {S: 'S'}, {S: 'S'}, {S: 'I'}}
				}
				mk := func(a0, a1 B, tag string) *Scn {
					return &Scn{Name: fmt.Sprintf("%s_whole_c%d_%s", kind, ct, tag), Kind: kind, K: k, A0: a0, A1: a1, Fee: fee, P: p, Pre: pre, Depth: 2,
						Starts: [][]Act{start}, Acts: []Act{{Op: drv.In(true, small0, ref.Zero)}, {Op: drv.In(false, small1, ref.Zero)}, {S: 'R'}, {S: 'L'}}}
				}
				for _, n := range []int64{1, 2, 3} {
					for d := int64(0); d < 3; d++ {
						out = append(out, mk(w(n, d), ref.Zero, fmt.Sprintf("only0_%d+%d", n, d)), mk(ref.Zero, w(n, d), fmt.Sprintf("only1_%d+%d", n, d)))
					}
				}
				out = append(out, mk(w(2, 0), w(4, 0), "both"), mk(w(2, 1), w(4, 1), "both+1"))
				for side := 0; side < 4; side++ {
					budget := func(f B) (B, B) {
						return []B{much0, ref.Zero, f, f}[side], []B{f, f, much1, ref.Zero}[side]
					}
					for _, T := range []B{w(1, 0), w(2, 0), w(6, 0)} {
						for j := 0; j < 3; j++ {
							liq := func(f B) B {
								q := mk(ref.Zero, ref.Zero, "")
								q.A0, q.A1 = budget(f)
								r := q.begin()
								for _, a := range start {
									l, ok := step(r, a)
									if !ok {
										return nil
									}
									r = l.After
								}
								if len(r.Open) <= j {
									return ref.Zero
								}
								return r.Open[j].L
							}
							lo, hi := ref.Zero, ref.Pow2(110) // liquidity(lo) < T <= liquidity(hi)
							if l := liq(hi); l != nil && l.Cmp(T) < 0 {
								continue
							}
							for ref.Sub(hi, lo).Cmp(ref.One) > 0 {
								mid := ref.Div(ref.Add(lo, hi), ref.N(2))
								if l := liq(mid); l == nil || l.Cmp(T) >= 0 {
									hi = mid
								} else {
									lo = mid
								}
							}
							near := int64(0)
							if kind == "IntervalAroundPriceAndSwap" {
								near = 150
							}
							for o := -near; o <= near; o++ {
								f := ref.Add(hi, ref.N(o))
								if l := liq(f); l == nil || l.Cmp(T) != 0 {
									continue
								}
								for more := int64(0); more < 3; more++ {
									a0, a1 := budget(ref.Add(f, ref.N(more)))
									out = append(out, mk(a0, a1, fmt.Sprintf("side%d_range%d_L%v+%d", side, j, T, more)))
								}
								break
							}
						}
					}
				}
			}()
		}
	}
	wg.Wait()
	for _, l := range slots {
		out = append(out, *l...)
	}
	return
}

// Edges are histories at the outermost prices.
func Edges(thorough bool) (out []*Scn) {
	sq := ref.SqrtRatioAtTick
	const sp = 10
	full := ref.MaxTick / sp * sp
	edge := []Act{{Op: drv.In(true, ref.Pow2(200), ref.Add(ref.MinSqrt, ref.N(1000)))}, {Op: drv.In(false, ref.Pow2(250), ref.Sub(ref.MaxSqrt, ref.N(1000)))}}
	for e, ct := range []int{-887000, 887000} {
		L := ref.Pow2(70)
		p := ref.Div(ref.Add(sq(ct), sq(ct+sp)), ref.N(2))
		lo, hi := ct-20*sp, ct+20*sp
		pre := []drv.Op{drv.EMint(lo, hi, L), drv.EMint(-full, full, ref.Div(L, ref.N(50)))}
		x := ref.Add(ref.Amount0Delta(p, sq(ct+5*sp), L, true), ref.One)
		y := ref.Add(ref.Amount1Delta(sq(ct-5*sp), p, L, true), ref.One)
		D := Act{Op: drv.In(true, ref.Add(ref.Amount0Delta(sq(ct-7*sp), p, L, true), ref.One), ref.Zero)}
		U := Act{Op: drv.In(false, ref.Add(ref.Amount1Delta(p, sq(ct+6*sp), L, true), ref.One), ref.Zero)}
		S, I, R, Q := Act{S: 'S'}, Act{S: 'I'}, Act{S: 'R'}, Act{S: 'L'}
		for _, kind := range Kinds {
			if Windowed(kind) && e == 1 {
				continue // such prices cannot be sampled
			}
			for bi, b := range [][2]B{{x, y}, {x, ref.Zero}, {ref.Zero, y}} {
				for _, mul := range []int{40, 65535} {
					if mul > 40 && (!Windowed(kind) || kind == "IntervalAroundAverage") {
						continue
					}
					s := &Scn{Name: fmt.Sprintf("%s_edge%d_m%d_b%d", kind, ct, mul, bi), Kind: kind, K: Params{A: 5 * sp, B: 2 * sp, N: 3, Mul: mul}, A0: b[0], A1: b[1], Fee: 500, P: p, Pre: pre, Depth: 2}
					if thorough {
						s.Depth = 3
					}
					s.Starts = [][]Act{{I}, {U, I}, {edge[e], I}}
					s.Acts = []Act{D, U, R, Q, edge[e]}
					if Windowed(kind) {
						s.Starts = [][]Act{{S, U, S, D, S, I}, {S, S, S, I}, {S, D, S, S, I}, {S, S, edge[e], S, I}}
						s.Acts = append(s.Acts, S)
					}
					out = append(out, s)
				}
			}
		}
	}
	return
}

func inside(s *Ref) (k int) {
	for _, r := range s.Open {
		if r.Lo <= s.P.Tick && s.P.Tick < r.Hi {
			k++
		}
	}
	return
}

// Replay re-executes one recorded history, judging every prefix.
func (e *Engine) Replay(raw json.RawMessage) string {
	var k Case
	if json.Unmarshal(raw, &k) != nil {
		return ""
	}
	for _, s := range e.Scns {
		if s.Name != k.Scenario || s.Long == 0 && k.Start >= len(s.Starts) {
			continue
		}
		n := &Node{S: s, Start: k.Start, C: e.C}
		cur := s.begin()
		var acts []Act
		if s.Long == 0 {
			acts = append(acts, s.Starts[k.Start]...)
		}
		for _, i := range k.Path {
			if i >= len(s.Acts) {
				return ""
			}
			acts = append(acts, s.Acts[i])
		}
		for _, a := range acts {
			l, ok := step(cur, a)
			if !ok {
				return ""
			}
			n.Steps = append(n.Steps, l)
			cur = l.After
			if s.Long > 0 && len(n.Steps) < len(acts) {
				continue
			}
			if m := e.Judge(n); m != "" {
				return m
			}
		}
		return ""
	}
	return ""
}

// Scenarios is the library of strategy scenarios.
func Scenarios(thorough bool, depth int) []*Scn {
	type conf struct {
		fee, centre int
		L           B
		on          bool // price exactly on the centre tick
	}
	confs := []conf{
		{500, 0, ref.S("1000000000000000003"), false},
		{3000, -3, ref.N(1_000_000_007), false},
		{10000, 2, ref.Add(ref.Pow2(80), ref.N(12345)), false},
		{500, 19464, ref.S("1000000000000000003"), false}, // near the price of the command's pool
	}
	confs = append(confs, conf{500, -7, ref.N(1_000_000_007), true})
	if thorough {
		confs = append(confs, conf{10000, -40, ref.S("1000000000000000003"), false}, conf{3000, 1000, ref.S("1000000000000000003"), false}, conf{500, -20000, ref.N(1_000_000_007), false})
	}
	type par struct {
		k   Params
		tag string
	}
	var out []*Scn
	for ci, c := range confs {
		sp := ref.Spacing[c.fee]
		ct := c.centre * sp
		p := ref.Div(ref.Add(ref.SqrtRatioAtTick(ct), ref.SqrtRatioAtTick(ct+sp)), ref.N(2))
		if c.on {
			p = ref.SqrtRatioAtTick(ct)
		}
		sq := ref.SqrtRatioAtTick
		full := ref.MaxTick / sp * sp
		pre := []drv.Op{
			drv.EMint(ct-20*sp, ct+20*sp, c.L),
			drv.EMint(-full, full, ref.Add(ref.Div(c.L, ref.N(50)), ref.One)),
		}
		one := func(n *big.Int) B {
			if n.Sign() == 0 {
				return ref.One
			}
			return n
		}
		// Budgets worth about half the market's liquidity over five spacings.
		X := one(ref.Div(ref.Amount0Delta(p, sq(ct+5*sp), c.L, true), ref.N(2)))
		Y := one(ref.Div(ref.Amount1Delta(sq(ct-5*sp), p, c.L, true), ref.N(2)))
		type bud struct{ a, b B }
		buds := []bud{{X, Y}, {X, ref.Zero}, {ref.Zero, Y}, {ref.Zero, ref.Zero}, {ref.One, ref.One}}
		buds = append(buds, bud{ref.Mul(X, ref.N(1000)), ref.Mul(Y, ref.N(3))})
		small0 := ref.Add(ref.Amount0Delta(sq(ct), sq(ct+sp), c.L, true), ref.One)
		small1 := ref.Add(ref.Amount1Delta(sq(ct), sq(ct+sp), c.L, true), ref.One)
		big0 := ref.Add(ref.Amount0Delta(sq(ct-6*sp), p, c.L, true), ref.One)
		big1 := ref.Add(ref.Amount1Delta(p, sq(ct+6*sp), c.L, true), ref.One)
		out0 := ref.Mul(ref.Add(ref.Amount0Delta(sq(ct-30*sp), p, c.L, true), ref.One), ref.N(2))
		out1 := ref.Mul(ref.Add(ref.Amount1Delta(p, sq(ct+30*sp), c.L, true), ref.One), ref.N(2))
		end := ref.Pow2(150)
		in := func(z bool, a B) Act { return Act{Op: drv.In(z, a, ref.Zero)} }
		D, U, d, u := in(true, big0), in(false, big1), in(true, small0), in(false, small1)
		S, I, R, L := Act{S: 'S'}, Act{S: 'I'}, Act{S: 'R'}, Act{S: 'L'}
		XD, XU := in(true, end), in(false, end)
		for _, kind := range Kinds {
			w := Windowed(kind)
			var ps []par
			switch kind {
			case "NoProvision", "V2":
				ps = []par{{Params{}, ""}}
			case "TwoIntervalAroundPrice":
				ps = []par{{Params{A: 5 * sp, B: 2 * sp}, "a5b2"}, {Params{A: sp, B: 7 * sp}, "a1b7"}, {Params{A: 2*sp + 3, B: sp}, "a2.b1"}}
			case "IntervalAroundAverage":
				ps = []par{{Params{A: 5 * sp, N: 3}, "a5n3"}, {Params{A: 2*sp + sp/2, N: 2}, "a2.5n2"}}
			case "BollingerBands", "BollingerBandsFillUp", "VolatilitySized":
				ps = []par{{Params{N: 3, Mul: 1}, "n3m1"}, {Params{N: 2, Mul: 40}, "n2m40"}, {Params{N: 3, Mul: 65535}, "n3m65535"}}
			default:
				ps = []par{{Params{A: 5 * sp}, "a5"}, {Params{A: sp}, "a1"}, {Params{A: 2*sp + sp/2}, "a2.5"}}
			}
			for pi, k := range ps {
				for bi, b := range buds {
					if !thorough && (ci > 0 && pi > 0 && bi > 0 || kind == "NoProvision" && bi > 0) {
						continue
					}
					s := &Scn{Name: fmt.Sprintf("%s%s_fee%d_c%d_b%d", kind, k.tag, c.fee, ct, bi), Kind: kind, K: k.k, A0: b.a, A1: b.b,
						Fee: c.fee, P: p, Pre: pre, Depth: depth}
					if w {
						s.Starts = [][]Act{{I}, {S, I}, {S, S, S, I}, {S, U, S, I}, {U, S, d, S, D, S, I}, {XD, S, I}}
						s.Acts = []Act{D, U, d, S, R, L}
					} else {
						s.Starts = [][]Act{{I}, {U, I}, {D, d, I}, {XD, I}, {XU, I}}
						s.Acts = []Act{D, U, d, u, R, L}
					}
					s.Acts = append(s.Acts, in(true, out0), in(false, out1))
					if c.fee > 500 { // at spacing 10 the walk to the end of the range takes hundreds of steps
						s.Acts = append(s.Acts, XD, XU)
					}
					if bi == 0 {
						s.Acts = append(s.Acts, Act{Op: drv.EMint(ct-2*sp, ct+5*sp, c.L)}, Act{Op: drv.EBurn(ct-2*sp, ct+5*sp, c.L)},
							Act{Op: drv.EBurn(ct-20*sp, ct+20*sp, c.L)}, Act{Op: drv.Flash(big0, big1)})
					}
					out = append(out, s)
				}
			}
		}
	}
	return out
}

// Next applies an action to a copy of the reference; ok is false if the market
// would reject it or it is outside the domain.
func Next(s *Ref, a Act) (q *Ref, r0, r1 B, ok bool) {
	if a.S == 'S' && len(s.win) == 0 {
		return s, nil, nil, true
	}
	l, ok := step(s, a)
	return l.After, l.R0, l.R1, ok
}

// Begin is the reference strategy of a scenario before anything happened.
func (s *Scn) Begin() *Ref { return s.begin() }

// Walk lists all initialised ticks of a real pool.
func Walk(p *pool.Pool) []int { return walk(p) }
