// C14: replaying recorded transactions applies each one to the market once.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
	"verifmc/strat"
)

type B = *big.Int

// rec is one entry of the alphabet: a recorded transaction and what it means to the market.
type rec struct {
	name   string
	typ    string
	a      B // liquidity of a mint or burn; unrelated otherwise
	a0, a1 B
	lo, hi int
	op     *drv.Op // nil: nothing happens to the market
}

// plan is a schedule: first transaction that starts the strategy, intervals in steps.
// Pair: every two transactions share one time; ID: "" distinct ids, otherwise the id of all; X96: the flag is set.
type plan struct {
	Start, Update, Snap, Price int
	Pair                       bool
	ID                         string
	X96                        bool
}

// at is the time of transaction i, in steps.
func (p plan) at(i int) int {
	if p.Pair {
		return i / 2
	}
	return i
}

// cuts says whether an end time can lie right before transaction i.
func (p plan) cuts(i int) bool { return i == 0 || p.at(i) != p.at(i-1) }

type task struct {
	s    *strat.Scn
	recs []rec
	plan plan
}

type Case struct {
	Task  string
	Plan  plan
	Path  []int
	Cut   int // transactions up to the end time
	Names []string
}

// run replays the list on the real executor; cut is the number of transactions up to the end time.
func (t *task) run(path []int, cut int, want *state, wantVals []B) string {
	s := t.s
	base := drv.NewReal(s.Fee, s.P)
	for _, o := range s.Pre {
		drv.Apply(base, o)
	}
	b0, b1 := drv.U(s.A0), drv.U(s.A1)
	var list []transaction.Transaction
	for i, k := range path {
		list = append(list, t.tx(i, k))
	}
	start := 1000 + 10*t.plan.Start
	end := 90000000000000
	if cut < len(path) {
		end = 1000 + 10*t.plan.at(cut) - 1 // one before the first transaction that is left out
	} else if cut%2 == 0 {
		end = 1000 + 10*t.plan.at(cut-1) // exactly at the last one
	}
	var e *executor.Execution
	univ := map[int]bool{}
	if m := ex.Protect(func() {
		st := strat.New(s.Kind, b0, b1, base, s.K)
		e = executor.CreateExecution(st, start, end, 10*t.plan.Update, 10*t.plan.Snap, 10*t.plan.Price, list)
		e.Run()
	}); m != "" {
		return "the replay crashed: " + m
	}
	if !drv.Same(b0, s.A0) || !drv.Same(b1, s.A1) {
		return fmt.Sprintf("start amounts changed from (%v,%v) to (%v,%v)", s.A0, s.A1, drv.G(b0), drv.G(b1))
	}
	for i, k := range path {
		w := t.tx(i, k)
		g := list[i]
		if g.Type != w.Type || g.ID != w.ID || g.Tick != w.Tick || g.TickLower != w.TickLower || g.TickUpper != w.TickUpper || g.Timestamp != w.Timestamp || g.UseX96 != w.UseX96 ||
			!drv.SameInt(g.Amount, w.Amount) || !drv.SameInt(g.Amount0, w.Amount0) || !drv.SameInt(g.Amount1, w.Amount1) || !drv.SameInt(g.SqrtPriceX96, w.SqrtPriceX96) {
			return fmt.Sprintf("transaction %d of the list changed", i)
		}
	}
	if len(wantVals) != len(e.AmountUSDSnapshots) {
		return fmt.Sprintf("%d values recorded, expected %d", len(e.AmountUSDSnapshots), len(wantVals))
	}
	for i, v := range wantVals {
		if !drv.Same(e.AmountUSDSnapshots[i], v) {
			return fmt.Sprintf("value %d is %v, expected %v", i, drv.G(e.AmountUSDSnapshots[i]), v)
		}
	}
	for _, o := range s.Pre {
		univ[o.Lo], univ[o.Hi] = true, true
	}
	for x := range want.ticks {
		univ[x] = true
	}
	var us []int
	for x := range univ {
		us = append(us, x)
	}
	p := e.Strategy.GetPool()
	if d := drv.CmpState(p, want.r.P, us, false); d != "" {
		return "market after the replay: " + d
	}
	return ""
}

func (t *task) tx(i, k int) transaction.Transaction {
	r := t.recs[k]
	// Price and tick recorded on chain play no part in the replay.
	id := t.plan.ID
	if id == "" {
		id = fmt.Sprint("0x", i, "#", k)
	}
	return transaction.Transaction{Type: r.typ, ID: id, Timestamp: 1000 + 10*t.plan.at(i), TickLower: r.lo, TickUpper: r.hi,
		Tick: 77 - i, UseX96: t.plan.X96, SqrtPriceX96: ui.NewInt(uint64(12345 + i)), Amount: drv.U(r.a), Amount0: drv.U(r.a0), Amount1: drv.U(r.a1)}
}

// state is the reference executor between two transactions.
type state struct {
	r          *strat.Ref
	started    bool
	du, ds, dp int
	vals       []B
	ticks      map[int]bool
}

func value(r *strat.Ref, a0, a1 B) B {
	p2 := ref.Mul(r.P.P, r.P.P)
	return ref.Add(a0, ref.Div(ref.Lsh(a1, 192), p2))
}

// next handles transaction i (record k); ok is false outside the domain.
func (t *task) next(s *state, i, k int) (*state, bool) {
	q := &state{r: s.r, started: s.started, du: s.du, ds: s.ds, dp: s.dp, vals: append([]B{}, s.vals...), ticks: map[int]bool{}}
	for x := range s.ticks {
		q.ticks[x] = true
	}
	now := t.plan.at(i)
	act := func(a strat.Act) (r0, r1 B, ok bool) {
		q.r, r0, r1, ok = strat.Next(q.r, a)
		if ok {
			for x := range q.r.P.Ticks {
				q.ticks[x] = true
			}
		}
		return
	}
	if !q.started && now >= t.plan.Start {
		a0, a1, ok := act(strat.Act{S: 'I'})
		if !ok {
			return nil, false
		}
		q.vals = append(q.vals, value(q.r, a0, a1))
		q.started, q.du, q.ds = true, now+t.plan.Update, now+t.plan.Snap
	}
	if now >= q.dp {
		if _, _, ok := act(strat.Act{S: 'S'}); !ok {
			return nil, false
		}
		q.dp += t.plan.Price
	}
	if q.started && now >= q.ds {
		a0, a1 := q.r.Value()
		q.vals = append(q.vals, value(q.r, a0, a1))
		q.ds += t.plan.Snap
	}
	if q.started && now >= q.du {
		if _, _, ok := act(strat.Act{S: 'R'}); !ok {
			return nil, false
		}
		q.du += t.plan.Update
	}
	if op := t.recs[k].op; op != nil {
		if _, _, ok := act(strat.Act{Op: *op}); !ok {
			return nil, false
		}
	}
	for _, v := range q.vals {
		if v.BitLen() > 256 {
			return nil, false
		}
	}
	return q, true
}

// final is the state after the liquidation that ends the run, and the values.
func (t *task) final(s *state) (*state, []B, bool) {
	r, a0, a1, ok := strat.Next(s.r, strat.Act{S: 'L'})
	if !ok {
		return nil, nil, false
	}
	v := value(r, a0, a1)
	if v.BitLen() > 256 {
		return nil, nil, false
	}
	return &state{r: r, ticks: s.ticks}, append(append([]B{}, s.vals...), v), true
}

type market struct {
	name string
	fee  int
	p    B
	tick int
	L    B
}

func sq(t int) B { return ref.SqrtRatioAtTick(t) }

func build(thorough bool) (ts []*task) {
	ms := []market{
		{"eth", 500, ref.S("1350174849792634181862360983626536"), ref.TickAtSqrtRatio(ref.S("1350174849792634181862360983626536")), ref.S("20000000000000000000")},
		{"one", 3000, ref.Q96, 0, ref.N(1 << 40)},
		{"huge", 10000, ref.Add(ref.Pow2(131), ref.N(7)), ref.TickAtSqrtRatio(ref.Add(ref.Pow2(131), ref.N(7))), ref.Pow2(100)},
		{"tiny", 3000, ref.Pow2(45), ref.TickAtSqrtRatio(ref.Pow2(45)), ref.Pow2(70)},
	}
	for _, m := range ms {
		sp := map[int]int{500: 10, 3000: 60, 10000: 200}[m.fee]
		ct := m.tick - ((m.tick%sp)+sp)%sp
		pre := []drv.Op{drv.EMint(ct-40*sp, ct+40*sp, m.L), drv.EMint(ct-3*sp, ct+2*sp, m.L)}
		in0 := ref.Add(ref.Amount0Delta(sq(ct-5*sp), m.p, m.L, true), ref.One)
		in1 := ref.Add(ref.Amount1Delta(m.p, sq(ct+6*sp), m.L, true), ref.One)
		neg := func(x B) B { return ref.Neg(ref.Add(x, ref.N(3))) }
		half := ref.Div(m.L, ref.N(2))
		op := func(o drv.Op) *drv.Op { return &o }
		z, j := ref.Zero, ref.N(99991) // j: recorded values that must not matter
		recs := []rec{
			{"mint", "Mint", half, j, ref.Neg(j), ct - 2*sp, ct + 4*sp, op(drv.EMint(ct-2*sp, ct+4*sp, half))},
			{"mint-above", "Mint", m.L, j, z, ct + 3*sp, ct + 6*sp, op(drv.EMint(ct+3*sp, ct+6*sp, m.L))},
			{"burn", "Burn", half, j, j, ct - 3*sp, ct + 2*sp, op(drv.EBurn(ct-3*sp, ct+2*sp, half))},
			{"burn-all", "Burn", m.L, ref.Neg(j), j, ct - 40*sp, ct + 40*sp, op(drv.EBurn(ct-40*sp, ct+40*sp, m.L))},
			{"poke", "Burn", z, j, j, ct - 3*sp, ct + 2*sp, nil},
			{"swap0", "Swap", j, in0, neg(in1), 5, 9, op(drv.In(true, in0, z))},
			{"swap1", "Swap", j, neg(in0), in1, 5, 9, op(drv.In(false, in1, z))},
			{"swap0-exact", "Swap", z, ref.N(3), z, 0, 0, op(drv.In(true, ref.N(3), z))},
			{"swap1-nothing-out", "Swap", z, z, ref.N(2), 0, 0, op(drv.In(false, ref.N(2), z))},
			{"flash", "Flash", j, ref.N(5000), ref.Pow2(70), 0, 0, op(drv.Flash(ref.N(5000), ref.Pow2(70)))},
			{"flash1", "Flash", z, z, ref.N(4001), 0, 0, op(drv.Flash(z, ref.N(4001)))},
		}
		plans := []plan{{0, 1, 1, 1, false, "", false}, {1, 2, 1, 1, false, "", true}, {99, 1, 1, 1, false, "", false}, {0, 1, 1, 1, true, "0xabc#0", true}, {0, 1, 1, 1, false, " ", false}}
		if thorough {
			plans = append(plans, plan{0, 2, 2, 3, false, "", false}, plan{2, 1, 3, 1, true, "", true})
		}
		depth := 3
		if thorough {
			depth = 4
		}
		l0 := ref.Add(ref.Amount0Delta(m.p, sq(ct+6*sp), ref.Div(m.L, ref.N(3)), true), ref.N(1000))
		l1 := ref.Add(ref.Amount1Delta(sq(ct-5*sp), m.p, ref.Div(m.L, ref.N(3)), true), ref.N(1000))
		for _, kind := range strat.Kinds {
			if strat.Windowed(kind) && m.p.BitLen() > 114 {
				continue
			}
			k := strat.Params{A: 5 * sp, B: 2 * sp, N: 2, Mul: 40}
			for pi, pl := range plans {
				if (pl.Start > 90 || pl.ID != "" && !thorough) && kind != "NoProvision" && kind != "V2" {
					continue
				}
				d := depth
				if kind == "NoProvision" && (thorough || pl.ID == "") || pi == 0 && kind == "IntervalAroundPrice" {
					d++
				}
				if thorough && kind == "NoProvision" && pi < 2 {
					d++
				}
				s := &strat.Scn{Name: fmt.Sprintf("%s/%s/%d", m.name, kind, pi), Kind: kind, K: k, A0: l0, A1: l1, Fee: m.fee, P: m.p, Pre: pre, Depth: d}
				ts = append(ts, &task{s, recs, pl})
			}
		}
		if m.p.BitLen() > 131 { // an amount with the top bit set is still worth less than 2^256
			s := &strat.Scn{Name: m.name + "/NoProvision/rich", Kind: "NoProvision", K: strat.Params{A: 5 * sp, B: 2 * sp, N: 2, Mul: 40},
				A0: ref.N(12345), A1: ref.Add(ref.Pow2(255), ref.Pow2(200)), Fee: m.fee, P: m.p, Pre: pre, Depth: 2}
			ts = append(ts, &task{s, recs, plans[0]})
		}
	}
	return
}

// burned says whether the position that "poke" touches is empty.
func burned(path []int) bool {
	n := 0
	for _, k := range path {
		if k == 2 { // "burn": one half
			n++
		}
	}
	return n >= 2
}

// explore visits every list from the given first record on.
func (t *task) explore(c *ex.Ctx, w int, first int) {
	var path []int
	states := make([]*state, 1, t.s.Depth+1)
	states[0] = &state{r: t.s.Begin(), ticks: map[int]bool{}}
	var traces, states_ int64
	names := func() (n []string) {
		for _, k := range path {
			n = append(n, t.recs[k].name)
		}
		return
	}
	check := func(cut int) {
		want, vals, ok := t.final(states[cut])
		if !ok {
			return
		}
		traces++
		cas := func() Case { return Case{t.s.Name, t.plan, append([]int{}, path...), cut, names()} }
		c.Beat(w, func() interface{} { return cas() })
		if m := t.run(path, cut, want, vals); m != "" {
			c.Fail(cas(), fmt.Sprintf("%s, start %d, %d of %v before the end time: %s", t.s.Name, t.plan.Start, cut, names(), m))
			return
		}
		if traces == 500 {
			c.Sample(cas())
		}
	}
	var dfs func()
	dfs = func() {
		if c.Stop() {
			return
		}
		for k := range t.recs {
			if len(path) == 0 && k != first {
				continue
			}
			q, ok := t.next(states[len(path)], len(path), k)
			if t.recs[k].name == "poke" && burned(path) {
				ok = false // the contract rejects touching an empty position
			}
			if !ok {
				continue
			}
			states_++
			path = append(path, k)
			states = append(states, q)
			check(len(path))
			if len(path) < t.s.Depth {
				dfs()
			} else if k%4 == 1 {
				for cut := 0; cut < len(path); cut++ {
					if t.plan.cuts(cut) {
						check(cut)
					}
				}
			}
			path, states = path[:len(path)-1], states[:len(states)-1]
		}
	}
	dfs()
	c.States.Add(states_)
	c.Transitions.Add(states_)
	c.Traces.Add(traces)
	c.Idle(w)
}

func main() {
	ex.Run("C14", "model_checking", func(c *ex.Ctx) {
		ts := build(c.Thorough)
		n := len(ts[0].recs)
		longs(c, ts)
		c.Par(len(ts)*n, func(w, i int) { ts[i/n].explore(c, w, i%n) })
		c.Extra["tasks"] = len(ts)
		c.Extra["alphabet"] = n
		c.Assumptions = append(c.Assumptions, "a burn of zero liquidity (a poke) changes only the provider's own fees, which the market replay does not track",
			"lists containing a transaction the contract would have rejected in that state are not recorded on chain and are skipped")
	}, func(c *ex.Ctx, raw json.RawMessage) string {
		var k Case
		if json.Unmarshal(raw, &k) != nil {
			return ""
		}
		t := find(c, k)
		if t == nil || k.Cut > len(k.Path) {
			return ""
		}
		cur := &state{r: t.s.Begin(), ticks: map[int]bool{}}
		for i := 0; i < k.Cut; i++ {
			q, ok := t.next(cur, i, k.Path[i])
			if !ok {
				return ""
			}
			cur = q
		}
		want, vals, ok := t.final(cur)
		if !ok {
			return ""
		}
		return t.run(k.Path, k.Cut, want, vals)
	})
}
