// Command c09w runs simulations alone, under a controlled scheduler, or freely
// in parallel, for check C09.
package main

import (
	"fmt"
	"math/big"
	"strings"

	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/pool"
	st "uniswap-simulator/lib/strategy"
	"uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
	"verifmc/strat"
)

// Sim is one simulation: a strategy and a schedule.
type Sim struct {
	Kind                        string
	K                           strat.Params
	Start, Update, Snap, Sample int
}

func (s Sim) String() string {
	return fmt.Sprintf("%s%+v start %d update %d", s.Kind, s.K, s.Start, s.Update)
}

const sp = 10

// sims lists the simulations: every strategy twice, with other parameters and schedules.
func sims() (out []Sim) {
	for i, k := range strat.Kinds {
		out = append(out,
			Sim{k, strat.Params{A: 5 * sp, B: 2 * sp, N: 2, Mul: 3000}, i % 2, 1, 1, 1},
			Sim{k, strat.Params{A: 12*sp + 3, B: 4 * sp, N: 3, Mul: 64000}, 0, 2, 1, 1})
	}
	out = append(out, Sim{"BollingerBandsFillUp", strat.Params{N: 3, Mul: 65535}, 1, 1, 1, 1})
	return
}

// Shared is what the simulations of one process have in common.
type Shared struct {
	base   *pool.Pool
	a0, a1 *ui.Int
	txs    []transaction.Transaction
	before string
}

func newShared(ntx int) *Shared {
	L := ref.N(1_000_000_007)
	p := ref.Add(ref.SqrtRatioAtTick(3), ref.N(5))
	sq := ref.SqrtRatioAtTick
	big0 := ref.Add(ref.Amount0Delta(sq(-6*sp), p, L, true), ref.One)
	big1 := ref.Add(ref.Amount1Delta(p, sq(6*sp), L, true), ref.One)
	s := &Shared{base: drv.NewReal(500, p), a0: drv.U(big0), a1: drv.U(ref.Add(big1, ref.N(77)))}
	for _, o := range []drv.Op{drv.EMint(-20*sp, 20*sp, L), drv.EMint(-sp, 3*sp, L), drv.Mint(-2*sp, 2*sp, L)} {
		drv.Apply(s.base, o)
	}
	z := ref.Zero
	neg := func(b *big.Int) *ui.Int { return drv.U(ref.Neg(b)) }
	add := func(typ string, lo, hi int, a, a0, a1 *ui.Int) {
		i := len(s.txs)
		s.txs = append(s.txs, transaction.Transaction{Type: typ, ID: fmt.Sprint(i), TickLower: lo, TickUpper: hi, Amount: a, Amount0: a0, Amount1: a1,
			Timestamp: 100 + i, SqrtPriceX96: drv.U(z)})
	}
	add("Swap", 0, 0, drv.U(z), drv.U(ref.Mul(big0, ref.N(2))), neg(big1))
	add("Mint", -3*sp, 5*sp, drv.U(L), drv.U(z), drv.U(z))
	add("Swap", 0, 0, drv.U(z), neg(big0), drv.U(ref.Mul(big1, ref.N(3))))
	add("Burn", -sp, 3*sp, drv.U(L), drv.U(z), drv.U(z))
	add("Flash", 0, 0, drv.U(z), drv.U(big0), drv.U(big1))
	s.txs = s.txs[:ntx]
	s.before = s.look()
	return s
}

// look renders everything the simulations share.
func (s *Shared) look() string {
	var b strings.Builder
	b.WriteString(drv.Snapshot(s.base, strat.Walk(s.base)))
	fmt.Fprintf(&b, " start amounts %v %v", drv.G(s.a0), drv.G(s.a1))
	for _, t := range s.txs {
		fmt.Fprintf(&b, " tx %s %s %v %v %v %v %d %d %d %d %v", t.Type, t.ID, drv.G(t.Amount), drv.G(t.Amount0), drv.G(t.Amount1), drv.G(t.SqrtPriceX96),
			t.Tick, t.TickLower, t.TickUpper, t.Timestamp, t.UseX96)
	}
	return b.String()
}

// make creates the simulation, as main does, before any of them runs.
func (s *Shared) make(k Sim, wrap func(st.Strategy) st.Strategy) *executor.Execution {
	x := strat.New(k.Kind, s.a0, s.a1, s.base, k.K)
	if wrap != nil {
		x = wrap(x)
	}
	return executor.CreateExecution(x, 100+k.Start, 90000000000000, k.Update, k.Snap, k.Sample, s.txs)
}

// result renders what a simulation produced.
func result(e *executor.Execution) string {
	var b strings.Builder
	if m := ex.Protect(func() {
		for _, v := range e.AmountUSDSnapshots {
			fmt.Fprintf(&b, "%v ", drv.G(v))
		}
		x, y := e.Strategy.GetAmounts()
		fmt.Fprintf(&b, "amounts %v %v ", drv.G(x), drv.G(y))
		p := e.Strategy.GetPool()
		b.WriteString(drv.Snapshot(p, strat.Walk(p)))
	}); m != "" {
		b.WriteString("panic: " + m)
	}
	return b.String()
}

func runSim(e *executor.Execution) string { return ex.Protect(e.Run) }
