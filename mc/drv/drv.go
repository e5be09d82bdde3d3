// Package drv drives the real simulator through its exported API and compares
// it with the reference model.
package drv

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/position"
	ui "uniswap-simulator/uint256"
	"verifmc/ref"
)

const (
	T0 = "USDC"
	T1 = "WETH"
)

// U converts a big integer (two's complement for negatives) without using the
// conversions of the library under test.
func U(b *big.Int) *ui.Int {
	if b == nil {
		return nil
	}
	if b.Sign() < 0 || b.BitLen() > 256 {
		b = new(big.Int).And(b, ref.Max256)
	}
	var z ui.Int
	var buf [32]byte
	b.FillBytes(buf[:])
	for i := 0; i < 4; i++ {
		var w uint64
		for j := 0; j < 8; j++ {
			w = w<<8 | uint64(buf[32-8*(i+1)+j])
		}
		z[i] = w
	}
	return &z
}

// G converts back, as an unsigned number.
func G(x *ui.Int) *big.Int {
	if x == nil {
		return big.NewInt(-1)
	}
	b := new(big.Int)
	t := new(big.Int)
	for i := 3; i >= 0; i-- {
		b.Lsh(b, 64)
		b.Or(b, t.SetUint64(x[i]))
	}
	return b
}

// GS converts back, as a signed number.
func GS(x *ui.Int) *big.Int {
	b := G(x)
	if b.BitLen() == 256 {
		b.Sub(b, ref.Q256)
	}
	return b
}

// Same reports whether x represents b modulo 2^256.
func Same(x *ui.Int, b *big.Int) bool {
	if x == nil || b == nil {
		return false
	}
	if b.Sign() < 0 || b.BitLen() > 256 {
		b = ref.Wrap(b)
	}
	w := b.Bits()
	if len(w) > 4 {
		return false
	}
	for i := 0; i < 4; i++ {
		var v uint64
		if i < len(w) {
			v = uint64(w[i])
		}
		if x[i] != v {
			return false
		}
	}
	return true
}

// Op is one operation on a pool.
type Op struct {
	K      string // mint burn collect (tracked), emint eburn (untracked), in, out, flash
	Lo, Hi int
	A, A1  *big.Int // liquidity, or swap amount, or flash amounts
	Z      bool     // swap: token0 in, token1 out
	Lim    *big.Int
}

func (o Op) String() string {
	switch o.K {
	case "mint", "burn", "emint", "eburn":
		return fmt.Sprintf("%s[%d,%d]L=%v", o.K, o.Lo, o.Hi, o.A)
	case "collect":
		return fmt.Sprintf("collect[%d,%d]", o.Lo, o.Hi)
	case "in", "out":
		d := "1->0"
		if o.Z {
			d = "0->1"
		}
		return fmt.Sprintf("swap-%s %s amt=%v lim=%v", o.K, d, o.A, o.Lim)
	case "flash":
		return fmt.Sprintf("flash(%v,%v)", o.A, o.A1)
	}
	return o.K
}

func Mint(lo, hi int, l *big.Int) Op  { return Op{K: "mint", Lo: lo, Hi: hi, A: l} }
func Burn(lo, hi int, l *big.Int) Op  { return Op{K: "burn", Lo: lo, Hi: hi, A: l} }
func EMint(lo, hi int, l *big.Int) Op { return Op{K: "emint", Lo: lo, Hi: hi, A: l} }
func EBurn(lo, hi int, l *big.Int) Op { return Op{K: "eburn", Lo: lo, Hi: hi, A: l} }
func Collect(lo, hi int) Op           { return Op{K: "collect", Lo: lo, Hi: hi} }
func In(z bool, a, lim *big.Int) Op   { return Op{K: "in", Z: z, A: a, Lim: lim} }
func Out(z bool, a, lim *big.Int) Op  { return Op{K: "out", Z: z, A: a, Lim: lim} }
func Flash(a, b *big.Int) Op          { return Op{K: "flash", A: a, A1: b} }

// RefApply applies o to r in place; it panics with ref.Revert when the contract would revert.
// The two numbers are the operation's visible results (nil if it has none) and
// paid0/paid1 is what the pool took in (negative: paid out or credited).
func RefApply(r *ref.Pool, o Op) (r0, r1 *big.Int) {
	switch o.K {
	case "mint":
		return r.MintTracked(o.Lo, o.Hi, o.A)
	case "burn":
		return r.BurnTracked(o.Lo, o.Hi, o.A)
	case "collect":
		return r.Collect(o.Lo, o.Hi)
	case "emint":
		r.MintMarket(o.Lo, o.Hi, o.A)
		return nil, nil
	case "eburn":
		r.BurnMarket(o.Lo, o.Hi, o.A)
		return nil, nil
	case "in":
		return r.Swap(o.Z, o.A, o.Lim)
	case "out":
		return r.Swap(o.Z, ref.Neg(o.A), o.Lim)
	case "flash":
		r.Flash(o.A, o.A1)
		return nil, nil
	}
	panic("bad op " + o.K)
}

// TryRef applies o to a clone; ok is false when the contract would revert.
func TryRef(r *ref.Pool, o Op) (q *ref.Pool, r0, r1 *big.Int, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(ref.Revert); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	q = r.Clone()
	r0, r1 = RefApply(q, o)
	return q, r0, r1, true
}

// RealOp holds the pre-converted arguments of an operation.
type RealOp struct {
	Op
	a, a1, lim *ui.Int
}

// Apply runs o on the real pool with fresh argument objects. pan is the
// recovered panic, mod is non-empty if an argument was modified.
func Apply(p *pool.Pool, o Op) (r0, r1 *ui.Int, pan interface{}, mod string) {
	var a, a1, lim *ui.Int
	if o.A != nil {
		a = U(o.A)
	}
	if o.A1 != nil {
		a1 = U(o.A1)
	}
	if o.Lim != nil {
		lim = U(o.Lim)
	}
	r0, r1, pan = apply(p, o, a, a1, lim)
	if a != nil && !Same(a, o.A) {
		mod = fmt.Sprintf("argument changed from %v to %v", o.A, G(a))
	}
	if a1 != nil && !Same(a1, o.A1) {
		mod = fmt.Sprintf("argument changed from %v to %v", o.A1, G(a1))
	}
	if lim != nil && !Same(lim, o.Lim) {
		mod = fmt.Sprintf("price limit argument changed from %v to %v", o.Lim, G(lim))
	}
	return
}

// ApplyArgs runs o on the real pool with the given operand objects.
func ApplyArgs(p *pool.Pool, o Op, a, a1, lim *ui.Int) (r0, r1 *ui.Int, pan interface{}) {
	return apply(p, o, a, a1, lim)
}

func apply(p *pool.Pool, o Op, a, a1, lim *ui.Int) (r0, r1 *ui.Int, pan interface{}) {
	defer func() {
		if e := recover(); e != nil {
			pan = e
		}
	}()
	switch o.K {
	case "mint":
		r0, r1 = p.MintStrategy(o.Lo, o.Hi, a)
	case "burn":
		r0, r1 = p.BurnStrategy(o.Lo, o.Hi, a)
	case "collect":
		r0, r1 = p.CollectStrategy(o.Lo, o.Hi)
	case "emint":
		p.Mint(o.Lo, o.Hi, a)
	case "eburn":
		p.Burn(o.Lo, o.Hi, a)
	case "in":
		tok := p.Token1
		if o.Z {
			tok = p.Token0
		}
		r0, r1 = p.ExactInputSwap(a, tok, lim)
	case "out":
		tok := p.Token0
		if o.Z {
			tok = p.Token1
		}
		r0, r1 = p.ExactOutputSwap(a, tok, lim)
	case "flash":
		p.Flash(a, a1)
	default:
		panic("bad op " + o.K)
	}
	return
}

func NewReal(fee int, p *big.Int) *pool.Pool { return pool.NewPool(T0, T1, fee, U(p)) }

// initialised reports whether the real pool's tick store holds tick t.
func initialised(p *pool.Pool, t int) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	n, init := p.TickData.NextInitializedTickWithinOneWord(t, true)
	return init && n == t
}

// CmpState compares the real pool with the reference; univ lists the ticks that
// may be initialised.  pos says whether to compare positions.
func CmpState(p *pool.Pool, r *ref.Pool, univ []int, pos bool) (diff string) {
	defer func() {
		if e := recover(); e != nil {
			diff = fmt.Sprintf("panic while observing the pool: %v", e)
		}
	}()
	if !Same(p.SqrtRatioX96, r.P) {
		return fmt.Sprintf("price %v, contract %v", G(p.SqrtRatioX96), r.P)
	}
	if p.TickCurrent != r.Tick {
		return fmt.Sprintf("current tick %d, contract %d", p.TickCurrent, r.Tick)
	}
	if !Same(p.Liquidity, r.Liq) {
		return fmt.Sprintf("liquidity %v, contract %v", G(p.Liquidity), r.Liq)
	}
	if !Same(p.FeeGrowthGlobal0X128, r.G0) {
		return fmt.Sprintf("feeGrowthGlobal0 %v, contract %v", G(p.FeeGrowthGlobal0X128), r.G0)
	}
	if !Same(p.FeeGrowthGlobal1X128, r.G1) {
		return fmt.Sprintf("feeGrowthGlobal1 %v, contract %v", G(p.FeeGrowthGlobal1X128), r.G1)
	}
	for _, t := range univ {
		v, want := r.Ticks[t]
		n, init := p.TickData.NextInitializedTickWithinOneWord(t, true)
		if (init && n == t) != want {
			return fmt.Sprintf("tick %d initialised=%v, contract %v", t, init && n == t, want)
		}
		if !want {
			continue
		}
		g := p.TickData.GetTick(t)
		if !Same(g.LiquidityNet, v.Net) || !Same(g.LiquidityGross, v.Gross) {
			return fmt.Sprintf("tick %d net %v gross %v, contract net %v gross %v", t, GS(g.LiquidityNet), G(g.LiquidityGross), v.Net, v.Gross)
		}
		if !Same(g.FeeGrowthOutside0X128, v.Out0) || !Same(g.FeeGrowthOutside1X128, v.Out1) {
			return fmt.Sprintf("tick %d feeGrowthOutside (%v,%v), contract (%v,%v)", t, G(g.FeeGrowthOutside0X128), G(g.FeeGrowthOutside1X128), v.Out0, v.Out1)
		}
	}
	if pos {
		return CmpPositions(p, r)
	}
	return ""
}

func samePos(v *position.Info, q ref.Position) bool {
	return Same(v.Liquidity, q.Liq) && Same(v.FeeGrowthInside0LastX128, q.In0) && Same(v.FeeGrowthInside1LastX128, q.In1) &&
		Same(v.TokensOwed0, q.Owed0) && Same(v.TokensOwed1, q.Owed1)
}

// CmpPositions compares the positions as a multiset of records (their lookup key is an internal matter).
func CmpPositions(p *pool.Pool, r *ref.Pool) string {
	if len(p.Positions) != len(r.Pos) {
		return fmt.Sprintf("%d positions, contract %d", len(p.Positions), len(r.Pos))
	}
	var left []*position.Info
	by := map[ui.Int][]*position.Info{} // by liquidity
	for _, v := range p.Positions {
		left = append(left, v)
		by[*v.Liquidity] = append(by[*v.Liquidity], v)
	}
	whole := true
	for _, q := range r.Pos {
		l, found := by[*U(q.Liq)], false
		for i, v := range l {
			if v != nil && samePos(v, q) {
				l[i], found = nil, true
				break
			}
		}
		whole = whole && found
	}
	if whole {
		return ""
	}
next:
	for k, q := range r.Pos {
		for i, v := range left {
			if v != nil && samePos(v, q) {
				left[i] = nil
				continue next
			}
		}
		var have []string
		for _, v := range left {
			if v != nil {
				have = append(have, fmt.Sprintf("(L=%v i0=%v i1=%v owed=%v,%v)", G(v.Liquidity), G(v.FeeGrowthInside0LastX128), G(v.FeeGrowthInside1LastX128), G(v.TokensOwed0), G(v.TokensOwed1)))
			}
		}
		return fmt.Sprintf("no position matches contract's [%d,%d](L=%v i0=%v i1=%v owed=%v,%v); remaining: %s", k.Lo, k.Hi, q.Liq, q.In0, q.In1, q.Owed0, q.Owed1, strings.Join(have, " "))
	}
	return ""
}

// Snapshot renders the real pool's observable state canonically.
func Snapshot(p *pool.Pool, univ []int) string { return snap(p, univ, true) }

// Market renders the state without the positions.
func Market(p *pool.Pool, univ []int) string { return snap(p, univ, false) }

func hexI(b []byte, xs ...*ui.Int) []byte {
	for _, x := range xs {
		b = append(b, ' ')
		for i := 3; i >= 0; i-- {
			b = strconv.AppendUint(b, x[i], 16)
			b = append(b, '.')
		}
	}
	return b
}

func snap(p *pool.Pool, univ []int, pos bool) string {
	b := make([]byte, 0, 1024)
	b = hexI(append(b, "P="...), p.SqrtRatioX96)
	b = strconv.AppendInt(append(b, " tick="...), int64(p.TickCurrent), 10)
	b = hexI(append(b, " L,G0,G1="...), p.Liquidity, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128)
	b = strconv.AppendInt(append(b, " fee="...), int64(p.Fee), 10)
	b = strconv.AppendInt(append(b, " sp="...), int64(p.TickSpacing), 10)
	b = append(append(append(append(append(b, " tok="...), p.Token0...), '/'), p.Token1...), ' ')
	for _, t := range univ {
		if initialised(p, t) {
			g := p.TickData.GetTick(t)
			b = strconv.AppendInt(append(b, " t"...), int64(t), 10)
			b = append(hexI(append(b, '('), g.LiquidityNet, g.LiquidityGross, g.FeeGrowthOutside0X128, g.FeeGrowthOutside1X128), ')')
		}
	}
	if !pos {
		return string(b)
	}
	var ps []string
	for _, v := range p.Positions {
		ps = append(ps, string(hexI(nil, v.Liquidity, v.FeeGrowthInside0LastX128, v.FeeGrowthInside1LastX128, v.TokensOwed0, v.TokensOwed1)))
	}
	sort.Strings(ps)
	return string(b) + " positions " + strings.Join(ps, ";")
}

// Universe collects the ticks mentioned by operations.
func Universe(ops ...[]Op) []int {
	m := map[int]bool{}
	for _, l := range ops {
		for _, o := range l {
			switch o.K {
			case "mint", "burn", "emint", "eburn", "collect":
				m[o.Lo], m[o.Hi] = true, true
			}
		}
	}
	var r []int
	for t := range m {
		r = append(r, t)
	}
	sort.Ints(r)
	return r
}

// SameInt compares two results, which may be absent.
func SameInt(a, b *ui.Int) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}

// Diff shows where two snapshots part.
func Diff(want, have string) string {
	i := 0
	for i < len(want) && i < len(have) && want[i] == have[i] {
		i++
	}
	from := i - 40
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		e := i + 80
		if e > len(s) {
			e = len(s)
		}
		if from > e {
			return ""
		}
		return s[from:e]
	}
	return fmt.Sprintf("expected ...%s..., have ...%s...", cut(want), cut(have))
}
