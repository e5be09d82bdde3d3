// C13: the executor acts on the documented schedule.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
)

type Case struct {
	Times                  []int
	Start, End             int
	Update, Snap, PriceInt int
	Long, Pattern          int `json:",omitempty"`
}

// Case.Long: the list is Long transactions with gaps from a pattern, instead of Times.
func (k Case) full() Case {
	if k.Long > 0 {
		k.Times = gaps(k.Pattern, k.Long)
	}
	return k
}

// fee is what transaction i adds to the fee growth.
func (k Case) fee(i int) uint64 {
	if k.Long == 0 {
		return 1 << uint(i)
	}
	return uint64(i)*uint64(i)%1013 + 1
}

// gaps: pattern 0 is a steady hour, 1 many at the same time and then a leap, 2 irregular, 3 one second.
func gaps(pattern, n int) (r []int) {
	t, h := 1620156420, uint64(pattern)
	for i := 0; i < n; i++ {
		r = append(r, t)
		switch h = h*6364136223846793005 + 1442695040888963407; pattern {
		case 0:
			t += 3600
		case 1:
			if i%40 == 39 {
				t += 86400
			}
		case 2:
			t += int(h>>40) % 5000
		default:
			t++
		}
	}
	return
}

// recorder is a strategy that notes every call and which transactions had been
// applied to its pool when it came. Transaction i is a flash that raises the
// fee growth of token0 by 2^i units.
type recorder struct {
	p    *pool.Pool
	log  []string
	n    uint64
	base *ui.Int
}

func (r *recorder) applied() string {
	d := new(ui.Int).Sub(r.p.FeeGrowthGlobal0X128, r.base)
	return fmt.Sprintf("%x", d[2]) // growth is fee << 128 / liquidity, liquidity 1
}
func (r *recorder) note(s string) (*ui.Int, *ui.Int) {
	r.log = append(r.log, s+"@"+r.applied())
	r.n++
	return ui.NewInt(r.n * 1000), ui.NewInt(r.n)
}
func (r *recorder) Init() (*ui.Int, *ui.Int)       { return r.note("Init") }
func (r *recorder) Rebalance() (*ui.Int, *ui.Int)  { return r.note("Rebalance") }
func (r *recorder) BurnAll() (*ui.Int, *ui.Int)    { return r.note("BurnAll") }
func (r *recorder) GetAmounts() (*ui.Int, *ui.Int) { return r.note("GetAmounts") }
func (r *recorder) MakeSnapshot()                  { r.note("MakeSnapshot") }
func (r *recorder) GetPool() *pool.Pool            { return r.p }

// want is the documented schedule.
func want(k Case) (log []string, values []uint64) {
	var mask uint64
	n := uint64(0)
	note := func(s string, value bool) {
		log = append(log, fmt.Sprintf("%s@%x", s, mask))
		n++
		if value {
			values = append(values, n*1001)
		}
	}
	started := false
	var dueU, dueS, dueP int
	for i, t := range k.Times {
		if t > k.End {
			break
		}
		if i == 0 {
			dueP = t
		}
		if !started && t >= k.Start {
			note("Init", true)
			started, dueU, dueS = true, t+k.Update, t+k.Snap
		}
		if t >= dueP {
			note("MakeSnapshot", false)
			dueP += k.PriceInt
		}
		if started && t >= dueS {
			note("GetAmounts", true)
			dueS += k.Snap
		}
		if started && t >= dueU {
			note("Rebalance", false)
			dueU += k.Update
		}
		mask += k.fee(i)
	}
	note("BurnAll", true)
	return
}

var (
	template = func() *pool.Pool {
		p := drv.NewReal(500, ref.Q96)
		p.Mint(-1000, 1000, ui.NewInt(1))
		return p
	}()
	flash []*ui.Int
)

func init() {
	for i := 0; i < 12; i++ {
		flash = append(flash, drv.U(new(big.Int).Mul(ref.N(2000), ref.Pow2(uint(i))))) // fee 0.05 %: 2^i
	}
}

func run(k Case) (msg string) {
	k = k.full()
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint("panic: ", e)
		}
	}()
	r := &recorder{p: template.Clone()}
	r.base = r.p.FeeGrowthGlobal0X128.Clone()
	var ts []transaction.Transaction
	zero := new(ui.Int)
	for i, t := range k.Times {
		a := flash[i%len(flash)]
		if k.Long > 0 {
			a = ui.NewInt(2000 * k.fee(i))
		}
		ts = append(ts, transaction.Transaction{Type: "Flash", Amount: zero, Amount0: a, Amount1: zero, SqrtPriceX96: zero, Timestamp: t})
	}
	e := executor.CreateExecution(r, k.Start, k.End, k.Update, k.Snap, k.PriceInt, ts)
	e.Run()
	log, values := want(k)
	a, b := strings.Join(r.log, " "), strings.Join(log, " ")
	if a != b {
		if k.Long > 0 {
			i := 0
			for i < len(r.log) && i < len(log) && r.log[i] == log[i] {
				i++
			}
			a, b = strings.Join(after(r.log, i), " "), strings.Join(after(log, i), " ")
			return fmt.Sprintf("%d transactions: calls (with the fees of the transactions applied before each) from call %d on: %s; documented: %s", k.Long, i, a, b)
		}
		return fmt.Sprintf("calls (with the set of transactions applied before each): %s; documented: %s", a, b)
	}
	mask := uint64(0)
	for i, t := range k.Times {
		if t > k.End {
			break
		}
		mask += k.fee(i)
	}
	if g := r.applied(); g != fmt.Sprintf("%x", mask) {
		return fmt.Sprintf("transactions applied in the end: %s, documented %x", g, mask)
	}
	if len(values) != len(e.AmountUSDSnapshots) {
		return fmt.Sprintf("%d values recorded, documented %d", len(e.AmountUSDSnapshots), len(values))
	}
	for i, v := range values {
		if !drv.Same(e.AmountUSDSnapshots[i], new(big.Int).SetUint64(v)) {
			return fmt.Sprintf("value %d recorded is %v, the strategy reported %d", i, drv.GS(e.AmountUSDSnapshots[i]), v)
		}
	}
	return ""
}

func after(l []string, i int) []string {
	l = l[i:]
	if len(l) > 5 {
		l = l[:5]
	}
	return l
}

// longs are lists of up to tens of thousands of transactions.
func longs(thorough bool) (ks []Case) {
	ns := []int{100, 300, 1300, 11000, 70000}
	if thorough {
		ns = append(ns, 140000, 300000)
	}
	for _, n := range ns {
		for pattern := 0; pattern < 4; pattern++ {
			ts := gaps(pattern, n)
			first, last := ts[0], ts[n-1]
			for _, u := range [][3]int{{86400, 3600, 3600}, {24 * 3600 * 7, 7200, 86400}, {60, 60, 60}, {3600 * 12, 86400, 13}, {1, 5, 7}, {1 << 30, 1 << 30, 1 << 30}} {
				for _, se := range [][2]int{{first - 1, 90000000000000}, {first, last}, {ts[n/3], ts[n-n/4]}, {ts[n-2], last - 1}} {
					ks = append(ks, Case{Start: se[0], End: se[1], Update: u[0], Snap: u[1], PriceInt: u[2], Long: n, Pattern: pattern})
				}
			}
		}
	}
	return
}

// timelines lists all non-decreasing sequences of n of the given times.
func timelines(vals []int, n int, f func([]int)) {
	var s []int
	var rec func(from int)
	rec = func(from int) {
		if len(s) == n {
			f(append([]int{}, s...))
			return
		}
		for i := from; i < len(vals); i++ {
			s = append(s, vals[i])
			rec(i)
			s = s[:len(s)-1]
		}
	}
	rec(0)
}

func main() {
	ex.Run("C13", "model_checking", func(c *ex.Ctx) {
		span, max := 8, 5
		ints := []int{1, 2, 3, 5}
		if c.Thorough {
			span, max = 9, 6
			ints = []int{1, 2, 3, 5, 9}
		}
		var lines [][]int
		for n := 1; n <= max; n++ {
			var vals []int
			for i := 0; i < span; i++ {
				vals = append(vals, i)
			}
			timelines(vals, n, func(s []int) { lines = append(lines, s) })
		}
		// Long timelines: every sequence of gaps from one of two alphabets.
		short := len(lines)
		long := 9
		if c.Thorough {
			long = 12
		}
		for _, g := range [][2]int{{1, 3}, {0, 7}, {2, 5}} {
			for m := 0; m < 1<<uint(long-1); m++ {
				s := []int{0}
				for i := 0; i < long-1; i++ {
					s = append(s, s[i]+g[m>>uint(i)&1])
				}
				lines = append(lines, s)
			}
		}
		c.Class("short timelines", int64(short))
		c.Class("long timelines", int64(len(lines)-short))
		scale := func(s []int, k, off int) []int {
			r := make([]int, len(s))
			for i := range s {
				r[i] = s[i]*k + off
			}
			return r
		}
		c.Par(len(lines), func(w, li int) {
			// the whole schedule shifted (also below zero) and stretched to odd units
			vs := [][2]int{{1, 100}}
			starts, ends := func(int) bool { return true }, func(int) bool { return true }
			if li >= short {
				starts = func(d int) bool { return d == -1 || d == 4 }
				last := lines[li][len(lines[li])-1]
				ends = func(d int) bool { return d == last-2 || d == last+2 }
			} else if len(lines[li]) <= 3 || c.Thorough {
				vs = append(vs, [2]int{1, -4}, [2]int{864, 1620156420}, [2]int{1, 0})
			}
			var n, calls int64
			for _, v := range vs {
				k := Case{Times: scale(lines[li], v[0], v[1])}
				first, last := k.Times[0], k.Times[len(k.Times)-1]
				for start := first - v[0]; start <= last+v[0]; start += v[0] {
					if !starts((start - first) / v[0]) {
						continue
					}
					k.Start = start
					for end := first - v[0]; end <= last+2*v[0]; end += v[0] {
						if !ends((end - first) / v[0]) {
							continue
						}
						k.End = end
						if end > last+v[0] {
							k.End = 90000000000000
						}
						for _, u := range ints {
							for _, s := range ints {
								for _, p := range ints {
									k.Update, k.Snap, k.PriceInt = u*v[0], s*v[0], p*v[0]
									q := k
									c.Beat(w, func() interface{} { return q })
									n++
									if m := run(k); m != "" {
										c.Fail(k, m)
										return
									}
									if n == 1000 && li%500 == 0 {
										l, _ := want(k)
										calls += int64(len(l))
										c.Sample(map[string]interface{}{"case": k, "calls": l})
									}
								}
							}
						}
					}
				}
			}
			c.Traces.Add(n)
			c.States.Add(n)
			c.Transitions.Add(n * int64(len(lines[li])))
			c.Idle(w)
		})
		ks := longs(c.Thorough)
		c.Class("lists of 100 to 300 000 transactions", int64(len(ks)))
		c.Par(len(ks), func(w, i int) {
			k := ks[len(ks)-1-i]
			c.Beat(w, func() interface{} { return k })
			if m := run(k); m != "" {
				c.Fail(k, m)
			}
			c.Traces.Add(1)
			c.States.Add(int64(k.Long))
			c.Transitions.Add(int64(k.Long))
			c.Idle(w)
		})
		c.Assumptions = append(c.Assumptions, "transactions are ordered by time, intervals are positive, there is at least one transaction")
	}, func(c *ex.Ctx, raw json.RawMessage) string {
		var k Case
		if json.Unmarshal(raw, &k) != nil {
			return ""
		}
		return run(k)
	})
}
