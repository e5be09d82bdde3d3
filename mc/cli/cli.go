// Package cli runs the simulator command, built from the current tree, as a
// black box in a scratch directory, and recomputes every row it should report
// from simulations run alone.
package cli

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/pool"
	st "uniswap-simulator/lib/strategy"
	"uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
)

type B = *big.Int

const (
	Rows = 65535
	Hour = 3600
	Day  = 24 * Hour
	T0   = 1620000000
)

// Tx is one recorded transaction of the input file.
type Tx struct {
	Type      string `json:"type"`
	ID        string `json:"id"`
	Timestamp int    `json:"timestamp"`
	Amount0   string `json:"amount0"`
	Amount1   string `json:"amount1"`
	Amount    string `json:"amount,omitempty"`
	Sqrt      string `json:"sqrtPriceX96,omitempty"`
	Tick      int    `json:"tick,omitempty"`
	TickLower int    `json:"tickLower,omitempty"`
	TickUpper int    `json:"tickUpper,omitempty"`
	UseX96    string `json:"useX96,omitempty"`
}

// Case is one invocation of the command.
type Case struct {
	Name  string
	Txs   []Tx
	N     int    // update interval in hours; 0: no flags given
	File  string // result file
	Stale bool   // results/<file> exists already, with longer content
	Wide  int    // cores to use (0: one or two)
	Every int    // recompute the rows of every this many multipliers (0: all), and the first and last 100
}

// Row is one reported result.
type Row struct {
	UpdateInterval *int     `json:"update_interval"`
	Mul            *int     `json:"multiplierX10"`
	Window         *int     `json:"history_window"`
	Return         *float64 `json:"return_on_investment"`
	End            *string  `json:"end_amount"`
	Drawdown       *float64 `json:"max_draw_down"`
	StdH           *float64 `json:"standard_deviation_hourly"`
	StdD           *float64 `json:"standard_deviation_daily"`
	StdW           *float64 `json:"standard_deviation_weekly"`
	DownH          *float64 `json:"downward_deviation_hourly"`
	DownD          *float64 `json:"downward_deviation_daily"`
	DownW          *float64 `json:"downward_deviation_weekly"`
	VarH           *float64 `json:"VaR95_hourly"`
	VarD           *float64 `json:"VaR95_daily"`
	VarW           *float64 `json:"VaR95_weekly"`
}

type Save struct {
	StartAmount *string `json:"start_amount"`
	StartTime   *int    `json:"start_time"`
	EndTime     *int    `json:"end_time"`
	Results     []Row   `json:"results"`
}

var (
	once sync.Once
	bin  string
	berr error
	// Dir is the scratch directory of this process.
	Dir string
)

// Build compiles the command.
func Build() (string, error) {
	once.Do(func() {
		Dir = os.Getenv("VERIF_TMP")
		if Dir == "" {
			Dir, berr = os.MkdirTemp("", "verif_cli.")
			if berr != nil {
				return
			}
		}
		bin = filepath.Join(Dir, "simulator")
		cmd := exec.Command("go", "build", "-o", bin, "uniswap-simulator")
		cmd.Dir = filepath.Join(ex.Root, "mc")
		if b, err := cmd.CombinedOutput(); err != nil {
			berr = fmt.Errorf("%v: %s", err, b)
		}
	})
	return bin, berr
}

// UpdateInterval is the requested update interval in seconds.
func (k Case) UpdateInterval() int {
	if k.N == 0 {
		return 24 * Hour // documented default
	}
	return k.N * Hour
}

// Run runs the command; bad is a deviation in how it ran or in the form of what it wrote.
func (k Case) Run() (s *Save, bad string, err error) {
	b, err := Build()
	if err != nil {
		return nil, "", err
	}
	dir, err := os.MkdirTemp(Dir, "run")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "data"), 0o755)
	in := filepath.Join(dir, "data", "transactions_insample.json")
	data, _ := json.Marshal(k.Txs)
	if err := os.WriteFile(in, data, 0o644); err != nil {
		return nil, "", err
	}
	file := k.File
	var args []string
	if k.N != 0 {
		args = []string{"-n", fmt.Sprint(k.N), "-file", k.File}
	} else {
		file = "1_day.json"
	}
	out := filepath.Join(dir, "results", file)
	if k.Stale {
		os.Mkdir(filepath.Join(dir, "results"), 0o755)
		os.WriteFile(out, bytes.Repeat([]byte("stale "), 10_000_000), 0o644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, b, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", k.Wide+2))
	var se bytes.Buffer
	cmd.Stderr = &se
	e := cmd.Run()
	if ctx.Err() != nil {
		return nil, "the command did not end within 400 s", nil
	}
	if e != nil {
		m := se.String()
		if len(m) > 600 {
			m = m[:600]
		}
		return nil, fmt.Sprintf("the command fails (%v): %s", e, m), nil
	}
	if after, err := os.ReadFile(in); err != nil || !bytes.Equal(after, data) {
		return nil, "the input file was changed", nil
	}
	res, err := os.ReadFile(out)
	if err != nil {
		return nil, fmt.Sprintf("no result file results/%s", file), nil
	}
	s = &Save{}
	if err := json.Unmarshal(res, s); err != nil {
		return nil, fmt.Sprintf("results/%s (%d bytes) is not complete, valid JSON: %v", file, len(res), err), nil
	}
	if s.StartAmount == nil || s.StartTime == nil || s.EndTime == nil {
		return nil, "start amount, start time or end time are missing", nil
	}
	if len(s.Results) != Rows {
		return nil, fmt.Sprintf("%d result rows, expected %d", len(s.Results), Rows), nil
	}
	for i, r := range s.Results {
		if r.UpdateInterval == nil || r.Mul == nil || r.Window == nil || r.Return == nil || r.End == nil || r.Drawdown == nil || r.StdH == nil || r.StdD == nil ||
			r.StdW == nil || r.DownH == nil || r.DownD == nil || r.DownW == nil || r.VarH == nil || r.VarD == nil || r.VarW == nil {
			return nil, fmt.Sprintf("row %d lacks a figure", i), nil
		}
	}
	return s, "", nil
}

func dec(s string) *ui.Int {
	if s == "" {
		return new(ui.Int)
	}
	return drv.U(ref.S(s))
}

// Alone calls f with the recorded values of every simulation, run alone in this
// process; f is called from several goroutines if k.Wide is above 1.
func (k Case) Alone(f func(mul int, values []B) string) (bad string) {
	parts := k.Wide
	if parts < 1 {
		parts = 1
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for p := 0; p < parts; p++ {
		lo, hi := 1+Rows*p/parts, Rows*(p+1)/parts
		wg.Add(1)
		go func() {
			defer wg.Done()
			if m := k.alone(lo, hi, f); m != "" {
				mu.Lock()
				bad = m
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return
}

func (k Case) alone(lo, hi int, f func(mul int, values []B) string) string {
	var txs []transaction.Transaction
	for _, t := range k.Txs {
		txs = append(txs, transaction.Transaction{Type: t.Type, ID: t.ID, Timestamp: t.Timestamp, Amount: dec(t.Amount), Amount0: dec(t.Amount0), Amount1: dec(t.Amount1),
			SqrtPriceX96: dec(t.Sqrt), Tick: t.Tick, TickLower: t.TickLower, TickUpper: t.TickUpper})
	}
	for mul := lo; mul <= hi; mul++ {
		if k.Every > 1 && mul%k.Every != 0 && mul > 100 && mul < Rows-100 {
			continue
		}
		var vals []B
		if m := ex.Protect(func() {
			p := pool.NewPool("USDC", "WETH", 500, drv.U(ref.S("1350174849792634181862360983626536")))
			s := st.NewBollingerBandsFillUpStrategy(ui.NewInt(1_000_000), ui.NewInt(366874042000000), p, 100, mul)
			e := executor.CreateExecution(s, k.Txs[0].Timestamp+30*Day, 90000000000000, k.UpdateInterval(), Hour, Day/100, txs)
			e.Run()
			for _, v := range e.AmountUSDSnapshots {
				vals = append(vals, drv.G(v))
			}
		}); m != "" {
			return fmt.Sprintf("the simulation with multiplier %d run alone panics: %s", mul, m)
		}
		if m := f(mul, vals); m != "" {
			return fmt.Sprintf("multiplier %d: %s", mul, m)
		}
	}
	return ""
}

func Float(b B) float64 {
	f, _ := new(big.Float).SetInt(b).Float64()
	return f
}

// Returns are the log returns of the path sampled every n values; returns from
// or to zero have none.
func Returns(v []float64, n int) (r []float64) {
	for i := n; i < len(v); i += n {
		if v[i-n] > 0 && v[i] > 0 {
			r = append(r, math.Log(v[i]/v[i-n]))
		}
	}
	return
}

func Max(r []float64) (m float64) {
	for _, x := range r {
		m = math.Max(m, math.Abs(x))
	}
	return
}

// Std is the sample standard deviation.
func Std(r []float64) float64 {
	if len(r) < 2 {
		return 0
	}
	m := 0.0
	for _, x := range r {
		m += x
	}
	m /= float64(len(r))
	s := 0.0
	for _, x := range r {
		s += (x - m) * (x - m)
	}
	return math.Sqrt(s / float64(len(r)-1))
}

// Down is the deviation below zero.
func Down(r []float64) float64 {
	if len(r) < 2 {
		return 0
	}
	s := 0.0
	for _, x := range r {
		if x < 0 {
			s += x * x
		}
	}
	return math.Sqrt(s / float64(len(r)))
}

// VaR is the return at the 5 % quantile.
func VaR(r []float64) float64 {
	if len(r) < 2 {
		return 0
	}
	q := append([]float64{}, r...)
	sort.Float64s(q)
	return q[len(q)/20]
}

// Drawdown is the largest fall from a previous maximum, as a (negative) share of it.
func Drawdown(v []float64) (d float64) {
	m := v[0]
	for _, x := range v {
		m = math.Max(m, x)
		d = math.Min(d, (x-m)/m)
	}
	return
}

// The market of the data sets: one wide range of liquidity, the price as in main.
var (
	Start  = ref.S("1350174849792634181862360983626536")
	Liq    = ref.S("20000000000000000")
	centre = ref.TickAtSqrtRatio(Start) / 10 * 10
)

// Op is an abbreviation: M mint, U/D price up/down by about 1 %, u/d by 0.1 %,
// X/Y price to the upper/lower end of the wide range, Z beyond all liquidity,
// V mint a very wide range, E/G/H price far down and then moving there,
// N/B mint and burn a narrow range, F flash, P price-neutral dust.
func Op(o byte, ts int) Tx {
	p := Start
	sq := ref.SqrtRatioAtTick
	neg := "-1"
	t := Tx{ID: fmt.Sprintf("0x%x", ts), Timestamp: ts, Amount0: "0", Amount1: "0"}
	up := func(a, b B) {
		t.Type, t.Amount0, t.Amount1, t.Sqrt, t.UseX96 = "Swap", neg, ref.Amount1Delta(a, b, Liq, true).String(), "5", "false"
	}
	down := func(a, b B) {
		t.Type, t.Amount0, t.Amount1, t.Sqrt, t.UseX96 = "Swap", ref.Amount0Delta(a, b, Liq, true).String(), neg, "5", "false"
	}
	c := ref.TickAtSqrtRatio(p)
	switch o {
	case 'M':
		t.Type, t.Amount, t.TickLower, t.TickUpper = "Mint", Liq.String(), centre-10000, centre+10000
	case 'U':
		up(p, sq(c+200))
	case 'D':
		down(sq(c-200), p)
	case 'u':
		up(p, sq(c+20))
	case 'd':
		down(sq(c-20), p)
	case 'X':
		up(p, sq(centre+9000))
	case 'Y':
		down(sq(centre-9000), p)
	case 'Z':
		t.Type, t.Amount0, t.Amount1, t.Sqrt = "Swap", neg, ref.Pow2(120).String(), "5"
	case 'N':
		t.Type, t.Amount, t.TickLower, t.TickUpper = "Mint", Liq.String(), centre-50, centre+80
	case 'B':
		t.Type, t.Amount, t.TickLower, t.TickUpper = "Burn", Liq.String(), centre-50, centre+80
	case 'V':
		t.Type, t.Amount, t.TickLower, t.TickUpper = "Mint", Liq.String(), -120000, 210000
	case 'E':
		down(sq(-112000), p)
	case 'G':
		up(sq(-112000), sq(-111800))
	case 'H':
		down(sq(-111900), sq(-111800))
	case 'F':
		t.Type, t.Amount0, t.Amount1 = "Flash", "123456789", "0"
	case 'P':
		t.Type, t.Amount0 = "Flash", "1"
	default:
		panic("op")
	}
	return t
}
