// C20: transactions keep their meaning in JSON.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
)

type B = *big.Int

type Case struct {
	Type               string
	Amount, A0, A1, P  string
	Tick, Lower, Upper int
	Time               int
	ID                 string
	Use                bool
	How                string // value, pointer, slice, array with others
}

func amounts(thorough bool) []B {
	r := []B{ref.Zero, ref.One, ref.N(-1), ref.N(1_000_000_007), ref.Neg(ref.Q96), ref.Add(ref.Pow2(128), ref.N(5)),
		ref.Sub(ref.Pow2(255), ref.One), ref.Neg(ref.Pow2(255)), ref.S("-366874042000000"), ref.S("99999999999999999999")}
	if thorough {
		for _, e := range []uint{31, 32, 53, 63, 64, 65, 127, 128, 191, 192, 254} {
			r = append(r, ref.Pow2(e), ref.Neg(ref.Pow2(e)), ref.Sub(ref.Pow2(e), ref.One), ref.Sub(ref.One, ref.Pow2(e)))
		}
	}
	return r
}

func toTrans(k Case) transaction.Transaction {
	n := func(s string) *ui.Int {
		if s == "" {
			return nil
		}
		return drv.U(ref.S(s))
	}
	return transaction.Transaction{Type: k.Type, Amount: n(k.Amount), Amount0: n(k.A0), Amount1: n(k.A1), ID: k.ID, SqrtPriceX96: n(k.P),
		Tick: k.Tick, TickLower: k.Lower, TickUpper: k.Upper, Timestamp: k.Time, UseX96: k.Use}
}

// The documented fields of each type; those of the second list may be missing when zero.
var must = map[string][]string{
	"Swap":  {"type", "id", "timestamp", "amount0", "amount1", "sqrtPriceX96", "useX96"},
	"Mint":  {"type", "id", "timestamp", "amount0", "amount1", "amount"},
	"Burn":  {"type", "id", "timestamp", "amount0", "amount1", "amount"},
	"Flash": {"type", "id", "timestamp", "amount0", "amount1"},
}
var may = map[string][]string{"Swap": {"tick"}, "Mint": {"tickLower", "tickUpper"}, "Burn": {"tickLower", "tickUpper"}}

func run(k Case) (msg string) {
	if e := ex.Protect(func() { msg = run1(k) }); e != "" {
		return "panic: " + e
	}
	return
}

func run1(k Case) string {
	t := toTrans(k)
	var out []byte
	var err error
	switch k.How {
	case "pointer":
		out, err = json.Marshal(&t)
	case "slice":
		out, err = json.Marshal([]transaction.Transaction{t, t})
	case "indent":
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetIndent("", "  ")
		err = e.Encode([]*transaction.Transaction{&t})
		out = b.Bytes()
	default:
		out, err = json.Marshal(t)
	}
	if err != nil {
		return "error: " + err.Error()
	}
	u := toTrans(k)
	eq := func(a, b *ui.Int) bool { return drv.SameInt(a, b) }
	if !eq(t.Amount, u.Amount) || !eq(t.Amount0, u.Amount0) || !eq(t.Amount1, u.Amount1) || !eq(t.SqrtPriceX96, u.SqrtPriceX96) ||
		t.Type != u.Type || t.ID != u.ID || t.Tick != u.Tick || t.TickLower != u.TickLower || t.TickUpper != u.TickUpper || t.Timestamp != u.Timestamp || t.UseX96 != u.UseX96 {
		return "encoding changed the transaction"
	}
	many := k.How == "slice" || k.How == "indent"
	var objs []map[string]json.RawMessage
	var ins []transaction.TransactionInput
	if many {
		if err = json.Unmarshal(out, &objs); err == nil {
			err = json.Unmarshal(out, &ins)
		}
	} else {
		objs, ins = make([]map[string]json.RawMessage, 1), make([]transaction.TransactionInput, 1)
		if err = json.Unmarshal(out, &objs[0]); err == nil {
			err = json.Unmarshal(out, &ins[0])
		}
	}
	if err != nil {
		return fmt.Sprintf("%s cannot be read back: %v", out, err)
	}
	if want := map[string]int{"slice": 2}[k.How]; want > 0 && len(objs) != want || len(objs) == 0 {
		return fmt.Sprintf("%d objects", len(objs))
	}
	for i, o := range objs {
		known := map[string]bool{}
		for _, f := range must[k.Type] {
			known[f] = true
			if _, ok := o[f]; !ok {
				return fmt.Sprintf("field %q is missing in %s", f, out)
			}
		}
		for _, f := range may[k.Type] {
			known[f] = true
		}
		for f := range o {
			if !known[f] {
				return fmt.Sprintf("field %q does not belong to a %s: %s", f, k.Type, out)
			}
		}
		in := ins[i]
		want := transaction.TransactionInput{Type: k.Type, ID: k.ID, Timestamp: k.Time, Amount0: k.A0, Amount1: k.A1}
		switch k.Type {
		case "Swap":
			want.SqrtPriceX96, want.Tick, want.UseX96 = k.P, k.Tick, fmt.Sprint(k.Use)
		case "Mint", "Burn":
			want.Amount, want.TickLower, want.TickUpper = k.Amount, k.Lower, k.Upper
		}
		if in != want {
			return fmt.Sprintf("%s reads as %+v, expected %+v", out, in, want)
		}
		// The same with a reader that knows nothing of the library.
		var plain struct {
			Type, ID, Amount, Amount0, Amount1, SqrtPriceX96, UseX96 string
			Timestamp, Tick, TickLower, TickUpper                    int
		}
		b, _ := json.Marshal(o)
		if err := json.Unmarshal(b, &plain); err != nil {
			return fmt.Sprintf("%s: %v", b, err)
		}
		for f, s := range map[string]string{"amount": plain.Amount, "amount0": plain.Amount0, "amount1": plain.Amount1, "sqrtPriceX96": plain.SqrtPriceX96} {
			w := map[string]string{"amount": want.Amount, "amount0": want.Amount0, "amount1": want.Amount1, "sqrtPriceX96": want.SqrtPriceX96}[f]
			if s != w {
				return fmt.Sprintf("%s is %q, expected %q", f, s, w)
			}
		}
		if plain.Timestamp != k.Time || plain.ID != k.ID || plain.Tick != want.Tick || plain.TickLower != want.TickLower || plain.TickUpper != want.TickUpper || plain.UseX96 != want.UseX96 {
			return fmt.Sprintf("%s reads as %+v", b, plain)
		}
	}
	return ""
}

func all(thorough bool) (cases []Case) {
	am := amounts(thorough)
	ticks := [][3]int{{0, 0, 0}, {1, -1, 1}, {-887272, -887272, 887272}, {887271, -60, 0}, {-1, 0, 60}, {194640, 194640, 195000}}
	ids := []string{"", "0xabc#1", `quo"te\`, "a<b>&c", "ünï-雪", "line\nbreak\ttab", strings.Repeat("x", 300)}
	times := []int{0, 1, 1620156420, -5, 1 << 40, 1<<53 + 1, 1<<62 + 3}
	hows := []string{"value", "pointer", "slice", "indent"}
	for _, ty := range []string{"Swap", "Mint", "Burn", "Flash"} {
		for _, a0 := range am {
			for _, a1 := range am {
				for i, x := range am {
					k := Case{Type: ty, A0: a0.String(), A1: a1.String(), ID: ids[i%len(ids)], Time: times[i%len(times)], How: hows[i%4], Use: i%2 == 1}
					t := ticks[i%len(ticks)]
					k.Tick, k.Lower, k.Upper = t[0], t[1], t[2]
					switch ty {
					case "Swap":
						k.P = x.String()
					case "Mint", "Burn":
						k.Amount = x.String()
					}
					cases = append(cases, k)
					if i < 2 { // the numbers this type does not carry may be present, and must not leak
						k.Amount, k.P = x.String(), am[4].String()
						k.Tick, k.Lower, k.Upper, k.Use = 7, -9, 11, true
						cases = append(cases, k)
					}
				}
			}
		}
		for _, id := range ids {
			for _, tm := range times {
				for _, t := range ticks {
					for _, h := range hows {
						for _, use := range []bool{true, false} {
							k := Case{Type: ty, A0: "-12", A1: "34", Amount: "56", P: "78", ID: id, Time: tm, How: h, Use: use, Tick: t[0], Lower: t[1], Upper: t[2]}
							cases = append(cases, k)
						}
					}
				}
			}
		}
	}
	return
}

func main() {
	ex.Run("C20", "exploration", func(c *ex.Ctx) {
		cases := all(c.Thorough)
		lists(c, cases)
		const chunk = 200
		c.Par((len(cases)+chunk-1)/chunk, func(w, i int) {
			for j := i * chunk; j < (i+1)*chunk && j < len(cases); j++ {
				k := cases[j]
				c.Beat(w, func() interface{} { return k })
				c.Evals.Add(1)
				c.Distinct.Add(1)
				if m := run(k); m != "" {
					c.Fail(k, m)
				}
			}
			c.Idle(w)
		})
		keys := []string{}
		for f := range must {
			keys = append(keys, f)
		}
		sort.Strings(keys)
		c.Sample(cases[17])
		c.Sample(cases[len(cases)-1])
		c.Rule = "every case is a different transaction or a different way of encoding it; all combinations of amounts per type, and of id, time, ticks, flag and encoding form per type"
	}, func(c *ex.Ctx, raw json.RawMessage) string {
		var l ListCase
		if json.Unmarshal(raw, &l) == nil && l.N > 0 {
			return list(all(c.Thorough), l, func() {})
		}
		var k Case
		if json.Unmarshal(raw, &k) != nil {
			return ""
		}
		return run(k)
	})
}
