// C21: the command reports every simulation, in its own row, with its own result.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"

	"verifmc/cli"
	"verifmc/ex"
)

func judge(c *ex.Ctx, k cli.Case) (string, error) {
	s, bad, err := k.Run()
	if err != nil {
		return "", err
	}
	if bad != "" {
		return bad, nil
	}
	if *s.StartAmount != "2000000" {
		return "start amount " + *s.StartAmount, nil
	}
	if a, b := k.Txs[0].Timestamp, k.Txs[len(k.Txs)-1].Timestamp; *s.StartTime != a || *s.EndTime != b {
		return fmt.Sprintf("start and end time %d and %d, the first and last transaction are at %d and %d", *s.StartTime, *s.EndTime, a, b), nil
	}
	distinct := map[string]int{}
	m := k.Alone(func(mul int, v []cli.B) string {
		r := s.Results[mul-1]
		if *r.Mul != mul {
			return fmt.Sprintf("row %d is that of multiplier %d", mul-1, *r.Mul)
		}
		if *r.UpdateInterval != k.UpdateInterval() {
			return fmt.Sprintf("update interval %d reported, %d requested", *r.UpdateInterval, k.UpdateInterval())
		}
		if *r.Window != cli.Day {
			return fmt.Sprintf("history window %d", *r.Window)
		}
		end := v[len(v)-1]
		if *r.End != end.String() {
			return fmt.Sprintf("end amount %s reported, the simulation run alone ends with %v", *r.End, end)
		}
		a, b := cli.Float(v[0]), cli.Float(end)
		if want := (b - a) / a; math.Abs(*r.Return-want) > 1e-9*(1+math.Abs(want)) {
			return fmt.Sprintf("return %v reported, the simulation run alone has %v", *r.Return, want)
		}
		distinct[*r.End]++
		return ""
	})
	if c != nil {
		c.Class("different end amounts in one file", int64(len(distinct)))
	}
	return m, nil
}

// cases lists every input file of the alphabet up to the depth, in every timing.
func cases(thorough bool) (out []cli.Case) {
	ops := "UDNFXZ"
	depth, gaps := 2, [][2]int{{cli.Hour - 7, 26 * cli.Hour}}
	if thorough {
		ops = "UDNFXZYudM"
		gaps = append(gaps, [2]int{9 * cli.Day, 1}, [2]int{cli.Hour, 0})
	}
	ns := []int{1, 24, 3, 1, 2, 100}
	mk := func(s string, g [2]int) {
		for i := range s {
			if s[i] == 'Z' && i < len(s)-1 {
				return // nothing can be sampled at such a price
			}
		}
		name := "MDU-" + s + fmt.Sprint(g)
		k := cli.Case{Name: name, N: ns[len(out)%len(ns)], File: fmt.Sprintf("r%d.json", len(out)), Stale: len(out)%5 == 2}
		k.Txs = []cli.Tx{cli.Op('M', cli.T0), cli.Op('D', cli.T0+10*cli.Day), cli.Op('U', cli.T0+30*cli.Day)}
		ts := cli.T0 + 30*cli.Day
		for i := range s {
			ts += g[i%2]
			k.Txs = append(k.Txs, cli.Op(s[i], ts))
		}
		out = append(out, k)
	}
	for _, g := range gaps {
		mk("", g)
		for i := range ops {
			mk(ops[i:i+1], g)
			if depth > 1 {
				for j := range ops {
					mk(ops[i:i+1]+ops[j:j+1], g)
				}
			}
		}
	}
	// a market in which token1 is worth so much that values pass 2^53 and 2^64
	out = append(out, cli.Case{Name: "dear", N: 24, File: "d.json", Txs: []cli.Tx{cli.Op('V', cli.T0), cli.Op('E', cli.T0+10*cli.Day), cli.Op('G', cli.T0+30*cli.Day), cli.Op('H', cli.T0+31*cli.Day)}})
	// no transaction reaches the start; one only; no flags
	out = append(out,
		cli.Case{Name: "unstarted", N: 5, File: "a.json", Txs: []cli.Tx{cli.Op('M', cli.T0), cli.Op('U', cli.T0+29*cli.Day)}},
		cli.Case{Name: "single", N: 1, File: "b", Txs: []cli.Tx{cli.Op('M', 0)}},
		cli.Case{Name: "noflags", Txs: []cli.Tx{cli.Op('M', cli.T0), cli.Op('U', cli.T0+30*cli.Day), cli.Op('D', cli.T0+30*cli.Day), cli.Op('U', cli.T0+32*cli.Day)}},
		cli.Case{Name: "late", N: 1, File: "c.json", Txs: []cli.Tx{cli.Op('M', cli.T0), cli.Op('U', cli.T0+300*cli.Day), cli.Op('D', cli.T0+300*cli.Day+1), cli.Op('U', cli.T0+301*cli.Day)}})
	return
}

func main() {
	ex.HangLimit = 20 * 60 * 1e9
	ex.Run("C21", "model_checking", func(c *ex.Ctx) {
		if _, err := cli.Build(); err != nil {
			fmt.Println("C21: cannot build the command:", err)
			os.Exit(2)
		}
		ks := cases(c.Thorough)
		c.Par(len(ks), func(w, i int) {
			k := ks[i]
			m, err := judge(c, k)
			if err != nil {
				fmt.Println("C21: no answer:", err)
				os.Exit(2)
			}
			if m != "" {
				c.Fail(k, k.Name+": "+m)
				return
			}
			c.States.Add(cli.Rows)
			c.Traces.Add(cli.Rows)
			c.Transitions.Add(int64(cli.Rows * len(k.Txs)))
			c.Class("input files", 1)
			if i%8 == 1 {
				c.Sample(map[string]interface{}{"file": k.Name, "update_hours": k.N, "transactions": len(k.Txs)})
			}
		})
		c.Assumptions = append(c.Assumptions, "sampled square-root prices stay below 2^115 (larger ones are documented to be rejected)", "the input file is valid and has at least one transaction")
	}, func(c *ex.Ctx, raw json.RawMessage) string {
		var k cli.Case
		if json.Unmarshal(raw, &k) != nil {
			return ""
		}
		m, _ := judge(nil, k)
		return m
	})
}
