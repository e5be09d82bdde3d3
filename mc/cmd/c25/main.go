// C25: risk and return figures follow their definitions.
package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strings"
	"sync"

	"verifmc/cli"
	"verifmc/ex"
)

func judge(c *ex.Ctx, k cli.Case) (string, error) {
	s, bad, err := k.Run()
	if err != nil {
		return "", err
	}
	if bad != "" {
		return bad, nil
	}
	var paths, defined int64
	seen := map[string]bool{}
	var mu sync.Mutex
	m := k.Alone(func(mul int, bs []cli.B) string {
		r := s.Results[mul-1]
		v := make([]float64, len(bs))
		var id strings.Builder
		for i, b := range bs {
			v[i] = cli.Float(b)
			id.WriteString(b.String() + " ")
		}
		h, d, w := cli.Returns(v, 1), cli.Returns(v, 24), cli.Returns(v, 168)
		mu.Lock()
		if h := sha256.Sum256([]byte(id.String())); !seen[string(h[:8])] {
			seen[string(h[:8])] = true
			paths++
			if len(w) > 1 {
				defined++
			}
		}
		mu.Unlock()
		if c != nil {
			c.Evals.Add(11)
		}
		ret := (v[len(v)-1] - v[0]) / v[0]
		for _, x := range []struct {
			name       string
			have, want float64
			scale      float64
		}{
			{"return on investment", *r.Return, ret, 1e-3},
			{"maximum drawdown", *r.Drawdown, cli.Drawdown(v), 1e-3},
			{"hourly standard deviation", *r.StdH, cli.Std(h), cli.Max(h)},
			{"daily standard deviation", *r.StdD, cli.Std(d), cli.Max(d)},
			{"weekly standard deviation", *r.StdW, cli.Std(w), cli.Max(w)},
			{"hourly downside deviation", *r.DownH, cli.Down(h), cli.Max(h)},
			{"daily downside deviation", *r.DownD, cli.Down(d), cli.Max(d)},
			{"weekly downside deviation", *r.DownW, cli.Down(w), cli.Max(w)},
			{"hourly value at risk", *r.VarH, cli.VaR(h), cli.Max(h)},
			{"daily value at risk", *r.VarD, cli.VaR(d), cli.Max(d)},
			{"weekly value at risk", *r.VarW, cli.VaR(w), cli.Max(w)},
		} {
			if !(math.Abs(x.have-x.want) <= 1e-9*math.Abs(x.want)+1e-7*x.scale+1e-15) {
				return fmt.Sprintf("%s of the path of %d values is reported as %v, by its definition it is %v", x.name, len(v), x.have, x.want)
			}
		}
		return ""
	})
	if c != nil {
		c.Distinct.Add(paths)
		c.Class("different value paths in one file", paths)
		c.Class("of these with weekly figures defined", defined)
		c.Class(fmt.Sprintf("files with %d values", len(firstLen(k))+2), 1)
	}
	return m, nil
}

func firstLen(k cli.Case) []cli.Tx { return k.Txs[3:] }

func mk(name string, n int, moves string, gap int) cli.Case {
	k := cli.Case{Name: name, N: n, File: "figures.json"}
	k.Txs = []cli.Tx{cli.Op('M', cli.T0), cli.Op('D', cli.T0+10*cli.Day), cli.Op('U', cli.T0+30*cli.Day)}
	for i := range moves {
		k.Txs = append(k.Txs, cli.Op(moves[i], cli.T0+30*cli.Day+(i+1)*gap))
	}
	return k
}

func rep(s string, n int) string { return strings.Repeat(s, n/len(s)+1)[:n] }

func cases(thorough bool) (out []cli.Case) {
	depth, ops := 3, "UDP"
	if thorough {
		depth, ops = 4, "UdPX"
	}
	// the long ones first: they take longest
	long := []string{rep("UDdPuUdDDuU", 479)} // 480 hourly and 20 daily returns
	mid := []string{rep("UUDuDdPD", 49), rep("dD", 48), rep("uPdU", 72), rep("DP", 25)}
	if thorough {
		long = append(long, rep("UDdPuUdDDuU", 505), rep("DUUdPuUdDDu", 478), rep("uDdPuUdDDuU", 480), rep("dDUu", 336), rep("uUP", 337)+"Z", rep("DdP", 168), rep("UdPDu", 700), "Y"+rep("ud", 340), "X"+rep("dPu", 400))
		mid = append(mid, rep("U", 60), rep("d", 47), rep("P", 100), rep("uUdDP", 480), rep("uD", 23)+"Z", "X"+rep("d", 30), "Y"+rep("u", 30))
	}
	for i, m := range long {
		k := mk(fmt.Sprintf("long%d", i), 1000, m, cli.Hour)
		k.Wide = ex.Workers()
		out = append(out, k)
	}
	for i, m := range mid {
		out = append(out, mk(fmt.Sprintf("mid%d", i), 30, m, cli.Hour))
	}
	for _, m := range []string{rep("UdDuuPDUD", 18), rep("uDUdDPuUD", 19), rep("UdDDuPUdU", 20), rep("dUUdDuPDu", 39)} { // 19, 20, 21, 40 hourly returns
		out = append(out, mk(fmt.Sprint("q", len(m)), 1000, m, cli.Hour))
	}
	n := 0
	var rec func(s string)
	rec = func(s string) {
		out = append(out, mk("short-"+s, []int{1, 2, 24}[n%3], s, cli.Hour))
		if n++; n%4 == 1 {
			out = append(out, mk("short-Z-"+s, 1, s+"Z", cli.Hour)) // ends worthless
		}
		if len(s) == depth {
			return
		}
		for i := range ops {
			rec(s + ops[i:i+1])
		}
	}
	rec("")
	if !thorough {
		for i := range out {
			out[i].Every = 8 + i%3 // all of them: C21 and the thorough tier
		}
	}
	return
}

func main() {
	ex.HangLimit = 20 * 60 * 1e9
	ex.Run("C25", "exploration", func(c *ex.Ctx) {
		c.Rule = "for each of the enumerated price paths (all move sequences up to the depth, and the listed longer ones), every multiplier 1..65535 (quick tier: every 8th to 10th and the first and last 100): every reported figure is recomputed from the value path the simulation records"
		if _, err := cli.Build(); err != nil {
			fmt.Println("C25: cannot build the command:", err)
			os.Exit(2)
		}
		ks := cases(c.Thorough)
		one := func(i int) {
			k := ks[i]
			m, err := judge(c, k)
			if err != nil {
				fmt.Println("C25: no answer:", err)
				os.Exit(2)
			}
			if m != "" {
				c.Fail(k, k.Name+": "+m)
				return
			}
			c.Class("input files", 1)
			if i%6 == 1 {
				c.Sample(map[string]interface{}{"file": k.Name, "update_hours": k.N, "transactions": len(k.Txs)})
			}
		}
		// the long paths one after the other on all cores, then the others side by side
		var rest []int
		for i := range ks {
			if ks[i].Wide > 0 {
				if !c.Stop() {
					one(i)
				}
			} else {
				rest = append(rest, i)
			}
		}
		c.Par(len(rest), func(w, i int) { one(rest[i]) })
		c.Assumptions = append(c.Assumptions, "figures are compared with a relative tolerance of 1e-9 and an absolute one of 1e-7 of the largest return", "returns from or to a value of zero have no logarithm and are left out")
	}, func(c *ex.Ctx, raw json.RawMessage) string {
		var k cli.Case
		if json.Unmarshal(raw, &k) != nil {
			return ""
		}
		m, _ := judge(nil, k)
		return m
	})
}
