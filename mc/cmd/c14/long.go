package main

import (
	"fmt"

	"verifmc/ex"
)

// longPath is a list of n records none of which the contract would have rejected.
func (t *task) longPath(n int, beat func()) (path []int, at []*state) {
	cur := &state{r: t.s.Begin(), ticks: map[int]bool{}}
	h := uint64(len(t.s.Name)) * 977
	burns := 0
	order := []int{5, 6, 7, 9, 0, 6, 5, 8, 1, 10, 5, 6, 2, 4}
	for len(path) < n {
		beat()
		h = h*6364136223846793005 + 1442695040888963407
		ok := false
		for j := range order {
			k := order[(int(h>>33)+j)%len(order)]
			if k == 4 && burns >= 2 {
				continue
			}
			var q *state
			if q, ok = t.next(cur, len(path), k); ok {
				if k == 2 {
					burns++
				}
				path, cur = append(path, k), q
				break
			}
		}
		if !ok {
			break
		}
		if len(path)+1 >= n || len(path) == n/2 {
			at = append(at, cur)
		}
	}
	return
}

// longs: one long list for every strategy and market, and very long ones for the market alone.
func longs(c *ex.Ctx, ts []*task) {
	type job struct {
		t *task
		n int
	}
	var js []job
	n, many := 1300, 70000
	if c.Thorough {
		n, many = 6000, 300000
	}
	seen := map[string]bool{}
	for _, t := range ts {
		id := fmt.Sprint(t.s.Kind, t.s.Fee, t.s.P)
		if t.plan.Start > 90 || seen[id] || t.s.A1.BitLen() > 200 {
			continue
		}
		seen[id] = true
		js = append(js, job{t, n})
		if t.s.Kind == "NoProvision" {
			js = append([]job{{veryLong(t), many}}, js...)
		}
	}
	c.Par(len(js), func(w, i int) {
		t := js[i].t
		k := Case{Task: t.s.Name, Plan: t.plan}
		steps := 0
		path, at := t.longPath(js[i].n, func() {
			if steps++; steps%500 == 0 {
				c.Beat(w, func() interface{} { return k })
			}
		})
		cuts := []int{len(path) / 2, len(path) - 1, len(path)}
		if len(at) != 3 {
			at, cuts = nil, nil
		}
		for j, s := range at {
			want, vals, ok := t.final(s)
			if !ok {
				continue
			}
			cas := Case{Task: t.s.Name, Plan: t.plan, Path: path, Cut: cuts[j]}
			c.Beat(w, func() interface{} { return cas })
			if !t.plan.cuts(cuts[j]) {
				continue
			}
			c.Traces.Add(1)
			if m := t.run(path, cuts[j], want, vals); m != "" {
				c.Fail(cas, fmt.Sprintf("%s, start %d, %d transactions before the end time: %s", t.s.Name, t.plan.Start, cuts[j], m))
			}
		}
		c.States.Add(int64(len(path)))
		c.Transitions.Add(int64(len(path)))
		c.Class("transactions in long lists", int64(len(path)))
		c.Idle(w)
	})
}

// veryLong is the same task with rare samples, so that the time goes into transactions.
func veryLong(t *task) *task {
	s := *t.s
	s.K.N = 2
	return &task{s: &s, recs: t.recs, plan: plan{Start: 0, Update: 5000, Snap: 1000, Price: 1000}}
}

// find is the task of a case.
func find(c *ex.Ctx, k Case) *task {
	for _, t := range build(c.Tier == "thorough") {
		if t.s.Name == k.Task {
			if t.plan == k.Plan {
				return t
			}
			if v := veryLong(t); v.plan == k.Plan {
				return v
			}
		}
	}
	return nil
}
