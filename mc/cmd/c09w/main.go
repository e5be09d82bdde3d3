package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"uniswap-simulator/lib/executor"
	st "uniswap-simulator/lib/strategy"
	"verifmc/drv"
)

// Out is what a worker reports.
type Out struct {
	Schedules, Points, Blocked int64
	MaxPoints                  int64
	Sample                     string
	Bad                        string // first deviation
	Case                       string // -sims 1,2 -plan ...
	Solo                       map[string]string
	Capped                     bool
}

var (
	all  = sims()
	solo map[string]string
	out  = Out{Solo: map[string]string{}}
	stop time.Time
)

func soloKey(ntx, i int) string { return fmt.Sprint(ntx, "/", i) }

// groups lists the sets of simulations run together.
func groups(n int) (g [][]int) {
	m := len(strat2())
	switch n {
	case 2:
		for k := 0; k < m; k++ {
			g = append(g, []int{2 * k, 2*k + 1}, []int{2*k + 1, 2 * ((k + 1) % m)})
		}
		g = append(g, []int{2*10 + 1, len(all) - 1}, []int{0, 0})
	case 3:
		for k := 0; k < m; k += 2 {
			g = append(g, []int{2 * k, 2*((k+1)%m) + 1, 2 * ((k + 5) % m)})
		}
		g = append(g, []int{20, 21, len(all) - 1})
	}
	return
}

func strat2() []int { return make([]int, (len(all)-1)/2) }

func bad(cas, msg string) {
	if out.Bad == "" {
		out.Bad, out.Case = msg, cas
	}
}

func finish() {
	b, _ := json.Marshal(out)
	os.Stdout.Write(append(b, '\n'))
	os.Exit(0)
}

// judge compares every simulation with what it produces alone.
func judge(s *Shared, ntx int, ids []int, es []*executor.Execution, pan []string, cas string) bool {
	for n, i := range ids {
		if w := solo[soloKey(ntx, i)]; strings.HasPrefix(w, "crash: ") {
			if pan[n] == "" {
				bad(cas, fmt.Sprintf("%v crashes alone but not with others", all[i]))
				return false
			}
			continue
		}
		if pan[n] != "" {
			bad(cas, fmt.Sprintf("%v crashes when run with others: %s", all[i], pan[n]))
			return false
		}
		if g, w := result(es[n]), solo[soloKey(ntx, i)]; g != w {
			bad(cas, fmt.Sprintf("%v does not give what it gives alone: %s", all[i], drv.Diff(w, g)))
			return false
		}
	}
	if g := s.look(); g != s.before {
		bad(cas, "shared inputs changed: "+drv.Diff(s.before, g))
		return false
	}
	return true
}

// thr is one simulation under the controlled scheduler.
type thr struct {
	go_  chan struct{}
	note chan bool // true: done
	left int64     // points until it must stop; <0: run on
	n    int64
	done bool
}

func (t *thr) pause() {
	t.note <- false
	<-t.go_
}

// seg lets thread T run for N points (N < 0: to its end).
type seg struct {
	T int
	N int64
}

var (
	cur     *thr
	minLvl  int
	blocked int64
)

func hook(lvl int) {
	t := cur
	if t == nil || lvl < minLvl {
		return
	}
	t.n++
	if t.left > 0 {
		if t.left--; t.left == 0 {
			t.pause()
		}
	}
}

// waiting is called by a simulation that finds a lock taken.
func waiting() {
	if t := cur; t != nil {
		out.Blocked++
		t.pause()
	}
}

// run executes the simulations ids under the plan.
func run(ntx int, ids []int, plan []seg, byTx bool) (ns []int64, ok bool) {
	s := newShared(ntx)
	ts := make([]*thr, len(ids))
	es := make([]*executor.Execution, len(ids))
	pan := make([]string, len(ids))
	for n, i := range ids {
		t := &thr{go_: make(chan struct{}), note: make(chan bool, 1), left: -1}
		ts[n] = t
		var wrap func(st.Strategy) st.Strategy
		if byTx {
			wrap = func(x st.Strategy) st.Strategy { return &stopper{x, t} }
		}
		cur = nil
		es[n] = s.make(all[i], wrap)
		n := n
		go func() {
			<-t.go_
			pan[n] = runSim(es[n])
			t.note <- true
		}()
	}
	// wait for the thread to stop or end; a thread that does neither is waiting for another one
	wait := func(t *thr) bool {
		select {
		case d := <-t.note:
			t.done = d
			return true
		case <-time.After(100 * time.Millisecond):
			out.Blocked++
			return false
		}
	}
	running := map[*thr]bool{}
	for _, g := range plan {
		t := ts[g.T]
		if t.done || running[t] {
			continue
		}
		if g.N == 0 {
			continue
		}
		t.left = g.N
		cur = t
		t.go_ <- struct{}{}
		if !wait(t) {
			running[t] = true
		}
	}
	for n := 0; ; n++ {
		rest := 0
		for _, t := range ts {
			if t.done {
				continue
			}
			rest++
			if running[t] {
				if wait(t) {
					delete(running, t)
				}
				continue
			}
			t.left = -1
			cur = t
			t.go_ <- struct{}{}
			if !wait(t) {
				running[t] = true
			}
		}
		if rest == 0 {
			break
		}
		if n > 300 {
			bad(caseText(ntx, ids, plan, byTx), "the simulations do not end")
			finish()
		}
	}
	cur = nil
	for _, t := range ts {
		ns = append(ns, t.n)
	}
	out.Schedules++
	return ns, judge(s, ntx, ids, es, pan, caseText(ntx, ids, plan, byTx))
}

func caseText(ntx int, ids []int, plan []seg, byTx bool) string {
	var p, q []string
	for _, g := range plan {
		p = append(p, fmt.Sprintf("%d:%d", g.T, g.N))
	}
	for _, i := range ids {
		q = append(q, fmt.Sprint(i))
	}
	return fmt.Sprintf("-ntx %d -sims %s -plan %s -bytx=%v -level %d", ntx, strings.Join(q, ","), strings.Join(p, ","), byTx, minLvl)
}

// stopper is a strategy that marks every sample, which the executor takes once
// per transaction here, and the final liquidation, as scheduling points.
type stopper struct {
	st.Strategy
	t *thr
}

func (s *stopper) point() {
	t := s.t
	t.n++
	if t.left > 0 {
		if t.left--; t.left == 0 {
			t.pause()
		}
	}
}
func (s *stopper) MakeSnapshot() { s.point(); s.Strategy.MakeSnapshot() }

// byTx runs every interleaving of whole transactions.
func byTx(ntx int, ids []int) {
	left := make([]int, len(ids))
	for i := range left {
		left[i] = ntx + 1
	}
	var plan []seg
	var rec func()
	rec = func() {
		if out.Bad != "" || late() {
			return
		}
		any := false
		for i := range ids {
			if left[i] == 0 {
				continue
			}
			any = true
			left[i]--
			n := int64(1)
			if left[i] == 0 {
				n = -1
			}
			plan = append(plan, seg{i, n})
			rec()
			plan = plan[:len(plan)-1]
			left[i]++
		}
		if !any {
			run(ntx, ids, plan, true)
			if out.Sample == "" {
				out.Sample = caseText(ntx, ids, plan, true)
			}
		}
	}
	rec()
}

func late() bool {
	if time.Now().After(stop) {
		out.Capped = true
		return true
	}
	return false
}

// fine runs every schedule with at most `bound` preemptions.
func fine(ntx int, ids []int, bound int) {
	first, ok := run(ntx, ids, []seg{{0, -1}, {1, -1}}, false)
	if !ok {
		return
	}
	for _, n := range first {
		out.Points += n
		if n > out.MaxPoints {
			out.MaxPoints = n
		}
	}
	for a := 0; a < 2; a++ {
		b := 1 - a
		for i := int64(1); i <= first[a]; i++ {
			if late() {
				return
			}
			if bound == 1 {
				if _, ok := run(ntx, ids, []seg{{a, i}, {b, -1}, {a, -1}}, false); !ok {
					return
				}
				continue
			}
			for j := int64(1); j <= first[b]; j++ {
				if late() {
					return
				}
				if _, ok := run(ntx, ids, []seg{{a, i}, {b, j}, {a, -1}, {b, -1}}, false); !ok {
					return
				}
			}
		}
		out.Sample = caseText(ntx, ids, []seg{{a, first[a] / 2}, {b, -1}, {a, -1}}, false)
	}
}

// free runs the simulations at the same time, unscheduled; built with the race
// detector this decides whether any two of their accesses conflict.
func free(ntx int, ids []int) {
	s := newShared(ntx)
	es := make([]*executor.Execution, len(ids))
	pan := make([]string, len(ids))
	for n, i := range ids {
		es[n] = s.make(all[i], nil)
	}
	var wg sync.WaitGroup
	for n := range ids {
		wg.Add(1)
		go func(n int) {
			defer wg.Done()
			pan[n] = runSim(es[n])
		}(n)
	}
	wg.Wait()
	out.Schedules++
	var q []string
	for _, i := range ids {
		q = append(q, fmt.Sprint(i))
	}
	judge(s, ntx, ids, es, pan, fmt.Sprintf("-ntx %d -sims %s -free", ntx, strings.Join(q, ",")))
}

func ints(s string) (r []int) {
	for _, x := range strings.Split(s, ",") {
		n, _ := strconv.Atoi(x)
		r = append(r, n)
	}
	return
}

func main() {
	mode := flag.String("mode", "", "solo, tx, fine, race, one")
	part := flag.Int("part", 0, "")
	of := flag.Int("of", 1, "")
	bound := flag.Int("bound", 1, "")
	level := flag.Int("level", 0, "")
	ntx := flag.Int("ntx", 5, "")
	size := flag.Int("size", 2, "")
	soloFile := flag.String("solo", "", "")
	secs := flag.Int("secs", 600, "")
	simsF := flag.String("sims", "", "")
	planF := flag.String("plan", "", "")
	byTxF := flag.Bool("bytx", false, "")
	freeF := flag.Bool("free", false, "")
	flag.Parse()
	stop = time.Now().Add(time.Duration(*secs) * time.Second)
	if *soloFile != "" {
		b, err := os.ReadFile(*soloFile)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &solo); err != nil {
			panic(err)
		}
	}
	minLvl = *level
	if instrumented {
		setHook(hook)
	}
	switch *mode {
	case "count":
		fmt.Println(len(all))
		return
	case "solo":
		for _, i := range ints(*simsF) {
			s := newShared(*ntx)
			e := s.make(all[i], nil)
			if m := runSim(e); m != "" {
				out.Solo[soloKey(*ntx, i)] = "crash: " + m
			} else {
				out.Solo[soloKey(*ntx, i)] = result(e)
			}
			if g := s.look(); g != s.before {
				bad(fmt.Sprintf("-mode solo -ntx %d -sims %d", *ntx, i), "a simulation run alone changed its inputs: "+drv.Diff(s.before, g))
			}
		}
	case "tx", "fine", "race":
		for n, g := range groups(*size) {
			if n%*of != *part || out.Bad != "" || late() {
				continue
			}
			switch *mode {
			case "tx":
				byTx(*ntx, g)
			case "fine":
				fine(*ntx, g, *bound)
			case "race":
				for k := 0; k < 3; k++ {
					free(*ntx, g)
				}
			}
		}
	case "one":
		ids := ints(*simsF)
		if *freeF {
			for k := 0; k < 50 && out.Bad == ""; k++ {
				free(*ntx, ids)
			}
			break
		}
		var plan []seg
		for _, x := range strings.Split(*planF, ",") {
			var g seg
			fmt.Sscanf(x, "%d:%d", &g.T, &g.N)
			plan = append(plan, g)
		}
		run(*ntx, ids, plan, *byTxF)
	}
	finish()
}
