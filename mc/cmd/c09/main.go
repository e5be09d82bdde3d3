// C09: simulations run in parallel give exactly the sequential results.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verifmc/ex"
	"verifmc/instr"
)

// Out is what a worker reports (see c09w).
type Out struct {
	Schedules, Points, Blocked int64
	MaxPoints                  int64
	Sample                     string
	Bad                        string
	Case                       string
	Solo                       map[string]string
	Capped                     bool
}

// Case is a worker build and its arguments.
type Case struct{ Build, Args string }

var (
	tmp    string
	built  = map[string]string{} // build -> binary, or "" if it could not be built
	builtM sync.Mutex
	npts   int
)

func scratch() string {
	if tmp == "" {
		tmp = os.Getenv("VERIF_TMP")
		if tmp == "" {
			tmp, _ = os.MkdirTemp("", "verif_c09.")
		}
	}
	return tmp
}

// build makes a worker: plain, fine (scheduling points), race, cli (the command itself, race detector on).
func build(kind string) (string, error) {
	builtM.Lock()
	defer builtM.Unlock()
	if b, ok := built[kind]; ok {
		if b == "" {
			return "", fmt.Errorf("%s could not be built", kind)
		}
		return b, nil
	}
	built[kind] = ""
	bin := filepath.Join(scratch(), "c09_"+kind)
	args := []string{"build", "-o", bin}
	switch kind {
	case "fine":
		var last error
		for _, locks := range []bool{true, false} { // without locks where they are of unusual kinds
			dir := filepath.Join(scratch(), fmt.Sprint("instr", locks))
			os.MkdirAll(dir, 0o755)
			o, n, err := instr.Overlay("/repo", dir, locks)
			if err != nil {
				return "", err
			}
			npts = n
			cmd := exec.Command("go", "build", "-o", bin, "-tags", "verifsched", "-overlay", o, "./cmd/c09w")
			cmd.Dir = filepath.Join(ex.Root, "mc")
			b, err := cmd.CombinedOutput()
			if err == nil {
				built[kind] = bin
				return bin, nil
			}
			last = fmt.Errorf("%v: %s", err, b)
		}
		return "", last
	case "race":
		args = append(args, "-race", "./cmd/c09w")
	case "cli":
		args = append(args, "-race", "uniswap-simulator")
	default:
		args = append(args, "./cmd/c09w")
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(ex.Root, "mc")
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, b)
	}
	built[kind] = bin
	return bin, nil
}

// worker runs one worker process; a crash or a reported race is a deviation.
func worker(kind string, args []string, limit time.Duration) (o Out, err error) {
	bin, err := build(kind)
	if err != nil {
		return o, err
	}
	for try := 0; try < 2; try++ {
		ctx, cancel := context.WithTimeout(all, limit)
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=5")
		var se strings.Builder
		cmd.Stderr = &se
		b, e := cmd.Output()
		late := ctx.Err() != nil
		if all.Err() != nil { // ended because another worker has found something
			cancel()
			return Out{}, nil
		}
		cancel()
		o = Out{}
		if e == nil && json.Unmarshal(b, &o) == nil {
			return o, nil
		}
		if late {
			err = fmt.Errorf("worker %s %v did not end within %v", kind, args, limit)
			continue
		}
		m := se.String()
		if i := strings.Index(m, "WARNING: DATA RACE"); i >= 0 && strings.Contains(m, "uniswap-simulator") {
			o.Bad = "data race: " + cut(m[i:], 1500)
			return o, nil
		}
		if try == 1 && strings.Contains(m, "uniswap-simulator") {
			o.Bad = fmt.Sprintf("the process dies (%v): %s", e, cut(m, 1500))
			return o, nil
		}
		err = fmt.Errorf("worker %s %v: %v %s", kind, args, e, cut(m, 500))
	}
	return o, err
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// all ends every worker.
var all, endAll = context.WithCancel(context.Background())

var soloPath string

// baselines runs every simulation alone, each in a process of its own.
func baselines(c *ex.Ctx) error {
	bin, err := build("plain")
	if err != nil {
		return err
	}
	b, err := exec.Command(bin, "-mode", "count").Output()
	if err != nil {
		return fmt.Errorf("cannot run the worker: %v", err)
	}
	var n int
	fmt.Sscan(string(b), &n)
	all := map[string]string{}
	var mu sync.Mutex
	var ferr error
	type job struct{ ntx, i int }
	var jobs []job
	sizes := []int{5, 4, 3}
	for _, ntx := range sizes {
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{ntx, i})
		}
	}
	par(len(jobs), func(k int) {
		args := []string{"-mode", "solo", "-ntx", fmt.Sprint(jobs[k].ntx), "-sims", fmt.Sprint(jobs[k].i)}
		o, err := worker("plain", args, time.Minute)
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			ferr = err
			return
		}
		if o.Bad != "" && c != nil {
			c.Fail(Case{"plain", strings.Join(args, " ")}, o.Bad)
		}
		for k, v := range o.Solo {
			all[k] = v
		}
	})
	if ferr != nil {
		return ferr
	}
	soloPath = filepath.Join(scratch(), "solo.json")
	j, _ := json.Marshal(all)
	return os.WriteFile(soloPath, j, 0o644)
}

func par(n int, f func(i int)) {
	ch := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < ex.Workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// cli runs the command itself, built with the race detector, on a small file.
func cli() (msg string, err error) {
	bin, err := build("cli")
	if err != nil {
		return "", err
	}
	dir, err := os.MkdirTemp(scratch(), "cli")
	if err != nil {
		return "", err
	}
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "data"), 0o755)
	tx := func(typ string, t int, a, a0, a1 string, lo, hi int) string {
		return fmt.Sprintf(`{"type":%q,"id":"x","timestamp":%d,"amount0":%q,"amount1":%q,"amount":%q,"tickLower":%d,"tickUpper":%d}`, typ, t, a0, a1, a, lo, hi)
	}
	day := 86400
	txs := []string{tx("Mint", 1000, "20000000000000000", "0", "0", 190000, 200000), tx("Swap", 1000+10*day, "0", "1000000000", "-5", 0, 0),
		tx("Swap", 1000+31*day, "0", "-5", "1000000000000000", 0, 0), tx("Swap", 1000+31*day+7200, "0", "3000000000", "-5", 0, 0)}
	if err := os.WriteFile(filepath.Join(dir, "data/transactions_insample.json"), []byte("["+strings.Join(txs, ",")+"]"), 0o644); err != nil {
		return "", err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-n", "1", "-file", "out.json")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	b, e := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return "", fmt.Errorf("the command did not end within 300 s")
	}
	if e != nil {
		if i := strings.Index(string(b), "WARNING: DATA RACE"); i >= 0 {
			return "data race in the command: " + cut(string(b[i:]), 1500), nil
		}
		return "", fmt.Errorf("the command fails: %v %s", e, cut(string(b), 300))
	}
	return "", nil
}

func main() {
	ex.HangLimit = 20 * time.Minute
	ex.Run("C09", "model_checking", func(c *ex.Ctx) {
		fatal := func(err error) {
			fmt.Println("C09: no answer:", err)
			os.Exit(2)
		}
		for _, k := range []string{"plain", "race", "fine", "cli"} {
			if _, err := build(k); err != nil {
				if k == "plain" || k == "race" {
					fatal(err)
				}
				fmt.Println("note:", k, "build failed, this part is skipped:", cut(err.Error(), 300))
				c.Cap(k + " build failed")
			}
		}
		if err := baselines(c); err != nil {
			fatal(err)
		}
		limit := time.Until(c.Deadline)
		secs := fmt.Sprint(int(limit.Seconds()) - 20)
		type job struct {
			build string
			args  []string
		}
		var jobs []job
		add := func(b string, parts int, args ...string) {
			for p := 0; p < parts; p++ {
				jobs = append(jobs, job{b, append([]string{"-part", fmt.Sprint(p), "-of", fmt.Sprint(parts), "-solo", soloPath, "-secs", secs}, args...)})
			}
		}
		ntx := "4"
		if c.Thorough {
			ntx = "5"
		}
		add("race", 2, "-mode", "race", "-size", "2", "-ntx", "5")
		add("race", 1, "-mode", "race", "-size", "3", "-ntx", "5")
		add("plain", 1, "-mode", "tx", "-size", "2", "-ntx", "4")
		add("plain", 7, "-mode", "tx", "-size", "3", "-ntx", "3")
		if built["fine"] != "" {
			add("fine", 8, "-mode", "fine", "-bound", "1", "-level", "0", "-ntx", ntx)
			if c.Thorough {
				add("plain", 8, "-mode", "tx", "-size", "2", "-ntx", "5")
				add("fine", 26, "-mode", "fine", "-bound", "2", "-level", "1", "-ntx", "3")
				add("fine", 26, "-mode", "fine", "-bound", "2", "-level", "1", "-ntx", "4")
			}
		}
		parts := map[string]int64{}
		var mu sync.Mutex
		var nogo error
		done := make(chan bool)
		go func() { // alongside the workers
			defer close(done)
			if built["cli"] == "" {
				return
			}
			m, err := cli()
			if err != nil {
				c.Cap("command under the race detector: " + err.Error())
			}
			if m != "" {
				c.Fail(Case{"cli", ""}, m)
				endAll()
			}
		}()
		par(len(jobs), func(k int) {
			j := jobs[k]
			if only := os.Getenv("VERIF_C09_ONLY"); only != "" && only != j.build { // debugging aid
				c.Cap("only " + only)
				return
			}
			if c.Failed() {
				return
			}
			o, err := worker(j.build, j.args, limit+30*time.Second)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				nogo = err
				return
			}
			c.Traces.Add(o.Schedules)
			c.States.Add(o.Schedules)
			c.Transitions.Add(o.Points + o.Schedules)
			name := strings.Join(j.args[6:], " ")
			parts[j.build+" "+name+" schedules"] += o.Schedules
			if o.MaxPoints > parts[j.build+" "+name+" most points in one simulation"] {
				parts[j.build+" "+name+" most points in one simulation"] = o.MaxPoints
			}
			if o.Blocked > 0 {
				parts["waits for another simulation"] += o.Blocked
			}
			if o.Sample != "" {
				c.Sample(map[string]string{"build": j.build, "schedule": o.Sample})
			}
			if o.Capped {
				c.Cap("internal deadline")
			}
			if o.Bad != "" {
				cas := Case{j.build, strings.Join(j.args, " ")}
				if o.Case != "" {
					cas.Args = "-mode one " + o.Case
				}
				c.Fail(cas, o.Bad)
				endAll()
			}
		})
		<-done
		all = context.Background() // for the confirmation of what was found
		if nogo != nil && !c.Failed() {
			fatal(nogo)
		}
		c.Extra["parts"] = parts
		c.Extra["scheduling_points_in_source"] = npts
		c.Assumptions = append(c.Assumptions, "two (whole transactions: also three) simulations at a time; statement-level schedules up to the stated number of preemptions",
			"simulations that make no conflicting accesses, as the race detector establishes for the executed ones, have a single equivalence class of schedules")
	}, func(c *ex.Ctx, raw json.RawMessage) string {
		var k Case
		if json.Unmarshal(raw, &k) != nil {
			return ""
		}
		if k.Build == "cli" {
			m, _ := cli()
			return m
		}
		if soloPath == "" {
			if err := baselines(nil); err != nil {
				return ""
			}
		}
		args := strings.Fields(k.Args)
		if len(args) > 2 && args[1] == "one" {
			args = append(args, "-solo", soloPath)
		}
		for i := range args {
			if i > 0 && args[i-1] == "-solo" {
				args[i] = soloPath
			}
		}
		o, err := worker(k.Build, args, 2*time.Minute)
		if err != nil {
			return ""
		}
		return o.Bad
	})
}
