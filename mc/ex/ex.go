// Package ex is the harness shared by all checks: parallel exhaustive
// enumeration, evidence, violations with replay files, known findings.
package ex

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Violation struct {
	Case json.RawMessage
	Msg  string
	size int
}

type Ctx struct {
	Prop, Level string
	Tier        string
	Seed        int64
	Thorough    bool
	Deadline    time.Time
	Start       time.Time

	States, Transitions, Traces atomic64
	Evals, Distinct             atomic64
	Rule                        string
	Extra                       map[string]interface{}
	Assumptions                 []string
	capped                      int32
	capNote                     string

	mu       sync.Mutex
	samples  []interface{}
	viol     *Violation
	nviol    int
	known    map[string]string
	knownHit map[string]bool
	classes  map[string]int64

	beats []beat
}

type atomic64 struct{ v int64 }

func (a *atomic64) Add(n int64) { atomic.AddInt64(&a.v, n) }
func (a *atomic64) Get() int64  { return atomic.LoadInt64(&a.v) }

type beat struct {
	t    int64 // unix nano of the start of the current case, 0 = idle
	desc atomic.Value
	_    [40]byte
}

var Root = func() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}()

// HangLimit is how long a single case (normally microseconds) may take before
// it is reported as not terminating.
var HangLimit = 100 * time.Second

// Run is the entry point of every check.
func Run(prop, level string, run func(c *Ctx), replay func(c *Ctx, raw json.RawMessage) string) {
	c := &Ctx{Prop: prop, Level: level, Start: time.Now(), Extra: map[string]interface{}{}, known: map[string]string{}, knownHit: map[string]bool{}, classes: map[string]int64{}}
	c.Tier = os.Getenv("VERIF_TIER")
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Thorough = c.Tier == "thorough"
	c.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	limit := 240 * time.Second
	if c.Thorough {
		limit = 800 * time.Second
	}
	if s := os.Getenv("VERIF_DEADLINE_S"); s != "" {
		if n, e := strconv.Atoi(s); e == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	c.Deadline = c.Start.Add(limit)
	if len(os.Args) == 3 && os.Args[1] == "-replay" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v struct{ Case json.RawMessage }
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		msg := replay(c, v.Case)
		if msg == "" {
			fmt.Println("replay: property held on this case")
			return
		}
		fmt.Println("replay: " + msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, os.Args[2])
		os.Exit(1)
	}
	c.loadKnown()
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	c.beats = make([]beat, Workers())
	go c.watchdog(replay)
	run(c)
	c.finish(replay)
}

func Workers() int {
	n := runtime.NumCPU()
	if n < 2 {
		n = 2
	}
	return n
}

// KnownFile lists recorded findings: lines "known: property=<id> key=<key> <text>".
func (c *Ctx) loadKnown() {
	b, err := os.ReadFile(filepath.Join(Root, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+c.Prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+c.Prop+" key=")
		key := rest
		if i := strings.IndexByte(rest, ' '); i >= 0 {
			key = rest[:i]
		}
		c.known[key] = rest
	}
}

// Finding reports a failure that may be a recorded finding. It returns true if it is recorded.
func (c *Ctx) Finding(key string, cas interface{}, msg string) bool {
	c.mu.Lock()
	text, ok := c.known[key]
	if ok {
		if !c.knownHit[key] {
			c.knownHit[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, text)
		}
		c.mu.Unlock()
		return true
	}
	c.mu.Unlock()
	c.Fail(cas, msg+" (finding key "+key+" is not recorded)")
	return false
}

// Fail records a violation; the smallest case is kept.
func (c *Ctx) Fail(cas interface{}, msg string) {
	raw, err := json.Marshal(cas)
	if err != nil {
		raw = []byte(strconv.Quote(fmt.Sprint(cas)))
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nviol++
	if c.viol == nil || len(raw) < c.viol.size {
		c.viol = &Violation{raw, msg, len(raw)}
	}
}

func (c *Ctx) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nviol > 0
}

// Stop says whether to stop exploring (enough violations, or the deadline).
func (c *Ctx) Stop() bool {
	if time.Now().After(c.Deadline) {
		c.Cap("internal deadline")
		return true
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nviol >= 20
}

func (c *Ctx) Cap(note string) {
	if atomic.CompareAndSwapInt32(&c.capped, 0, 1) {
		c.mu.Lock()
		c.capNote = note
		c.mu.Unlock()
	}
}

func (c *Ctx) Sample(s interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, s)
	}
}

// Class counts an outcome class, to show that the exploration is not vacuous.
func (c *Ctx) Class(name string, n int64) {
	c.mu.Lock()
	c.classes[name] += n
	c.mu.Unlock()
}

// Par runs f(0..n-1) on all cores; f gets the worker number.
func (c *Ctx) Par(n int, f func(w, i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < Workers(); w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Stop() {
					break
				}
				f(w, i)
			}
			c.Idle(w)
		}(w)
	}
	wg.Wait()
}

// Beat marks the start of a case on worker w; desc yields a JSON-able description.
func (c *Ctx) Beat(w int, desc func() interface{}) {
	c.beats[w].desc.Store(desc)
	atomic.StoreInt64(&c.beats[w].t, time.Now().UnixNano())
}
func (c *Ctx) Idle(w int) { atomic.StoreInt64(&c.beats[w].t, 0) }

func (c *Ctx) watchdog(replay func(*Ctx, json.RawMessage) string) {
	for {
		time.Sleep(time.Second)
		now := time.Now().UnixNano()
		for i := range c.beats {
			t := atomic.LoadInt64(&c.beats[i].t)
			if t != 0 && now-t > int64(HangLimit) {
				d := c.beats[i].desc.Load().(func() interface{})
				c.Fail(d(), fmt.Sprintf("operation does not terminate (a case that normally takes well under a second ran for %v)", HangLimit))
				c.finish(nil)
			}
		}
	}
}

var finOnce sync.Mutex

func (c *Ctx) finish(replay func(*Ctx, json.RawMessage) string) {
	pprof.StopCPUProfile()
	finOnce.Lock() // never unlocked: the first finisher exits the process
	c.mu.Lock()
	v, n := c.viol, c.nviol
	c.mu.Unlock()
	// Unreproduced violations are still violations (shared state in the code
	// under test), but up to five re-runs are recorded in the replay file.
	rep, tries := -1, 0
	if v != nil && replay != nil {
		rep = 0
		for from := time.Now(); tries < 5 && (tries == 0 || time.Since(from) < 20*time.Second); {
			tries++
			func() {
				defer func() {
					if e := recover(); e != nil {
						rep++
					}
				}()
				if replay(c, v.Case) != "" {
					rep++
				}
			}()
		}
	}
	cov := map[string]interface{}{}
	for k, x := range c.Extra {
		cov[k] = x
	}
	cov["samples"] = c.samples
	if len(c.samples) == 0 {
		cov["samples"] = []interface{}{"(none)"}
	}
	if c.Level == "model_checking" {
		cov["states"] = c.States.Get()
		cov["transitions"] = c.Transitions.Get()
		cov["traces_validated_against_impl"] = c.Traces.Get()
	} else {
		cov["evaluations"] = c.Evals.Get()
		cov["distinct_nontrivial"] = c.Distinct.Get()
		cov["rule"] = c.Rule
	}
	if len(c.classes) > 0 {
		cov["outcome_classes"] = c.classes
	}
	cov["exhaustive"] = atomic.LoadInt32(&c.capped) == 0 && n == 0
	if c.capNote != "" {
		cov["cap"] = c.capNote
	}
	if len(c.knownHit) > 0 {
		cov["known_findings_seen"] = len(c.knownHit)
	}
	out := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"wall_s": time.Since(c.Start).Seconds(), "violations": n,
	}
	if len(c.Assumptions) > 0 {
		out["assumptions"] = c.Assumptions
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
	dir := filepath.Join(Root, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.Prop+".json"), append(b, '\n'), 0o644)
	if v != nil {
		path := filepath.Join(dir, "replay_"+c.Prop+".json")
		r, _ := json.MarshalIndent(map[string]interface{}{"property": c.Prop, "message": v.Msg, "case": v.Case, "violations_seen": n,
			"reproduced": rep, "reruns": tries, "how_to_replay": "./check.sh " + c.Prop + " -replay " + path}, "", " ")
		os.WriteFile(path, append(r, '\n'), 0o644)
		fmt.Println("message: " + v.Msg)
		fmt.Printf("case: %s\n", trunc(string(v.Case), 2000))
		fmt.Printf("reproduced %d of %d re-runs\n", rep, tries)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
		os.Exit(1)
	}
	switch c.Level {
	case "model_checking":
		fmt.Printf("%s ok: states=%d transitions=%d traces=%d in %.1fs\n", c.Prop, c.States.Get(), c.Transitions.Get(), c.Traces.Get(), time.Since(c.Start).Seconds())
	default:
		fmt.Printf("%s ok: evaluations=%d distinct=%d in %.1fs\n", c.Prop, c.Evals.Get(), c.Distinct.Get(), time.Since(c.Start).Seconds())
	}
	if c.capNote != "" {
		fmt.Println("capped:", c.capNote)
	}
	os.Exit(0)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Protect runs f and returns the recovered panic, if any, as a string.
func Protect(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint(e)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}
