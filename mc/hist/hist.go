// Package hist explores operation histories of a pool exhaustively: every
// sequence of alphabet operations up to a depth is executed on the real pool
// in lockstep with the reference model.
package hist

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sync"
	"sync/atomic"

	"uniswap-simulator/lib/pool"
	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/ref"
)

// Scn is a closed driver: an initial pool, a prelude and an alphabet.
type Scn struct {
	Name  string
	Fee   int
	P     *big.Int
	Pre   []drv.Op
	Ops   []drv.Op
	Depth int // complete history tree to this depth
	BFS   int // breadth-first over distinct states to this depth (0: none)
	NoPos bool
	univ  []int
}

func (s *Scn) Spacing() int { return ref.Spacing[s.Fee] }

func (s *Scn) Universe() []int {
	if s.univ == nil {
		s.univ = drv.Universe(s.Pre, s.Ops)
		if s.univ == nil {
			s.univ = []int{}
		}
	}
	return s.univ
}

// Node is one executed transition.
type Node struct {
	S             *Scn
	Path          []int // alphabet indices executed so far, Op last; empty: the prelude
	Op            drv.Op
	Real          *pool.Pool
	Before, After *ref.Pool // After == Before when the contract rejects
	Accept        bool      // the contract accepts Op in Before
	R0, R1        *big.Int
	X0, X1        *ui.Int
	Panic         interface{}
	Mod           string
	User          interface{}
}

type Case struct {
	Scenario string
	Path     []int
	Prelude  []string
	Ops      []string
}

type Engine struct {
	C    *ex.Ctx
	Scns []*Scn
	// Step judges a newly executed transition.
	Step func(n *Node) string
	// Rejects: also execute operations the contract rejects (they leave the reference unchanged).
	Rejects bool
	// Init, if set, makes the per-execution ghost state; Ghost updates it on every executed step (also replayed ones).
	Init  func(s *Scn) interface{}
	Ghost func(n *Node)
	// Final judges the pool at the end of a run and may destroy it; with Every, each node of the
	// tree is the end of a run of its own.
	Final func(n *Node) string
	Every bool

	seen [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	nseen int64
}

func (e *Engine) note(r *ref.Pool) bool {
	h := r.Hash()
	s := &e.seen[h&63]
	s.Lock()
	if s.m == nil {
		s.m = map[uint64]struct{}{}
	}
	_, ok := s.m[h]
	if !ok && len(s.m) < 400000 { // states beyond the cap are not counted
		s.m[h] = struct{}{}
		e.C.States.Add(1)
	}
	s.Unlock()
	return !ok
}

func (s *Scn) start() *ref.Pool {
	r := ref.NewPool(s.Fee, s.P)
	for _, o := range s.Pre {
		drv.RefApply(r, o)
	}
	return r
}

type link struct {
	r      *ref.Pool // state after the op
	r0, r1 *big.Int
	ok     bool
}

// exec runs path on a fresh real pool; links[i] is the reference after path[i].
// Steps with index >= from are judged.
func (e *Engine) exec(s *Scn, start *ref.Pool, path []int, links []link, from int) (msg string, at int) {
	real := drv.NewReal(s.Fee, s.P)
	var user interface{}
	if e.Init != nil {
		user = e.Init(s)
	}
	n := &Node{S: s, Real: real, User: user}
	if len(s.Pre) > 0 {
		var r *ref.Pool
		if e.Ghost != nil || from < 0 {
			r = ref.NewPool(s.Fee, s.P)
		}
		for i, o := range s.Pre {
			x0, x1, pan, mod := drv.Apply(real, o)
			if pan != nil {
				return fmt.Sprintf("prelude operation %v panicked: %v", o, pan), -1
			}
			if r != nil {
				q := r.Clone()
				r0, r1 := drv.RefApply(q, o)
				*n = Node{S: s, Op: o, Real: real, Before: r, After: q, Accept: true, R0: r0, R1: r1, X0: x0, X1: x1, Mod: mod, User: user}
				if e.Ghost != nil {
					e.Ghost(n)
				}
				if from < 0 {
					if m := e.Step(n); m != "" {
						return fmt.Sprintf("prelude step %d %v: %s", i, o, m), -1
					}
				}
				r = q
			}
		}
	}
	before := start
	for i, k := range path {
		o := s.Ops[k]
		x0, x1, pan, mod := drv.Apply(real, o)
		*n = Node{S: s, Path: path[:i+1], Op: o, Real: real, Before: before, After: links[i].r, Accept: links[i].ok,
			R0: links[i].r0, R1: links[i].r1, X0: x0, X1: x1, Panic: pan, Mod: mod, User: user}
		if e.Ghost != nil {
			e.Ghost(n)
		}
		if i >= from {
			if m := e.Step(n); m != "" {
				return m, i
			}
		}
		before = links[i].r
	}
	if e.Final != nil {
		if n.After == nil {
			n.Real, n.Before, n.After = real, start, start
		}
		if m := e.Final(n); m != "" {
			return m, len(path) - 1
		}
	}
	return "", 0
}

// Build makes a fresh real pool and applies the prelude and path to it.
func (s *Scn) Build(path []int) *pool.Pool {
	p := drv.NewReal(s.Fee, s.P)
	for _, o := range s.Pre {
		drv.Apply(p, o)
	}
	for _, k := range path {
		drv.Apply(p, s.Ops[k])
	}
	return p
}

func (s *Scn) Case(path []int) Case {
	c := Case{Scenario: s.Name, Path: append([]int{}, path...)}
	for _, o := range s.Pre {
		c.Prelude = append(c.Prelude, o.String())
	}
	for _, k := range path {
		c.Ops = append(c.Ops, s.Ops[k].String())
	}
	return c
}

func (e *Engine) run(w int, s *Scn, start *ref.Pool, path []int, links []link, from int) {
	e.C.Beat(w, func() interface{} { return s.Case(path) })
	e.C.Traces.Add(1)
	if m, at := e.exec(s, start, path, links, from); m != "" {
		if at < 0 {
			path = nil
		} else {
			path = path[:at+1]
		}
		e.C.Fail(s.Case(path), fmt.Sprintf("scenario %s, after %d operations: %s", s.Name, len(path), m))
	}
}

func (e *Engine) apply(r *ref.Pool, o drv.Op) (link, bool) {
	q, r0, r1, ok := drv.TryRef(r, o)
	if ok {
		return link{q, r0, r1, true}, true
	}
	if e.Rejects {
		return link{r, nil, nil, false}, true
	}
	return link{}, false
}

// Trees explores the complete history tree of every scenario.
func (e *Engine) Trees() {
	type task struct {
		s    *Scn
		i, j int
	}
	var tasks []task
	for _, s := range e.Scns {
		s.Universe()
		if s.Depth < 1 {
			continue
		}
		if len(s.Ops) == 0 { // a single history: all of it is prelude
			tasks = append([]task{{s, 0, 0}}, tasks...)
			continue
		}
		for i := range s.Ops {
			for j := range s.Ops {
				tasks = append(tasks, task{s, i, j})
			}
		}
	}
	var nodes int64
	e.C.Par(len(tasks), func(w, ti int) {
		t := tasks[ti]
		s := t.s
		start := s.start()
		if t.i == 0 && t.j == 0 {
			e.note(start)
			e.run(w, s, start, nil, nil, -1)
		}
		if len(s.Ops) == 0 {
			e.C.Class("operations in long histories", int64(len(s.Pre)))
			atomic.AddInt64(&nodes, int64(len(s.Pre)))
			e.C.Idle(w)
			return
		}
		l0, ok := e.apply(start, s.Ops[t.i])
		if !ok {
			return
		}
		if t.j == 0 {
			atomic.AddInt64(&nodes, 1)
			e.note(l0.r)
			e.run(w, s, start, []int{t.i}, []link{l0}, 0)
		}
		if s.Depth < 2 {
			return
		}
		l1, ok := e.apply(l0.r, s.Ops[t.j])
		if !ok {
			return
		}
		path := []int{t.i, t.j}
		links := []link{l0, l1}
		fresh := 1 // first index not judged yet on the current path
		var local int64
		sampled := false
		cls := map[string]int64{}
		var dfs func()
		dfs = func() {
			local++
			e.note(links[len(links)-1].r)
			leaf := true
			if len(path) < s.Depth {
				for k := range s.Ops {
					l, ok := e.apply(links[len(links)-1].r, s.Ops[k])
					if !ok {
						continue
					}
					leaf = false
					path = append(path, k)
					links = append(links, l)
					dfs()
					path = path[:len(path)-1]
					links = links[:len(links)-1]
					if fresh > len(path) {
						fresh = len(path)
					}
				}
			}
			if leaf || e.Every {
				e.run(w, s, start, path, links, fresh)
				fresh = len(path)
				if leaf && t.i == 0 && t.j == 1 && len(path) == s.Depth && !sampled {
					sampled = true
					e.C.Sample(map[string]interface{}{"scenario": s.Name, "history": s.Case(path).Ops, "final_state": links[len(links)-1].r.String()})
				}
			}
			l := links[len(links)-1]
			switch o := s.Ops[path[len(path)-1]]; {
			case !l.ok:
				cls["rejected"]++
			case o.K == "in" || o.K == "out":
				switch {
				case l.r.Crossed > 1:
					cls["swap crossing several ticks"]++
				case l.r.Crossed == 1:
					cls["swap crossing one tick"]++
				case l.r.Steps > 1:
					cls["swap over a word boundary without crossing"]++
				default:
					cls["swap within a range"]++
				}
			default:
				cls[o.K]++
			}
		}
		dfs()
		for k, v := range cls {
			e.C.Class(k, v)
		}
		atomic.AddInt64(&nodes, local)
		e.C.Idle(w)
	})
	e.C.Transitions.Add(nodes)
}

// Breadth explores every scenario breadth-first over distinct states; every
// transition out of every state found is executed on the real pool.
func (e *Engine) Breadth() {
	for _, s := range e.Scns {
		if s.BFS < 1 || e.C.Stop() {
			continue
		}
		s.Universe()
		type st struct {
			path []int
			r    *ref.Pool
			ls   []link
		}
		start := s.start()
		e.note(start)
		seen := map[uint64]bool{start.Hash(): true}
		front := []st{{nil, start, nil}}
		var mu sync.Mutex
		for d := 1; d <= s.BFS && len(front) > 0 && !e.C.Stop(); d++ {
			next := make([][]st, len(front))
			e.C.Par(len(front), func(w, fi int) {
				f := front[fi]
				for k := range s.Ops {
					l, ok := e.apply(f.r, s.Ops[k])
					if !ok {
						continue
					}
					path := append(append([]int{}, f.path...), k)
					links := append(append([]link{}, f.ls...), l)
					e.C.Transitions.Add(1)
					e.note(l.r)
					e.run(w, s, start, path, links, len(path)-1)
					h := l.r.Hash()
					mu.Lock()
					dup := seen[h]
					seen[h] = true
					mu.Unlock()
					if !dup && d < s.BFS {
						next[fi] = append(next[fi], st{path, l.r, links})
					}
				}
				e.C.Idle(w)
			})
			front = nil
			for _, n := range next {
				front = append(front, n...)
			}
			if len(front) > 400000 {
				e.C.Cap(fmt.Sprintf("breadth-first frontier of %s truncated at depth %d", s.Name, d))
				front = front[:400000]
			}
		}
	}
}

// Replay re-executes one recorded case.
func (e *Engine) Replay(raw json.RawMessage) string {
	var k Case
	if err := json.Unmarshal(raw, &k); err != nil {
		return ""
	}
	for _, s := range e.Scns {
		if s.Name != k.Scenario {
			continue
		}
		s.Universe()
		start := s.start()
		var links []link
		r := start
		for _, i := range k.Path {
			if i >= len(s.Ops) {
				return ""
			}
			l, ok := e.apply(r, s.Ops[i])
			if !ok {
				return ""
			}
			links = append(links, l)
			r = l.r
		}
		m, _ := e.exec(s, start, k.Path, links, -1)
		return m
	}
	return ""
}

// Conform is the standard judgement: results and state equal the contract's.
func Conform(n *Node) string {
	if !n.Accept {
		return ""
	}
	if n.Panic != nil {
		return fmt.Sprintf("%v panicked: %v", n.Op, n.Panic)
	}
	if n.Mod != "" {
		return fmt.Sprintf("%v: %s", n.Op, n.Mod)
	}
	if n.R0 != nil {
		if !drv.Same(n.X0, n.R0) || !drv.Same(n.X1, n.R1) {
			return fmt.Sprintf("%v returned (%v, %v), contract (%v, %v)", n.Op, drv.GS(n.X0), drv.GS(n.X1), n.R0, n.R1)
		}
	}
	if d := drv.CmpState(n.Real, n.After, n.S.Universe(), !n.S.NoPos); d != "" {
		return fmt.Sprintf("after %v: %s", n.Op, d)
	}
	return ""
}
