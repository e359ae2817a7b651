package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// RunCfg is one harness exploration.
type RunCfg struct {
	Harness    string
	Params     map[string]int
	stubs      map[string]*ssa.Function
	stubNames  map[string]string
	StepLimit  int64
	MaxDepth   int
	AllocLimit int
	Workers    int
	Budget     time.Duration
	SolverMs   int
	Samples    int
	Seed       int64
	noMerge    bool
}

type item struct {
	prefix []dec
	model  Model
}

// AssignRec is one symbolic input with its value, in creation order.
type AssignRec struct {
	N string `json:"n"`
	K string `json:"k"`
	V uint64 `json:"v"`
}

// Candidate is a possible violation found symbolically.
type Candidate struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Kind    string         `json:"kind"`
	Msg     string         `json:"msg"`
	At      string         `json:"at"`
	Inputs  []AssignRec    `json:"inputs"`
}

// Sample is a completed path with a model and what the harness observed.
type Sample struct {
	Inputs []AssignRec
	Obs    []string
	end    string
}

type worker struct {
	mu    sync.Mutex
	stack []*item
}

// Explorer distributes decision prefixes over the workers.
type Explorer struct {
	cfg    *RunCfg
	prog   *Program
	ws     []*worker
	pend   atomic.Int64
	stop   atomic.Bool
	cond   *sync.Cond
	mu     sync.Mutex
	inc    map[string]int
	cands  chan *Candidate
	seen   map[string]int
	sample []Sample
	nseen  int64
	rnd    *rand.Rand
	reach  map[string]int64
	tot    Totals
	ends   map[string]int64
	funcs  map[string]bool
	other  map[string]bool
	sol    struct {
		checks, sat, unsat, unknown, again int64
		time                               time.Duration
	}
	unsup   map[string]int64
	maxDec  int
	maxVars int
	timeout bool
	start   time.Time
	dumps   []string
}

func NewExplorer(p *Program, cfg *RunCfg) *Explorer {
	ex := &Explorer{cfg: cfg, prog: p, inc: map[string]int{}, cands: make(chan *Candidate, 1024), seen: map[string]int{},
		reach: map[string]int64{}, ends: map[string]int64{}, funcs: map[string]bool{}, other: map[string]bool{}, unsup: map[string]int64{}, start: time.Now()}
	ex.rnd = rand.New(rand.NewSource(cfg.Seed))
	ex.cond = sync.NewCond(&ex.mu)
	for i := 0; i < cfg.Workers; i++ {
		ex.ws = append(ex.ws, &worker{})
	}
	return ex
}

func (ex *Explorer) newM() *M {
	m := &M{prog: ex.prog, ex: ex, cfg: ex.cfg}
	m.ts = newTypes()
	m.fns = map[*ssa.Function]*Fn{}
	m.globals = map[*ssa.Global]*Obj{}
	m.initDone = map[*ssa.Package]bool{}
	m.rtypes = map[*TI]*Obj{}
	m.funcs = map[*Fn]bool{}
	m.stack = make([]Value, 1<<16)
	m.stepLimit = ex.cfg.StepLimit
	m.maxDepth = ex.cfg.MaxDepth
	m.allocLimit = ex.cfg.AllocLimit
	m.noMerge = ex.cfg.noMerge
	if os.Getenv("GOSYM_FORKS") != "" {
		m.forks = map[string]int64{}
	}
	m.freshSolver()
	return m
}

func (m *M) freshSolver() {
	if m.sol != nil {
		m.ex.addSolver(m.sol)
		m.sol.Close()
	}
	m.tb = NewTB()
	m.sol = NewSolver(m.tb, m.cfg.SolverMs)
	m.asked = nil
}

func (ex *Explorer) addSolver(s *Solver) {
	ex.mu.Lock()
	ex.sol.checks += s.Checks
	ex.sol.sat += s.Sat
	ex.sol.unsat += s.Unsat
	ex.sol.unknown += s.Unknown
	ex.sol.again += s.Again
	ex.sol.time += s.Time
	ex.mu.Unlock()
}

func (ex *Explorer) push(m *M, d dec, mod Model) {
	pre := make([]dec, len(m.trail)+1)
	copy(pre, m.trail)
	pre[len(m.trail)] = d
	it := &item{prefix: pre, model: mod}
	ex.pend.Add(1)
	w := ex.ws[m.id]
	w.mu.Lock()
	w.stack = append(w.stack, it)
	w.mu.Unlock()
}

func (ex *Explorer) take(id int) *item {
	for spin := 0; ; spin++ {
		if ex.stop.Load() {
			return nil
		}
		w := ex.ws[id]
		w.mu.Lock()
		if n := len(w.stack); n > 0 {
			it := w.stack[n-1]
			w.stack[n-1] = nil
			w.stack = w.stack[:n-1]
			w.mu.Unlock()
			return it
		}
		w.mu.Unlock()
		// steal the oldest item of another worker
		for k := 1; k < len(ex.ws); k++ {
			v := ex.ws[(id+k)%len(ex.ws)]
			v.mu.Lock()
			if n := len(v.stack); n > 0 {
				it := v.stack[0]
				v.stack = append([]*item(nil), v.stack[1:]...)
				v.mu.Unlock()
				return it
			}
			v.mu.Unlock()
		}
		if ex.pend.Load() == 0 {
			return nil
		}
		if spin > 50 {
			time.Sleep(200 * time.Microsecond)
		}
	}
}

func (ex *Explorer) incomplete(m *M, msg string) {
	ex.mu.Lock()
	ex.inc[msg]++
	ex.mu.Unlock()
}

func (m *M) inputs(mod Model) []AssignRec {
	out := make([]AssignRec, len(m.vnames))
	for i, v := range m.vnames {
		var x uint64
		if i < len(mod) {
			x = mod[i]
		}
		if i >= len(mod) && i < len(m.model) {
			x = m.model[i]
		}
		out[i] = AssignRec{v.name, v.kind, x}
	}
	return out
}

func (ex *Explorer) violation(m *M, kind, msg string, mod Model) {
	at := m.where()
	key := kind + "|" + msg
	if kind != "assert" {
		key += "|" + strings.SplitN(at, " < ", 2)[0]
	}
	ex.mu.Lock()
	ex.seen[key]++
	n := ex.seen[key]
	ex.mu.Unlock()
	if n > 4 && n&(n-1) != 0 {
		return
	}
	c := &Candidate{Harness: ex.cfg.Harness, Params: ex.cfg.Params, Kind: kind, Msg: msg, At: at, Inputs: m.inputs(mod)}
	select {
	case ex.cands <- c:
	default:
	}
}

// run explores everything; it returns when the work is done or stopped.
func (ex *Explorer) run(entry *ssa.Function) {
	ex.pend.Store(1)
	ex.ws[0].stack = append(ex.ws[0].stack, &item{})
	var wg sync.WaitGroup
	for id := range ex.ws {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			m := ex.newM()
			m.id = id
			e := m.fn(entry)
			for {
				it := ex.take(id)
				if it == nil {
					break
				}
				if time.Since(ex.start) > ex.cfg.Budget {
					ex.mu.Lock()
					ex.timeout = true
					ex.mu.Unlock()
					ex.stop.Store(true)
					ex.pend.Add(-1)
					break
				}
				end := m.runPath(it, e, nil)
				ex.finish(m, end)
				ex.pend.Add(-1)
				if len(m.tb.tab) > 1_500_000 {
					m.freshSolver()
				}
			}
			ex.addSolver(m.sol)
			ex.mu.Lock()
			ex.tot.add(&m.tot)
			if m.forks != nil && id == 0 {
				for _, s := range topN(m.forks, 25) {
					fmt.Fprintln(os.Stderr, "forks:", s)
				}
			}
			for f := range m.funcs {
				if f.inRepo {
					ex.funcs[f.name] = true
				} else {
					ex.other[f.name] = true
				}
			}
			ex.mu.Unlock()
			m.sol.Close()
		}(id)
	}
	wg.Wait()
	close(ex.cands)
	if ex.timeout {
		left := ex.pend.Load()
		ex.inc[fmt.Sprintf("time budget of %s used up with %d work items left", ex.cfg.Budget, left)]++
	}
	debug.FreeOSMemory()
}

func (ex *Explorer) finish(m *M, end pathEnd) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.ends[endNames[end.kind]]++
	for k, n := range m.reach {
		if end.kind == endDone || end.kind == endViolation {
			ex.reach[k] += int64(n)
		}
	}
	if len(m.trail) > ex.maxDec {
		ex.maxDec = len(m.trail)
	}
	if len(m.vars) > ex.maxVars {
		ex.maxVars = len(m.vars)
	}
	switch end.kind {
	case endDone:
		ex.nseen++
		k := ex.cfg.Samples
		if k > 0 {
			if len(ex.sample) < k {
				ex.sample = append(ex.sample, m.sampleRec())
			} else if j := ex.rnd.Int63n(ex.nseen); j < int64(k) {
				ex.sample[j] = m.sampleRec()
			}
		}
	case endUnsupported, endInternal, endAlloc:
		ex.unsup[end.msg+" @ "+m.where()]++
	case endSteps, endDepth:
		kind := "hang"
		if end.kind == endDepth {
			kind = "stack"
		}
		ex.mu.Unlock()
		ex.violation(m, kind, end.msg, m.model)
		ex.mu.Lock()
	case endUnknown:
		ex.inc["solver gave no answer"]++
	}
}

func (m *M) sampleRec() Sample {
	s := Sample{Inputs: m.inputs(m.model)}
	for _, o := range m.obs {
		s.Obs = append(s.Obs, o.label+"="+m.obsUnder(o))
	}
	return s
}

func (m *M) obsUnder(o obsRec) string {
	if o.t == nil {
		return "<nil>"
	}
	switch {
	case o.t.str:
		return fmt.Sprintf("%q", m.strUnder(o.v, m.model))
	case o.t.scalar:
		n := o.v.n
		if t, ok := o.v.p.(*Term); ok {
			n = m.tb.Eval(t, m.model)
		}
		if o.t.w == SBool {
			return fmt.Sprint(n == 1)
		}
		if o.t.float {
			return fmt.Sprint(n)
		}
		if o.t.signed {
			return fmt.Sprint(sx(n, o.t.w))
		}
		return fmt.Sprint(n)
	}
	return "?"
}

func (t *Totals) add(o *Totals) {
	t.Paths += o.Paths
	t.Instrs += o.Instrs
	t.Decisions += o.Decisions
	t.Forks += o.Forks
	t.Asserts += o.Asserts
	t.Quick += o.Quick
	t.Ruled += o.Ruled
	t.Confirmed += o.Confirmed
	t.Merges += o.Merges
	t.MergeAborts += o.MergeAborts
}

func topN(m map[string]int64, n int) []string {
	type kv struct {
		k string
		v int64
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].v != l[j].v {
			return l[i].v > l[j].v
		}
		return l[i].k < l[j].k
	})
	var out []string
	for i := 0; i < len(l) && i < n; i++ {
		out = append(out, fmt.Sprintf("%d× %s", l[i].v, l[i].k))
	}
	return out
}
