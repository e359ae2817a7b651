package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type endKind int

const (
	endDone endKind = iota
	endAssume
	endUnsupported
	endSteps
	endAlloc
	endDepth
	endUnknown
	endViolation
	endInternal
	endStopped
)

var endNames = [...]string{"done", "assume", "unsupported", "steps", "alloc", "depth", "unknown", "violation", "internal", "stopped"}

type pathEnd struct {
	kind endKind
	msg  string
}

func unsupported(msg string) pathEnd { return pathEnd{endUnsupported, msg} }

type specAbort struct{}

// TPanic is a panic of the program under analysis.
type TPanic struct {
	v    Value // interface value
	msg  string
	at   string
	rt   bool // raised by the runtime
	exit bool
}

// M executes one worker's paths.
type M struct {
	confirming time.Duration // spent on confirming the pre-solver's verdicts

	id      int
	prog    *Program
	ts      *Types
	tb      *TB
	sol     *Solver
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]*Obj
	cfg     *RunCfg
	ex      *Explorer

	initing    bool
	initDone   map[*ssa.Package]bool
	path       uint64
	steps      int64
	stepLimit  int64
	allocs     int
	allocLimit int
	depth      int
	maxDepth   int
	spec       int
	stack      []Value
	sp         int
	curFn      *Fn
	callers    []*Fn

	// path state
	prefix  []dec
	trail   []dec
	pc      []*Term
	model   Model
	vars    []*Term
	vnames  []varInfo
	asked   []*Term  // solver stack contents
	doms    []domain // of the variables, by index
	multi   []*Term  // path conditions over several variables
	conj    []*Term
	scratch Model
	reach   map[string]int
	obs     []obsRec
	known   map[*Term]bool
	forks   map[string]int64
	state   map[string]any // per-path state of intrinsics

	// totals
	tot       Totals
	funcs     map[*Fn]bool
	instrTot  int64
	rtypeTI   *TI
	rtypes    map[*TI]*Obj
	specDepth int
	violKey   map[string]bool
	lastPos   token.Pos
	noMerge   bool

	panicFrames []*Frame
	deferDepth  []int
}

type varInfo struct {
	name string
	kind string
	s    Sort
	v    *Term
	conc bool // value fixed by a decision (Choose)
	cv   uint64
}

type obsRec struct {
	label string
	v     Value
	t     *TI
}

type Totals struct {
	Paths, Done, Assumed, Unsupported, StepEnds, Unknown, Internal, Depth, Alloc    int64
	Instrs, Decisions, Forks, Asserts, Merges, MergeAborts, Quick, Ruled, Confirmed int64
}

type deferred struct {
	c    callTarget
	args []Value
}

type Frame struct {
	r        []Value
	fn       *Fn
	defers   []deferred
	panicing *TPanic
	recov    bool
	results  Value
}

type opnd struct {
	i int32
	c Value
}

func (o *opnd) v(fr *Frame) Value {
	if o.i >= 0 {
		return fr.r[o.i]
	}
	return o.c
}

type insFn func(m *M, fr *Frame)

type edge struct {
	to   int
	dst  []int32
	src  []opnd
	typs []*TI
}

type Block struct {
	idx  int
	ins  []insFn
	term uint8 // 0 jump, 1 if, 2 return, 3 panic
	cond opnd
	ret  []opnd
	e    []edge
	reg  *Region
	pos  token.Pos
	pure bool
}

type Fn struct {
	name     string
	ssa      *ssa.Function
	nregs    int
	blocks   []*Block
	intr     intrinsic
	intrPure bool
	hasDef   bool
	recover  int  // recover block index or -1
	pure     int8 // 0 unknown, 1 pure, -1 not, 2 computing
	order    []int
	resTI    []*TI
	inRepo   bool
	broken   string
	nparams  int
}

type intrinsic func(m *M, fn *Fn, args []Value) Value

type callTarget struct {
	fn *Fn
	fv []Value
	bi func(m *M, args []Value) Value
}

func (m *M) rtPanic(msg string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	v := Value{p: &Iface{m.prog.rtErrTI(m), S(msg)}}
	panic(&TPanic{v: v, msg: "runtime error: " + msg, at: m.where(), rt: true})
}

func (m *M) where() string {
	var parts []string
	for i := len(m.callers) - 1; i >= 0 && len(parts) < 6; i-- {
		parts = append(parts, m.callers[i].name)
	}
	return strings.Join(parts, " < ")
}

// call runs fn.
func (m *M) call(fn *Fn, args []Value, fv []Value) Value {
	if fn.intr != nil {
		if m.spec > 0 && !fn.intrPure {
			panic(specAbort{})
		}
		return fn.intr(m, fn, args)
	}
	if m.spec > 0 {
		return m.specCall(fn, args, fv)
	}
	if !m.initing && !m.noMerge {
		sym := false
		for i := range args {
			switch args[i].p.(type) {
			case *Term, *LStr, *SymStr:
				sym = true
			}
		}
		if sym && m.isPure(fn) {
			if v, ok := m.trySpecCall(fn, args, fv); ok {
				return v
			}
		}
	}
	m.ensure(fn)
	if m.depth >= m.maxDepth {
		panic(pathEnd{endDepth, "recursion deeper than " + fmt.Sprint(m.maxDepth) + " in " + fn.name})
	}
	fr := Frame{fn: fn}
	base := m.sp
	if m.sp+fn.nregs > len(m.stack) {
		// fresh chunk; older frames keep their windows
		m.stack = make([]Value, len(m.stack)*2+fn.nregs)
		m.sp = 0
	}
	fr.r = m.stack[m.sp : m.sp+fn.nregs : m.sp+fn.nregs]
	m.sp += fn.nregs
	copy(fr.r, args)
	copy(fr.r[fn.nparams:], fv)
	m.depth++
	m.callers = append(m.callers, fn)
	if !m.initing {
		m.funcs[fn] = true
	}
	var res Value
	if fn.hasDef {
		res = m.runDefer(&fr)
	} else {
		res = m.exec(&fr, 0)
	}
	m.callers = m.callers[:len(m.callers)-1]
	m.depth--
	if base+fn.nregs <= len(m.stack) {
		m.sp = base
	}
	return res
}

func (m *M) runDefer(fr *Frame) (res Value) {
	depth, callers, sp := m.depth, len(m.callers), m.sp
	run := func() (tp *TPanic) {
		defer func() {
			if r := recover(); r != nil {
				if t, ok := r.(*TPanic); ok {
					tp = t
					m.depth, m.callers, m.sp = depth, m.callers[:callers], sp
					return
				}
				panic(r)
			}
		}()
		res = m.exec(fr, 0)
		return nil
	}
	tp := run()
	if tp == nil {
		return res
	}
	// panicking: run the remaining defers
	fr.panicing = tp
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if t, ok := r.(*TPanic); ok {
						m.depth, m.callers, m.sp = depth, m.callers[:callers], sp
						fr.panicing = t
						fr.recov = false
						return
					}
					panic(r)
				}
			}()
			m.runDeferred(fr, d)
		}()
		if fr.recov {
			fr.panicing = nil
			fr.recov = false
			if fr.fn.recover >= 0 {
				return m.exec(fr, fr.fn.recover)
			}
			// no named results: return zero values
			return m.zeroResult(fr.fn)
		}
	}
	panic(fr.panicing)
}

func (m *M) zeroResult(fn *Fn) Value {
	res := fn.ssa.Signature.Results()
	switch res.Len() {
	case 0:
		return Value{}
	case 1:
		return m.zero(m.ts.get(res.At(0).Type()))
	}
	a := make(Agg, res.Len())
	for i := range a {
		a[i] = m.zero(m.ts.get(res.At(i).Type()))
	}
	return Value{p: a}
}

func (m *M) zero(ti *TI) Value {
	if ti.agg {
		return Value{p: make(Agg, ti.slots)}
	}
	return Value{}
}

func (m *M) runDeferred(fr *Frame, d deferred) {
	if d.c.bi != nil {
		d.c.bi(m, d.args)
		return
	}
	m.panicFrames = append(m.panicFrames, fr)
	n := len(m.panicFrames)
	defer func() { m.panicFrames = m.panicFrames[:n-1] }()
	m.deferDepth = append(m.deferDepth, m.depth+1)
	defer func() { m.deferDepth = m.deferDepth[:n-1] }()
	m.call(d.c.fn, d.args, d.c.fv)
}

func (m *M) exec(fr *Frame, start int) Value {
	b := fr.fn.blocks[start]
	for {
		m.steps += int64(len(b.ins)) + 1
		if m.steps > m.stepLimit {
			panic(pathEnd{endSteps, "more than " + fmt.Sprint(m.stepLimit) + " steps in " + m.where()})
		}
		for _, f := range b.ins {
			f(m, fr)
		}
		switch b.term {
		case 0:
			b = m.follow(fr, b, 0)
		case 1:
			c := b.cond.v(fr)
			if t, ok := c.p.(*Term); ok {
				if b.reg != nil && !m.noMerge {
					nb, rv := m.runRegion(fr, b)
					if rv != nil {
						return *rv
					}
					if nb != nil {
						b = nb
						continue
					}
				}
				if m.decide(t) {
					b = m.follow(fr, b, 0)
				} else {
					b = m.follow(fr, b, 1)
				}
			} else if c.p != nil {
				panic(unsupported("branch on unknown value"))
			} else if c.n != 0 {
				b = m.follow(fr, b, 0)
			} else {
				b = m.follow(fr, b, 1)
			}
		case 2:
			switch len(b.ret) {
			case 0:
				return Value{}
			case 1:
				return b.ret[0].v(fr)
			}
			a := make(Agg, len(b.ret))
			for i := range b.ret {
				a[i] = b.ret[i].v(fr)
			}
			return Value{p: a}
		case 3:
			v := b.cond.v(fr)
			panic(&TPanic{v: v, msg: m.panicMsg(v), at: m.where()})
		}
	}
}

func (m *M) follow(fr *Frame, b *Block, i int) *Block {
	e := &b.e[i]
	switch len(e.dst) {
	case 0:
	case 1:
		fr.r[e.dst[0]] = e.src[0].v(fr)
	default:
		var buf [8]Value
		tmp := buf[:0]
		for k := range e.src {
			tmp = append(tmp, e.src[k].v(fr))
		}
		for k, d := range e.dst {
			fr.r[d] = tmp[k]
		}
	}
	return fr.fn.blocks[e.to]
}

func (m *M) panicMsg(v Value) string {
	x, _ := v.p.(*Iface)
	if x == nil {
		return "nil"
	}
	if x.t.str {
		switch s := x.v.p.(type) {
		case string:
			return s
		case *LStr:
			return m.describe(x.v)
		}
	}
	return x.t.String()
}

func (m *M) describe(v Value) string {
	if m.model == nil {
		return "?"
	}
	return m.strUnder(v, m.model)
}

// ---- regions (if-conversion of pure acyclic code)

// Region is a single-entry acyclic set of pure blocks starting at an If.
type Region struct {
	order []int
	in    map[int]bool
}

type exitEdge struct {
	b *Block
	i int
	g *Term
}

func (m *M) mergeVal(g *Term, a, b Value, ti *TI) (Value, bool) {
	if same(a, b) {
		return a, true
	}
	switch {
	case ti.scalar:
		if _, ok := a.p.(poison); ok {
			return a, false
		}
		if _, ok := b.p.(poison); ok {
			return a, false
		}
		return sv(m.tb.Ite(g, m.toTerm(a, ti.w), m.toTerm(b, ti.w))), true
	case ti.str:
		return m.iteStr(g, a, b), true
	}
	return Value{}, false
}

// evalDag runs pure blocks with guards. It returns the exit edges and the guarded returns.
func (m *M) evalDag(fr *Frame, order []int, in map[int]bool, entry int) (exits []exitEdge, rets []struct {
	g *Term
	b *Block
}) {
	fn := fr.fn
	guard := make(map[int]*Term, len(order))
	type inEdge struct {
		e *edge
		g *Term
	}
	incoming := map[int][]inEdge{}
	guard[entry] = m.tb.True
	for _, bi := range order {
		b := fn.blocks[bi]
		g := guard[bi]
		if g == nil || g == m.tb.False {
			continue
		}
		if bi != entry {
			ies := incoming[bi]
			last := ies[len(ies)-1].e
			tmp := make([]Value, len(last.dst))
			for k := range last.dst {
				v := last.src[k].v(fr)
				for j := len(ies) - 2; j >= 0; j-- {
					var ok bool
					v, ok = m.mergeVal(ies[j].g, ies[j].e.src[k].v(fr), v, last.typs[k])
					if !ok {
						panic(specAbort{})
					}
				}
				tmp[k] = v
			}
			for k, d := range last.dst {
				fr.r[d] = tmp[k]
			}
		}
		if bi != entry || in == nil {
			m.steps += int64(len(b.ins)) + 1
			if m.steps > m.stepLimit {
				panic(specAbort{})
			}
			for _, f := range b.ins {
				f(m, fr)
			}
		}
		out := func(i int, eg *Term) {
			if eg == m.tb.False {
				return
			}
			t := b.e[i].to
			if (in == nil || in[t]) && t != entry {
				if guard[t] == nil {
					guard[t] = eg
				} else {
					guard[t] = m.tb.Or(guard[t], eg)
				}
				incoming[t] = append(incoming[t], inEdge{&b.e[i], eg})
			} else {
				exits = append(exits, exitEdge{b, i, eg})
			}
		}
		switch b.term {
		case 0:
			out(0, g)
		case 1:
			c := b.cond.v(fr)
			if t, ok := c.p.(*Term); ok {
				switch m.settled(t) { // decided by the path whatever the guards
				case bTrue:
					out(0, g)
					continue
				case bFalse:
					out(1, g)
					continue
				}
				out(0, m.tb.And(g, t))
				out(1, m.tb.And(g, m.tb.Not(t)))
			} else if c.p != nil {
				panic(specAbort{})
			} else if c.n != 0 {
				out(0, g)
			} else {
				out(1, g)
			}
		case 2:
			rets = append(rets, struct {
				g *Term
				b *Block
			}{g, b})
		default:
			panic(specAbort{})
		}
	}
	return
}

func (m *M) catchSpec(f func()) (ok bool) {
	m.spec++
	depth, callers, sp, stack := m.depth, len(m.callers), m.sp, m.stack
	defer func() {
		m.spec--
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				m.depth, m.callers, m.sp = depth, m.callers[:callers], sp
				m.stack = stack
				ok = false
				return
			}
			if pe, is := r.(pathEnd); is && (pe.kind == endUnsupported || pe.kind == endDepth || pe.kind == endAlloc) {
				m.depth, m.callers, m.sp = depth, m.callers[:callers], sp
				m.stack = stack
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

// mergeRets evaluates the pure return blocks among the exits and merges their results.
func (m *M) mergeRets(fr *Frame, exits []exitEdge) (rest []exitEdge, g *Term, res Agg, ok bool) {
	fn := fr.fn
	for _, t := range fn.resTI {
		if !t.scalar && !t.str {
			return exits, nil, nil, false
		}
	}
	n := 0
	for _, x := range exits {
		if t := fn.blocks[x.b.e[x.i].to]; t.term == 2 && t.pure {
			n++
		}
	}
	if n < 2 || fn.hasDef {
		return exits, nil, nil, false
	}
	for k := len(exits) - 1; k >= 0; k-- {
		x := exits[k]
		e := &x.b.e[x.i]
		t := fn.blocks[e.to]
		if t.term != 2 || !t.pure {
			rest = append(rest, x)
			continue
		}
		tmp := make([]Value, len(e.dst))
		for i := range e.dst {
			tmp[i] = e.src[i].v(fr)
		}
		for i, d := range e.dst {
			fr.r[d] = tmp[i]
		}
		for _, f := range t.ins {
			f(m, fr)
		}
		if res == nil {
			res = make(Agg, len(t.ret))
			for i := range t.ret {
				res[i] = t.ret[i].v(fr)
			}
			g = x.g
			continue
		}
		for i := range t.ret {
			v, ok := m.mergeVal(x.g, t.ret[i].v(fr), res[i], fn.resTI[i])
			if !ok {
				panic(specAbort{})
			}
			res[i] = v
		}
		g = m.tb.Or(g, x.g)
	}
	return rest, g, res, true
}

type exitGroup struct {
	g     *Term
	to    int
	edges []exitEdge
	vals  []Value
	e     *edge
}

func (m *M) runRegion(fr *Frame, b *Block) (*Block, *Value) {
	reg := b.reg
	var groups []exitGroup
	var rets Agg
	ok := m.catchSpec(func() {
		exits, _ := m.evalDag(fr, reg.order, reg.in, b.idx)
		if rest, g, res, ok := m.mergeRets(fr, exits); ok {
			rets = res
			groups = append(groups, exitGroup{g: g, to: -1})
			exits = rest
		}
		for _, x := range exits {
			e := &x.b.e[x.i]
			vals := make([]Value, len(e.src))
			for k := range e.src {
				vals[k] = e.src[k].v(fr)
			}
			placed := false
			for gi := range groups {
				if groups[gi].to != e.to {
					continue
				}
				nv := make([]Value, len(vals))
				good := true
				for k := range vals {
					v, ok := m.mergeVal(x.g, vals[k], groups[gi].vals[k], e.typs[k])
					if !ok {
						good = false
						break
					}
					nv[k] = v
				}
				if good {
					groups[gi].vals = nv
					groups[gi].g = m.tb.Or(groups[gi].g, x.g)
					placed = true
					break
				}
			}
			if !placed {
				groups = append(groups, exitGroup{g: x.g, to: e.to, vals: vals, e: e})
			}
		}
	})
	if !ok {
		m.tot.MergeAborts++
		return nil, nil
	}
	m.tot.Merges++
	if len(groups) == 0 {
		return nil, nil
	}
	k := 0
	if len(groups) > 1 {
		gs := make([]*Term, len(groups))
		for i := range groups {
			gs[i] = groups[i].g
		}
		k = m.decideN(gs)
	}
	g := &groups[k]
	if g.to < 0 {
		switch len(rets) {
		case 0:
			return nil, &Value{}
		case 1:
			return nil, &rets[0]
		}
		return nil, &Value{p: rets}
	}
	for i, d := range g.e.dst {
		fr.r[d] = g.vals[i]
	}
	return fr.fn.blocks[g.to], nil
}

func (m *M) trySpecCall(fn *Fn, args, fv []Value) (v Value, ok bool) {
	ok = m.catchSpec(func() { v = m.specCall(fn, args, fv) })
	if ok {
		m.tot.Merges++
	} else {
		m.tot.MergeAborts++
	}
	return
}

func (m *M) specCall(fn *Fn, args, fv []Value) Value {
	if !m.isPure(fn) || m.depth >= m.maxDepth {
		panic(specAbort{})
	}
	m.ensure(fn)
	if fn.intr != nil {
		if !fn.intrPure {
			panic(specAbort{})
		}
		return fn.intr(m, fn, args)
	}
	fr := Frame{fn: fn, r: make([]Value, fn.nregs)}
	copy(fr.r, args)
	copy(fr.r[fn.nparams:], fv)
	m.depth++
	m.callers = append(m.callers, fn)
	if !m.initing {
		m.funcs[fn] = true
	}
	_, rets := m.evalDag(&fr, fn.order, nil, 0)
	if len(rets) == 0 {
		panic(specAbort{})
	}
	n := len(fn.resTI)
	out := make(Agg, n)
	last := rets[len(rets)-1].b
	for i := 0; i < n; i++ {
		v := last.ret[i].v(&fr)
		for j := len(rets) - 2; j >= 0; j-- {
			var ok bool
			v, ok = m.mergeVal(rets[j].g, rets[j].b.ret[i].v(&fr), v, fn.resTI[i])
			if !ok {
				panic(specAbort{})
			}
		}
		out[i] = v
	}
	m.callers = m.callers[:len(m.callers)-1]
	m.depth--
	switch n {
	case 0:
		return Value{}
	case 1:
		return out[0]
	}
	return Value{p: out}
}

// ---- decisions

type dec struct {
	v      uint64
	forced bool
	conc   bool
}

// decide resolves a symbolic condition on the current path.
func (m *M) decide(c *Term) bool {
	if c.isConst() {
		return c.k == 1
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if k, ok := m.known[c]; ok {
		return k
	}
	if m.ex.stop.Load() {
		panic(pathEnd{endStopped, ""})
	}
	m.tot.Decisions++
	if d, ok := m.replay(); ok {
		if !d.forced {
			if d.v == 1 {
				m.addPC(c)
			} else {
				m.addPC(m.tb.Not(c))
			}
		}
		m.learn(c, d.v == 1)
		return d.v == 1
	}
	v := m.tb.Eval(c, m.model)
	oth := c
	if v == 1 {
		oth = m.tb.Not(c)
	}
	res, mod := m.check(oth)
	switch res {
	case RUnsat:
		m.trail = append(m.trail, dec{v, true, false})
		m.learn(c, v == 1)
		return v == 1
	case RSat:
		m.ex.push(m, dec{1 - v, false, false}, mod)
		m.tot.Forks++
		m.forkProf("if")
	default:
		m.ex.incomplete(m, "solver gave no answer for a branch in "+m.where())
	}
	m.trail = append(m.trail, dec{v, false, false})
	m.learn(c, v == 1)
	if v == 1 {
		m.addPC(c)
	} else {
		m.addPC(m.tb.Not(c))
	}
	return v == 1
}

func (m *M) forkProf(kind string) {
	if m.forks != nil {
		m.forks[kind+" "+m.where()]++
	}
}

func (m *M) learn(c *Term, v bool) {
	m.known[c] = v
	m.known[m.tb.Not(c)] = !v
}

// decideN picks one of several exclusive and exhaustive conditions.
func (m *M) decideN(gs []*Term) int {
	for i, g := range gs {
		if g == m.tb.True {
			return i
		}
	}
	n, one := 0, 0
	for i, g := range gs {
		k, ok := m.known[g]
		if ok && k {
			return i
		}
		if g != m.tb.False && !ok {
			n++
			one = i
		}
	}
	if m.ex.stop.Load() {
		panic(pathEnd{endStopped, ""})
	}
	if n == 1 {
		return one
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	m.tot.Decisions++
	if d, ok := m.replay(); ok {
		if !d.forced {
			m.addPC(gs[d.v])
		}
		m.learn(gs[d.v], true)
		return int(d.v)
	}
	sel := -1
	for i, g := range gs {
		if m.tb.Eval(g, m.model) == 1 {
			sel = i
			break
		}
	}
	if sel < 0 {
		panic(pathEnd{endInternal, "no alternative holds under the model in " + m.where()})
	}
	forced := true
	for i, g := range gs {
		if i == sel || g == m.tb.False {
			continue
		}
		res, mod := m.check(g)
		switch res {
		case RSat:
			m.ex.push(m, dec{uint64(i), false, false}, mod)
			m.tot.Forks++
			m.forkProf("region")
			forced = false
		case RUnknown:
			m.ex.incomplete(m, "solver gave no answer for a branch in "+m.where())
			forced = false
		}
	}
	m.trail = append(m.trail, dec{uint64(sel), forced, false})
	if !forced {
		m.addPC(gs[sel])
	}
	m.learn(gs[sel], true)
	return sel
}

const concLimit = 300

// concretize forks over all feasible values of a scalar.
func (m *M) concretize(v Value, s Sort) uint64 {
	t, ok := v.p.(*Term)
	if !ok {
		if v.p != nil {
			panic(unsupported("unknown scalar"))
		}
		return v.n
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	m.tot.Decisions++
	if d, ok := m.replay(); ok {
		if !d.forced {
			m.addPC(m.tb.Eq(t, m.tb.Const(t.s, d.v)))
		}
		return d.v
	}
	first := m.tb.Eval(t, m.model)
	if d := m.dom(m.tb.support(t)); d != nil {
		return m.concDom(t, d, first)
	}
	excl := m.tb.Not(m.tb.Eq(t, m.tb.Const(t.s, first)))
	forced := true
	for n := 0; ; n++ {
		res, mod := m.check(excl)
		if res == RUnsat {
			break
		}
		forced = false
		if res == RUnknown {
			m.ex.incomplete(m, "solver gave no answer while enumerating values in "+m.where())
			break
		}
		if n >= concLimit {
			m.ex.incomplete(m, "too many values of a concretised scalar in "+m.where())
			break
		}
		x := m.tb.Eval(t, mod)
		m.ex.push(m, dec{x, false, true}, mod)
		m.tot.Forks++
		m.forkProf("conc")
		excl = m.tb.And(excl, m.tb.Not(m.tb.Eq(t, m.tb.Const(t.s, x))))
	}
	m.trail = append(m.trail, dec{first, forced, true})
	if !forced {
		m.addPC(m.tb.Eq(t, m.tb.Const(t.s, first)))
	}
	return first
}

// concDom is concretize for a term over one variable of a small domain.
func (m *M) concDom(t *Term, d *domain, first uint64) uint64 {
	u := m.values(t, d)
	seen := map[uint64]bool{first: true}
	forced := true
	for i, x := range u.vals {
		if seen[x] || !d.mask.has(i) {
			continue
		}
		seen[x] = true
		res, mod := m.check(m.tb.Eq(t, m.tb.Const(t.s, x)))
		if res == RUnsat {
			continue
		}
		forced = false
		if res == RUnknown {
			m.ex.incomplete(m, "solver gave no answer while enumerating values in "+m.where())
			continue
		}
		m.ex.push(m, dec{x, false, true}, mod)
		m.tot.Forks++
		m.forkProf("conc")
	}
	m.trail = append(m.trail, dec{first, forced, true})
	if !forced {
		m.addPC(m.tb.Eq(t, m.tb.Const(t.s, first)))
	}
	return first
}

func (m *M) replay() (dec, bool) {
	i := len(m.trail)
	if i < len(m.prefix) {
		d := m.prefix[i]
		m.trail = append(m.trail, d)
		return d, true
	}
	return dec{}, false
}

func (m *M) addPC(t *Term) {
	if t == m.tb.True {
		return
	}
	m.pc = append(m.pc, t)
	m.narrow(t)
	m.learn(t, true)
}

func (m *M) sync() {
	n := 0
	for n < len(m.asked) && n < len(m.pc) && m.asked[n] == m.pc[n] {
		n++
	}
	if n < len(m.asked) {
		m.sol.Pop(len(m.asked) - n)
		m.asked = m.asked[:n]
	}
	for ; n < len(m.pc); n++ {
		m.sol.Push()
		m.sol.Assert(m.pc[n])
		m.asked = append(m.asked, m.pc[n])
	}
}

var confirmFirst, confirmEach = envInt("GOSYM_CONFIRM", 1000), envInt("GOSYM_CONFIRM_EACH", 64)

func envInt(name string, def int64) int64 {
	if n, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil && n > 0 {
		return n
	}
	return def
}

func (m *M) check(extra *Term) (Res, Model) {
	if extra == m.tb.False {
		return RUnsat, nil
	}
	res, mod, ok := m.quick(extra)
	if !ok {
		return m.ask(extra)
	}
	m.tot.Quick++
	if res == RUnsat {
		// The pre-solver ruled this out: the solver confirms the first of
		// these verdicts and a sample of the later ones.
		m.tot.Ruled++
		if n := m.tot.Ruled; (n <= confirmFirst || n%confirmEach == 0) && m.confirming < time.Second+time.Since(m.ex.start)/5 {
			m.tot.Confirmed++
			t0 := time.Now()
			res, mod := m.ask(extra)
			m.confirming += time.Since(t0)
			if res == RSat {
				m.ex.incomplete(m, "the solver contradicts the pre-solver in "+m.where())
				return res, mod
			}
		}
	}
	return res, mod
}

// ask puts the question to the solver.
func (m *M) ask(extra *Term) (Res, Model) {
	m.sync()
	return m.sol.Check(extra, m.vars)
}

// assume restricts the path.
func (m *M) assume(c *Term) {
	if c == m.tb.True {
		return
	}
	if c == m.tb.False {
		panic(pathEnd{endAssume, ""})
	}
	if len(m.trail) < len(m.prefix) { // replaying: feasibility is known
		m.addPC(c)
		return
	}
	if m.tb.Eval(c, m.model) == 1 {
		m.addPC(c)
		return
	}
	res, mod := m.check(c)
	switch res {
	case RSat:
		m.model = mod
		m.addPC(c)
	case RUnsat:
		panic(pathEnd{endAssume, ""})
	default:
		m.ex.incomplete(m, "solver gave no answer for an assumption")
		panic(pathEnd{endUnknown, ""})
	}
}

var assertTrace = os.Getenv("GOSYM_ASSERT") != ""

// assert checks that c holds for every value on this path.
func (m *M) assert(c *Term, msg string) {
	m.tot.Asserts++
	if c == m.tb.True || m.known[c] {
		return
	}
	if c == m.tb.False {
		if len(m.trail) < len(m.prefix) {
			panic(pathEnd{endAssume, ""})
		}
		m.violation("assert", msg, m.model)
		panic(pathEnd{endViolation, msg})
	}
	if d, ok := m.replay(); ok { // decided by the path that created this work item
		if !d.forced {
			m.addPC(c)
		}
		m.learn(c, true)
		return
	}
	if assertTrace {
		fmt.Fprintln(os.Stderr, "ASSERT", msg, c.str(24))
	}
	res, mod := m.ask(m.tb.Not(c))
	if res == RUnsat {
		m.trail = append(m.trail, dec{1, true, false})
		m.learn(c, true)
		return
	}
	m.trail = append(m.trail, dec{1, false, false})
	if res == RSat {
		m.violation("assert", msg, mod)
	} else {
		m.ex.incomplete(m, "solver gave no answer for assertion: "+msg)
	}
	m.assume(c)
}

func (m *M) violation(kind, msg string, mod Model) {
	m.ex.violation(m, kind, msg, mod)
}

// newVar creates the next symbolic input of the path.
func (m *M) newVar(name, kind string, s Sort) *Term {
	i := len(m.vars)
	t := m.tb.Var(s, i)
	m.vars = append(m.vars, t)
	switch {
	case s == SBool:
		m.newDom(0, 2)
	case s == 8:
		m.newDom(0, 256)
	default:
		m.newDom(0, 0)
	}
	m.vnames = append(m.vnames, varInfo{name: name, kind: kind, s: s, v: t})
	for len(m.model) <= i {
		m.model = append(m.model, 0)
	}
	return t
}

// ---- one path

func (m *M) resetPath(it *item) {
	m.path++
	m.steps = 0
	m.allocs = 0
	m.depth = 0
	m.spec = 0
	m.sp = 0
	m.callers = m.callers[:0]
	m.panicFrames = m.panicFrames[:0]
	m.deferDepth = m.deferDepth[:0]
	m.prefix = it.prefix
	m.trail = m.trail[:0]
	m.pc = m.pc[:0]
	m.model = append(Model(nil), it.model...)
	m.vars = m.vars[:0]
	m.doms = m.doms[:0]
	m.multi = m.multi[:0]
	m.vnames = m.vnames[:0]
	m.obs = m.obs[:0]
	m.reach = map[string]int{}
	m.state = map[string]any{}
	m.known = map[*Term]bool{}
}

func (m *M) runPath(it *item, entry *Fn, args []Value) (end pathEnd) {
	m.resetPath(it)
	defer func() {
		m.tot.Instrs += m.steps
		m.tot.Paths++
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x
			case *TPanic:
				if x.exit {
					end = pathEnd{endDone, "exit"}
					return
				}
				// a panic that reaches the harness is a violation
				m.violation("panic", x.msg+" at "+x.at, m.model)
				end = pathEnd{endViolation, x.msg}
			case specAbort:
				end = pathEnd{endInternal, "stray spec abort"}
			default:
				if os.Getenv("GOSYM_TRACE") != "" {
					panic(r)
				}
				end = pathEnd{endInternal, fmt.Sprintf("internal error: %v in %s", r, m.where())}
			}
		}
	}()
	m.call(entry, args, nil)
	if len(m.trail) < len(m.prefix) {
		return pathEnd{endInternal, "replayed path ended before its prefix"}
	}
	return pathEnd{kind: endDone}
}

func sortedKeys[V any](mm map[string]V) []string {
	ks := make([]string, 0, len(mm))
	for k := range mm {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var startTime = time.Now()
