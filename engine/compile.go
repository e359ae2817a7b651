package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (m *M) fn(f *ssa.Function) *Fn {
	if x, ok := m.fns[f]; ok {
		return x
	}
	name := f.String()
	if f.Origin() != nil {
		name = f.Origin().String()
	}
	x := &Fn{name: name, ssa: f, recover: -1}
	m.fns[f] = x
	if isPkgInit(f) { // packages are initialised on demand
		x.intr = nop
		x.pure = -1
	} else if in, ok := intrinsics[name]; ok {
		x.intr = in.f
		x.intrPure = in.pure
		x.pure = -1
		if in.pure {
			x.pure = 1
		}
	} else if st, ok := m.cfg.stubs[name]; ok && f != st {
		x.intr = func(m *M, _ *Fn, args []Value) Value { return m.call(m.fn(st), args, nil) }
		x.pure = -1
	}
	if f.Pkg != nil {
		x.inRepo = m.prog.isRepo(f.Pkg.Pkg.Path())
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		x.inRepo = m.prog.isRepo(f.Origin().Pkg.Pkg.Path())
	}
	return x
}

// ensure compiles the body.
func (m *M) ensure(fn *Fn) {
	if fn.blocks != nil || fn.intr != nil {
		return
	}
	if fn.broken != "" {
		panic(unsupported(fn.broken))
	}
	f := fn.ssa
	m.prog.build(f)
	if len(f.Blocks) == 0 {
		fn.broken = "no body for " + fn.name
		panic(unsupported(fn.broken))
	}
	c := &compiler{m: m, fn: fn, idx: map[ssa.Value]int32{}}
	c.run()
}

type compiler struct {
	m    *M
	fn   *Fn
	idx  map[ssa.Value]int32
	fuse map[ssa.Instruction]bool
}

func (c *compiler) opnd(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{i: -1, c: c.m.constVal(x)}
	case *ssa.Global:
		return opnd{i: -1, c: Value{p: c.m.global(x)}}
	case *ssa.Function:
		return opnd{i: -1, c: Value{p: &Closure{fn: c.m.fn(x)}}}
	case *ssa.Builtin:
		return opnd{i: -1, c: Value{p: &Closure{bi: x.Name()}}}
	}
	i, ok := c.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), c.fn.name))
	}
	return opnd{i: i}
}

func (c *compiler) run() {
	f := c.fn.ssa
	m := c.m
	n := int32(0)
	for _, p := range f.Params {
		c.idx[p] = n
		n++
	}
	c.fn.nparams = int(n)
	for _, p := range f.FreeVars {
		c.idx[p] = n
		n++
	}
	c.fuse = map[ssa.Instruction]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.idx[v] = n
				n++
			}
			switch x := in.(type) {
			case *ssa.Defer:
				c.fn.hasDef = true
			case *ssa.IndexAddr:
				if refs := x.Referrers(); refs != nil && len(*refs) == 1 {
					if u, ok := (*refs)[0].(*ssa.UnOp); ok && u.Op == token.MUL && u.Block() == x.Block() {
						c.fuse[x] = true
						c.fuse[u] = true
					}
				}
			}
		}
	}
	c.fn.nregs = int(n)
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		c.fn.resTI = append(c.fn.resTI, m.ts.get(res.At(i).Type()))
	}
	blocks := make([]*Block, len(f.Blocks))
	for i := range blocks {
		blocks[i] = &Block{idx: i}
	}
	if f.Recover != nil {
		c.fn.recover = f.Recover.Index
	}
	for i, b := range f.Blocks {
		nb := blocks[i]
		nb.pure = true
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Jump:
				nb.term = 0
			case *ssa.If:
				nb.term = 1
				nb.cond = c.opnd(x.Cond)
				nb.pos = x.Pos()
			case *ssa.Return:
				nb.term = 2
				for _, r := range x.Results {
					nb.ret = append(nb.ret, c.opnd(r))
				}
			case *ssa.Panic:
				nb.term = 3
				nb.cond = c.opnd(x.X)
				nb.pure = false
			default:
				if !c.pureInstr(in) {
					nb.pure = false
				}
				if g := c.instr(in); g != nil {
					nb.ins = append(nb.ins, g)
				}
			}
		}
		for si, s := range b.Succs {
			e := edge{to: s.Index}
			// predecessor index in s, counting duplicates
			dup := 0
			for k := 0; k < si; k++ {
				if b.Succs[k] == s {
					dup++
				}
			}
			pi := -1
			for k, p := range s.Preds {
				if p == b {
					if dup == 0 {
						pi = k
						break
					}
					dup--
				}
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				e.dst = append(e.dst, c.idx[phi])
				e.src = append(e.src, c.opnd(phi.Edges[pi]))
				e.typs = append(e.typs, m.ts.get(phi.Type()))
			}
			nb.e = append(nb.e, e)
		}
	}
	c.fn.blocks = blocks
	c.regions()
}

// regions finds, for every If, the pure blocks reachable only through it.
func (c *compiler) regions() {
	f := c.fn.ssa
	for i, b := range f.Blocks {
		if c.fn.blocks[i].term != 1 {
			continue
		}
		in := map[int]bool{i: true}
		order := []int{i}
		for changed := true; changed && len(order) < 150; {
			changed = false
			for oi := 0; oi < len(order); oi++ {
				for _, s := range f.Blocks[order[oi]].Succs {
					if in[s.Index] || s == b || !c.fn.blocks[s.Index].pure {
						continue
					}
					t := c.fn.blocks[s.Index].term
					if t != 0 && t != 1 {
						continue
					}
					ok := true
					for _, p := range s.Preds {
						if !in[p.Index] {
							ok = false
						}
					}
					for _, q := range s.Succs { // no back edges into the region
						if in[q.Index] && q != b {
							ok = false
						}
					}
					if !ok {
						continue
					}
					in[s.Index] = true
					order = append(order, s.Index)
					changed = true
				}
			}
		}
		if len(order) > 1 || sameTargets(c.fn.blocks[i]) || c.retDiamond(c.fn.blocks[i], c.fn.blocks) {
			if c.fn.name == "internal/strconv.readFloat" {
				continue // one path per shape of the number keeps its exponent concrete
			}
			c.fn.blocks[i].reg = &Region{order: order, in: in}
		}
	}
}

// retDiamond: both branches return immediately.
func (c *compiler) retDiamond(b *Block, blocks []*Block) bool {
	for _, e := range b.e {
		if t := blocks[e.to]; t.term != 2 || !t.pure {
			return false
		}
	}
	return true
}

func sameTargets(b *Block) bool { return len(b.e) == 2 && b.e[0].to == b.e[1].to }

// isPure reports whether fn is acyclic, free of side effects and returns scalars or strings.
func (m *M) isPure(fn *Fn) bool {
	switch fn.pure {
	case 1:
		return true
	case -1, 2:
		return false
	}
	fn.pure = 2
	r := m.computePure(fn)
	if r {
		fn.pure = 1
	} else {
		fn.pure = -1
	}
	return r
}

func (m *M) computePure(fn *Fn) (r bool) {
	f := fn.ssa
	if f.Signature.Results().Len() == 0 {
		return false
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		ti := m.ts.get(f.Signature.Results().At(i).Type())
		if !ti.scalar && !ti.str {
			return false
		}
	}
	m.prog.build(f)
	if len(f.Blocks) == 0 || len(f.Blocks) > 400 {
		return false
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(pathEnd); !ok {
					panic(e)
				}
				r = false
			}
		}()
		m.ensure(fn)
		r = true
	}()
	if !r {
		return false
	}
	for i, b := range fn.blocks {
		if f.Recover != nil && f.Recover.Index == i {
			continue
		}
		if !b.pure && b.term != 3 {
			return false
		}
		if b.term == 3 {
			// panicking blocks abort the merged evaluation when reached
			continue
		}
	}
	if fn.hasDef {
		return false
	}
	// topological order; cycles disqualify
	state := make([]int, len(fn.blocks))
	var order []int
	var visit func(i int) bool
	visit = func(i int) bool {
		switch state[i] {
		case 1:
			return false
		case 2:
			return true
		}
		state[i] = 1
		for k := range fn.blocks[i].e {
			if !visit(fn.blocks[i].e[k].to) {
				return false
			}
		}
		state[i] = 2
		order = append(order, i)
		return true
	}
	if !visit(0) {
		return false
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	fn.order = order
	return true
}

func (c *compiler) pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.ChangeType, *ssa.Extract, *ssa.Lookup, *ssa.MakeInterface, *ssa.ChangeInterface:
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.TypeAssert:
		return x.CommaOk
	case *ssa.Convert:
		return c.m.ts.get(x.Type()).scalar && c.m.ts.get(x.X.Type()).scalar
	case *ssa.Slice:
		return c.m.ts.get(x.X.Type()).str
	case *ssa.Call:
		if x.Call.IsInvoke() {
			return false
		}
		switch f := x.Call.Value.(type) {
		case *ssa.Function:
			fn := c.m.fn(f)
			if fn == c.fn {
				return false
			}
			return c.m.isPure(fn)
		case *ssa.Builtin:
			return f.Name() == "len" || f.Name() == "cap" || f.Name() == "min" || f.Name() == "max"
		}
	}
	return false
}

func (c *compiler) tiOf(v ssa.Value) *TI { return c.m.ts.get(v.Type()) }

func (c *compiler) instr(in ssa.Instruction) insFn {
	m := c.m
	var dst int32 = -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.idx[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		ti := m.ts.get(x.Type().(*types.Pointer).Elem())
		n := ti.slots
		return func(m *M, fr *Frame) { fr.r[dst] = Value{p: m.newObj(n)} }
	case *ssa.BinOp:
		return c.binop(x, dst)
	case *ssa.UnOp:
		return c.unop(x, dst)
	case *ssa.FieldAddr:
		o := c.opnd(x.X)
		st := m.ts.get(x.X.Type().Underlying().(*types.Pointer).Elem())
		off := uint64(st.offs[x.Field])
		return func(m *M, fr *Frame) {
			p := o.v(fr)
			if p.p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			p.n += off
			fr.r[dst] = p
		}
	case *ssa.Field:
		o := c.opnd(x.X)
		st := m.ts.get(x.X.Type())
		f, off := st.fields[x.Field], st.offs[x.Field]
		return func(m *M, fr *Frame) {
			a, ok := o.v(fr).p.(Agg)
			if !ok {
				panic(unsupported("field of unknown value"))
			}
			if f.agg {
				fr.r[dst] = Value{p: a[off : off+f.slots : off+f.slots]}
			} else {
				fr.r[dst] = a[off]
			}
		}
	case *ssa.IndexAddr:
		return c.indexAddr(x, dst)
	case *ssa.Index:
		return c.index(x, dst)
	case *ssa.Lookup:
		a, k := c.opnd(x.X), c.opnd(x.Index)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			vt := m.ts.get(mt.Elem())
			commaOk := x.CommaOk
			_ = vt
			return func(m *M, fr *Frame) { fr.r[dst] = m.mapLookup(a.v(fr), k.v(fr), mt, commaOk) }
		}
		kt := c.tiOf(x.Index)
		return func(m *M, fr *Frame) { fr.r[dst] = m.strIndex(a.v(fr), k.v(fr), kt) }
	case *ssa.Slice:
		return c.slice(x, dst)
	case *ssa.Store:
		a, v := c.opnd(x.Addr), c.opnd(x.Val)
		ti := c.tiOf(x.Val)
		return func(m *M, fr *Frame) { m.store(a.v(fr), v.v(fr), ti) }
	case *ssa.Convert:
		return c.convert(x, dst)
	case *ssa.MultiConvert:
		return c.bad("multiconvert")
	case *ssa.ChangeType:
		o := c.opnd(x.X)
		return func(m *M, fr *Frame) { fr.r[dst] = o.v(fr) }
	case *ssa.ChangeInterface:
		o := c.opnd(x.X)
		return func(m *M, fr *Frame) { fr.r[dst] = o.v(fr) }
	case *ssa.SliceToArrayPointer:
		o := c.opnd(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(m *M, fr *Frame) {
			s := o.v(fr)
			if s.sLen() < n {
				m.rtPanic("slice to array conversion: length out of range")
			}
			if s.p == nil {
				fr.r[dst] = Value{}
				return
			}
			fr.r[dst] = Value{uint64(s.sOff()), s.p}
		}
	case *ssa.MakeInterface:
		o := c.opnd(x.X)
		ti := c.tiOf(x.X)
		return func(m *M, fr *Frame) { fr.r[dst] = Value{p: &Iface{ti, o.v(fr)}} }
	case *ssa.MakeClosure:
		f := m.fn(x.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, c.opnd(b))
		}
		return func(m *M, fr *Frame) {
			cl := &Closure{fn: f, fv: make([]Value, len(bs))}
			for i := range bs {
				cl.fv[i] = bs[i].v(fr)
			}
			fr.r[dst] = Value{p: cl}
		}
	case *ssa.MakeMap:
		return func(m *M, fr *Frame) { fr.r[dst] = Value{p: m.newMap()} }
	case *ssa.MakeSlice:
		l, cp := c.opnd(x.Len), c.opnd(x.Cap)
		lt, ct := c.tiOf(x.Len), c.tiOf(x.Cap)
		et := m.ts.get(x.Type().Underlying().(*types.Slice).Elem())
		return func(m *M, fr *Frame) {
			n := sx(m.concretize(l.v(fr), lt.w), lt.w)
			k := sx(m.concretize(cp.v(fr), ct.w), ct.w)
			if n < 0 || n > 1<<40 {
				m.rtPanic("makeslice: len out of range")
			}
			if k < n {
				m.rtPanic("makeslice: cap out of range")
			}
			fr.r[dst] = mkSlice(m.newObj(int(k)*et.slots), 0, int(n), int(k))
		}
	case *ssa.MapUpdate:
		mp, k, v := c.opnd(x.Map), c.opnd(x.Key), c.opnd(x.Value)
		mt := x.Map.Type().Underlying().(*types.Map)
		return func(m *M, fr *Frame) { m.mapUpdate(mp.v(fr), k.v(fr), v.v(fr), mt) }
	case *ssa.TypeAssert:
		return c.typeAssert(x, dst)
	case *ssa.Extract:
		o := c.opnd(x.Tuple)
		i := x.Index
		return func(m *M, fr *Frame) {
			a, ok := o.v(fr).p.(Agg)
			if !ok {
				panic(unsupported("extract from unknown value"))
			}
			fr.r[dst] = a[i]
		}
	case *ssa.Range:
		return c.rangeIns(x, dst)
	case *ssa.Next:
		return c.next(x, dst)
	case *ssa.Call:
		return c.call(x, dst)
	case *ssa.Defer:
		tgt := c.target(&x.Call)
		args := c.args(&x.Call)
		return func(m *M, fr *Frame) {
			t, a := tgt(m, fr, args)
			fr.defers = append(fr.defers, deferred{t, append([]Value(nil), a...)})
		}
	case *ssa.RunDefers:
		return func(m *M, fr *Frame) {
			for len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				m.runDeferred(fr, d)
			}
		}
	case *ssa.Go:
		return c.bad("go statement")
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		return c.bad("channel operation")
	case *ssa.DebugRef:
		return nil
	}
	return c.bad(fmt.Sprintf("%T", in))
}

func (c *compiler) bad(what string) insFn {
	name := c.fn.name
	return func(m *M, fr *Frame) { panic(unsupported(what + " in " + name)) }
}

var binOps = map[token.Token]Op{token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul, token.AND: OBAnd, token.OR: OBOr, token.XOR: OBXor}

func (c *compiler) binop(x *ssa.BinOp, dst int32) insFn {
	a, b := c.opnd(x.X), c.opnd(x.Y)
	ti := c.tiOf(x.X)
	bti := c.tiOf(x.Y)
	w := ti.w
	neg := false
	switch x.Op {
	case token.NEQ:
		neg = true
		fallthrough
	case token.EQL:
		if ti.isIf != bti.isIf { // interface compared with concrete value
			return c.bad("mixed comparison")
		}
		if ti.scalar && !ti.float {
			return func(m *M, fr *Frame) {
				p, q := a.v(fr), b.v(fr)
				if p.p == nil && q.p == nil {
					fr.r[dst] = B((p.n == q.n) != neg)
					return
				}
				t := m.tb.Eq(m.symOf(p, w), m.symOf(q, w))
				if neg {
					t = m.tb.Not(t)
				}
				fr.r[dst] = sv(t)
			}
		}
		return func(m *M, fr *Frame) {
			t := m.eqVal(a.v(fr), b.v(fr), ti)
			if neg {
				t = m.tb.Not(t)
			}
			fr.r[dst] = sv(t)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		swap := x.Op == token.GTR || x.Op == token.GEQ
		le := x.Op == token.LEQ || x.Op == token.GEQ
		if ti.str {
			return func(m *M, fr *Frame) {
				p, q := a.v(fr), b.v(fr)
				if swap {
					p, q = q, p
				}
				if le { // p<=q == !(q<p)
					fr.r[dst] = sv(m.tb.Not(m.strLess(q, p)))
				} else {
					fr.r[dst] = sv(m.strLess(p, q))
				}
			}
		}
		if ti.float {
			op := OFLt
			if le {
				op = OFLe
			}
			return func(m *M, fr *Frame) {
				p, q := m.symOf(a.v(fr), w), m.symOf(b.v(fr), w)
				if swap {
					p, q = q, p
				}
				fr.r[dst] = sv(m.tb.FCmp(op, p, q))
			}
		}
		op := OUlt
		if ti.signed {
			op = OSlt
		}
		if le {
			op++
		}
		return func(m *M, fr *Frame) {
			p, q := a.v(fr), b.v(fr)
			if swap {
				p, q = q, p
			}
			if p.p == nil && q.p == nil {
				fr.r[dst] = B(evalCmp(op, w, p.n, q.n))
				return
			}
			fr.r[dst] = sv(m.tb.Cmp(op, m.symOf(p, w), m.symOf(q, w)))
		}
	}
	if ti.str { // +
		return func(m *M, fr *Frame) { fr.r[dst] = m.concat(a.v(fr), b.v(fr)) }
	}
	if !ti.scalar {
		return c.bad("binop on " + ti.String())
	}
	if ti.float {
		op := map[token.Token]Op{token.ADD: OFAdd, token.SUB: OFSub, token.MUL: OFMul, token.QUO: OFDiv}[x.Op]
		return func(m *M, fr *Frame) {
			fr.r[dst] = sv(m.tabulate(m.tb.FBin(op, m.symOf(a.v(fr), w), m.symOf(b.v(fr), w))))
		}
	}
	switch x.Op {
	case token.SHL, token.SHR:
		op := OShl
		if x.Op == token.SHR {
			op = OLshr
			if ti.signed {
				op = OAshr
			}
		}
		bw, bs := bti.w, bti.signed
		return func(m *M, fr *Frame) {
			p, q := a.v(fr), b.v(fr)
			if q.p == nil {
				n := q.n
				if bs && sx(n, bw) < 0 {
					m.rtPanic("negative shift amount")
				}
				if n >= uint64(w) {
					if op == OAshr {
						n = uint64(w) - 1
					} else {
						fr.r[dst] = Value{}
						return
					}
				}
				if p.p == nil {
					r, _ := evalBin(op, w, p.n, n)
					fr.r[dst] = U(r)
					return
				}
				fr.r[dst] = sv(m.tb.Bin(op, m.symOf(p, w), m.tb.Const(w, n)))
				return
			}
			qt := m.symOf(q, bw)
			if bs && m.decide(m.tb.Cmp(OSlt, qt, m.tb.Const(bw, 0))) {
				m.rtPanic("negative shift amount")
			}
			// saturate the amount to the operand width
			big := m.tb.False
			if uint64(w) <= mask(bw) {
				big = m.tb.Cmp(OUle, m.tb.Const(bw, uint64(w)), qt)
			}
			amt := m.tb.Conv(qt, w, false)
			r := m.tb.Bin(op, m.symOf(p, w), amt)
			over := m.tb.Const(w, 0)
			if op == OAshr {
				over = m.tb.Bin(OAshr, m.symOf(p, w), m.tb.Const(w, uint64(w)-1))
			}
			fr.r[dst] = sv(m.tb.Ite(big, over, r))
		}
	case token.QUO, token.REM:
		op := OUDiv
		if x.Op == token.REM {
			op = OURem
		}
		if ti.signed {
			op++
		}
		if x.Op == token.QUO && ti.signed {
			op = OSDiv
		}
		if x.Op == token.REM && ti.signed {
			op = OSRem
		}
		return func(m *M, fr *Frame) {
			p, q := a.v(fr), b.v(fr)
			if q.p == nil {
				if q.n == 0 {
					m.rtPanic("integer divide by zero")
				}
			} else if m.decide(m.tb.Eq(m.symOf(q, w), m.tb.Const(w, 0))) {
				m.rtPanic("integer divide by zero")
			}
			if p.p == nil && q.p == nil {
				r, _ := evalBin(op, w, p.n, q.n)
				fr.r[dst] = U(r)
				return
			}
			fr.r[dst] = sv(m.tb.Bin(op, m.symOf(p, w), m.symOf(q, w)))
		}
	case token.AND_NOT:
		return func(m *M, fr *Frame) {
			p, q := a.v(fr), b.v(fr)
			if p.p == nil && q.p == nil {
				fr.r[dst] = U(p.n &^ q.n)
				return
			}
			fr.r[dst] = sv(m.tb.Bin(OBAnd, m.symOf(p, w), m.tb.BNot(m.symOf(q, w))))
		}
	}
	op, ok := binOps[x.Op]
	if !ok {
		return c.bad("binop " + x.Op.String())
	}
	if w == SBool {
		return func(m *M, fr *Frame) {
			p, q := m.symOf(a.v(fr), w), m.symOf(b.v(fr), w)
			switch op {
			case OBAnd:
				fr.r[dst] = sv(m.tb.And(p, q))
			case OBOr:
				fr.r[dst] = sv(m.tb.Or(p, q))
			default:
				fr.r[dst] = sv(m.tb.Not(m.tb.Eq(p, q)))
			}
		}
	}
	mk := mask(w)
	return func(m *M, fr *Frame) {
		p, q := a.v(fr), b.v(fr)
		if p.p == nil && q.p == nil {
			switch op {
			case OAdd:
				fr.r[dst] = Value{n: (p.n + q.n) & mk}
			case OSub:
				fr.r[dst] = Value{n: (p.n - q.n) & mk}
			default:
				r, _ := evalBin(op, w, p.n, q.n)
				fr.r[dst] = Value{n: r}
			}
			return
		}
		fr.r[dst] = sv(m.tb.Bin(op, m.symOf(p, w), m.symOf(q, w)))
	}
}

func (m *M) symOf(v Value, w Sort) *Term {
	switch t := v.p.(type) {
	case *Term:
		return t
	case nil:
		return m.tb.Const(w, v.n)
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(unsupported(fmt.Sprintf("scalar operation on %T", v.p)))
}

func (c *compiler) unop(x *ssa.UnOp, dst int32) insFn {
	o := c.opnd(x.X)
	ti := c.tiOf(x)
	w := ti.w
	switch x.Op {
	case token.MUL:
		if c.fuse[x] {
			return func(m *M, fr *Frame) { fr.r[dst] = m.fusedLoad(o.v(fr), ti) }
		}
		if ti.agg {
			return func(m *M, fr *Frame) { fr.r[dst] = m.load(o.v(fr), ti) }
		}
		return func(m *M, fr *Frame) {
			p := o.v(fr)
			ob, ok := p.p.(*Obj)
			if !ok || ob.pois {
				fr.r[dst] = m.load(p, ti)
				return
			}
			if ob.base && !m.initing && ob.ver == m.path {
				fr.r[dst] = ob.sh[p.n]
				return
			}
			fr.r[dst] = ob.s[p.n]
		}
	case token.NOT:
		return func(m *M, fr *Frame) { fr.r[dst] = sv(m.tb.Not(m.symOf(o.v(fr), SBool))) }
	case token.SUB:
		if ti.float {
			return func(m *M, fr *Frame) {
				v := o.v(fr)
				if v.p == nil {
					if w == SF64 {
						fr.r[dst] = U(v.n ^ 1<<63)
					} else {
						fr.r[dst] = U(v.n ^ 1<<31)
					}
					return
				}
				fr.r[dst] = sv(m.tb.Un(OFNeg, w, m.symOf(v, w)))
			}
		}
		return func(m *M, fr *Frame) {
			v := o.v(fr)
			if v.p == nil {
				fr.r[dst] = U(-v.n & mask(w))
				return
			}
			fr.r[dst] = sv(m.tb.Neg(m.symOf(v, w)))
		}
	case token.XOR:
		return func(m *M, fr *Frame) { fr.r[dst] = sv(m.tb.BNot(m.symOf(o.v(fr), w))) }
	}
	return c.bad("unop " + x.Op.String())
}

// lazyAddr is an element address with a symbolic index, only ever loaded.
type lazyAddr struct {
	o      *Obj
	off, n int
	esz    int
	idx    *Term
}

func (m *M) fusedLoad(p Value, ti *TI) Value {
	la, ok := p.p.(*lazyAddr)
	if !ok {
		return m.load(p, ti)
	}
	s := m.rd(la.o)
	if la.o.pois {
		panic(unsupported("read of uninitialised global " + la.o.tag))
	}
	vals := make([]Value, la.n)
	for i := range vals {
		vals[i] = getSlots(s, la.off+i*la.esz, ti)
	}
	return m.tableRead(vals, la.idx, ti)
}

// tableRead reads vals[idx] for an in-range symbolic index.
func (m *M) tableRead(vals []Value, idx *Term, ti *TI) Value {
	type run struct {
		lo, hi int
		v      Value
	}
	var runs []run
	for i, v := range vals {
		if len(runs) > 0 && same(runs[len(runs)-1].v, v) {
			runs[len(runs)-1].hi = i
		} else {
			runs = append(runs, run{i, i, v})
		}
	}
	if len(runs) == 1 {
		return runs[0].v
	}
	if ti.scalar {
		var rec func(a, b int) *Term
		rec = func(a, b int) *Term {
			if a == b {
				return m.symOf(runs[a].v, ti.w)
			}
			k := (a + b) / 2
			return m.tb.Ite(m.tb.Cmp(OUle, idx, m.tb.Const(idx.s, uint64(runs[k].hi))), rec(a, k), rec(k+1, b))
		}
		return sv(rec(0, len(runs)-1))
	}
	if ti.str {
		return Value{p: &LStr{kind: lsTable, idx: idx, tab: vals}}
	}
	var gs []*Term
	var vs []Value
	for _, r := range runs {
		g := m.tb.And(m.tb.Cmp(OUle, m.tb.Const(idx.s, uint64(r.lo)), idx), m.tb.Cmp(OUle, idx, m.tb.Const(idx.s, uint64(r.hi))))
		found := false
		for i := range vs {
			if same(vs[i], r.v) {
				gs[i] = m.tb.Or(gs[i], g)
				found = true
				break
			}
		}
		if !found {
			gs = append(gs, g)
			vs = append(vs, r.v)
		}
	}
	return vs[m.decideN(gs)]
}

// boundsCheck resolves 0<=idx<n and returns the index (concrete) or its 64-bit term.
func (m *M) boundsCheck(iv Value, it *TI, n int) (int, *Term) {
	if iv.p == nil {
		i := sx(iv.n, it.w)
		if !it.signed {
			i = int64(iv.n)
			if iv.n > math.MaxInt64 {
				i = -1
			}
		}
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := m.tb.Conv(m.symOf(iv, it.w), 64, it.signed)
	ok := m.tb.Cmp(OUlt, t, m.tb.Const(64, uint64(n)))
	if !m.decide(ok) {
		m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return -1, t
}

func (c *compiler) indexAddr(x *ssa.IndexAddr, dst int32) insFn {
	m := c.m
	a, i := c.opnd(x.X), c.opnd(x.Index)
	it := c.tiOf(x.Index)
	fused := c.fuse[x]
	var et *TI
	arrLen := -1
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		et = m.ts.get(u.Elem())
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		et = m.ts.get(at.Elem())
		arrLen = int(at.Len())
	}
	esz := et.slots
	return func(m *M, fr *Frame) {
		s := a.v(fr)
		n, off := arrLen, int(s.n)
		if arrLen < 0 {
			n, off = s.sLen(), s.sOff()
		} else if s.p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		k, t := m.boundsCheck(i.v(fr), it, n)
		if t != nil {
			if fused {
				fr.r[dst] = Value{p: &lazyAddr{s.obj(), off, n, esz, t}}
				return
			}
			k = int(m.concretize(Value{p: t}, 64))
		}
		fr.r[dst] = Value{uint64(off + k*esz), s.p}
	}
}

func (c *compiler) index(x *ssa.Index, dst int32) insFn {
	m := c.m
	a, i := c.opnd(x.X), c.opnd(x.Index)
	it := c.tiOf(x.Index)
	at, ok := x.X.Type().Underlying().(*types.Array)
	if !ok {
		return func(m *M, fr *Frame) { fr.r[dst] = m.strIndex(a.v(fr), i.v(fr), it) }
	}
	et := m.ts.get(at.Elem())
	n := int(at.Len())
	return func(m *M, fr *Frame) {
		ag, ok := a.v(fr).p.(Agg)
		if !ok {
			panic(unsupported("index of unknown value"))
		}
		k, t := m.boundsCheck(i.v(fr), it, n)
		if t != nil {
			vals := make([]Value, n)
			for j := range vals {
				vals[j] = getSlots(ag, j*et.slots, et)
			}
			fr.r[dst] = m.tableRead(vals, t, et)
			return
		}
		fr.r[dst] = getSlots(ag, k*et.slots, et)
	}
}

var byteTI = &TI{scalar: true, w: 8, slots: 1}

func (m *M) strIndex(s, i Value, it *TI) Value {
	if l, ok := s.p.(*LStr); ok {
		// byte of a lazy string at a concrete index
		if lv, ok := m.leaves(s); ok && i.p == nil {
			k := int(i.n)
			inb := true
			for _, x := range lv {
				n := m.strLen(x.s)
				if k < 0 || k >= int(n.n) {
					inb = false
				}
			}
			if inb {
				t := m.symOf(m.strBytes(lv[len(lv)-1].s)[k], 8)
				for j := len(lv) - 2; j >= 0; j-- {
					t = m.tb.Ite(lv[j].g, m.symOf(m.strBytes(lv[j].s)[k], 8), t)
				}
				return sv(t)
			}
		}
		_ = l
		s = m.force(s)
	}
	if str, ok := s.p.(string); ok && i.p == nil {
		k, _ := m.boundsCheck(i, it, len(str))
		return U(uint64(str[k]))
	}
	b := m.strBytes(s)
	k, t := m.boundsCheck(i, it, len(b))
	if t != nil {
		return m.tableRead(b, t, byteTI)
	}
	return b[k]
}

func (c *compiler) slice(x *ssa.Slice, dst int32) insFn {
	m := c.m
	a := c.opnd(x.X)
	opt := func(v ssa.Value) (opnd, *TI, bool) {
		if v == nil {
			return opnd{}, nil, false
		}
		return c.opnd(v), c.tiOf(v), true
	}
	lo, lt, hasLo := opt(x.Low)
	hi, ht, hasHi := opt(x.High)
	mx, mt, hasMax := opt(x.Max)
	isStr := c.tiOf(x.X).str
	arrLen := -1
	var esz int
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		esz = m.ts.get(u.Elem()).slots
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		esz = m.ts.get(at.Elem()).slots
		arrLen = int(at.Len())
	}
	return func(m *M, fr *Frame) {
		get := func(o opnd, t *TI, has bool, def int) int {
			if !has {
				return def
			}
			v := o.v(fr)
			n := v.n
			if v.p != nil {
				n = m.concretize(v, t.w)
			}
			r := sx(n, t.w)
			if !t.signed {
				r = int64(n)
			}
			if r < -1 || r > 1<<40 {
				r = -1
			}
			return int(r)
		}
		s := a.v(fr)
		if isStr {
			if _, ok := s.p.(*LStr); ok {
				s = m.force(s)
			}
			if str, ok := s.p.(string); ok || s.p == nil {
				l, h := get(lo, lt, hasLo, 0), get(hi, ht, hasHi, len(str))
				if l < 0 || h < l || h > len(str) {
					m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, len(str)))
				}
				fr.r[dst] = S(str[l:h])
				return
			}
			b := m.strBytes(s)
			l, h := get(lo, lt, hasLo, 0), get(hi, ht, hasHi, len(b))
			if l < 0 || h < l || h > len(b) {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, len(b)))
			}
			fr.r[dst] = strOf(b[l:h])
			return
		}
		n, cp, off := s.sLen(), s.sCap(), s.sOff()
		if arrLen >= 0 {
			if s.p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			n, cp, off = arrLen, arrLen, int(s.n)
		}
		l := get(lo, lt, hasLo, 0)
		h := get(hi, ht, hasHi, n)
		k := get(mx, mt, hasMax, cp)
		if l < 0 || h < l || k < h || k > cp {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, k, cp))
		}
		if s.p == nil {
			fr.r[dst] = Value{}
			return
		}
		fr.r[dst] = mkSlice(s.obj(), off+l*esz, h-l, k-l)
	}
}

func (c *compiler) convert(x *ssa.Convert, dst int32) insFn {
	m := c.m
	o := c.opnd(x.X)
	from, to := c.tiOf(x.X), c.tiOf(x)
	switch {
	case from.scalar && to.scalar:
		if !from.float && !to.float {
			fw, tw, sg := from.w, to.w, from.signed
			return func(m *M, fr *Frame) {
				v := o.v(fr)
				if v.p == nil {
					if sg && tw > fw {
						v.n = uint64(sx(v.n, fw))
					}
					fr.r[dst] = Value{n: v.n & mask(tw)}
					return
				}
				fr.r[dst] = sv(m.tb.Conv(m.symOf(v, fw), tw, sg))
			}
		}
		op := OFCvt
		switch {
		case from.float && to.float:
		case from.float && to.signed:
			op = OFToS
		case from.float:
			op = OFToU
		case from.signed:
			op = OSToF
		default:
			op = OUToF
		}
		return func(m *M, fr *Frame) {
			v := o.v(fr)
			if v.p == nil || op == OFCvt && from.w == to.w {
				if from.w == to.w && op == OFCvt {
					fr.r[dst] = v
					return
				}
				if op == OFToS || op == OFToU {
					fr.r[dst] = sv(m.tb.FToInt(m.symOf(v, from.w), to.w, to.signed))
					return
				}
				fr.r[dst] = sv(m.tb.Un(op, to.w, m.symOf(v, from.w)))
				return
			}
			if op == OFToS || op == OFToU {
				fr.r[dst] = sv(m.tb.FToInt(m.symOf(v, from.w), to.w, to.signed))
				return
			}
			fr.r[dst] = sv(m.tb.Un(op, to.w, m.symOf(v, from.w)))
		}
	case from.scalar && to.str:
		w, sg := from.w, from.signed
		return func(m *M, fr *Frame) { fr.r[dst] = m.runeToStr(o.v(fr), w, sg) }
	case from.str && to.str:
		return func(m *M, fr *Frame) { fr.r[dst] = o.v(fr) }
	case from.str && to.elem != nil: // string -> []byte / []rune
		if to.elem.w == 8 {
			return func(m *M, fr *Frame) {
				b := m.strBytes(o.v(fr))
				ob := m.newObj(len(b))
				copy(ob.s, b)
				fr.r[dst] = mkSlice(ob, 0, len(b), len(b))
			}
		}
		return func(m *M, fr *Frame) {
			var rs []Value
			b := m.strBytes(o.v(fr))
			for len(b) > 0 {
				r, n := m.decodeRune(b)
				rs = append(rs, r)
				b = b[n:]
			}
			ob := m.newObj(len(rs))
			copy(ob.s, rs)
			fr.r[dst] = mkSlice(ob, 0, len(rs), len(rs))
		}
	case to.str && from.elem != nil:
		if from.elem.w == 8 {
			return func(m *M, fr *Frame) {
				s := o.v(fr)
				if s.p == nil {
					fr.r[dst] = Value{}
					return
				}
				fr.r[dst] = strOf(m.rd(s.obj())[s.sOff() : s.sOff()+s.sLen()])
			}
		}
		return func(m *M, fr *Frame) {
			s := o.v(fr)
			out := Value{}
			if s.p != nil {
				for _, r := range append([]Value(nil), m.rd(s.obj())[s.sOff():s.sOff()+s.sLen()]...) {
					out = m.concat(out, m.runeToStr(r, 32, true))
				}
			}
			fr.r[dst] = out
		}
	}
	// unsafe.Pointer round trips keep the pointer
	isPtr := func(t *TI) bool {
		switch u := t.u.(type) {
		case *types.Pointer:
			return true
		case *types.Basic:
			return u.Kind() == types.UnsafePointer
		}
		return false
	}
	if isPtr(from) && isPtr(to) {
		return func(m *M, fr *Frame) { fr.r[dst] = o.v(fr) }
	}
	_ = m
	return c.bad(fmt.Sprintf("conversion %s to %s", from, to))
}

func (m *M) implements(t *TI, it *TI) bool {
	key := implKey{t, it}
	if r, ok := m.prog.impl.Load(key); ok {
		return r.(bool)
	}
	r := types.Implements(t.t, it.u.(*types.Interface))
	return m.storeImpl(key, r)
}

type implKey struct{ a, b *TI }

func (m *M) storeImpl(k implKey, r bool) bool { m.prog.impl.Store(k, r); return r }

func (c *compiler) typeAssert(x *ssa.TypeAssert, dst int32) insFn {
	o := c.opnd(x.X)
	to := c.m.ts.get(x.AssertedType)
	commaOk := x.CommaOk
	return func(m *M, fr *Frame) {
		v := o.v(fr)
		ifc, _ := v.p.(*Iface)
		if ifc == nil && v.p != nil {
			panic(unsupported("type assertion on unknown value"))
		}
		ok := false
		var r Value
		if ifc != nil {
			if to.isIf {
				ok = m.implements(ifc.t, to)
				r = v
			} else {
				ok = ifc.t == to
				r = ifc.v
			}
		}
		if commaOk {
			if !ok {
				r = m.zero(to)
			}
			fr.r[dst] = Value{p: Agg{r, B(ok)}}
			return
		}
		if !ok {
			d := "nil"
			if ifc != nil {
				d = ifc.t.String()
			}
			m.rtPanic("interface conversion: interface is " + d + ", not " + to.String())
		}
		fr.r[dst] = r
	}
}

type mapIter struct {
	d   *MapObj
	pos int
}
type strIter struct {
	b   []Value
	pos int
}

func (c *compiler) rangeIns(x *ssa.Range, dst int32) insFn {
	o := c.opnd(x.X)
	if c.tiOf(x.X).str {
		return func(m *M, fr *Frame) { fr.r[dst] = Value{p: &strIter{b: m.strBytes(o.v(fr))}} }
	}
	return func(m *M, fr *Frame) {
		mo, _ := o.v(fr).p.(*MapObj)
		fr.r[dst] = Value{p: &mapIter{d: mo}}
	}
}

func (c *compiler) next(x *ssa.Next, dst int32) insFn {
	o := c.opnd(x.Iter)
	if x.IsString {
		return func(m *M, fr *Frame) {
			it := o.v(fr).p.(*strIter)
			if it.pos >= len(it.b) {
				fr.r[dst] = Value{p: Agg{B(false), I(0), I(0)}}
				return
			}
			r, n := m.decodeRune(it.b[it.pos:])
			fr.r[dst] = Value{p: Agg{B(true), I(it.pos), r}}
			it.pos += n
		}
	}
	return func(m *M, fr *Frame) {
		it := o.v(fr).p.(*mapIter)
		if it.d != nil {
			d := m.mrd(it.d)
			for it.pos < len(d.keys) {
				i := it.pos
				it.pos++
				if d.live[i] {
					fr.r[dst] = Value{p: Agg{B(true), d.keys[i], d.vals[i]}}
					return
				}
			}
		}
		fr.r[dst] = Value{p: Agg{B(false), Value{}, Value{}}}
	}
}

func (c *compiler) args(cc *ssa.CallCommon) []opnd {
	var as []opnd
	for _, a := range cc.Args {
		as = append(as, c.opnd(a))
	}
	return as
}

type targetFn func(m *M, fr *Frame, args []opnd) (callTarget, []Value)

func vals(fr *Frame, args []opnd, extra int) []Value {
	a := make([]Value, len(args)+extra)
	for i := range args {
		a[i+extra] = args[i].v(fr)
	}
	return a
}

func (c *compiler) target(cc *ssa.CallCommon) targetFn {
	m := c.m
	if cc.IsInvoke() {
		recv := c.opnd(cc.Value)
		meth := cc.Method
		key := meth.Id()
		return func(m *M, fr *Frame, args []opnd) (callTarget, []Value) {
			r := recv.v(fr)
			ifc, _ := r.p.(*Iface)
			if ifc == nil {
				if r.p != nil {
					panic(unsupported("call of " + meth.Name() + " on unknown value"))
				}
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			a := vals(fr, args, 1)
			a[0] = ifc.v
			if ifc.t == m.rtypeTI && m.rtypeTI != nil {
				return callTarget{bi: func(m *M, as []Value) Value { return m.rtypeMethod(meth.Name(), as) }}, a
			}
			f := m.method(ifc.t, meth, key)
			return callTarget{fn: f}, a
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Function:
		fn := m.fn(f)
		return func(m *M, fr *Frame, args []opnd) (callTarget, []Value) {
			return callTarget{fn: fn}, vals(fr, args, 0)
		}
	case *ssa.Builtin:
		b := c.builtin(f, cc)
		return func(m *M, fr *Frame, args []opnd) (callTarget, []Value) {
			return callTarget{bi: b}, vals(fr, args, 0)
		}
	}
	o := c.opnd(cc.Value)
	return func(m *M, fr *Frame, args []opnd) (callTarget, []Value) {
		v := o.v(fr)
		cl, _ := v.p.(*Closure)
		if cl == nil {
			if v.p != nil {
				panic(unsupported("call of unknown function value"))
			}
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if cl.host != nil {
			return callTarget{bi: cl.host}, vals(fr, args, 0)
		}
		if cl.fn == nil {
			panic(unsupported("call of builtin value " + cl.bi))
		}
		return callTarget{fn: cl.fn, fv: cl.fv}, vals(fr, args, 0)
	}
}

func (c *compiler) call(x *ssa.Call, dst int32) insFn {
	args := c.args(&x.Call)
	if f, ok := x.Call.Value.(*ssa.Function); ok && !x.Call.IsInvoke() {
		fn := c.m.fn(f)
		return func(m *M, fr *Frame) { fr.r[dst] = m.call(fn, vals(fr, args, 0), nil) }
	}
	if f, ok := x.Call.Value.(*ssa.Builtin); ok && !x.Call.IsInvoke() {
		if f.Name() == "recover" {
			return func(m *M, fr *Frame) { fr.r[dst] = m.doRecover() }
		}
		b := c.builtin(f, &x.Call)
		return func(m *M, fr *Frame) { fr.r[dst] = b(m, vals(fr, args, 0)) }
	}
	tgt := c.target(&x.Call)
	return func(m *M, fr *Frame) {
		t, a := tgt(m, fr, args)
		if t.bi != nil {
			fr.r[dst] = t.bi(m, a)
			return
		}
		fr.r[dst] = m.call(t.fn, a, t.fv)
	}
}

func (m *M) doRecover() Value {
	n := len(m.panicFrames)
	if n == 0 || m.deferDepth[n-1] != m.depth {
		return Value{}
	}
	fr := m.panicFrames[n-1]
	if fr.panicing == nil || fr.recov || fr.panicing.exit {
		return Value{}
	}
	fr.recov = true
	return fr.panicing.v
}

func (m *M) method(t *TI, meth *types.Func, key string) *Fn {
	if f, ok := t.ms[key]; ok {
		return f
	}
	f := m.prog.lookupMethod(t.t, meth)
	if f == nil {
		panic(unsupported("no method " + meth.Name() + " on " + t.String()))
	}
	if t.ms == nil {
		t.ms = map[string]*Fn{}
	}
	x := m.fn(f)
	t.ms[key] = x
	return x
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(m *M, args []Value) Value {
	m := c.m
	name := b.Name()
	var t0 *TI
	if len(cc.Args) > 0 {
		t0 = c.tiOf(cc.Args[0])
	}
	switch name {
	case "len":
		switch {
		case t0.str:
			return func(m *M, a []Value) Value { return m.strLen(a[0]) }
		}
		switch u := t0.u.(type) {
		case *types.Slice:
			return func(m *M, a []Value) Value { return I(a[0].sLen()) }
		case *types.Map:
			return func(m *M, a []Value) Value {
				mo, _ := a[0].p.(*MapObj)
				if mo == nil {
					return I(0)
				}
				return I(m.mrd(mo).n)
			}
		case *types.Array:
			return func(m *M, a []Value) Value { return I(int(u.Len())) }
		case *types.Pointer:
			n := u.Elem().Underlying().(*types.Array).Len()
			return func(m *M, a []Value) Value { return I(int(n)) }
		}
	case "cap":
		switch u := t0.u.(type) {
		case *types.Slice:
			return func(m *M, a []Value) Value { return I(a[0].sCap()) }
		case *types.Array:
			return func(m *M, a []Value) Value { return I(int(u.Len())) }
		}
	case "append":
		et := t0.elem
		if et == nil {
			break
		}
		strArg := len(cc.Args) > 1 && c.tiOf(cc.Args[1]).str
		return func(m *M, a []Value) Value {
			s := a[0]
			var src []Value
			n := 0
			if strArg {
				src = m.strBytes(a[1])
				n = len(src)
			} else if a[1].p != nil {
				n = a[1].sLen()
				src = m.rd(a[1].obj())[a[1].sOff() : a[1].sOff()+n*et.slots]
			}
			if n == 0 {
				return s
			}
			return m.appendVals(s, src, n, et.slots)
		}
	case "copy":
		strArg := c.tiOf(cc.Args[1]).str
		esz := t0.elem.slots
		return func(m *M, a []Value) Value {
			n := a[0].sLen()
			var src []Value
			if strArg {
				src = m.strBytes(a[1])
				if len(src) < n {
					n = len(src)
				}
			} else {
				if a[1].sLen() < n {
					n = a[1].sLen()
				}
				if n > 0 {
					src = append([]Value(nil), m.rd(a[1].obj())[a[1].sOff():a[1].sOff()+n*esz]...)
				}
			}
			if n > 0 {
				d := m.wr(a[0].obj())
				copy(d[a[0].sOff():a[0].sOff()+n*esz], src)
			}
			return I(n)
		}
	case "delete":
		mt := t0.u.(*types.Map)
		return func(m *M, a []Value) Value { m.mapDelete(a[0], a[1], mt); return Value{} }
	case "clear":
		switch t0.u.(type) {
		case *types.Map:
			return func(m *M, a []Value) Value {
				if mo, _ := a[0].p.(*MapObj); mo != nil {
					d := m.mwr(mo)
					*d = *newMapData()
				}
				return Value{}
			}
		case *types.Slice:
			esz := t0.elem.slots
			return func(m *M, a []Value) Value {
				if a[0].p != nil {
					s := m.wr(a[0].obj())
					for i := 0; i < a[0].sLen()*esz; i++ {
						s[a[0].sOff()+i] = Value{}
					}
				}
				return Value{}
			}
		}
	case "panic":
		return func(m *M, a []Value) Value { panic(&TPanic{v: a[0], msg: m.panicMsg(a[0]), at: m.where()}) }
	case "recover":
		return func(m *M, a []Value) Value { return m.doRecover() }
	case "print", "println":
		return func(m *M, a []Value) Value { return Value{} }
	case "min", "max":
		w, sg, fl := t0.w, t0.signed, t0.float
		if t0.scalar && !fl {
			op := OUlt
			if sg {
				op = OSlt
			}
			return func(m *M, a []Value) Value {
				r := m.symOf(a[0], w)
				for _, v := range a[1:] {
					t := m.symOf(v, w)
					if name == "min" {
						r = m.tb.Ite(m.tb.Cmp(op, t, r), t, r)
					} else {
						r = m.tb.Ite(m.tb.Cmp(op, r, t), t, r)
					}
				}
				return sv(r)
			}
		}
	case "ssa:wrapnilchk":
		return func(m *M, a []Value) Value {
			if a[0].p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			return a[0]
		}
	case "String": // unsafe.String(ptr, len)
		return func(m *M, a []Value) Value {
			n := int(m.concretize(a[1], 64))
			if n == 0 {
				return Value{}
			}
			o := a[0].obj()
			if o == nil {
				panic(unsupported("unsafe.String"))
			}
			return strOf(m.rd(o)[int(a[0].n) : int(a[0].n)+n])
		}
	case "StringData":
		return func(m *M, a []Value) Value {
			b := m.strBytes(a[0])
			if len(b) == 0 {
				return Value{}
			}
			o := m.newObj(len(b))
			copy(o.s, b)
			return Value{p: o}
		}
	case "SliceData":
		return func(m *M, a []Value) Value {
			if a[0].p == nil {
				return Value{}
			}
			return Value{uint64(a[0].sOff()), a[0].p}
		}
	case "Slice": // unsafe.Slice
		return func(m *M, a []Value) Value {
			n := int(m.concretize(a[1], 64))
			if a[0].p == nil {
				return Value{}
			}
			return mkSlice(a[0].obj(), int(a[0].n), n, n)
		}
	}
	_ = m
	fnName := c.fn.name
	return func(m *M, a []Value) Value { panic(unsupported("builtin " + name + " in " + fnName)) }
}

func (m *M) appendVals(s Value, src []Value, n, esz int) Value {
	ln, cp, off := s.sLen(), s.sCap(), s.sOff()
	if s.p != nil && ln+n <= cp {
		tmp := append([]Value(nil), src...)
		d := m.wr(s.obj())
		copy(d[off+ln*esz:], tmp)
		return mkSlice(s.obj(), off, ln+n, cp)
	}
	nc := cp * 2
	if nc < ln+n {
		nc = ln + n
	}
	if nc < 4 && esz*nc < 8 {
		nc = 4
	}
	// Go rounds capacities to size classes; 8 bytes is the smallest for byte slices.
	if esz == 1 && nc < 8 {
		nc = 8
	}
	o := m.newObj(nc * esz)
	if s.p != nil {
		copy(o.s, m.rd(s.obj())[off:off+ln*esz])
	}
	copy(o.s[ln*esz:], src)
	return mkSlice(o, 0, ln+n, nc)
}

func (m *M) runeToStr(v Value, w Sort, signed bool) Value {
	if v.p == nil {
		return S(string(rune(int32(sx(v.n, w)))))
	}
	t := m.symOf(v, w)
	t = m.tb.Conv(t, 32, signed)
	c := func(n uint64) *Term { return m.tb.Const(32, n) }
	in := func(lo, hi uint64) *Term {
		return m.tb.And(m.tb.Cmp(OUle, c(lo), t), m.tb.Cmp(OUle, t, c(hi)))
	}
	sur := in(0xd800, 0xdfff)
	one := m.tb.Cmp(OUlt, t, c(0x80))
	two := in(0x80, 0x7ff)
	three := m.tb.And(in(0x800, 0xffff), m.tb.Not(sur))
	four := in(0x10000, 0x10ffff)
	rest := m.tb.Not(m.tb.Or(m.tb.Or(one, two), m.tb.Or(three, four)))
	sh := func(n uint64) *Term { return m.tb.Bin(OLshr, t, c(n)) }
	by := func(x *Term, msk, or uint64) Value {
		return sv(m.tb.Conv(m.tb.Bin(OBOr, m.tb.Bin(OBAnd, x, c(msk)), c(or)), 8, false))
	}
	switch m.decideN([]*Term{one, two, three, four, rest}) {
	case 0:
		return strOf([]Value{sv(m.tb.Conv(t, 8, false))})
	case 1:
		return strOf([]Value{by(sh(6), 0x1f, 0xc0), by(t, 0x3f, 0x80)})
	case 2:
		return strOf([]Value{by(sh(12), 0x0f, 0xe0), by(sh(6), 0x3f, 0x80), by(t, 0x3f, 0x80)})
	case 3:
		return strOf([]Value{by(sh(18), 7, 0xf0), by(sh(12), 0x3f, 0x80), by(sh(6), 0x3f, 0x80), by(t, 0x3f, 0x80)})
	}
	return S("\uFFFD")
}

// decodeRune decodes the first rune of b (len(b)>0), forking over its encoding length.
func (m *M) decodeRune(b []Value) (Value, int) {
	if b[0].p == nil {
		if b[0].n < 0x80 {
			return U(b[0].n), 1
		}
		conc := true
		var raw []byte
		for i := 0; i < len(b) && i < 4; i++ {
			if b[i].p != nil {
				conc = false
				break
			}
			raw = append(raw, byte(b[i].n))
		}
		if conc || len(raw) > 0 && fullRune(raw) {
			r, n := decodeHost(raw)
			return U(uint64(uint32(r))), n
		}
	}
	tb := m.tb
	t := func(i int) *Term { return m.symOf(b[i], 8) }
	in := func(x *Term, lo, hi uint64) *Term {
		return tb.And(tb.Cmp(OUle, tb.Const(8, lo), x), tb.Cmp(OUle, x, tb.Const(8, hi)))
	}
	b0 := t(0)
	one := tb.Cmp(OUlt, b0, tb.Const(8, 0x80))
	two, three, four := tb.False, tb.False, tb.False
	if len(b) >= 2 {
		two = tb.And(in(b0, 0xc2, 0xdf), in(t(1), 0x80, 0xbf))
	}
	is := func(n uint64) *Term { return tb.Eq(b0, tb.Const(8, n)) }
	if len(b) >= 3 {
		s := tb.Or(tb.And(is(0xe0), in(t(1), 0xa0, 0xbf)), tb.And(is(0xed), in(t(1), 0x80, 0x9f)))
		s = tb.Or(s, tb.And(tb.Or(in(b0, 0xe1, 0xec), in(b0, 0xee, 0xef)), in(t(1), 0x80, 0xbf)))
		three = tb.And(s, in(t(2), 0x80, 0xbf))
	}
	if len(b) >= 4 {
		s := tb.Or(tb.And(is(0xf0), in(t(1), 0x90, 0xbf)), tb.And(is(0xf4), in(t(1), 0x80, 0x8f)))
		s = tb.Or(s, tb.And(in(b0, 0xf1, 0xf3), in(t(1), 0x80, 0xbf)))
		four = tb.And(s, tb.And(in(t(2), 0x80, 0xbf), in(t(3), 0x80, 0xbf)))
	}
	bad := tb.Not(tb.Or(tb.Or(one, two), tb.Or(three, four)))
	w := func(i int, msk uint64, sh uint64) *Term {
		return tb.Bin(OShl, tb.Bin(OBAnd, tb.Conv(t(i), 32, false), tb.Const(32, msk)), tb.Const(32, sh))
	}
	or := func(xs ...*Term) *Term {
		r := xs[0]
		for _, x := range xs[1:] {
			r = tb.Bin(OBOr, r, x)
		}
		return r
	}
	switch m.decideN([]*Term{one, two, three, four, bad}) {
	case 0:
		return sv(tb.Conv(b0, 32, false)), 1
	case 1:
		return sv(or(w(0, 0x1f, 6), w(1, 0x3f, 0))), 2
	case 2:
		return sv(or(w(0, 0x0f, 12), w(1, 0x3f, 6), w(2, 0x3f, 0))), 3
	case 3:
		return sv(or(w(0, 7, 18), w(1, 0x3f, 12), w(2, 0x3f, 6), w(3, 0x3f, 0))), 4
	}
	return U(0xfffd), 1
}
