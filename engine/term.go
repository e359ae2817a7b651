package main

import (
	"fmt"
	"math"
	"math/bits"
)

// Sort: 0 is Bool, 1..64 is a bit-vector of that width, FP32/FP64 are IEEE floats.
type Sort uint8

const (
	SBool Sort = 0
	SF32  Sort = 132
	SF64  Sort = 164
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // k = lo, sort gives width
	OZext
	OSext
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OFFromBits
	OFCvt // float -> float
	OSToF // signed bv -> float
	OUToF // unsigned bv -> float
	OFToS // float -> signed bv (in range)
	OFToU // float -> unsigned bv
	OFIsNaN
	OFToBits
	OFRound // to an integral value: k is 0 towards zero, 1 down, 2 up, 3 to even
)

var opNames = [...]string{"const", "var", "not", "and", "or", "ite", "=", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "~", "neg", "shl", "lshr", "ashr", "ult", "ule", "slt", "sle", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "fneg", "feq", "flt", "fle", "frombits", "fcvt", "stof", "utof", "ftos", "ftou", "isnan", "tobits", "round"}

// Term is a hash-consed node of one worker's term table.
type Term struct {
	op      Op
	s       Sort
	k       uint64
	a, b, c *Term
	id      uint32
	stamp   uint32
	ev      uint64
	z       zast
	un      *unary
}

type tkey struct {
	op      Op
	s       Sort
	k       uint64
	a, b, c uint32
}

type TB struct {
	tab   map[tkey]*Term
	dist  map[tkey]*Term // results of distrib
	next  uint32
	stamp uint32
	True  *Term
	False *Term
}

func NewTB() *TB {
	tb := &TB{tab: map[tkey]*Term{}, dist: map[tkey]*Term{}, next: 1}
	tb.True = tb.Const(SBool, 1)
	tb.False = tb.Const(SBool, 0)
	return tb
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (tb *TB) mk(op Op, s Sort, k uint64, a, b, c *Term) *Term {
	key := tkey{op, s, k, tid(a), tid(b), tid(c)}
	if t, ok := tb.tab[key]; ok {
		return t
	}
	t := &Term{op: op, s: s, k: k, a: a, b: b, c: c, id: tb.next}
	tb.next++
	tb.tab[key] = t
	return t
}

func mask(w Sort) uint64 {
	if w == SBool {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tb *TB) Const(s Sort, k uint64) *Term {
	if s <= 64 {
		k &= mask(s)
	}
	if s == SF32 {
		k &= 0xffffffff
	}
	return tb.mk(OConst, s, k, nil, nil, nil)
}

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

func (tb *TB) Var(s Sort, idx int) *Term { return tb.mk(OVar, s, uint64(idx), nil, nil, nil) }

func (t *Term) isConst() bool { return t.op == OConst }

func (tb *TB) Not(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return tb.mk(ONot, SBool, 0, a, nil, nil)
}

func (tb *TB) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tb.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OAnd, SBool, 0, a, b, nil)
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tb.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OOr, SBool, 0, a, b, nil)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tb.Ite(c.a, b, a)
	}
	if a.s == SBool {
		if a.isConst() {
			if a.k == 1 {
				return tb.Or(c, b)
			}
			return tb.And(tb.Not(c), b)
		}
		if b.isConst() {
			if b.k == 1 {
				return tb.Or(tb.Not(c), a)
			}
			return tb.And(c, a)
		}
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.b == a { // ite(c,a,ite(d,a,e)) = ite(c|d,a,e)
		return tb.Ite(tb.Or(c, b.a), a, b.c)
	}
	return tb.mk(OIte, a.s, 0, c, a, b)
}

func iteConstLeaves(t *Term, budget *int) bool {
	if *budget <= 0 {
		return false
	}
	*budget--
	if t.isConst() {
		return true
	}
	if t.op == OIte {
		return (t.b.isConst() || iteConstLeaves(t.b, budget)) && (t.c.isConst() || iteConstLeaves(t.c, budget))
	}
	return false
}

func (tb *TB) mapIte(t *Term, memo map[*Term]*Term, f func(*Term) *Term) *Term {
	if t.op != OIte {
		return f(t)
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := tb.Ite(t.a, tb.mapIte(t.b, memo, f), tb.mapIte(t.c, memo, f))
	memo[t] = r
	return r
}

// distribute a binary predicate/op with a constant over an ite tree with constant leaves
func (tb *TB) distrib(op Op, a, b *Term, f func(a, b *Term) *Term) (*Term, bool) {
	if !(a.op == OIte && b.isConst() || b.op == OIte && a.isConst()) {
		return nil, false
	}
	key := tkey{op, 0, 0, a.id, b.id, 0}
	if r, ok := tb.dist[key]; ok {
		return r, r != nil
	}
	r, ok := tb.distrib1(a, b, f)
	tb.dist[key] = r
	return r, ok
}

func (tb *TB) distrib1(a, b *Term, f func(a, b *Term) *Term) (*Term, bool) {
	if a.op == OIte && b.isConst() {
		n := 300
		if iteConstLeaves(a, &n) {
			return tb.mapIte(a, map[*Term]*Term{}, func(x *Term) *Term { return f(x, b) }), true
		}
	}
	if b.op == OIte && a.isConst() {
		n := 300
		if iteConstLeaves(b, &n) {
			return tb.mapIte(b, map[*Term]*Term{}, func(x *Term) *Term { return f(a, x) }), true
		}
	}
	return nil, false
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b && a.s != SF32 && a.s != SF64 {
		return tb.True
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.k == b.k)
	}
	if a.s == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return tb.Not(a)
		}
		return tb.Or(tb.And(a, b), tb.And(tb.Not(a), tb.Not(b)))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.k&^mask(a.a.s) != 0 {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(a.a.s, b.k))
		case OSext:
			lo := b.k & mask(a.a.s)
			if uint64(sx(lo, a.a.s))&mask(a.s) != b.k {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(a.a.s, lo))
		case OAdd:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(a.s, b.k-a.b.k))
			}
		case OIte:
			if r, ok := tb.distrib(OEq, a, b, tb.Eq); ok {
				return r
			}
			if a.b.isConst() {
				if a.b.k == b.k {
					return tb.Or(a.a, tb.Eq(a.c, b))
				}
				return tb.And(tb.Not(a.a), tb.Eq(a.c, b))
			}
		}
		return tb.mk(OEq, SBool, 0, a, b, nil)
	}
	if a.op == OZext && b.op == OZext && a.a.s == b.a.s {
		return tb.Eq(a.a, b.a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OEq, SBool, 0, a, b, nil)
}

func evalBin(op Op, s Sort, x, y uint64) (uint64, bool) {
	m := mask(s)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		a, b := sx(x, s), sx(y, s)
		if b == 0 {
			if a >= 0 {
				return m, true
			}
			return 1, true
		}
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OSRem:
		a, b := sx(x, s), sx(y, s)
		if b == 0 {
			return x, true
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(s) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(s) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(s) {
			y = uint64(s) - 1
		}
		return uint64(sx(x, s)>>y) & m, true
	}
	return 0, false
}

func evalCmp(op Op, s Sort, x, y uint64) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sx(x, s) < sx(y, s)
	case OSle:
		return sx(x, s) <= sx(y, s)
	}
	panic("evalCmp")
}

// Bin builds a bit-vector binary operation.
func (tb *TB) Bin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		r, _ := evalBin(op, a.s, a.k, b.k)
		return tb.Const(a.s, r)
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return tb.Bin(OAdd, a.a, tb.Const(a.s, a.b.k+b.k))
			}
		}
	case OSub:
		if b.isConst() {
			return tb.Bin(OAdd, a, tb.Const(a.s, -b.k))
		}
		if a == b {
			return tb.Const(a.s, 0)
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(b.s) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return tb.Const(a.s, 0)
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.k == 0 {
			return a
		}
	case OUDiv:
		if b.isConst() && b.k == 1 {
			return a
		}
	}
	if r, ok := tb.distrib(op, a, b, func(x, y *Term) *Term { return tb.Bin(op, x, y) }); ok {
		return r
	}
	return tb.mk(op, a.s, 0, a, b, nil)
}

// range of possible unsigned values, cheap bound
func urange(t *Term) (uint64, uint64) {
	if t.isConst() {
		return t.k, t.k
	}
	if t.op == OZext {
		return urange(t.a)
	}
	return 0, mask(t.s)
}

func (tb *TB) Cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Bool(evalCmp(op, a.s, a.k, b.k))
	}
	if a == b {
		return tb.Bool(op == OUle || op == OSle)
	}
	if r, ok := tb.distrib(op, a, b, func(x, y *Term) *Term { return tb.Cmp(op, x, y) }); ok {
		return r
	}
	// signed comparison of zero-extended operands
	nonneg := func(t *Term) bool {
		if t.isConst() {
			return sx(t.k, t.s) >= 0
		}
		return t.op == OZext && t.s > t.a.s
	}
	if (op == OSlt || op == OSle) && nonneg(a) && nonneg(b) {
		if op == OSlt {
			op = OUlt
		} else {
			op = OUle
		}
	}
	if (op == OSlt || op == OSle) && nonneg(a) && b.isConst() { // b negative
		return tb.False
	}
	if (op == OSlt || op == OSle) && nonneg(b) && a.isConst() {
		return tb.True
	}
	if op == OUlt || op == OUle {
		al, ah := urange(a)
		bl, bh := urange(b)
		if op == OUlt {
			if ah < bl {
				return tb.True
			}
			if al >= bh {
				return tb.False
			}
		} else {
			if ah <= bl {
				return tb.True
			}
			if al > bh {
				return tb.False
			}
		}
		if a.op == OZext && b.isConst() {
			return tb.Cmp(op, a.a, tb.Const(a.a.s, b.k))
		}
		if b.op == OZext && a.isConst() {
			return tb.Cmp(op, tb.Const(b.a.s, a.k), b.a)
		}
		if a.op == OZext && b.op == OZext && a.a.s == b.a.s {
			return tb.Cmp(op, a.a, b.a)
		}
	}
	return tb.mk(op, SBool, 0, a, b, nil)
}

func (tb *TB) BNot(a *Term) *Term {
	if a.isConst() {
		return tb.Const(a.s, ^a.k)
	}
	return tb.mk(OBNot, a.s, 0, a, nil, nil)
}

func (tb *TB) Neg(a *Term) *Term {
	if a.isConst() {
		return tb.Const(a.s, -a.k)
	}
	return tb.mk(ONeg, a.s, 0, a, nil, nil)
}

// Conv converts a bit-vector to width w (signed tells how to extend).
func (tb *TB) Conv(a *Term, w Sort, signed bool) *Term {
	if a.s == w {
		return a
	}
	if a.isConst() {
		if signed && w > a.s {
			return tb.Const(w, uint64(sx(a.k, a.s)))
		}
		return tb.Const(w, a.k)
	}
	if a.op == OIte {
		n := 300
		if iteConstLeaves(a, &n) {
			return tb.mapIte(a, map[*Term]*Term{}, func(x *Term) *Term { return tb.Conv(x, w, signed) })
		}
	}
	if w < a.s {
		if a.op == OZext || a.op == OSext {
			if a.a.s >= w {
				return tb.Conv(a.a, w, false)
			}
			return tb.Conv(a.a, w, a.op == OSext)
		}
		return tb.mk(OExtract, w, 0, a, nil, nil)
	}
	if a.op == OZext {
		return tb.Conv(a.a, w, false)
	}
	if signed {
		return tb.mk(OSext, w, 0, a, nil, nil)
	}
	return tb.mk(OZext, w, 0, a, nil, nil)
}

func f64(k uint64) float64 { return math.Float64frombits(k) }
func f32(k uint64) float32 { return math.Float32frombits(uint32(k)) }

func fbin(op Op, s Sort, x, y uint64) uint64 {
	if s == SF64 {
		a, b := f64(x), f64(y)
		switch op {
		case OFAdd:
			a += b
		case OFSub:
			a -= b
		case OFMul:
			a *= b
		case OFDiv:
			a /= b
		}
		return math.Float64bits(a)
	}
	a, b := f32(x), f32(y)
	switch op {
	case OFAdd:
		a += b
	case OFSub:
		a -= b
	case OFMul:
		a *= b
	case OFDiv:
		a /= b
	}
	return uint64(math.Float32bits(a))
}

func fval(s Sort, x uint64) float64 {
	if s == SF64 {
		return f64(x)
	}
	return float64(f32(x))
}

func fcmp(op Op, s Sort, x, y uint64) bool {
	a, b := fval(s, x), fval(s, y)
	switch op {
	case OFEq:
		return a == b
	case OFLt:
		return a < b
	case OFLe:
		return a <= b
	}
	panic("fcmp")
}

func (tb *TB) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Const(a.s, fbin(op, a.s, a.k, b.k))
	}
	return tb.mk(op, a.s, 0, a, b, nil)
}

// notNaN recognises some terms that are never NaN.
func notNaN(t *Term) bool {
	switch t.op {
	case OConst:
		return !math.IsNaN(fval(t.s, t.k))
	case OUToF, OSToF:
		return true
	case OFDiv:
		return (t.a.op == OUToF || t.a.op == OSToF) && t.b.isConst() && notNaN(t.b) && fval(t.b.s, t.b.k) != 0
	}
	return false
}

func (tb *TB) FCmp(op Op, a, b *Term) *Term {
	if a == b && op != OFLt && notNaN(a) {
		return tb.True
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(fcmp(op, a.s, a.k, b.k))
	}
	return tb.mk(op, SBool, 0, a, b, nil)
}

func (tb *TB) Un(op Op, s Sort, a *Term) *Term {
	t := tb.mk(op, s, 0, a, nil, nil)
	if a.isConst() {
		tb.stamp++
		return tb.Const(s, tb.eval(t, nil))
	}
	return t
}

// Round rounds a float to an integral value.
func (tb *TB) Round(mode uint64, a *Term) *Term {
	t := tb.mk(OFRound, a.s, mode, a, nil, nil)
	if a.isConst() {
		tb.stamp++
		return tb.Const(a.s, tb.eval(t, nil))
	}
	return t
}

// FToInt converts a float to an integer as the machine does: towards zero, and
// out of range to the most negative integer of 32 or 64 bits.
func (tb *TB) FToInt(a *Term, w Sort, signed bool) *Term {
	if a.s == SF32 {
		a = tb.Un(OFCvt, SF64, a)
	}
	f := func(x float64) *Term { return tb.Const(SF64, math.Float64bits(x)) }
	cw := Sort(64)
	if signed && w <= 32 {
		cw = 32
	}
	lim := math.Ldexp(1, int(cw)-1)
	low := tb.FCmp(OFLe, f(-lim), a)
	if cw == 32 {
		low = tb.FCmp(OFLt, f(-lim-1), a)
	}
	worst := tb.Const(cw, 1<<(cw-1))
	r := tb.Ite(tb.And(low, tb.FCmp(OFLt, a, f(lim))), tb.Un(OFToS, cw, a), worst)
	if !signed && w == 64 {
		r = tb.Ite(tb.FCmp(OFLe, f(lim), a), tb.Ite(tb.FCmp(OFLt, a, f(2*lim)), tb.Un(OFToU, 64, a), worst), r)
	}
	if w < cw {
		r = tb.Conv(r, w, false)
	}
	return r
}

// Model assigns values to variables by index.
type Model []uint64

func (tb *TB) Eval(t *Term, m Model) uint64 {
	tb.stamp++
	return tb.eval(t, m)
}

func (tb *TB) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.stamp == tb.stamp {
		return t.ev
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		if int(t.k) < len(m) {
			r = m[t.k]
			if t.s <= 64 {
				r &= mask(t.s)
			}
		}
	case ONot:
		r = 1 - tb.eval(t.a, m)
	case OAnd:
		if tb.eval(t.a, m) == 1 {
			r = tb.eval(t.b, m)
		}
	case OOr:
		r = 1
		if tb.eval(t.a, m) == 0 {
			r = tb.eval(t.b, m)
		}
	case OIte:
		if tb.eval(t.a, m) == 1 {
			r = tb.eval(t.b, m)
		} else {
			r = tb.eval(t.c, m)
		}
	case OEq:
		r = b2u(tb.eval(t.a, m) == tb.eval(t.b, m))
	case OUlt, OUle, OSlt, OSle:
		r = b2u(evalCmp(t.op, t.a.s, tb.eval(t.a, m), tb.eval(t.b, m)))
	case OBNot:
		r = ^tb.eval(t.a, m) & mask(t.s)
	case ONeg:
		r = -tb.eval(t.a, m) & mask(t.s)
	case OExtract:
		r = (tb.eval(t.a, m) >> t.k) & mask(t.s)
	case OZext:
		r = tb.eval(t.a, m)
	case OSext:
		r = uint64(sx(tb.eval(t.a, m), t.a.s)) & mask(t.s)
	case OFAdd, OFSub, OFMul, OFDiv:
		r = fbin(t.op, t.s, tb.eval(t.a, m), tb.eval(t.b, m))
	case OFNeg:
		v := tb.eval(t.a, m)
		if t.s == SF64 {
			r = v ^ (1 << 63)
		} else {
			r = v ^ (1 << 31)
		}
	case OFEq, OFLt, OFLe:
		r = b2u(fcmp(t.op, t.a.s, tb.eval(t.a, m), tb.eval(t.b, m)))
	case OFFromBits, OFToBits:
		r = tb.eval(t.a, m)
	case OFIsNaN:
		v := fval(t.a.s, tb.eval(t.a, m))
		r = b2u(v != v)
	case OFRound:
		v := fval(t.s, tb.eval(t.a, m))
		r = fromF(t.s, []func(float64) float64{math.Trunc, math.Floor, math.Ceil, math.RoundToEven}[t.k](v))
	case OFCvt:
		r = fromF(t.s, fval(t.a.s, tb.eval(t.a, m)))
	case OSToF:
		v := sx(tb.eval(t.a, m), t.a.s)
		if t.s == SF64 {
			r = math.Float64bits(float64(v))
		} else {
			r = uint64(math.Float32bits(float32(v)))
		}
	case OUToF:
		v := tb.eval(t.a, m)
		if t.s == SF64 {
			r = math.Float64bits(float64(v))
		} else {
			r = uint64(math.Float32bits(float32(v)))
		}
	case OFToS:
		r = uint64(int64(fval(t.a.s, tb.eval(t.a, m)))) & mask(t.s)
	case OFToU:
		r = uint64(fval(t.a.s, tb.eval(t.a, m))) & mask(t.s)
	default:
		var ok bool
		r, ok = evalBin(t.op, t.s, tb.eval(t.a, m), tb.eval(t.b, m))
		if !ok {
			panic("eval " + opNames[t.op])
		}
	}
	t.stamp = tb.stamp
	t.ev = r
	return r
}

func fromF(s Sort, v float64) uint64 {
	if s == SF64 {
		return math.Float64bits(v)
	}
	return uint64(math.Float32bits(float32(v)))
}

func (t *Term) String() string { return t.str(8) }
func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	switch t.op {
	case OConst:
		return fmt.Sprintf("%d:%d", t.k, t.s)
	case OVar:
		return fmt.Sprintf("v%d", t.k)
	}
	r := "(" + opNames[t.op]
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			r += " " + x.str(d-1)
		}
	}
	return r + ")"
}

func log2(n int) int { return bits.Len(uint(n)) }
