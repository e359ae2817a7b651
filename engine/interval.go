package main

import "math/bits"

// Interval reasoning over the domains of the path: a condition whose interval
// excludes true has no model. It only ever refutes; everything else goes to
// the solver, and so do all assertions.

type ival struct{ lo, hi uint64 } // unsigned; of booleans {0,0}, {1,1} or {0,1}

var (
	bFalse = ival{0, 0}
	bTrue  = ival{1, 1}
	bAny   = ival{0, 1}
)

func (m *M) refuted(t *Term) bool {
	return m.interval(t, map[*Term]ival{}) == bFalse
}

// settled tells whether the path decides a condition.
func (m *M) settled(t *Term) ival {
	v := m.tb.support(t)
	if v >= 0 && m.dom(v) == nil {
		return bAny
	}
	if v < 0 && len(m.doms) == 0 {
		return bAny
	}
	return m.interval(t, map[*Term]ival{})
}

// sumOf tells whether s is a sum with the operand a that does not wrap.
func (m *M) sumOf(s, a *Term, memo map[*Term]ival) bool {
	if s.op != OAdd || s.a != a && s.b != a {
		return false
	}
	x, y := m.interval(s.a, memo), m.interval(s.b, memo)
	hi, c := bits.Add64(x.hi, y.hi, 0)
	return c == 0 && hi <= mask(s.s)
}

func join(a, b ival) ival {
	return ival{min(a.lo, b.lo), max(a.hi, b.hi)}
}

func (m *M) interval(t *Term, memo map[*Term]ival) ival {
	if t.isConst() {
		return ival{t.k, t.k}
	}
	if t.s > 64 {
		return ival{0, ^uint64(0)}
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := m.interval1(t, memo)
	memo[t] = r
	return r
}

func (m *M) interval1(t *Term, memo map[*Term]ival) ival {
	full := bAny
	if t.s != SBool {
		full = ival{0, mask(t.s)}
	}
	if d := m.dom(m.tb.support(t)); d != nil {
		u := m.values(t, d)
		r, any := ival{}, false
		for i := 0; i < d.n; i++ {
			if !d.mask.has(i) {
				continue
			}
			var x uint64
			if t.s == SBool {
				if u.set.has(i) {
					x = 1
				}
			} else {
				x = u.vals[i]
			}
			if !any {
				r, any = ival{x, x}, true
			} else {
				r = join(r, ival{x, x})
			}
		}
		if any {
			return r
		}
		return full
	}
	if t.op == OVar || t.a == nil || t.a.s > 64 {
		return full
	}
	switch t.op {
	case OIte:
		switch m.interval(t.a, memo) {
		case bTrue:
			return m.interval(t.b, memo)
		case bFalse:
			return m.interval(t.c, memo)
		}
		return join(m.interval(t.b, memo), m.interval(t.c, memo))
	case OZext:
		return m.interval(t.a, memo)
	case ONot:
		x := m.interval(t.a, memo)
		return ival{1 - x.hi, 1 - x.lo}
	case OAnd:
		x := m.interval(t.a, memo)
		if x == bFalse {
			return x
		}
		y := m.interval(t.b, memo)
		return ival{x.lo & y.lo, x.hi & y.hi}
	case OOr:
		x := m.interval(t.a, memo)
		if x == bTrue {
			return x
		}
		y := m.interval(t.b, memo)
		return ival{x.lo | y.lo, x.hi | y.hi}
	case OAdd:
		x, y := m.interval(t.a, memo), m.interval(t.b, memo)
		hi, c := bits.Add64(x.hi, y.hi, 0)
		if c == 0 && hi <= full.hi {
			return ival{x.lo + y.lo, hi}
		}
	case OSub:
		x, y := m.interval(t.a, memo), m.interval(t.b, memo)
		if x.lo >= y.hi {
			return ival{x.lo - y.hi, x.hi - y.lo}
		}
	case OMul:
		x, y := m.interval(t.a, memo), m.interval(t.b, memo)
		over, hi := bits.Mul64(x.hi, y.hi)
		if over == 0 && hi <= full.hi {
			return ival{x.lo * y.lo, hi}
		}
	case OLshr:
		if x, k := m.interval(t.a, memo), t.b; k.isConst() && k.k < uint64(t.s) {
			return ival{x.lo >> k.k, x.hi >> k.k}
		}
	case OEq:
		x, y := m.interval(t.a, memo), m.interval(t.b, memo)
		if x.hi < y.lo || y.hi < x.lo {
			return bFalse
		}
		if x.lo == x.hi && x == y {
			return bTrue
		}
	case OUlt, OUle, OSlt, OSle:
		x, y := m.interval(t.a, memo), m.interval(t.b, memo)
		if t.op == OSlt || t.op == OSle {
			if h := mask(t.a.s) >> 1; x.hi > h || y.hi > h {
				return full
			}
		}
		strict := t.op == OUlt || t.op == OSlt
		if strict && m.sumOf(t.a, t.b, memo) { // a+b < a
			return bFalse
		}
		if !strict && m.sumOf(t.b, t.a, memo) { // a <= a+b
			return bTrue
		}
		switch {
		case x.hi < y.lo || !strict && x.hi == y.lo:
			return bTrue
		case x.lo > y.hi || strict && x.lo == y.hi:
			return bFalse
		}
	}
	return full
}
