package main

// Exact reasoning about conditions over one variable of a small domain: the
// set of its values that satisfy the condition is computed once per term. It
// answers most branch feasibility questions without the solver; a condition
// that is not refuted this way and that no changed model witnesses goes to Z3.
// Assertions never end here, see M.assert.

const domMax = 256

type domSet [4]uint64

func (d *domSet) has(i int) bool { return d[i>>6]>>(uint(i)&63)&1 == 1 }
func (d *domSet) and(e *domSet) (r domSet) {
	for i := range r {
		r[i] = d[i] & e[i]
	}
	return
}
func (d *domSet) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }

// domain of a variable: n values from lo, 0 if it is not small.
type domain struct {
	lo   uint64
	n    int
	mask domSet
}

// unary caches what is known of a term over its only variable.
type unary struct {
	v    int    // the variable, -1 none, -2 several
	lo   uint64 // domain the values are for
	n    int
	set  domSet   // of conditions
	vals []uint64 // of other terms
}

func (tb *TB) support(t *Term) int {
	if t.un != nil {
		return t.un.v
	}
	v := -1
	if t.op == OVar {
		v = int(t.k)
	} else {
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x == nil {
				continue
			}
			if w := tb.support(x); w != -1 {
				if v == -1 || v == w {
					v = w
				} else {
					v = -2
				}
			}
		}
	}
	t.un = &unary{v: v, n: -1}
	return v
}

// values evaluates the term for every value of its variable.
func (m *M) values(t *Term, d *domain) *unary {
	u := t.un
	if u.n == d.n && u.lo == d.lo {
		return u
	}
	u.n, u.lo, u.set, u.vals = d.n, d.lo, domSet{}, nil
	for len(m.scratch) <= u.v {
		m.scratch = append(m.scratch, 0)
	}
	if t.s != SBool {
		u.vals = make([]uint64, d.n)
	}
	for i := 0; i < d.n; i++ {
		m.scratch[u.v] = d.lo + uint64(i)
		x := m.tb.Eval(t, m.scratch)
		if t.s != SBool {
			u.vals[i] = x
		} else if x == 1 {
			u.set[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	return u
}

func (m *M) dom(v int) *domain {
	if v < 0 || v >= len(m.doms) || m.doms[v].n == 0 {
		return nil
	}
	return &m.doms[v]
}

func (m *M) newDom(lo uint64, n int) {
	d := domain{lo: lo}
	if n > 0 && n <= domMax {
		d.n = n
		for i := 0; i < n; i++ {
			d.mask[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	m.doms = append(m.doms, d)
}

// narrow notes a condition of the path.
func (m *M) narrow(t *Term) {
	if t.op == OAnd {
		m.narrow(t.a)
		m.narrow(t.b)
		return
	}
	if d := m.dom(m.tb.support(t)); d != nil {
		d.mask = d.mask.and(&m.values(t, d).set)
		return
	}
	m.multi = append(m.multi, t)
}

func conjuncts(t *Term, out []*Term) []*Term {
	if t.op == OAnd {
		return conjuncts(t.b, conjuncts(t.a, out))
	}
	return append(out, t)
}

// quick decides whether the path allows t; ok is false if it cannot tell.
func (m *M) quick(t *Term) (res Res, mod Model, ok bool) {
	v, mask := -1, domSet{}
	for _, c := range conjuncts(t, m.conj[:0]) {
		w := m.tb.support(c)
		d := m.dom(w)
		if d == nil {
			v = -2
			continue
		}
		set := d.mask.and(&m.values(c, d).set)
		switch {
		case v == -1:
			v, mask = w, set
		case v == w:
			mask = mask.and(&set)
		default:
			v = -2
		}
		if set.empty() || v == w && mask.empty() {
			return RUnsat, nil, true
		}
	}
	if v < 0 {
		if m.refuted(t) {
			return RUnsat, nil, true
		}
		return
	}
	d := &m.doms[v]
	mod = append(Model(nil), m.model...)
	tries := 0
	for i := 0; i < d.n && tries < 4; i++ {
		if !mask.has(i) {
			continue
		}
		tries++
		mod[v] = d.lo + uint64(i)
		good := true
		m.tb.stamp++
		for _, c := range m.multi {
			if m.tb.eval(c, mod) != 1 {
				good = false
				break
			}
		}
		if good {
			return RSat, mod, true
		}
	}
	return
}

// tabulate writes a costly term over one variable that has few values on this
// path as the choice among its results.
func (m *M) tabulate(t *Term) *Term {
	if t.isConst() || t.op == OIte {
		return t
	}
	d := m.dom(m.tb.support(t))
	if d == nil {
		return t
	}
	x := m.tb.mk(OVar, m.vars[t.un.v].s, uint64(t.un.v), nil, nil, nil)
	vals := m.values(t, d).vals
	var r *Term
	n := 0
	for i := d.n - 1; i >= 0; i-- {
		if !d.mask.has(i) {
			continue
		}
		if n++; n > 32 {
			return t
		}
		c := m.tb.Const(t.s, vals[i])
		if r == nil {
			r = c
		} else if r != c {
			r = m.tb.Ite(m.tb.Eq(x, m.tb.Const(x.s, d.lo+uint64(i))), c, r)
		}
	}
	if r == nil {
		return t
	}
	return r
}
