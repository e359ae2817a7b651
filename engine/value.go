package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one slot. Its meaning depends on the static type:
//
//	scalar     p==nil: n holds the bits (zero-extended); p is *Term when symbolic
//	string     p: nil (""), string, *SymStr or *LStr
//	pointer    p: *Obj, n: slot offset (nil pointer: p==nil)
//	slice      p: *Obj, n: packed offset/len/cap (nil slice: p==nil)
//	aggregate  p: Agg
//	map        p: *MapObj
//	interface  p: *Iface
//	func       p: *Closure
//	tuple      p: Agg (one element per component)
type Value struct {
	n uint64
	p any
}

type Agg []Value

type SymStr struct{ b []Value }

type Iface struct {
	t *TI
	v Value
}

type Closure struct {
	fn   *Fn
	fv   []Value
	bi   string // builtin name, if any
	host func(m *M, args []Value) Value
}

// Obj is a flat block of slots (a variable, array, struct or backing array).
type Obj struct {
	s    []Value
	base bool
	ver  uint64
	sh   []Value
	tag  string // for diagnostics
	rt   *TI    // for reflect.rtype objects
	pois bool   // contents unknown (package initialiser not executed)
}

type MapObj struct {
	base bool
	ver  uint64
	cur  *mapData
	sh   *mapData
}

type mapData struct {
	keys, vals []Value
	live       []bool
	idx        map[string]int
	symKeys    bool
	n          int
}

type poison struct{}

// TI is the canonical descriptor of a type.
type TI struct {
	t      types.Type
	u      types.Type
	id     int
	slots  int
	w      Sort // scalar sort (valid if scalar)
	scalar bool
	signed bool
	float  bool
	str    bool
	agg    bool
	offs   []int // struct field offsets
	elem   *TI
	fields []*TI
	ms     map[string]*Fn // method cache
	isIf   bool
}

type Types struct {
	m     typeutil.Map
	n     int
	cache map[types.Type]*TI
}

func newTypes() *Types { return &Types{cache: map[types.Type]*TI{}} }

func (ts *Types) get(t types.Type) *TI {
	if ti, ok := ts.cache[t]; ok {
		return ti
	}
	t2 := types.Unalias(t)
	if v := ts.m.At(t2); v != nil {
		ti := v.(*TI)
		ts.cache[t] = ti
		return ti
	}
	ts.n++
	ti := &TI{t: t2, u: t2.Underlying(), id: ts.n, slots: 1}
	ts.m.Set(t2, ti)
	ts.cache[t] = ti
	switch u := ti.u.(type) {
	case *types.Basic:
		ti.basic(u)
	case *types.Struct:
		ti.agg = true
		ti.slots = 0
		for i := 0; i < u.NumFields(); i++ {
			f := ts.get(u.Field(i).Type())
			ti.offs = append(ti.offs, ti.slots)
			ti.fields = append(ti.fields, f)
			ti.slots += f.slots
		}
	case *types.Array:
		ti.agg = true
		ti.elem = ts.get(u.Elem())
		ti.slots = int(u.Len()) * ti.elem.slots
	case *types.Interface:
		ti.isIf = true
	case *types.Slice:
		ti.elem = ts.get(u.Elem())
	case *types.Tuple:
		ti.agg = true
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, ts.get(u.At(i).Type()))
		}
	}
	return ti
}

func (ti *TI) basic(b *types.Basic) {
	ti.scalar = true
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		ti.w = SBool
	case types.Int8:
		ti.w, ti.signed = 8, true
	case types.Int16:
		ti.w, ti.signed = 16, true
	case types.Int32, types.UntypedRune:
		ti.w, ti.signed = 32, true
	case types.Int64, types.Int, types.UntypedInt:
		ti.w, ti.signed = 64, true
	case types.Uint8:
		ti.w = 8
	case types.Uint16:
		ti.w = 16
	case types.Uint32:
		ti.w = 32
	case types.Uint64, types.Uint, types.Uintptr:
		ti.w = 64
	case types.Float32:
		ti.w, ti.float = SF32, true
	case types.Float64, types.UntypedFloat:
		ti.w, ti.float = SF64, true
	case types.String, types.UntypedString:
		ti.scalar = false
		ti.str = true
	default: // unsafe.Pointer, complex, untyped nil
		ti.scalar = false
	}
}

func (ti *TI) String() string { return types.TypeString(ti.t, nil) }

// ---- packed slices

const slcOff, slcLen, slcCap = 24, 20, 20

func mkSlice(o *Obj, off, ln, cp int) Value {
	if off >= 1<<slcOff || ln >= 1<<slcLen || cp >= 1<<slcCap {
		panic(unsupported(fmt.Sprintf("slice too large: %d+%d/%d", off, ln, cp)))
	}
	return Value{uint64(off)<<(slcLen+slcCap) | uint64(ln)<<slcCap | uint64(cp), o}
}

func (v Value) sOff() int { return int(v.n >> (slcLen + slcCap)) }
func (v Value) sLen() int { return int(v.n >> slcCap & (1<<slcLen - 1)) }
func (v Value) sCap() int { return int(v.n & (1<<slcCap - 1)) }
func (v Value) obj() *Obj {
	o, _ := v.p.(*Obj)
	return o
}

func (v Value) term() *Term { t, _ := v.p.(*Term); return t }
func (v Value) isSym() bool { _, ok := v.p.(*Term); return ok }

func I(n int) Value    { return Value{n: uint64(n)} }
func U(n uint64) Value { return Value{n: n} }
func B(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}
func S(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}

func sv(t *Term) Value { // scalar value from term
	if t.isConst() {
		return Value{n: t.k}
	}
	return Value{p: t}
}

func (m *M) toTerm(v Value, s Sort) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return m.tb.Const(s, v.n)
}

func (m *M) constVal(c *ssa.Const) Value {
	ti := m.ts.get(c.Type())
	if c.Value == nil {
		if ti.agg {
			return Value{p: make(Agg, ti.slots)}
		}
		return Value{}
	}
	if ti.str {
		if c.Value.Kind() == constant.String {
			return S(constant.StringVal(c.Value))
		}
		n, _ := constant.Int64Val(constant.ToInt(c.Value))
		return S(string(rune(n)))
	}
	switch {
	case ti.w == SBool && ti.scalar:
		return B(constant.BoolVal(c.Value))
	case ti.float:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if ti.w == SF32 {
			return U(uint64(math.Float32bits(float32(f))))
		}
		return U(math.Float64bits(f))
	case ti.scalar:
		x := constant.ToInt(c.Value)
		if n, ok := constant.Int64Val(x); ok {
			return U(uint64(n) & mask(ti.w))
		}
		n, _ := constant.Uint64Val(x)
		return U(n & mask(ti.w))
	}
	if b, ok := ti.u.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return Value{}
	}
	return Value{p: poison{}}
}

// ---- heap access

func (m *M) rd(o *Obj) []Value {
	if o.base && !m.initing {
		if o.ver == m.path {
			return o.sh
		}
	}
	return o.s
}

func (m *M) wr(o *Obj) []Value {
	if o.base && !m.initing {
		if o.ver != m.path {
			o.sh = append([]Value(nil), o.s...)
			o.ver = m.path
		}
		return o.sh
	}
	return o.s
}

func (m *M) newObj(slots int) *Obj {
	m.allocs += slots
	if m.allocs > m.allocLimit {
		panic(pathEnd{kind: endAlloc, msg: "allocation limit"})
	}
	return &Obj{s: make([]Value, slots), base: m.initing}
}

func (m *M) load(p Value, ti *TI) Value {
	o := p.obj()
	if o == nil {
		if p.p != nil {
			panic(unsupported(fmt.Sprintf("load through %T", p.p)))
		}
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	s := m.rd(o)
	off := int(p.n)
	if o.pois {
		panic(unsupported("read of uninitialised global " + o.tag))
	}
	if ti.agg {
		a := make(Agg, ti.slots)
		copy(a, s[off:off+ti.slots])
		return Value{p: a}
	}
	return s[off]
}

func (m *M) store(p, v Value, ti *TI) {
	o := p.obj()
	if o == nil {
		if p.p != nil {
			panic(unsupported(fmt.Sprintf("store through %T", p.p)))
		}
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	s := m.wr(o)
	off := int(p.n)
	if ti.agg {
		a, ok := v.p.(Agg)
		if !ok {
			panic(unsupported(fmt.Sprintf("store of %T as aggregate", v.p)))
		}
		copy(s[off:off+ti.slots], a)
		return
	}
	s[off] = v
}

// storeSlots writes v of type ti at s[off:].
func putSlots(s []Value, off int, v Value, ti *TI) {
	if ti.agg {
		copy(s[off:off+ti.slots], v.p.(Agg))
		return
	}
	s[off] = v
}

func getSlots(s []Value, off int, ti *TI) Value {
	if ti.agg {
		a := make(Agg, ti.slots)
		copy(a, s[off:off+ti.slots])
		return Value{p: a}
	}
	return s[off]
}

// ---- strings

// strBytes returns the bytes of a string value (forcing lazy strings).
func (m *M) strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i].n = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	case *LStr:
		return m.strBytes(m.force(v))
	}
	panic(unsupported(fmt.Sprintf("string value %T", v.p)))
}

func strOf(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	for _, x := range b {
		if x.p != nil {
			if _, ok := x.p.(*Term); !ok {
				panic(unsupported("uninitialised byte"))
			}
			return Value{p: &SymStr{append([]Value(nil), b...)}}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, x := range b {
		sb.WriteByte(byte(x.n))
	}
	return Value{p: sb.String()}
}

// strLen returns the length as a value (symbolic only for unforced lazy strings).
func (m *M) strLen(v Value) Value {
	switch s := v.p.(type) {
	case nil:
		return Value{}
	case string:
		return I(len(s))
	case *SymStr:
		return I(len(s.b))
	case *LStr:
		if lv, ok := m.leaves(v); ok {
			t := m.tb.Const(64, 0)
			for i := len(lv) - 1; i >= 0; i-- {
				l := m.strLen(lv[i].s)
				c := m.tb.Const(64, l.n)
				if i == len(lv)-1 {
					t = c
				} else {
					t = m.tb.Ite(lv[i].g, c, t)
				}
			}
			return sv(t)
		}
		return m.strLen(m.force(v))
	}
	panic(unsupported(fmt.Sprintf("len of %T", v.p)))
}

func (m *M) concat(a, b Value) Value {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	as, ok1 := a.p.(string)
	bs, ok2 := b.p.(string)
	if ok1 && ok2 {
		return Value{p: as + bs}
	}
	_, l1 := a.p.(*LStr)
	_, l2 := b.p.(*LStr)
	if l1 || l2 {
		return Value{p: &LStr{kind: lsConcat, parts: []Value{a, b}}}
	}
	x := append(append([]Value(nil), m.strBytes(a)...), m.strBytes(b)...)
	return Value{p: &SymStr{x}}
}

// strEq returns the term for a==b.
func (m *M) strEq(a, b Value) *Term {
	if a.p == b.p {
		return m.tb.True
	}
	as, ok1 := a.p.(string)
	bs, ok2 := b.p.(string)
	if (ok1 || a.p == nil) && (ok2 || b.p == nil) {
		return m.tb.Bool(as == bs)
	}
	_, l1 := a.p.(*LStr)
	_, l2 := b.p.(*LStr)
	if l1 || l2 {
		if l1 && l2 {
			la, oka := m.leaves(a)
			lb, okb := m.leaves(b)
			if oka && okb && len(la)*len(lb) <= 10000 {
				t := m.tb.False
				for _, x := range la {
					for _, y := range lb {
						e := m.strEq(x.s, y.s)
						if e != m.tb.False {
							t = m.tb.Or(t, m.tb.And(m.tb.And(x.g, y.g), e))
						}
					}
				}
				return t
			}
			return m.strEq(m.force(a), m.force(b))
		}
		if l2 {
			a, b = b, a
		}
		if la, ok := m.leaves(a); ok {
			t := m.tb.False
			for _, x := range la {
				e := m.strEq(x.s, b)
				if e != m.tb.False {
					t = m.tb.Or(t, m.tb.And(x.g, e))
				}
			}
			return t
		}
		return m.strEq(m.force(a), b)
	}
	x, y := m.strBytes(a), m.strBytes(b)
	if len(x) != len(y) {
		return m.tb.False
	}
	t := m.tb.True
	for i := range x {
		t = m.tb.And(t, m.tb.Eq(m.toTerm(x[i], 8), m.toTerm(y[i], 8)))
		if t == m.tb.False {
			return t
		}
	}
	return t
}

// strLess returns the term for a<b.
func (m *M) strLess(a, b Value) *Term {
	x, y := m.strBytes(a), m.strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	t := m.tb.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := m.toTerm(x[i], 8), m.toTerm(y[i], 8)
		t = m.tb.Or(m.tb.Cmp(OUlt, p, q), m.tb.And(m.tb.Eq(p, q), t))
	}
	return t
}

type leaf struct {
	g *Term
	s Value
}

const (
	lsIte = iota
	lsTable
	lsConcat
	lsFmt
)

// LStr is a string whose choice among alternatives (or rendering) is postponed.
type LStr struct {
	kind  int
	g     *Term
	a, b  Value
	parts []Value
	idx   *Term // table index (64 bit)
	tab   []Value
	fmt   string
	args  []Value
	lv    []leaf
	lvOK  int8
	done  Value
	isSet bool
	path  uint64
}

const maxLeaves = 160

func (m *M) leaves(v Value) ([]leaf, bool) {
	l, ok := v.p.(*LStr)
	if !ok {
		return []leaf{{m.tb.True, v}}, true
	}
	if l.lvOK != 0 {
		return l.lv, l.lvOK > 0
	}
	l.lvOK = -1
	var out []leaf
	add := func(g *Term, s Value) {
		if g == m.tb.False {
			return
		}
		for i := range out {
			if sameStr(out[i].s, s) {
				out[i].g = m.tb.Or(out[i].g, g)
				return
			}
		}
		out = append(out, leaf{g, s})
	}
	switch l.kind {
	case lsIte:
		la, ok1 := m.leaves(l.a)
		lb, ok2 := m.leaves(l.b)
		if !ok1 || !ok2 {
			return nil, false
		}
		ng := m.tb.Not(l.g)
		for _, x := range la {
			add(m.tb.And(l.g, x.g), x.s)
		}
		for _, x := range lb {
			add(m.tb.And(ng, x.g), x.s)
		}
	case lsTable:
		for i, s := range l.tab {
			add(m.tb.Eq(l.idx, m.tb.Const(l.idx.s, uint64(i))), s)
		}
	case lsConcat:
		la, ok1 := m.leaves(l.parts[0])
		lb, ok2 := m.leaves(l.parts[1])
		if !ok1 || !ok2 || len(la)*len(lb) > maxLeaves {
			return nil, false
		}
		for _, x := range la {
			for _, y := range lb {
				add(m.tb.And(x.g, y.g), m.concat(x.s, y.s))
			}
		}
	default:
		return nil, false
	}
	if len(out) > maxLeaves {
		return nil, false
	}
	l.lv = out
	l.lvOK = 1
	return out, true
}

func sameStr(a, b Value) bool {
	as, ok1 := a.p.(string)
	bs, ok2 := b.p.(string)
	if (ok1 || a.p == nil) && (ok2 || b.p == nil) {
		return as == bs
	}
	x, ok1 := a.p.(*SymStr)
	y, ok2 := b.p.(*SymStr)
	if ok1 && ok2 && len(x.b) == len(y.b) {
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	}
	return false
}

// force turns a lazy string into a plain one, forking over its alternatives.
func (m *M) force(v Value) Value {
	l, ok := v.p.(*LStr)
	if !ok {
		return v
	}
	if l.isSet && l.path == m.path {
		return l.done
	}
	var r Value
	if lv, ok := m.leaves(v); ok {
		gs := make([]*Term, len(lv))
		for i := range lv {
			gs[i] = lv[i].g
		}
		r = lv[m.decideN(gs)].s
	} else {
		switch l.kind {
		case lsIte:
			if m.decide(l.g) {
				r = m.force(l.a)
			} else {
				r = m.force(l.b)
			}
		case lsConcat:
			a := m.force(l.parts[0])
			b := m.force(l.parts[1])
			r = m.concat(a, b)
		case lsFmt:
			r = m.force(m.sprintf(l.fmt, l.args))
		}
	}
	l.done, l.isSet, l.path = r, true, m.path
	return r
}

func (m *M) forceStr(v Value) (string, bool) { // concrete string if possible
	v = m.force(v)
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

// concStr forces every byte to a concrete value.
func (m *M) concStr(v Value) string {
	if s, ok := m.forceStr(v); ok {
		return s
	}
	bs := m.strBytes(v)
	out := make([]byte, len(bs))
	for i, b := range bs {
		out[i] = byte(m.concretize(b, 8))
	}
	return string(out)
}

// ---- equality of values

func (m *M) eqVal(a, b Value, ti *TI) *Term {
	switch {
	case ti.float:
		return m.tb.FCmp(OFEq, m.toTerm(a, ti.w), m.toTerm(b, ti.w))
	case ti.scalar:
		if a.p == nil && b.p == nil {
			return m.tb.Bool(a.n == b.n)
		}
		return m.tb.Eq(m.toTerm(a, ti.w), m.toTerm(b, ti.w))
	case ti.str:
		return m.strEq(a, b)
	case ti.isIf:
		return m.ifaceEq(a, b)
	case ti.agg:
		x, y := a.p.(Agg), b.p.(Agg)
		t := m.tb.True
		switch u := ti.u.(type) {
		case *types.Struct:
			for i, f := range ti.fields {
				if u.Field(i).Name() == "_" {
					continue
				}
				t = m.tb.And(t, m.eqVal(getSlots(x, ti.offs[i], f), getSlots(y, ti.offs[i], f), f))
			}
		case *types.Array:
			for i := 0; i < int(u.Len()); i++ {
				t = m.tb.And(t, m.eqVal(getSlots(x, i*ti.elem.slots, ti.elem), getSlots(y, i*ti.elem.slots, ti.elem), ti.elem))
			}
		}
		return t
	}
	switch ti.u.(type) {
	case *types.Slice: // only comparison with nil
		return m.tb.Bool((a.p == nil) == (b.p == nil))
	case *types.Signature:
		return m.tb.Bool((a.p == nil) == (b.p == nil))
	}
	if _, ok := a.p.(poison); ok {
		panic(unsupported("comparison of unknown value"))
	}
	return m.tb.Bool(a.p == b.p && a.n == b.n)
}

func (m *M) ifaceEq(a, b Value) *Term {
	x, _ := a.p.(*Iface)
	y, _ := b.p.(*Iface)
	if x == nil || y == nil {
		return m.tb.Bool(x == nil && y == nil)
	}
	if x.t != y.t {
		return m.tb.False
	}
	if !types.Comparable(x.t.t) {
		m.rtPanic("comparing uncomparable type " + x.t.String())
	}
	return m.eqVal(x.v, y.v, x.t)
}

// same reports structural identity (no solver), used to group alternatives.
func same(a, b Value) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.p.(type) {
	case nil:
		return b.p == nil
	case Agg:
		y, ok := b.p.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.p.(*Closure)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.fn != y.fn || x.fn == nil || len(x.fv) != len(y.fv) {
			return false
		}
		for i := range x.fv {
			if !same(x.fv[i], y.fv[i]) {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.p.(*Iface)
		return ok && x.t == y.t && same(x.v, y.v)
	case string, *SymStr:
		return sameStr(a, b)
	case poison:
		return false
	}
	if _, ok := b.p.(Agg); ok {
		return false
	}
	return a.p == b.p
}

// ---- maps

func newMapData() *mapData { return &mapData{idx: map[string]int{}} }

func (m *M) newMap() *MapObj { return &MapObj{base: m.initing, cur: newMapData()} }

func (m *M) mrd(o *MapObj) *mapData {
	if o.base && !m.initing && o.ver == m.path {
		return o.sh
	}
	return o.cur
}

func (m *M) mwr(o *MapObj) *mapData {
	if o.base && !m.initing {
		if o.ver != m.path {
			d := &mapData{keys: append([]Value(nil), o.cur.keys...), vals: append([]Value(nil), o.cur.vals...),
				live: append([]bool(nil), o.cur.live...), idx: make(map[string]int, len(o.cur.idx)), symKeys: o.cur.symKeys, n: o.cur.n}
			for k, v := range o.cur.idx {
				d.idx[k] = v
			}
			o.sh, o.ver = d, m.path
		}
		return o.sh
	}
	return o.cur
}

// keyEnc encodes a concrete key; ok is false for symbolic ones.
func (m *M) keyEnc(v Value, ti *TI) (string, bool) {
	switch {
	case ti.scalar:
		if v.p != nil {
			return "", false
		}
		return fmt.Sprintf("n%x", v.n), true
	case ti.str:
		switch s := v.p.(type) {
		case nil:
			return "s", true
		case string:
			return "s" + s, true
		}
		return "", false
	case ti.isIf:
		x, _ := v.p.(*Iface)
		if x == nil {
			return "nil", true
		}
		k, ok := m.keyEnc(x.v, x.t)
		return fmt.Sprintf("i%d:%s", x.t.id, k), ok
	case ti.agg:
		a := v.p.(Agg)
		out := "a"
		put := func(off int, f *TI) bool {
			k, ok := m.keyEnc(getSlots(a, off, f), f)
			out += fmt.Sprintf("%d:%s", len(k), k)
			return ok
		}
		switch u := ti.u.(type) {
		case *types.Struct:
			for i, f := range ti.fields {
				if !put(ti.offs[i], f) {
					return "", false
				}
			}
		case *types.Array:
			for i := 0; i < int(u.Len()); i++ {
				if !put(i*ti.elem.slots, ti.elem) {
					return "", false
				}
			}
		}
		return out, true
	}
	return fmt.Sprintf("p%p+%d", v.p, v.n), true
}

// mapFind returns the position of key, or -1. It forks when the key is symbolic.
func (m *M) mapFind(d *mapData, key Value, kt *TI) int {
	if !d.symKeys {
		if k, ok := m.keyEnc(key, kt); ok {
			if i, ok := d.idx[k]; ok {
				return i
			}
			return -1
		}
	}
	var gs []*Term
	var at []int
	none := m.tb.True
	for i := range d.keys {
		if !d.live[i] {
			continue
		}
		e := m.eqVal(key, d.keys[i], kt)
		if e == m.tb.False {
			continue
		}
		e = m.tb.And(e, none)
		if e == m.tb.False {
			continue
		}
		gs = append(gs, e)
		at = append(at, i)
		none = m.tb.And(none, m.tb.Not(e))
	}
	if len(gs) == 0 {
		return -1
	}
	gs = append(gs, none)
	at = append(at, -1)
	return at[m.decideN(gs)]
}

func (m *M) mapLookup(mv Value, key Value, mt *types.Map, commaOk bool) Value {
	kt, vt := m.ts.get(mt.Key()), m.ts.get(mt.Elem())
	zero := Value{}
	if vt.agg {
		zero = Value{p: make(Agg, vt.slots)}
	}
	ret := func(v Value, ok Value) Value {
		if commaOk {
			return Value{p: Agg{v, ok}}
		}
		return v
	}
	if kt.isIf {
		if x, _ := key.p.(*Iface); x != nil && !types.Comparable(x.t.t) {
			m.rtPanic("hash of unhashable type " + x.t.String())
		}
	}
	mo, _ := mv.p.(*MapObj)
	if mo == nil {
		if mv.p != nil {
			panic(unsupported("lookup in unknown map"))
		}
		return ret(zero, B(false))
	}
	d := m.mrd(mo)
	if !d.symKeys {
		if k, ok := m.keyEnc(key, kt); ok {
			if i, ok := d.idx[k]; ok {
				return ret(d.vals[i], B(true))
			}
			return ret(zero, B(false))
		}
	}
	// group entries by value
	type group struct {
		g *Term
		v Value
	}
	var groups []group
	any := m.tb.False
	for i := range d.keys {
		if !d.live[i] {
			continue
		}
		e := m.eqVal(key, d.keys[i], kt)
		if e == m.tb.False {
			continue
		}
		if d.symKeys {
			e = m.tb.And(e, m.tb.Not(any))
		}
		any = m.tb.Or(any, e)
		found := false
		for j := range groups {
			if same(groups[j].v, d.vals[i]) {
				groups[j].g = m.tb.Or(groups[j].g, e)
				found = true
				break
			}
		}
		if !found {
			groups = append(groups, group{e, d.vals[i]})
		}
	}
	if len(groups) == 0 {
		return ret(zero, B(false))
	}
	if vt.scalar {
		t := m.toTerm(zero, vt.w)
		for i := len(groups) - 1; i >= 0; i-- {
			t = m.tb.Ite(groups[i].g, m.toTerm(groups[i].v, vt.w), t)
		}
		return ret(sv(t), sv(any))
	}
	if vt.str && !m.initing {
		r := zero
		for i := len(groups) - 1; i >= 0; i-- {
			r = m.iteStr(groups[i].g, groups[i].v, r)
		}
		return ret(r, sv(any))
	}
	gs := make([]*Term, 0, len(groups)+1)
	for _, g := range groups {
		gs = append(gs, g.g)
	}
	gs = append(gs, m.tb.Not(any))
	k := m.decideN(gs)
	if k < len(groups) {
		return ret(groups[k].v, B(true))
	}
	return ret(zero, B(false))
}

func (m *M) iteStr(g *Term, a, b Value) Value {
	if g == m.tb.True || sameStr(a, b) {
		return a
	}
	if g == m.tb.False {
		return b
	}
	return Value{p: &LStr{kind: lsIte, g: g, a: a, b: b}}
}

func (m *M) mapUpdate(mv, key, val Value, mt *types.Map) {
	mo, _ := mv.p.(*MapObj)
	if mo == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	kt := m.ts.get(mt.Key())
	if kt.str {
		key = m.force(key)
	}
	if kt.isIf {
		if x, _ := key.p.(*Iface); x != nil && !types.Comparable(x.t.t) {
			m.rtPanic("hash of unhashable type " + x.t.String())
		}
	}
	if a, ok := val.p.(Agg); ok {
		val = Value{p: append(Agg(nil), a...)}
	}
	if a, ok := key.p.(Agg); ok {
		key = Value{p: append(Agg(nil), a...)}
	}
	i := m.mapFind(m.mrd(mo), key, kt)
	d := m.mwr(mo)
	if i >= 0 {
		d.vals[i] = val
		return
	}
	k, ok := m.keyEnc(key, kt)
	if ok {
		d.idx[k] = len(d.keys)
	} else {
		d.symKeys = true
	}
	d.keys = append(d.keys, key)
	d.vals = append(d.vals, val)
	d.live = append(d.live, true)
	d.n++
}

func (m *M) mapDelete(mv, key Value, mt *types.Map) {
	mo, _ := mv.p.(*MapObj)
	if mo == nil {
		return
	}
	kt := m.ts.get(mt.Key())
	i := m.mapFind(m.mrd(mo), key, kt)
	if i < 0 {
		return
	}
	d := m.mwr(mo)
	d.live[i] = false
	d.n--
	if k, ok := m.keyEnc(d.keys[i], kt); ok {
		delete(d.idx, k)
	}
}
