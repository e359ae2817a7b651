package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type intrDef struct {
	f    intrinsic
	pure bool
}

var intrinsics map[string]intrDef

const symPkg = "github.com/HannesKimara/cddlc/zzverif/sym."

func fullRune(b []byte) bool            { return utf8.FullRune(b) }
func decodeHost(b []byte) (rune, int)   { return utf8.DecodeRune(b) }
func def(name string, f intrinsic)      { intrinsics[name] = intrDef{f, false} }
func defPure(name string, f intrinsic)  { intrinsics[name] = intrDef{f, true} }
func nop(m *M, fn *Fn, a []Value) Value { return m.zeroResult(fn) }

func (m *M) sliceVals(v Value) []Value {
	if v.p == nil {
		return nil
	}
	return m.rd(v.obj())[v.sOff() : v.sOff()+v.sLen()]
}

func (m *M) bytesToSlice(b []Value) Value {
	o := m.newObj(len(b))
	copy(o.s, b)
	return mkSlice(o, 0, len(b), len(b))
}

func rangesOf(tabs ...*unicode.RangeTable) [][2]uint32 {
	var in []([2]uint32)
	pred := func(r rune) bool { return unicode.In(r, tabs...) }
	lo := int32(-1)
	for r := rune(0); r <= unicode.MaxRune+1; r++ {
		ok := r <= unicode.MaxRune && pred(r)
		if ok && lo < 0 {
			lo = r
		}
		if !ok && lo >= 0 {
			in = append(in, [2]uint32{uint32(lo), uint32(r - 1)})
			lo = -1
		}
	}
	return in
}

var rangeCache = map[string][][2]uint32{}

func init() {
	rangeCache["letter"] = rangesOf(unicode.Letter)
	rangeCache["digit"] = rangesOf(unicode.Digit)
	rangeCache["space"] = rangesOf(unicode.White_Space)
	rangeCache["upper"] = rangesOf(unicode.Upper)
	rangeCache["lower"] = rangesOf(unicode.Lower)
}

// member builds a balanced decision tree for set membership (32-bit runes).
func (m *M) member(t *Term, rs [][2]uint32) *Term {
	tb := m.tb
	var rec func(a, b int) *Term
	rec = func(a, b int) *Term {
		if a > b {
			return tb.False
		}
		if a == b {
			return tb.And(tb.Cmp(OUle, tb.Const(32, uint64(rs[a][0])), t), tb.Cmp(OUle, t, tb.Const(32, uint64(rs[a][1]))))
		}
		k := (a + b) / 2
		return tb.Ite(tb.Cmp(OUle, t, tb.Const(32, uint64(rs[k][1]))), rec(a, k), rec(k+1, b))
	}
	return rec(0, len(rs)-1)
}

func uniPred(name, set string, host func(rune) bool) {
	defPure("unicode."+name, func(m *M, fn *Fn, a []Value) Value {
		if a[0].p == nil {
			return B(host(rune(int32(a[0].n))))
		}
		return sv(m.member(m.symOf(a[0], 32), rangeCache[set]))
	})
}

func caseMap(name string, lo, hi uint64, delta uint64, host func(rune) rune) {
	def("sort.SliceStable", func(m *M, fn *Fn, a []Value) Value { m.sortSlice(a[0], a[1]); return Value{} })
	def("sort.Slice", func(m *M, fn *Fn, a []Value) Value { m.sortSlice(a[0], a[1]); return Value{} })
	def("unicode."+name, func(m *M, fn *Fn, a []Value) Value {
		if a[0].p == nil {
			return U(uint64(uint32(host(rune(int32(a[0].n))))))
		}
		t := m.symOf(a[0], 32)
		if !m.decide(m.tb.Cmp(OUlt, t, m.tb.Const(32, 0x80))) {
			return U(uint64(uint32(host(rune(int32(m.concretize(a[0], 32)))))))
		}
		in := m.tb.And(m.tb.Cmp(OUle, m.tb.Const(32, lo), t), m.tb.Cmp(OUle, t, m.tb.Const(32, hi)))
		return sv(m.tb.Ite(in, m.tb.Bin(OAdd, t, m.tb.Const(32, delta)), t))
	})
}

// byteIndex returns the position of the first byte of b equal to c (-1 if none).
func (m *M) byteIndex(b []Value, c Value) Value {
	tb := m.tb
	ct := m.symOf(c, 8)
	r := tb.Const(64, ^uint64(0))
	for i := len(b) - 1; i >= 0; i-- {
		r = tb.Ite(tb.Eq(m.symOf(b[i], 8), ct), tb.Const(64, uint64(i)), r)
	}
	return sv(r)
}

func (m *M) byteLastIndex(b []Value, c Value) Value {
	tb := m.tb
	ct := m.symOf(c, 8)
	r := tb.Const(64, ^uint64(0))
	for i := range b {
		r = tb.Ite(tb.Eq(m.symOf(b[i], 8), ct), tb.Const(64, uint64(i)), r)
	}
	return sv(r)
}

func (m *M) byteCount(b []Value, c Value) Value {
	tb := m.tb
	ct := m.symOf(c, 8)
	r := tb.Const(64, 0)
	for i := range b {
		r = tb.Bin(OAdd, r, tb.Ite(tb.Eq(m.symOf(b[i], 8), ct), tb.Const(64, 1), tb.Const(64, 0)))
	}
	return sv(r)
}

func (m *M) substrIndex(s, sep []Value) Value {
	tb := m.tb
	r := tb.Const(64, ^uint64(0))
	for i := len(s) - len(sep); i >= 0; i-- {
		e := tb.True
		for j := range sep {
			e = tb.And(e, tb.Eq(m.symOf(s[i+j], 8), m.symOf(sep[j], 8)))
		}
		r = tb.Ite(e, tb.Const(64, uint64(i)), r)
	}
	return sv(r)
}

func (m *M) mkErr(msg Value) Value {
	p := m.prog.ssa.ImportedPackage("errors")
	f := m.fn(p.Func("New"))
	return m.call(f, []Value{msg}, nil)
}

func init() {
	intrinsics = map[string]intrDef{}

	// ---- harness API
	sym := func(name string, s Sort, fl bool) {
		def(symPkg+name, func(m *M, fn *Fn, a []Value) Value {
			nm, _ := m.forceStr(a[0])
			w := s
			if fl {
				w = map[Sort]Sort{SF32: 32, SF64: 64}[s]
			}
			t := m.newVar(nm, name, w)
			if fl {
				return sv(m.tb.Un(OFFromBits, s, t))
			}
			return sv(t)
		})
	}
	sym("Bool", SBool, false)
	sym("U8", 8, false)
	sym("U16", 16, false)
	sym("U32", 32, false)
	sym("U64", 64, false)
	sym("Uint", 64, false)
	sym("I8", 8, false)
	sym("I16", 16, false)
	sym("I32", 32, false)
	sym("I64", 64, false)
	sym("Int", 64, false)
	sym("F32", SF32, true)
	sym("F64", SF64, true)
	def(symPkg+"Range", func(m *M, fn *Fn, a []Value) Value {
		nm, _ := m.forceStr(a[0])
		lo, hi := a[1].n, a[2].n
		if lo == hi {
			m.newVar(nm, "Range", 64)
			m.model[len(m.vars)-1] = lo
			m.assume(m.tb.Eq(m.vars[len(m.vars)-1], m.tb.Const(64, lo)))
			return U(lo)
		}
		i := len(m.vars)
		t := m.newVar(nm, "Range", 64)
		if n := int64(hi - lo); n > 0 && n < domMax {
			m.doms = m.doms[:i]
			m.newDom(lo, int(n)+1)
		}
		if len(m.trail) >= len(m.prefix) || int64(m.model[i]) < int64(lo) || int64(m.model[i]) > int64(hi) {
			m.model[i] = lo
		}
		m.assume(m.tb.And(m.tb.Cmp(OSle, m.tb.Const(64, lo), t), m.tb.Cmp(OSle, t, m.tb.Const(64, hi))))
		return sv(t)
	})
	def(symPkg+"Choose", func(m *M, fn *Fn, a []Value) Value {
		nm, _ := m.forceStr(a[0])
		n := m.concretize(a[1], 64)
		i := len(m.vars)
		t := m.newVar(nm, "Choose", 64)
		if d, ok := m.replay(); ok {
			m.addPC(m.tb.Eq(t, m.tb.Const(64, d.v)))
			return U(d.v)
		}
		m.tot.Decisions++
		for k := n; k > 1; k-- {
			mod := append(Model(nil), m.model...)
			mod[i] = k - 1
			m.ex.push(m, dec{k - 1, false, true}, mod)
			m.tot.Forks++
		}
		m.model[i] = 0
		m.trail = append(m.trail, dec{0, false, true})
		m.addPC(m.tb.Eq(t, m.tb.Const(64, 0)))
		return U(0)
	})
	def(symPkg+"Bytes", func(m *M, fn *Fn, a []Value) Value {
		nm, _ := m.forceStr(a[0])
		n := int(m.concretize(a[1], 64))
		b := make([]Value, n)
		for i := range b {
			b[i] = sv(m.newVar(fmt.Sprintf("%s[%d]", nm, i), "U8", 8))
		}
		return m.bytesToSlice(b)
	})
	def(symPkg+"String", func(m *M, fn *Fn, a []Value) Value {
		nm, _ := m.forceStr(a[0])
		n := int(m.concretize(a[1], 64))
		b := make([]Value, n)
		for i := range b {
			b[i] = sv(m.newVar(fmt.Sprintf("%s[%d]", nm, i), "U8", 8))
		}
		return strOf(b)
	})
	def(symPkg+"Assume", func(m *M, fn *Fn, a []Value) Value { m.assume(m.symOf(a[0], SBool)); return Value{} })
	def(symPkg+"Assert", func(m *M, fn *Fn, a []Value) Value {
		msg := "assertion"
		if s, ok := a[1].p.(string); ok {
			msg = s
		}
		m.assert(m.symOf(a[0], SBool), msg)
		return Value{}
	})
	def(symPkg+"Fail", func(m *M, fn *Fn, a []Value) Value {
		msg := "failure"
		if s, ok := a[0].p.(string); ok {
			msg = s
		}
		m.assert(m.tb.False, msg)
		return Value{}
	})
	def(symPkg+"Skip", func(m *M, fn *Fn, a []Value) Value { panic(pathEnd{endAssume, ""}) })
	def(symPkg+"Reach", func(m *M, fn *Fn, a []Value) Value {
		s, _ := m.forceStr(a[0])
		m.reach[s]++
		return Value{}
	})
	def(symPkg+"Observe", func(m *M, fn *Fn, a []Value) Value {
		s, _ := m.forceStr(a[0])
		if x, _ := a[1].p.(*Iface); x != nil {
			m.obs = append(m.obs, obsRec{s, x.v, x.t})
		} else {
			m.obs = append(m.obs, obsRec{s, Value{}, nil})
		}
		return Value{}
	})
	def(symPkg+"Symbolic", func(m *M, fn *Fn, a []Value) Value { return B(true) })
	def(symPkg+"Param", func(m *M, fn *Fn, a []Value) Value {
		s, _ := m.forceStr(a[0])
		if v, ok := m.cfg.Params[s]; ok {
			return U(uint64(v))
		}
		return a[1]
	})
	def(symPkg+"Conc", func(m *M, fn *Fn, a []Value) Value { return U(m.concretize(a[0], 64)) })
	def(symPkg+"ConcStr", func(m *M, fn *Fn, a []Value) Value { return S(m.concStr(a[0])) })
	def(symPkg+"And", func(m *M, fn *Fn, a []Value) Value { return sv(m.tb.And(m.symOf(a[0], SBool), m.symOf(a[1], SBool))) })
	def(symPkg+"Or", func(m *M, fn *Fn, a []Value) Value { return sv(m.tb.Or(m.symOf(a[0], SBool), m.symOf(a[1], SBool))) })
	def(symPkg+"Try", func(m *M, fn *Fn, a []Value) Value { return m.try(a[0]) })

	// ---- utf8 / unicode
	def("unicode/utf8.DecodeRune", func(m *M, fn *Fn, a []Value) Value {
		b := m.sliceVals(a[0])
		if len(b) == 0 {
			return Value{p: Agg{U(0xfffd), I(0)}}
		}
		r, n := m.decodeRune(b)
		return Value{p: Agg{r, I(n)}}
	})
	def("unicode/utf8.DecodeRuneInString", func(m *M, fn *Fn, a []Value) Value {
		b := m.strBytes(a[0])
		if len(b) == 0 {
			return Value{p: Agg{U(0xfffd), I(0)}}
		}
		r, n := m.decodeRune(b)
		return Value{p: Agg{r, I(n)}}
	})
	uniPred("IsLetter", "letter", unicode.IsLetter)
	uniPred("IsDigit", "digit", unicode.IsDigit)
	uniPred("IsSpace", "space", unicode.IsSpace)
	uniPred("IsUpper", "upper", unicode.IsUpper)
	uniPred("IsLower", "lower", unicode.IsLower)
	caseMap("ToLower", 'A', 'Z', 32, unicode.ToLower)
	caseMap("ToUpper", 'a', 'z', ^uint64(31), unicode.ToUpper)

	// ---- internal/bytealg
	bs := func(name string, f func(m *M, a []Value) Value) {
		def("internal/bytealg."+name, func(m *M, fn *Fn, a []Value) Value { return f(m, a) })
	}
	bs("IndexByte", func(m *M, a []Value) Value { return m.byteIndex(m.sliceVals(a[0]), a[1]) })
	bs("IndexByteString", func(m *M, a []Value) Value { return m.byteIndex(m.strBytes(a[0]), a[1]) })
	bs("LastIndexByte", func(m *M, a []Value) Value { return m.byteLastIndex(m.sliceVals(a[0]), a[1]) })
	bs("LastIndexByteString", func(m *M, a []Value) Value { return m.byteLastIndex(m.strBytes(a[0]), a[1]) })
	bs("Count", func(m *M, a []Value) Value { return m.byteCount(m.sliceVals(a[0]), a[1]) })
	bs("CountString", func(m *M, a []Value) Value { return m.byteCount(m.strBytes(a[0]), a[1]) })
	bs("Index", func(m *M, a []Value) Value { return m.substrIndex(m.sliceVals(a[0]), m.sliceVals(a[1])) })
	bs("IndexString", func(m *M, a []Value) Value { return m.substrIndex(m.strBytes(a[0]), m.strBytes(a[1])) })
	bs("Compare", func(m *M, a []Value) Value {
		x, y := strOf(m.sliceVals(a[0])), strOf(m.sliceVals(a[1]))
		return m.cmp3(x, y)
	})
	bs("CompareString", func(m *M, a []Value) Value { return m.cmp3(a[0], a[1]) })
	bs("MakeNoZero", func(m *M, a []Value) Value {
		n := int(m.concretize(a[0], 64))
		return mkSlice(m.newObj(n), 0, n, n)
	})
	defPure("bytes.Equal", func(m *M, fn *Fn, a []Value) Value {
		return sv(m.strEq(strOf(m.sliceVals(a[0])), strOf(m.sliceVals(a[1]))))
	})
	def("strings.Index", func(m *M, fn *Fn, a []Value) Value { return m.substrIndex(m.strBytes(a[0]), m.strBytes(a[1])) })
	def("bytes.Index", func(m *M, fn *Fn, a []Value) Value { return m.substrIndex(m.sliceVals(a[0]), m.sliceVals(a[1])) })
	def("strings.IndexByte", func(m *M, fn *Fn, a []Value) Value { return m.byteIndex(m.strBytes(a[0]), a[1]) })
	def("strings.HasPrefix", func(m *M, fn *Fn, a []Value) Value {
		x, y := m.strBytes(a[0]), m.strBytes(a[1])
		if len(x) < len(y) {
			return B(false)
		}
		return sv(m.strEq(strOf(x[:len(y)]), a[1]))
	})
	def("strings.HasSuffix", func(m *M, fn *Fn, a []Value) Value {
		x, y := m.strBytes(a[0]), m.strBytes(a[1])
		if len(x) < len(y) {
			return B(false)
		}
		return sv(m.strEq(strOf(x[len(x)-len(y):]), a[1]))
	})
	def("strings.ToLower", func(m *M, fn *Fn, a []Value) Value { return m.mapCase(a[0], strings.ToLower, 'A', 'Z', 32) })
	def("strings.ToUpper", func(m *M, fn *Fn, a []Value) Value { return m.mapCase(a[0], strings.ToUpper, 'a', 'z', ^uint64(31)) })
	def("strings.Clone", func(m *M, fn *Fn, a []Value) Value { return a[0] })
	def("internal/stringslite.Clone", func(m *M, fn *Fn, a []Value) Value { return a[0] })

	// ---- strings.Builder (slot 1 is the buffer)
	app := func(m *M, p Value, b []Value) {
		o := p.obj()
		if o == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		at := int(p.n) + 1
		m.wr(o)[at] = m.appendVals(m.rd(o)[at], b, len(b), 1)
	}
	def("(*strings.Builder).WriteString", func(m *M, fn *Fn, a []Value) Value {
		b := m.strBytes(a[1])
		app(m, a[0], b)
		return Value{p: Agg{I(len(b)), Value{}}}
	})
	def("(*strings.Builder).Write", func(m *M, fn *Fn, a []Value) Value {
		b := append([]Value(nil), m.sliceVals(a[1])...)
		app(m, a[0], b)
		return Value{p: Agg{I(len(b)), Value{}}}
	})
	def("(*strings.Builder).WriteByte", func(m *M, fn *Fn, a []Value) Value {
		app(m, a[0], []Value{a[1]})
		return Value{}
	})
	def("(*strings.Builder).WriteRune", func(m *M, fn *Fn, a []Value) Value {
		b := m.strBytes(m.runeToStr(a[1], 32, true))
		app(m, a[0], b)
		return Value{p: Agg{I(len(b)), Value{}}}
	})
	def("(*strings.Builder).String", func(m *M, fn *Fn, a []Value) Value {
		o := a[0].obj()
		if o == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return strOf(m.sliceVals(m.rd(o)[int(a[0].n)+1]))
	})
	def("(*strings.Builder).Len", func(m *M, fn *Fn, a []Value) Value { return I(m.rd(a[0].obj())[int(a[0].n)+1].sLen()) })
	def("(*strings.Builder).Cap", func(m *M, fn *Fn, a []Value) Value { return I(m.rd(a[0].obj())[int(a[0].n)+1].sCap()) })
	def("(*strings.Builder).Grow", nop)
	def("(*strings.Builder).Reset", func(m *M, fn *Fn, a []Value) Value { m.wr(a[0].obj())[int(a[0].n)+1] = Value{}; return Value{} })

	// ---- strconv
	def("strconv.FormatFloat", func(m *M, fn *Fn, a []Value) Value {
		f := math.Float64frombits(m.concretizeF(a[0]))
		return S(strconv.FormatFloat(f, byte(a[1].n), int(int64(a[2].n)), int(a[3].n)))
	})
	def("strconv.FormatInt", func(m *M, fn *Fn, a []Value) Value {
		if m.hostRender(a[0]) {
			return S(strconv.FormatInt(int64(m.concretize(a[0], 64)), int(a[1].n)))
		}
		return m.fmtInt(a[0], 64, true, int(a[1].n))
	})
	def("strconv.FormatUint", func(m *M, fn *Fn, a []Value) Value {
		if m.hostRender(a[0]) {
			return S(strconv.FormatUint(m.concretize(a[0], 64), int(a[1].n)))
		}
		return m.fmtInt(a[0], 64, false, int(a[1].n))
	})
	def("strconv.Itoa", func(m *M, fn *Fn, a []Value) Value {
		if m.hostRender(a[0]) {
			return S(strconv.Itoa(int(m.concretize(a[0], 64))))
		}
		return m.fmtInt(a[0], 64, true, 10)
	})
	def("strconv.Quote", func(m *M, fn *Fn, a []Value) Value { return m.quote(a[0]) })
	def("strconv.Unquote", func(m *M, fn *Fn, a []Value) Value {
		s, err := strconv.Unquote(m.concStr(a[0]))
		var e Value
		if err != nil {
			e = m.mkErr(S(err.Error()))
		}
		return Value{p: Agg{S(s), e}}
	})

	// ---- fmt / log
	def("fmt.Sprintf", func(m *M, fn *Fn, a []Value) Value { return m.lazyFmt(a[0], a[1]) })
	def("fmt.Sprint", func(m *M, fn *Fn, a []Value) Value {
		args := append([]Value(nil), m.sliceVals(a[0])...)
		out := Value{}
		for i, x := range args {
			if i > 0 && !m.isStrIface(x) && !m.isStrIface(args[i-1]) {
				out = m.concat(out, S(" "))
			}
			out = m.concat(out, m.sprintf("%v", []Value{x}))
		}
		return out
	})
	def("fmt.Sprintln", func(m *M, fn *Fn, a []Value) Value {
		out := Value{}
		for i, x := range append([]Value(nil), m.sliceVals(a[0])...) {
			if i > 0 {
				out = m.concat(out, S(" "))
			}
			out = m.concat(out, m.sprintf("%v", []Value{x}))
		}
		return m.concat(out, S("\n"))
	})
	def("fmt.Errorf", func(m *M, fn *Fn, a []Value) Value {
		f, _ := m.forceStr(a[0])
		msg := m.lazyFmt(a[0], a[1])
		if strings.Contains(f, "%w") {
			for _, x := range m.sliceVals(a[1]) {
				if ifc, _ := x.p.(*Iface); ifc != nil && m.implements(ifc.t, m.ts.get(types.Universe.Lookup("error").Type())) {
					wt := m.prog.ssa.ImportedPackage("fmt").Type("wrapError")
					if wt == nil {
						break
					}
					o := m.newObj(2)
					o.s[0], o.s[1] = msg, x
					return Value{p: &Iface{m.ts.get(types.NewPointer(wt.Type())), Value{p: o}}}
				}
			}
		}
		return m.mkErr(msg)
	})
	for _, n := range []string{"Printf", "Println", "Print"} {
		def("fmt."+n, nop)
		def("log."+n, nop)
	}
	for _, n := range []string{"Fprintf", "Fprintln", "Fprint"} {
		n := n
		def("fmt."+n, func(m *M, fn *Fn, a []Value) Value {
			w, _ := a[0].p.(*Iface)
			if w == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			if w.t.String() == "*os.File" {
				return m.zeroResult(fn)
			}
			var s Value
			if n == "Fprintf" {
				s = m.force(m.lazyFmt(a[1], a[2]))
			} else {
				s = m.force(m.call(m.fn(m.prog.ssa.ImportedPackage("fmt").Func("S"+n[1:])), []Value{a[1]}, nil))
			}
			return m.invoke(a[0], "Write", []Value{m.bytesToSlice(m.strBytes(s))})
		})
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln"} {
		n := n
		def("log."+n, func(m *M, fn *Fn, a []Value) Value {
			if strings.HasPrefix(n, "Fatal") {
				panic(&TPanic{msg: "exit", exit: true})
			}
			panic(&TPanic{v: Value{p: &Iface{m.ts.get(types.Typ[types.String]), S("log panic")}}, msg: "log panic", at: m.where()})
		})
	}
	def("os.Exit", func(m *M, fn *Fn, a []Value) Value { panic(&TPanic{msg: "exit", exit: true}) })

	// ---- sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC"} {
		def(n, nop)
	}
	def("(*sync.Mutex).TryLock", func(m *M, fn *Fn, a []Value) Value { return B(true) })
	def("(*sync.Once).Do", func(m *M, fn *Fn, a []Value) Value {
		o := a[0].obj()
		at := int(a[0].n)
		if m.rd(o)[at].n == 1 {
			return Value{}
		}
		m.wr(o)[at] = U(1)
		cl := a[1].p.(*Closure)
		m.call(cl.fn, nil, cl.fv)
		return Value{}
	})
	def("(*sync.Pool).Get", func(m *M, fn *Fn, a []Value) Value {
		o := a[0].obj()
		ti := m.ts.get(fn.ssa.Signature.Recv().Type().(*types.Pointer).Elem())
		v := m.rd(o)[int(a[0].n)+ti.offs[len(ti.offs)-1]]
		cl, _ := v.p.(*Closure)
		if cl == nil {
			return Value{}
		}
		return m.call(cl.fn, nil, cl.fv)
	})
	def("(*sync.Pool).Put", nop)
	// sync.Map: the first slot holds an ordinary map
	smap := func(m *M, p Value, write bool) Value {
		o := p.obj()
		v := m.rd(o)[p.n]
		if _, ok := v.p.(*MapObj); !ok {
			if !write {
				return Value{}
			}
			v = Value{p: m.newMap()}
			m.wr(o)[p.n] = v
		}
		return v
	}
	anyT := types.NewInterfaceType(nil, nil)
	anyMap := types.NewMap(anyT, anyT)
	def("(*sync.Map).Load", func(m *M, fn *Fn, a []Value) Value { return m.mapLookup(smap(m, a[0], false), a[1], anyMap, true) })
	def("(*sync.Map).Store", func(m *M, fn *Fn, a []Value) Value {
		m.mapUpdate(smap(m, a[0], true), a[1], a[2], anyMap)
		return Value{}
	})
	def("(*sync.Map).LoadOrStore", func(m *M, fn *Fn, a []Value) Value {
		mp := smap(m, a[0], true)
		r := m.mapLookup(mp, a[1], anyMap, true).p.(Agg)
		if r[1].n == 1 {
			return Value{p: r}
		}
		m.mapUpdate(mp, a[1], a[2], anyMap)
		return Value{p: Agg{a[2], B(false)}}
	})
	def("(*sync.Map).Range", func(m *M, fn *Fn, a []Value) Value {
		mo, _ := smap(m, a[0], false).p.(*MapObj)
		if mo == nil {
			return Value{}
		}
		cl := a[1].p.(*Closure)
		d := m.mrd(mo)
		for i := 0; i < len(d.keys); i++ {
			if d.live[i] {
				r := m.call(cl.fn, []Value{d.keys[i], d.vals[i]}, cl.fv)
				if !m.decide(m.symOf(r, SBool)) {
					break
				}
			}
		}
		return Value{}
	})
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		def("sync/atomic.Load"+ty, func(m *M, fn *Fn, a []Value) Value { return m.rd(a[0].obj())[a[0].n] })
		def("sync/atomic.Store"+ty, func(m *M, fn *Fn, a []Value) Value { m.wr(a[0].obj())[a[0].n] = a[1]; return Value{} })
		def("sync/atomic.CompareAndSwap"+ty, func(m *M, fn *Fn, a []Value) Value {
			c := m.rd(a[0].obj())[a[0].n]
			if c == a[1] {
				m.wr(a[0].obj())[a[0].n] = a[2]
				return B(true)
			}
			return B(false)
		})
		w := Sort(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		def("sync/atomic.Add"+ty, func(m *M, fn *Fn, a []Value) Value {
			v := sv(m.tb.Bin(OAdd, m.symOf(m.rd(a[0].obj())[a[0].n], w), m.symOf(a[1], w)))
			m.wr(a[0].obj())[a[0].n] = v
			return v
		})
	}

	// ---- reflect (type identity and size only)
	def("reflect.TypeOf", func(m *M, fn *Fn, a []Value) Value {
		x, _ := a[0].p.(*Iface)
		if x == nil {
			return Value{}
		}
		return m.rtype(x.t)
	})
	def("errors.As", func(m *M, fn *Fn, a []Value) Value { panic(unsupported("errors.As")) })
	def("internal/reflectlite.TypeOf", func(m *M, fn *Fn, a []Value) Value {
		x, _ := a[0].p.(*Iface)
		if x == nil {
			return Value{}
		}
		return m.rtype(x.t)
	})
	def("errors.Is", func(m *M, fn *Fn, a []Value) Value {
		// the real algorithm, with comparability decided by the engine
		return B(m.errorsIs(a[0], a[1], 0))
	})
	def("math.Float64bits", func(m *M, fn *Fn, a []Value) Value { return m.fbits(a[0], SF64) })
	def("math.Float32bits", func(m *M, fn *Fn, a []Value) Value { return m.fbits(a[0], SF32) })
	def("math.Float64frombits", func(m *M, fn *Fn, a []Value) Value {
		if a[0].p == nil {
			return a[0]
		}
		return sv(m.tb.Un(OFFromBits, SF64, m.symOf(a[0], 64)))
	})
	def("math.Float32frombits", func(m *M, fn *Fn, a []Value) Value {
		if a[0].p == nil {
			return a[0]
		}
		return sv(m.tb.Un(OFFromBits, SF32, m.symOf(a[0], 32)))
	})
	defPure("math.IsNaN", func(m *M, fn *Fn, a []Value) Value { return sv(m.tb.Un(OFIsNaN, SBool, m.symOf(a[0], SF64))) })
	for i, name := range []string{"Trunc", "Floor", "Ceil", "RoundToEven"} {
		defPure("math."+name, func(m *M, fn *Fn, a []Value) Value { return sv(m.tb.Round(uint64(i), m.symOf(a[0], SF64))) })
	}
	defPure("math.Abs", func(m *M, fn *Fn, a []Value) Value {
		t := m.symOf(m.fbits(a[0], SF64), 64)
		return sv(m.tb.Un(OFFromBits, SF64, m.tb.Bin(OBAnd, t, m.tb.Const(64, 1<<63-1))))
	})
	def("time.Now", nop)
}

func (m *M) fbits(v Value, s Sort) Value {
	if v.p == nil {
		return v
	}
	t := m.symOf(v, s)
	if t.op == OFFromBits {
		return sv(t.a)
	}
	w := Sort(64)
	if s == SF32 {
		w = 32
	}
	return sv(m.tb.Un(OFToBits, w, t))
}

func (m *M) concretizeF(v Value) uint64 {
	if v.p == nil {
		return v.n
	}
	return m.concretize(m.fbits(v, SF64), 64)
}

// hostRender: small or concrete integers are rendered by enumeration.
func (m *M) hostRender(v Value) bool {
	t, ok := v.p.(*Term)
	if !ok {
		return true
	}
	if t.op == OIte {
		n := 200
		return iteConstLeaves(t, &n)
	}
	return false
}

// decimal gives the digits of a number that is a sum of symbolic digits times
// the powers of ten, nil if the term is not of this form.
func (m *M) decimal(t *Term, signed bool) []Value {
	tb := m.tb
	type digit struct {
		t     *Term
		ascii bool
	}
	coefs := map[uint64]digit{}
	konst := uint64(0)
	var lin func(t *Term, c uint64) bool
	lin = func(t *Term, c uint64) bool {
		if t.isConst() {
			konst += c * t.k
			return true
		}
		if d := m.dom(tb.support(t)); d != nil {
			vals := m.values(t, d).vals
			lo, hi := ^uint64(0), uint64(0)
			for i := 0; i < d.n; i++ {
				if d.mask.has(i) {
					lo, hi = min(lo, vals[i]), max(hi, vals[i])
				}
			}
			if lo > hi {
				return false
			}
			ascii := lo >= '0' && hi <= '9'
			if ascii || hi <= 9 {
				if _, dup := coefs[c]; dup {
					return false
				}
				if ascii {
					konst += c * '0'
				}
				coefs[c] = digit{t, ascii}
				return true
			}
		}
		switch t.op {
		case OAdd:
			return lin(t.a, c) && lin(t.b, c)
		case OSub:
			return lin(t.a, c) && lin(t.b, -c)
		case ONeg:
			return lin(t.a, -c)
		case OMul:
			if t.b.isConst() {
				return lin(t.a, c*t.b.k)
			}
			if t.a.isConst() {
				return lin(t.b, c*t.a.k)
			}
		}
		return false
	}
	if !lin(t, 1) || konst&mask(t.s) != 0 || len(coefs) == 0 {
		return nil
	}
	neg := false
	if _, ok := coefs[1]; !ok {
		if neg = signed; !neg {
			return nil
		}
	}
	var ds []Value
	pow := uint64(1)
	n := len(coefs)
	for i := 0; i < n; i++ {
		if i > 0 {
			pow *= 10
		}
		if i >= 18 || t.s < 64 && pow*10 > mask(t.s)>>1 {
			return nil
		}
		c := pow
		if neg {
			c = -pow
		}
		d, ok := coefs[c]
		if !ok {
			return nil
		}
		b := tb.Conv(d.t, 8, false)
		if !d.ascii {
			b = tb.Bin(OAdd, b, tb.Const(8, '0'))
		}
		ds = append([]Value{sv(b)}, ds...)
	}
	for len(ds) > 1 && m.decide(tb.Eq(m.symOf(ds[0], 8), tb.Const(8, '0'))) {
		ds = ds[1:]
	}
	if neg && (len(ds) > 1 || !m.decide(tb.Eq(m.symOf(ds[0], 8), tb.Const(8, '0')))) {
		ds = append([]Value{U('-')}, ds...)
	}
	return ds
}

// fmtInt renders a symbolic integer digit by digit, forking over sign and length.
func (m *M) fmtInt(v Value, w Sort, signed bool, base int) Value {
	tb := m.tb
	t := m.symOf(v, w)
	for n := 8; n > 0 && t.op == OIte && !(t.b.isConst() && t.c.isConst()); n-- {
		if m.decide(t.a) {
			t = t.b
		} else {
			t = t.c
		}
	}
	if base == 10 {
		if ds := m.decimal(t, signed); ds != nil {
			return strOf(ds)
		}
	}
	neg := false
	if signed && m.decide(tb.Cmp(OSlt, t, tb.Const(w, 0))) {
		neg = true
		t = tb.Neg(t)
	}
	var ds []Value
	b := tb.Const(w, uint64(base))
	pow := uint64(1)
	n := 1
	for {
		np := pow * uint64(base)
		if np/uint64(base) != pow || (w < 64 && np > mask(w)) {
			break
		}
		if m.decide(tb.Cmp(OUlt, t, tb.Const(w, np))) {
			break
		}
		pow = np
		n++
	}
	for i := 0; i < n; i++ {
		d := tb.Conv(tb.Bin(OURem, t, b), 8, false)
		c := tb.Bin(OAdd, d, tb.Const(8, '0'))
		if base > 10 {
			c = tb.Ite(tb.Cmp(OUlt, d, tb.Const(8, 10)), c, tb.Bin(OAdd, d, tb.Const(8, 'a'-10)))
		}
		ds = append(ds, sv(c))
		t = tb.Bin(OUDiv, t, b)
	}
	if neg {
		ds = append(ds, U('-'))
	}
	for i, j := 0, len(ds)-1; i < j; i, j = i+1, j-1 {
		ds[i], ds[j] = ds[j], ds[i]
	}
	return strOf(ds)
}

func (m *M) cmp3(a, b Value) Value {
	tb := m.tb
	lt, eq := m.strLess(a, b), m.strEq(a, b)
	return sv(tb.Ite(lt, tb.Const(64, ^uint64(0)), tb.Ite(eq, tb.Const(64, 0), tb.Const(64, 1))))
}

func (m *M) mapCase(s Value, host func(string) string, lo, hi byte, delta uint64) Value {
	s = m.force(s)
	if str, ok := s.p.(string); ok || s.p == nil {
		return S(host(str))
	}
	out := []Value{}
	for _, b := range m.strBytes(s) {
		t := m.symOf(b, 8)
		if !m.decide(m.tb.Cmp(OUlt, t, m.tb.Const(8, 0x80))) {
			panic(unsupported("case mapping of symbolic non-ASCII text"))
		}
		in := m.tb.And(m.tb.Cmp(OUle, m.tb.Const(8, uint64(lo)), t), m.tb.Cmp(OUle, t, m.tb.Const(8, uint64(hi))))
		out = append(out, sv(m.tb.Ite(in, m.tb.Bin(OAdd, t, m.tb.Const(8, delta)), t)))
	}
	return strOf(out)
}

// quote is strconv.Quote; text that needs no escapes stays symbolic.
func (m *M) quote(v Value) Value {
	v = m.force(v)
	if s, ok := v.p.(string); ok || v.p == nil {
		return S(strconv.Quote(s))
	}
	plain := m.tb.True
	for _, b := range m.strBytes(v) {
		t := m.symOf(b, 8)
		k := func(c uint64) *Term { return m.tb.Const(8, c) }
		plain = m.tb.And(plain, m.tb.And(m.tb.Cmp(OUle, k(' '), t), m.tb.Cmp(OUlt, t, k(0x7f))))
		plain = m.tb.And(plain, m.tb.Not(m.tb.Or(m.tb.Eq(t, k('"')), m.tb.Eq(t, k('\\')))))
	}
	if m.decide(plain) {
		return m.concat(S("\""), m.concat(v, S("\"")))
	}
	return S(strconv.Quote(m.concStr(v)))
}

func (m *M) numError(fn, s string, err error) Value {
	pkg := m.prog.ssa.ImportedPackage("strconv")
	name := "ErrSyntax"
	if e, ok := err.(*strconv.NumError); ok && e.Err == strconv.ErrRange {
		name = "ErrRange"
	}
	inner := m.rd(m.globalReady(pkg.Var(name)))[0]
	t := m.ts.get(types.NewPointer(pkg.Type("NumError").Type()))
	o := m.newObj(3)
	o.s[0], o.s[1], o.s[2] = S(fn), S(s), inner
	return Value{p: &Iface{t, Value{p: o}}}
}

func (m *M) invoke(recv Value, name string, args []Value) Value {
	ifc, _ := recv.p.(*Iface)
	if ifc == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	f := m.methodByName(ifc.t, name)
	if f == nil {
		panic(unsupported("no method " + name))
	}
	return m.call(f, append([]Value{ifc.v}, args...), nil)
}

func (m *M) methodByName(t *TI, name string) *Fn {
	if f, ok := t.ms["."+name]; ok {
		return f
	}
	sel := m.prog.methodSel(t.t, name)
	var x *Fn
	if sel != nil {
		x = m.fn(sel)
	}
	if t.ms == nil {
		t.ms = map[string]*Fn{}
	}
	t.ms["."+name] = x
	return x
}

func (m *M) errorsIs(err, target Value, depth int) bool {
	if err.p == nil || target.p == nil {
		return err.p == nil && target.p == nil
	}
	for depth < 50 {
		depth++
		e := err.p.(*Iface)
		t := target.p.(*Iface)
		if types.Comparable(t.t.t) && e.t == t.t && m.decide(m.ifaceEq(err, target)) {
			return true
		}
		if f := m.methodByName(e.t, "Is"); f != nil && f.ssa.Signature.Params().Len() == 1 {
			if m.decide(m.symOf(m.call(f, []Value{e.v, target}, nil), SBool)) {
				return true
			}
		}
		f := m.methodByName(e.t, "Unwrap")
		if f == nil {
			return false
		}
		r := m.call(f, []Value{e.v}, nil)
		if _, isSlice := f.ssa.Signature.Results().At(0).Type().Underlying().(*types.Slice); isSlice {
			for _, x := range append([]Value(nil), m.sliceVals(r)...) {
				if m.errorsIs(x, target, depth) {
					return true
				}
			}
			return false
		}
		if r.p == nil {
			return false
		}
		err = r
	}
	return false
}

// try runs a closure and reports whether it panicked (harness helper).
func (m *M) try(f Value) (res Value) {
	cl := f.p.(*Closure)
	depth, callers, sp, stack := m.depth, len(m.callers), m.sp, m.stack
	pf, dd := len(m.panicFrames), len(m.deferDepth)
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(*TPanic); ok && !t.exit {
				m.depth, m.callers, m.sp, m.stack = depth, m.callers[:callers], sp, stack
				m.panicFrames, m.deferDepth = m.panicFrames[:pf], m.deferDepth[:dd]
				msg := t.msg
				if msg == "" {
					msg = "panic"
				}
				res = S(msg)
				return
			}
			panic(r)
		}
	}()
	m.call(cl.fn, nil, cl.fv)
	return Value{}
}

// sortSlice sorts a slice stably with a less closure (sort.Slice, sort.SliceStable).
func (m *M) sortSlice(x, less Value) {
	ifc, _ := x.p.(*Iface)
	cl, _ := less.p.(*Closure)
	if ifc == nil || cl == nil || ifc.t.elem == nil {
		m.rtPanic("reflect: call of Swapper on a value that is no slice")
	}
	et := ifc.t.elem
	o := ifc.v.obj()
	n, off := ifc.v.sLen(), ifc.v.sOff()
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			if !m.decide(m.toTerm(m.call(cl.fn, []Value{I(j), I(j - 1)}, cl.fv), SBool)) {
				break
			}
			p, q := Value{uint64(off + j*et.slots), o}, Value{uint64(off + (j-1)*et.slots), o}
			a, b := m.load(p, et), m.load(q, et)
			m.store(p, b, et)
			m.store(q, a, et)
		}
	}
}

// ---- reflect.Type objects

func (m *M) rtype(t *TI) Value {
	if m.rtypeTI == nil {
		m.rtypeTI = m.prog.rtypeTI(m)
	}
	o, ok := m.rtypes[t]
	if !ok {
		o = &Obj{s: make([]Value, 1), base: true, rt: t}
		m.rtypes[t] = o
	}
	return Value{p: &Iface{m.rtypeTI, Value{p: o}}}
}

func (m *M) rtypeMethod(name string, a []Value) Value {
	t := a[0].obj().rt
	switch name {
	case "Size":
		return U(uint64(m.prog.sizes.Sizeof(t.t)))
	case "String":
		return S(types.TypeString(t.t, func(p *types.Package) string { return p.Name() }))
	case "Name":
		if n, ok := t.t.(*types.Named); ok {
			return S(n.Obj().Name())
		}
		return S("")
	case "Comparable":
		return B(types.Comparable(t.t))
	case "Kind":
		if b, ok := t.u.(*types.Basic); ok {
			k := map[types.BasicKind]uint64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24}
			return U(k[b.Kind()])
		}
		switch t.u.(type) {
		case *types.Array:
			return U(17)
		case *types.Chan:
			return U(18)
		case *types.Signature:
			return U(19)
		case *types.Interface:
			return U(20)
		case *types.Map:
			return U(21)
		case *types.Pointer:
			return U(22)
		case *types.Slice:
			return U(23)
		case *types.Struct:
			return U(25)
		}
	}
	panic(unsupported("reflect.Type." + name))
}

// ---- formatting

func (m *M) isStrIface(v Value) bool {
	x, _ := v.p.(*Iface)
	return x != nil && x.t.str
}

func (m *M) lazyFmt(f, args Value) Value {
	format, ok := m.forceStr(f)
	if !ok {
		panic(unsupported("symbolic format string"))
	}
	as := append([]Value(nil), m.sliceVals(args)...)
	simple := true
	for _, a := range as {
		x, _ := a.p.(*Iface)
		if x == nil {
			continue
		}
		switch {
		case x.t.scalar:
			if x.v.p != nil {
				simple = false
			}
			if _, named := x.t.t.(*types.Named); named {
				simple = false
			}
		case x.t.str:
			if _, lazy := x.v.p.(*LStr); lazy {
				simple = false
			}
		default:
			simple = false
		}
	}
	if simple {
		return m.sprintf(format, as)
	}
	return Value{p: &LStr{kind: lsFmt, fmt: format, args: as}}
}

func (m *M) sprintf(format string, args []Value) Value {
	var out []Value
	emit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, U(uint64(s[i])))
		}
	}
	next := 0
	arg := func() (Value, bool) {
		if next >= len(args) {
			return Value{}, false
		}
		next++
		return args[next-1], true
	}
	for i := 0; i < len(format); {
		c := format[i]
		if c != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			emit(format[i : i+j])
			i += j
			continue
		}
		i++
		if i >= len(format) {
			emit("%!(NOVERB)")
			break
		}
		var plus, minus, sharp, zero, space bool
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '+':
				plus = true
			case '-':
				minus = true
			case '#':
				sharp = true
			case '0':
				zero = true
			case ' ':
				space = true
			default:
				break flags
			}
		}
		width, prec := -1, -1
		num := func() int {
			n, any := 0, false
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				n = n*10 + int(format[i]-'0')
				i++
				any = true
			}
			if !any {
				return -1
			}
			return n
		}
		star := func() int {
			i++
			v, ok := arg()
			if !ok {
				return -1
			}
			x := v.p.(*Iface)
			return int(sx(m.concretize(x.v, x.t.w), x.t.w))
		}
		if i < len(format) && format[i] == '*' {
			width = star()
			if width < 0 {
				minus = true
				width = -width
			}
		} else {
			width = num()
		}
		if i < len(format) && format[i] == '.' {
			i++
			if i < len(format) && format[i] == '*' {
				prec = star()
			} else {
				prec = num()
				if prec < 0 {
					prec = 0
				}
			}
		}
		if i >= len(format) {
			emit("%!(NOVERB)")
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			emit("%")
			continue
		}
		v, ok := arg()
		if !ok {
			emit("%!" + string(verb) + "(MISSING)")
			continue
		}
		s := m.fmtVal(v, verb, plus, sharp, zero, space, width, prec, 0)
		b := m.strBytes(s)
		if width > 0 {
			w := 0
			if str, ok := s.p.(string); ok {
				w = utf8.RuneCountInString(str)
			} else {
				w = len(b)
				for _, x := range b {
					if x.p != nil {
						t := m.symOf(x, 8)
						if !m.decide(m.tb.Cmp(OUlt, t, m.tb.Const(8, 0x80))) {
							panic(unsupported("padding symbolic non-ASCII text"))
						}
					}
				}
			}
			pad := width - w
			if pad > 0 {
				ch := " "
				if zero && !minus {
					ch = "0"
				}
				if minus {
					out = append(out, b...)
					emit(strings.Repeat(" ", pad))
				} else {
					emit(strings.Repeat(ch, pad))
					out = append(out, b...)
				}
				continue
			}
		}
		out = append(out, b...)
	}
	if next < len(args) {
		emit("%!(EXTRA ...)")
	}
	return strOf(out)
}

func qual(p *types.Package) string { return p.Name() }

func (m *M) fmtVal(v Value, verb byte, plus, sharp, zero, space bool, width, prec, depth int) Value {
	x, _ := v.p.(*Iface)
	if x == nil {
		if verb == 'T' || verb == 'v' {
			return S("<nil>")
		}
		return S("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return S(types.TypeString(x.t.t, qual))
	}
	return m.fmtTyped(x.v, x.t, verb, plus, sharp, zero, prec, depth)
}

func (m *M) fmtTyped(v Value, t *TI, verb byte, plus, sharp, zero bool, prec, depth int) Value {
	if (verb == 'v' && !sharp) || verb == 's' || verb == 'q' || verb == 'w' {
		for _, name := range []string{"Error", "String"} {
			if f := m.methodByName(t, name); f != nil {
				sg := f.ssa.Signature
				if sg.Params().Len() == 0 && sg.Results().Len() == 1 && m.ts.get(sg.Results().At(0).Type()).str {
					if _, isPtr := t.u.(*types.Pointer); isPtr && v.p == nil {
						r := m.callCatch(f, v)
						if r == nil {
							return S("<nil>")
						}
						return *r
					}
					r := m.callCatch(f, v)
					if r == nil {
						return S("%!" + string(verb) + "(PANIC=" + name + " method)")
					}
					return *r
				}
			}
		}
	}
	switch {
	case t.str:
		switch verb {
		case 'q':
			return m.quote(v)
		case 'x', 'X':
			return S(fmt.Sprintf("%"+string(verb), m.concStr(v)))
		case 'v':
			if sharp {
				return m.quote(v)
			}
		case 's':
		default:
			return m.concat(S("%!"+string(verb)+"(string="), m.concat(m.force(v), S(")")))
		}
		s := m.force(v)
		if prec >= 0 {
			b := m.strBytes(s)
			if len(b) > prec {
				b = b[:prec]
			}
			return strOf(b)
		}
		return s
	case t.float:
		f := math.Float64frombits(0)
		if t.w == SF64 {
			f = math.Float64frombits(m.concretizeF(v))
		} else {
			f = float64(math.Float32frombits(uint32(v.n)))
		}
		if verb == 'v' {
			return S(strconv.FormatFloat(f, 'g', -1, 64))
		}
		p := ""
		if prec >= 0 {
			p = "." + strconv.Itoa(prec)
		}
		return S(fmt.Sprintf("%"+p+string(verb), f))
	case t.scalar && t.w == SBool:
		if m.decide(m.symOf(v, SBool)) {
			return S("true")
		}
		return S("false")
	case t.scalar:
		switch verb {
		case 'd', 'v':
			if !m.hostRender(v) {
				return m.fmtInt(v, t.w, t.signed, 10)
			}
			n := m.concretize(v, t.w)
			s := ""
			if t.signed {
				s = strconv.FormatInt(sx(n, t.w), 10)
			} else {
				s = strconv.FormatUint(n, 10)
			}
			if plus && verb == 'd' && s[0] != '-' {
				s = "+" + s
			}
			return S(s)
		case 'c':
			return m.runeToStr(v, t.w, t.signed)
		case 'x', 'X', 'o', 'b', 'q', 'U':
			n := m.concretize(v, t.w)
			f := "%" + string(verb)
			if sharp {
				f = "%#" + string(verb)
			}
			if t.signed {
				return S(fmt.Sprintf(f, sx(n, t.w)))
			}
			return S(fmt.Sprintf(f, n))
		}
		n := m.concretize(v, t.w)
		if t.signed {
			return S(fmt.Sprintf("%!"+string(verb)+"(%s=%d)", types.TypeString(t.t, qual), sx(n, t.w)))
		}
		return S(fmt.Sprintf("%!"+string(verb)+"(%s=%d)", types.TypeString(t.t, qual), n))
	}
	if depth > 6 {
		return S("...")
	}
	switch u := t.u.(type) {
	case *types.Pointer:
		if v.p == nil {
			return S("<nil>")
		}
		et := m.ts.get(u.Elem())
		if depth == 0 && et.agg {
			return m.concat(S("&"), m.fmtTyped(m.load(v, et), et, verb, plus, sharp, zero, prec, depth+1))
		}
		return S("0xc000000000")
	case *types.Struct:
		a, ok := v.p.(Agg)
		if !ok {
			break
		}
		out := S("{")
		for i, f := range t.fields {
			if i > 0 {
				out = m.concat(out, S(" "))
			}
			if plus || sharp {
				out = m.concat(out, S(u.Field(i).Name()+":"))
			}
			out = m.concat(out, m.fmtAny(getSlots(a, t.offs[i], f), f, verb, plus, sharp, depth+1))
		}
		return m.concat(out, S("}"))
	case *types.Slice:
		out := S("[")
		n := v.sLen()
		for i := 0; i < n; i++ {
			if i > 0 {
				out = m.concat(out, S(" "))
			}
			e := getSlots(m.rd(v.obj()), v.sOff()+i*t.elem.slots, t.elem)
			out = m.concat(out, m.fmtAny(e, t.elem, verb, plus, sharp, depth+1))
		}
		return m.concat(out, S("]"))
	case *types.Interface:
		return m.fmtAny(v, t, verb, plus, sharp, depth)
	}
	panic(unsupported("formatting of " + t.String()))
}

func (m *M) fmtAny(v Value, t *TI, verb byte, plus, sharp bool, depth int) Value {
	if t.isIf {
		x, _ := v.p.(*Iface)
		if x == nil {
			return S("<nil>")
		}
		return m.fmtTyped(x.v, x.t, verb, plus, sharp, false, -1, depth)
	}
	return m.fmtTyped(v, t, verb, plus, sharp, false, -1, depth)
}

func (m *M) callCatch(f *Fn, v Value) (r *Value) {
	depth, callers, sp, stack := m.depth, len(m.callers), m.sp, m.stack
	defer func() {
		if e := recover(); e != nil {
			if t, ok := e.(*TPanic); ok && !t.exit {
				m.depth, m.callers, m.sp, m.stack = depth, m.callers[:callers], sp, stack
				r = nil
				return
			}
			panic(e)
		}
	}()
	x := m.force(m.call(f, []Value{v}, nil))
	return &x
}

// strUnder evaluates a string under a model without forking.
func (m *M) strUnder(v Value, mod Model) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		out := make([]byte, len(s.b))
		for i, b := range s.b {
			if t, ok := b.p.(*Term); ok {
				out[i] = byte(m.tb.Eval(t, mod))
			} else {
				out[i] = byte(b.n)
			}
		}
		return string(out)
	case *LStr:
		if s.isSet && s.path == m.path {
			return m.strUnder(s.done, mod)
		}
		switch s.kind {
		case lsIte:
			if m.tb.Eval(s.g, mod) == 1 {
				return m.strUnder(s.a, mod)
			}
			return m.strUnder(s.b, mod)
		case lsTable:
			i := int(m.tb.Eval(s.idx, mod))
			if i < len(s.tab) {
				return m.strUnder(s.tab[i], mod)
			}
		case lsConcat:
			return m.strUnder(s.parts[0], mod) + m.strUnder(s.parts[1], mod)
		case lsFmt:
			return s.fmt
		}
	}
	return "?"
}
