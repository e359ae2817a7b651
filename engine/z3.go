package main

/*
#cgo LDFLAGS: -lz3
#include <z3.h>
#include <stdlib.h>
static void quiet(Z3_context c, Z3_error_code e) {}
static void set_quiet(Z3_context c) { Z3_set_error_handler(c, quiet); }
*/
import "C"

import (
	"fmt"
	"os"
	"time"
	"unsafe"
)

// slowDir is where slow queries are written, for debugging.
var slowDir = os.Getenv("GOSYM_SLOW")

type zast C.Z3_ast

// Solver wraps one Z3 context; every worker has its own.
type Solver struct {
	ctx      C.Z3_context
	s        C.Z3_solver
	tb       *TB
	sorts    map[Sort]C.Z3_sort
	rm       C.Z3_ast
	Checks   int64
	Sat      int64
	Unsat    int64
	Unknown  int64
	Time     time.Duration
	depth    int
	asserted []*Term // per level bookkeeping for SMT-LIB export
	levels   []int
	timeout  int
	Again    int64 // checks decided by a new solver
}

func NewSolver(tb *TB, timeoutMs int) *Solver {
	cfg := C.Z3_mk_config()
	defer C.Z3_del_config(cfg)
	ctx := C.Z3_mk_context_rc(cfg)
	C.set_quiet(ctx)
	s := &Solver{ctx: ctx, tb: tb, sorts: map[Sort]C.Z3_sort{}}
	s.s = C.Z3_mk_simple_solver(ctx)
	C.Z3_solver_inc_ref(ctx, s.s)
	s.timeout = timeoutMs
	s.limit(s.s, timeoutMs/10)
	s.rm = C.Z3_mk_fpa_rne(ctx)
	C.Z3_inc_ref(ctx, s.rm)
	return s
}

// limit bounds the time of a check.
func (s *Solver) limit(z C.Z3_solver, ms int) {
	p := C.Z3_mk_params(s.ctx)
	C.Z3_params_inc_ref(s.ctx, p)
	k := C.CString("timeout")
	C.Z3_params_set_uint(s.ctx, p, C.Z3_mk_string_symbol(s.ctx, k), C.uint(ms))
	C.free(unsafe.Pointer(k))
	C.Z3_solver_set_params(s.ctx, z, p)
	C.Z3_params_dec_ref(s.ctx, p)
}

// afresh decides what is asserted with a new solver, when the incremental one
// gave no answer.
func (s *Solver) afresh(vars []*Term) (C.Z3_lbool, Model) {
	s.Again++
	z := C.Z3_mk_solver(s.ctx)
	C.Z3_solver_inc_ref(s.ctx, z)
	defer C.Z3_solver_dec_ref(s.ctx, z)
	s.limit(z, s.timeout)
	v := C.Z3_solver_get_assertions(s.ctx, s.s)
	C.Z3_ast_vector_inc_ref(s.ctx, v)
	for i := C.uint(0); i < C.Z3_ast_vector_size(s.ctx, v); i++ {
		C.Z3_solver_assert(s.ctx, z, C.Z3_ast_vector_get(s.ctx, v, i))
	}
	C.Z3_ast_vector_dec_ref(s.ctx, v)
	r := C.Z3_solver_check(s.ctx, z)
	if r == C.Z3_L_TRUE {
		return r, s.model(z, vars)
	}
	return r, nil
}

func (s *Solver) sort(w Sort) C.Z3_sort {
	if z, ok := s.sorts[w]; ok {
		return z
	}
	var z C.Z3_sort
	switch w {
	case SBool:
		z = C.Z3_mk_bool_sort(s.ctx)
	case SF32:
		z = C.Z3_mk_fpa_sort_32(s.ctx)
	case SF64:
		z = C.Z3_mk_fpa_sort_64(s.ctx)
	default:
		z = C.Z3_mk_bv_sort(s.ctx, C.uint(w))
	}
	C.Z3_inc_ref(s.ctx, C.Z3_sort_to_ast(s.ctx, z))
	s.sorts[w] = z
	return z
}

func (s *Solver) ast(t *Term) C.Z3_ast {
	if t.z != nil {
		return C.Z3_ast(t.z)
	}
	ctx := s.ctx
	var a, b, c C.Z3_ast
	if t.a != nil {
		a = s.ast(t.a)
	}
	if t.b != nil {
		b = s.ast(t.b)
	}
	if t.c != nil {
		c = s.ast(t.c)
	}
	var z C.Z3_ast
	switch t.op {
	case OConst:
		switch {
		case t.s == SBool:
			if t.k == 1 {
				z = C.Z3_mk_true(ctx)
			} else {
				z = C.Z3_mk_false(ctx)
			}
		case t.s == SF64 || t.s == SF32:
			w := Sort(64)
			if t.s == SF32 {
				w = 32
			}
			bv := C.Z3_mk_unsigned_int64(ctx, C.uint64_t(t.k), s.sort(w))
			C.Z3_inc_ref(ctx, bv)
			z = C.Z3_mk_fpa_to_fp_bv(ctx, bv, s.sort(t.s))
		default:
			z = C.Z3_mk_unsigned_int64(ctx, C.uint64_t(t.k), s.sort(t.s))
		}
	case OVar:
		// symbolic floats are declared as bit-vectors and reinterpreted (OFFromBits)
		sym := C.Z3_mk_int_symbol(ctx, C.int(t.k))
		z = C.Z3_mk_const(ctx, sym, s.sort(t.s))
	case ONot:
		z = C.Z3_mk_not(ctx, a)
	case OAnd:
		args := [2]C.Z3_ast{a, b}
		z = C.Z3_mk_and(ctx, 2, &args[0])
	case OOr:
		args := [2]C.Z3_ast{a, b}
		z = C.Z3_mk_or(ctx, 2, &args[0])
	case OIte:
		z = C.Z3_mk_ite(ctx, a, b, c)
	case OEq:
		z = C.Z3_mk_eq(ctx, a, b)
	case OAdd:
		z = C.Z3_mk_bvadd(ctx, a, b)
	case OSub:
		z = C.Z3_mk_bvsub(ctx, a, b)
	case OMul:
		z = C.Z3_mk_bvmul(ctx, a, b)
	case OUDiv:
		z = C.Z3_mk_bvudiv(ctx, a, b)
	case OSDiv:
		z = C.Z3_mk_bvsdiv(ctx, a, b)
	case OURem:
		z = C.Z3_mk_bvurem(ctx, a, b)
	case OSRem:
		z = C.Z3_mk_bvsrem(ctx, a, b)
	case OBAnd:
		z = C.Z3_mk_bvand(ctx, a, b)
	case OBOr:
		z = C.Z3_mk_bvor(ctx, a, b)
	case OBXor:
		z = C.Z3_mk_bvxor(ctx, a, b)
	case OBNot:
		z = C.Z3_mk_bvnot(ctx, a)
	case ONeg:
		z = C.Z3_mk_bvneg(ctx, a)
	case OShl:
		z = C.Z3_mk_bvshl(ctx, a, b)
	case OLshr:
		z = C.Z3_mk_bvlshr(ctx, a, b)
	case OAshr:
		z = C.Z3_mk_bvashr(ctx, a, b)
	case OUlt:
		z = C.Z3_mk_bvult(ctx, a, b)
	case OUle:
		z = C.Z3_mk_bvule(ctx, a, b)
	case OSlt:
		z = C.Z3_mk_bvslt(ctx, a, b)
	case OSle:
		z = C.Z3_mk_bvsle(ctx, a, b)
	case OExtract:
		z = C.Z3_mk_extract(ctx, C.uint(t.k)+C.uint(t.s)-1, C.uint(t.k), a)
	case OZext:
		z = C.Z3_mk_zero_ext(ctx, C.uint(t.s-t.a.s), a)
	case OSext:
		z = C.Z3_mk_sign_ext(ctx, C.uint(t.s-t.a.s), a)
	case OFAdd:
		z = C.Z3_mk_fpa_add(ctx, s.rm, a, b)
	case OFSub:
		z = C.Z3_mk_fpa_sub(ctx, s.rm, a, b)
	case OFMul:
		z = C.Z3_mk_fpa_mul(ctx, s.rm, a, b)
	case OFDiv:
		z = C.Z3_mk_fpa_div(ctx, s.rm, a, b)
	case OFNeg:
		z = C.Z3_mk_fpa_neg(ctx, a)
	case OFEq:
		z = C.Z3_mk_fpa_eq(ctx, a, b)
	case OFLt:
		z = C.Z3_mk_fpa_lt(ctx, a, b)
	case OFLe:
		z = C.Z3_mk_fpa_leq(ctx, a, b)
	case OFFromBits:
		z = C.Z3_mk_fpa_to_fp_bv(ctx, a, s.sort(t.s))
	case OFToBits:
		z = C.Z3_mk_fpa_to_ieee_bv(ctx, a)
	case OFIsNaN:
		z = C.Z3_mk_fpa_is_nan(ctx, a)
	case OFRound:
		mode := [...]func() C.Z3_ast{func() C.Z3_ast { return C.Z3_mk_fpa_rtz(ctx) }, func() C.Z3_ast { return C.Z3_mk_fpa_rtn(ctx) }, func() C.Z3_ast { return C.Z3_mk_fpa_rtp(ctx) }, func() C.Z3_ast { return C.Z3_mk_fpa_rne(ctx) }}[t.k]()
		z = C.Z3_mk_fpa_round_to_integral(ctx, mode, a)
	case OFCvt:
		z = C.Z3_mk_fpa_to_fp_float(ctx, s.rm, a, s.sort(t.s))
	case OSToF:
		z = C.Z3_mk_fpa_to_fp_signed(ctx, s.rm, a, s.sort(t.s))
	case OUToF:
		z = C.Z3_mk_fpa_to_fp_unsigned(ctx, s.rm, a, s.sort(t.s))
	case OFToS:
		z = C.Z3_mk_fpa_to_sbv(ctx, C.Z3_mk_fpa_rtz(ctx), a, C.uint(t.s))
	case OFToU:
		z = C.Z3_mk_fpa_to_ubv(ctx, C.Z3_mk_fpa_rtz(ctx), a, C.uint(t.s))
	default:
		panic("z3: op " + opNames[t.op])
	}
	if z == nil {
		panic(fmt.Sprintf("z3: could not build %s", t))
	}
	C.Z3_inc_ref(ctx, z)
	t.z = zast(z)
	return z
}

func (s *Solver) Push() {
	C.Z3_solver_push(s.ctx, s.s)
	s.depth++
	s.levels = append(s.levels, len(s.asserted))
}
func (s *Solver) Pop(n int) {
	if n > 0 {
		C.Z3_solver_pop(s.ctx, s.s, C.uint(n))
		s.depth -= n
		s.asserted = s.asserted[:s.levels[s.depth]]
		s.levels = s.levels[:s.depth]
	}
}
func (s *Solver) Assert(t *Term) {
	C.Z3_solver_assert(s.ctx, s.s, s.ast(t))
	s.asserted = append(s.asserted, t)
}

type Res int

const (
	RUnsat Res = iota
	RSat
	RUnknown
)

// Check decides asserted ∧ t and returns a model when satisfiable.
func (s *Solver) Check(t *Term, vars []*Term) (Res, Model) {
	t0 := time.Now()
	s.Checks++
	if t != nil {
		s.Push()
		s.Assert(t)
	}
	r := C.Z3_solver_check(s.ctx, s.s)
	var res Res
	var m Model
	if r == C.Z3_L_UNDEF {
		r, m = s.afresh(vars)
	}
	switch r {
	case C.Z3_L_TRUE:
		res = RSat
		s.Sat++
		if m == nil {
			m = s.model(s.s, vars)
		}
	case C.Z3_L_FALSE:
		res = RUnsat
		s.Unsat++
	default:
		res = RUnknown
		s.Unknown++
	}
	if t != nil {
		s.Pop(1)
	}
	s.Time += time.Since(t0)
	if slowDir != "" && time.Since(t0) > 300*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/%d.smt2", slowDir, time.Now().UnixNano()), []byte(s.SMTLib(t)), 0o644)
	}
	return res, m
}

func (s *Solver) model(z C.Z3_solver, vars []*Term) Model {
	zm := C.Z3_solver_get_model(s.ctx, z)
	C.Z3_model_inc_ref(s.ctx, zm)
	m := make(Model, len(vars))
	for i, v := range vars {
		if v.z == nil {
			continue
		}
		var out C.Z3_ast
		if C.Z3_model_eval(s.ctx, zm, C.Z3_ast(v.z), true, &out) {
			C.Z3_inc_ref(s.ctx, out)
			if v.s == SBool {
				if C.Z3_get_bool_value(s.ctx, out) == C.Z3_L_TRUE {
					m[i] = 1
				}
			} else {
				var u C.uint64_t
				if C.Z3_get_numeral_uint64(s.ctx, out, &u) {
					m[i] = uint64(u)
				}
			}
			C.Z3_dec_ref(s.ctx, out)
		}
	}
	C.Z3_model_dec_ref(s.ctx, zm)
	return m
}

// SMTLib renders the current assertions plus t as an SMT-LIB script.
func (s *Solver) SMTLib(t *Term) string {
	s.Push()
	if t != nil {
		s.Assert(t)
	}
	str := C.GoString(C.Z3_solver_to_string(s.ctx, s.s))
	s.Pop(1)
	return str
}

func (s *Solver) Close() {
	C.Z3_solver_dec_ref(s.ctx, s.s)
	C.Z3_del_context(s.ctx)
}
