package hbase

import (
	"errors"

	"github.com/HannesKimara/cddlc/runtime/validators"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

func compare[T validators.NumericOrdered](v, lo, hi T) {
	nan := v != v || lo != lo || hi != hi
	// the order, without relying on the operators the validators use
	below := func(a, b T) bool { return sym.And(a != b, sym.And(!(b < a), sym.And(a == a, b == b))) }
	sym.Assert(validators.InExclusiveRange(v, lo, hi) == sym.And(below(lo, v), below(v, hi)), "the exclusive range")
	sym.Assert(validators.InInclusiveRange(v, lo, hi) == sym.And(sym.Or(below(lo, v), lo == v), sym.Or(below(v, hi), v == hi)), "the inclusive range")
	sym.Assert(validators.IsLessThan(v, hi) == below(v, hi), "less than")
	sym.Assert(validators.IsGreaterThan(v, lo) == below(lo, v), "greater than")
	if nan {
		sym.Assert(!validators.InInclusiveRange(v, lo, hi), "NaN is in no range")
		sym.Reach("nan")
	} else {
		sym.Reach("end")
	}
}

// Comparisons: the range checks on every numeric type (R01).
func Comparisons() {
	switch sym.Param("T", 0) {
	case 0:
		compare(sym.Int("v"), sym.Int("lo"), sym.Int("hi"))
	case 1:
		compare(sym.I8("v"), sym.I8("lo"), sym.I8("hi"))
	case 2:
		compare(sym.I16("v"), sym.I16("lo"), sym.I16("hi"))
	case 3:
		compare(sym.I32("v"), sym.I32("lo"), sym.I32("hi"))
	case 4:
		compare(sym.I64("v"), sym.I64("lo"), sym.I64("hi"))
	case 5:
		compare(uint(sym.U64("v")), uint(sym.U64("lo")), uint(sym.U64("hi")))
	case 6:
		compare(sym.U8("v"), sym.U8("lo"), sym.U8("hi"))
	case 7:
		compare(sym.U16("v"), sym.U16("lo"), sym.U16("hi"))
	case 8:
		compare(sym.U32("v"), sym.U32("lo"), sym.U32("hi"))
	case 9:
		compare(sym.U64("v"), sym.U64("lo"), sym.U64("hi"))
	case 10:
		compare(sym.F32("v"), sym.F32("lo"), sym.F32("hi"))
	case 11:
		compare(sym.F64("v"), sym.F64("lo"), sym.F64("hi"))
	}
}

// Musts: the must-checks (R01).
func Musts() {
	b := sym.Bool("b")
	msg := sym.Try(func() { validators.MustBool(b) })
	sym.Assert((msg != "") == !b, "MustBool panics exactly if given false")
	var err error
	if sym.Bool("err") {
		err = errors.New("e")
	}
	msg = sym.Try(func() { validators.MustNotErr(err) })
	sym.Assert((msg != "") == (err != nil), "MustNotErr panics exactly if given an error")
	sym.Reach("end")
}

// Sizes: the size check depends on the type and limit alone (R02).
func Sizes() {
	limit := uint(sym.U64("limit"))
	u, f := sym.U64("v"), sym.F64("f")
	is := func(v interface{}, size uint) {
		sym.Assert(validators.CheckSize(v, limit) == (size < limit), "a value passes exactly if its type is narrower than the limit")
	}
	is(int8(u), 1)
	is(uint8(u), 1)
	is(u&1 == 1, 1)
	is(int16(u), 2)
	is(uint16(u), 2)
	is(int32(u), 4)
	is(uint32(u), 4)
	is(float32(f), 4)
	is(int64(u), 8)
	is(u, 8)
	is(int(u), 8)
	is(uint(u), 8)
	is(f, 8)
	is([2]int32{int32(u), 1}, 8)
	is([3]uint8{uint8(u)}, 3)
	is(struct{ a, b int64 }{int64(u), 2}, 16)
	sym.Reach("end")
}
