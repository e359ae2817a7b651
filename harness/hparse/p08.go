package hparse

import (
	"strings"

	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// What an operand is, as far as operators care.
const (
	oOther    = iota
	oInt      // 5
	oFloat    // 6.2
	oText     // "t"
	oName     // a defined name that is no number
	oIntName  // a name that resolves to an integer
	oFltName  // a name that resolves to a number with a fraction
	oSocket   // $s
	oUnknown  // a name without a definition
	oTextType // tstr, text
	oByteType // bstr, bytes
	oUintType // uint
	oNumType  // the other numeric types
)

func operand(tok token.Token, lit string, name bool) int {
	switch tok {
	case token.IDENT:
		switch lit {
		case "a", "d":
			return oIntName
		case "b", "e":
			return oFltName
		case "c":
			return oName
		case "$s":
			return oSocket
		}
		return oUnknown
	case token.TEXT_LITERAL:
		return oText
	case token.TSTR, token.TEXT:
		return oTextType
	case token.BSTR, token.BYTES:
		return oByteType
	case token.UINT:
		return oUintType
	case token.NINT, token.FLOAT16, token.FLOAT32, token.FLOAT64:
		return oNumType
	case token.INT:
		if name {
			return oNumType
		}
		return oInt
	case token.FLOAT:
		if name {
			return oNumType
		}
		return oFloat
	}
	return oOther
}

// Operands: the types of the operands of each operator are checked (P08).
func Operands() {
	id := func(s string) entry { return e(token.IDENT, s) }
	operands := cat([]entry{id("a"), id("b"), id("c"), id("d"), id("e"), id("u"), id("$s")}, ints, floats, texts, types)
	s := &stream{}
	pre, post := frame(sym.Param("T", 1)) // defines a and b
	before := sym.Bool("before")          // c, d, e are defined before their use
	names := []entry{id("c"), e(token.ASSIGN, "="), e(token.TSTR, "tstr"), id("d"), e(token.ASSIGN, "="), id("a"), id("e"), e(token.ASSIGN, "="), id("b")}
	if before {
		s.put(names...)
	}
	s.put(pre...)
	l := len(s.tok)
	s.any("left", 1, operands, false, false)
	s.any("op", 1, cat([]entry{e(token.INCLUSIVE_BOUND, ".."), e(token.EXCLUSIVE_BOUND, "...")}, controls), false, false)
	s.any("right", 1, operands, false, false)
	s.put(post...)
	if !before {
		s.put(names...)
	}
	left := sym.Conc(operand(s.tok[l], s.lit[l], s.name[l]))
	right := sym.Conc(operand(s.tok[l+2], s.lit[l+2], s.name[l+2]))
	op := sym.Conc(class(s.tok[l+1], s.name[l+1]))
	good, bad := false, false
	number := func(o int) int {
		switch o {
		case oInt, oIntName:
			return 1
		case oFloat, oFltName:
			return 2
		}
		return 0
	}
	switch op {
	case cRange:
		good = number(left) > 0 && number(left) == number(right)
		bad = !good
	case cSize:
		good = left == oTextType || left == oByteType || left == oUintType
		bad = !good
		good = good && right == oInt
	case cRegexp:
		good = left == oTextType
		bad = !good || right != oText && right != oName && right != oSocket && number(right) == 0 || number(right) > 0 && right != oIntName && right != oFltName
		good = good && (right == oText || right == oName || right == oSocket)
	case cCompare:
		good = left == oUintType || left == oNumType
		bad = !good || right == oText || right == oTextType || right == oByteType || right == oOther
		good = good && (number(right) > 0 || right == oSocket)
	case cBits:
		good = left != oUnknown && (right == oName || right == oSocket)
	}
	if left == oUnknown || right == oUnknown {
		good, bad = false, true
	}
	_, errs := parser.NewParser(s.lexer()).ParseFile()
	sym.Observe("errors", len(errs))
	if good {
		sym.Reach("good")
		sym.Assert(len(errs) == 0, "a permitted combination of operands is accepted")
	}
	if bad {
		sym.Reach("bad")
		sym.Assert(len(errs) > 0, "other combinations are reported")
	}
}

// permitted and refused are operators with operands whose values are symbolic.
var permitted = []string{
	"%i .. %i",
	"%f ... %f",
	"b .. %i | b = %i",
	"%i ... b | b = %i",
	"%f .. b | b = %f",
	"b ... c | b = c c = %i",
	"b .. %f | b = c c = %f",
	"tstr .size %i",
	"bytes .size %i",
	"uint .size %i",
	"text .regexp %t",
	"tstr .regexp b | b = %t",
	"uint .lt %i",
	"float .ge %f",
	"nint .eq b | b = %i",
}

var refused = []string{
	"%i .. %f",
	"%f ... %i",
	"b .. %f | b = %i",
	"b ... %i | b = %f",
	"%i .. b | b = %f",
	"%f ... b | b = %i",
	"b .. c | b = %i c = %f",
	"b ... c | b = d c = %i d = %f",
	"%t .. %i",
	"%f .. %t",
	"%i .. b | b = %t",
	"%i .. tstr",
	"uint ... %f",
	"%i .size %i",
	"%f .size %i",
	"%t .size %i",
	"bool .size %i",
	"float .size %i",
	"tstr .regexp %i",
	"tstr .regexp %f",
	"bstr .regexp %t",
	"%t .regexp %t",
	"uint .regexp %t",
	"tstr .lt %i",
	"bool .ge %f",
	"%t .eq %i",
	"uint .lt %t",
	"float .gt %t",
	"uint .ne tstr",
	"( uint ) .size %i",
	"( k : tstr ) .size %i",
	"[ uint ] .size %i",
	"{ k : uint } .size %i",
	"# _6.2 _( uint ) .size %i",
	"# _6.2 .size %i",
	"~ b .size %i | b = uint",
	"b .size %i | b = uint",
	"& ( k : %i ) .size %i",
	"true .size %i",
	"null .size %i",
	"int .size %i",
	"uint .size %i .size %i",
	"( tstr ) .regexp %t",
	"[ tstr ] .regexp %t",
	"# _6.2 _( tstr ) .regexp %t",
	"~ b .regexp %t | b = tstr",
	"b .regexp %t | b = tstr",
	"true .regexp %t",
	"tstr .regexp true",
	"tstr .regexp [ %t ]",
	"( uint ) .lt %i",
	"[ uint ] .ge %i",
	"{ k : uint } .lt %i",
	"# _6.2 _( uint ) .eq %i",
	"~ b .ne %i | b = uint",
	"b .gt %i | b = uint",
	"%i .lt %i",
	"uint .lt %i .lt %i",
	"uint .lt [ %i ]",
	"uint .eq true",
	"( %i ) .. %i",
	"%i .. ( %i )",
	"[ %i ] ... %i",
	"%f ... { k : %f }",
	"# _5 .. %i",
	"# _6.2 _( uint ) .. %i",
	"& ( k : %i ) .. %i",
	"%i .. true",
	"null .. %i",
	"%i .. %i .. %i",
	"%i .. b .. %i | b = %i",
	"b .. %i | b = %i .. %i",
	"%f .. b | b = ( %f )",
	"%i .. b | b = uint",
}

var contexts = []string{
	"a = ^",
	"a = ( ^ )",
	"a = [ tstr , ? ^ ]",
	"a = { k : ^ , l : %i }",
	"a = # _6.2 _( ^ )",
	"a = tstr / ^",
	"a = { k : [ * ( m : ^ ) ] }",
}

// Chains: bounds given by names are what the names resolve to, through any
// number of names; names that are defined as each other are no numbers (P08),
// and parsing ends whatever they are (P01).
func Chains() {
	n := sym.Param("N", 3)
	var ids []entry
	for i := 0; i < n; i++ {
		ids = append(ids, e(token.IDENT, "bcdfgh"[i:i+1]))
	}
	bounds := cat(ids, []entry{e(token.INT, "5"), e(token.FLOAT, "6.2")})
	values := cat(bounds, []entry{e(token.TSTR, "tstr")})
	s := &stream{}
	rng := func() int {
		s.put(e(token.IDENT, "a"), e(token.ASSIGN, "="))
		at := len(s.tok)
		s.any("from", 1, bounds, false, false)
		s.any("op", 1, []entry{e(token.INCLUSIVE_BOUND, ".."), e(token.EXCLUSIVE_BOUND, "...")}, false, false)
		s.any("to", 1, bounds, false, false)
		return at
	}
	at := 0
	first := sym.Bool("first")
	if first {
		at = rng()
	}
	def := map[string]int{}
	for i := 0; i < n; i++ {
		k := i
		if sym.Param("REV", 0) == 1 {
			k = n - 1 - i
		}
		s.put(ids[k], e(token.ASSIGN, "="))
		def[ids[k].lit] = len(s.tok)
		s.any("value", 1, values, false, false)
	}
	if !first {
		at = rng()
	}
	_, errs := parser.NewParser(s.lexer()).ParseFile()
	sym.Observe("errors", len(errs))
	if sym.Param("RETURNS", 0) == 1 {
		if len(errs) > 0 {
			sym.Reach("rejected")
		} else {
			sym.Reach("accepted")
		}
		return
	}
	kind := func(i int) int {
		for k := 0; k <= n; k++ {
			switch sym.Conc(int(s.tok[i])) {
			case int(token.INT):
				return 1
			case int(token.FLOAT):
				return 2
			case int(token.IDENT):
				i = def[sym.ConcStr(s.lit[i])]
			default:
				return 0
			}
		}
		return 0 // around in a circle
	}
	l, r := kind(at), kind(at+2)
	if l > 0 && l == r {
		sym.Reach("good")
		sym.Assert(len(errs) == 0, "bounds of the same kind are accepted")
	} else {
		sym.Reach("bad")
		sym.Assert(len(errs) > 0, "bounds that are no numbers of the same kind are reported")
	}
}

// OperandsValues: the check depends on what the operands are, not on their values (P08).
func OperandsValues() {
	context := contexts[sym.Choose("context", len(contexts))]
	good := sym.Choose("good", 2) == 1
	ts := refused
	if good {
		ts = permitted
	}
	t, names := ts[sym.Choose("template", len(ts))], ""
	if i := strings.IndexByte(t, '|'); i >= 0 {
		t, names = t[:i], t[i:]
	}
	s := &stream{}
	i := strings.IndexByte(context, '^')
	s.fill(context[:i] + t + context[i+1:] + " " + names)
	_, errs := parser.NewParser(s.lexer()).ParseFile()
	sym.Observe("errors", len(errs))
	if good {
		sym.Reach("good")
		sym.Assert(len(errs) == 0, "a permitted combination of operands is accepted")
	} else {
		sym.Reach("bad")
		sym.Assert(len(errs) > 0, "other combinations are reported")
	}
}
