package hparse

import (
	"math/bits"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// parse runs the real lexer and parser on a text.
func parse(src string) (*ast.CDDL, parser.ErrorList) {
	return parser.NewParser(lexer.NewLexer([]byte(src))).ParseFile()
}

// value parses a rule and returns what it is defined as.
func valueOf(src string) (ast.Node, parser.ErrorList) {
	cddl, errs := parse(src)
	if len(errs) > 0 {
		return nil, errs
	}
	sym.Assert(len(cddl.Rules) >= 1, "the rule is in the tree")
	r, ok := cddl.Rules[0].(*ast.Rule)
	sym.Assert(ok, "the rule is in the tree")
	return r.Value, nil
}

func digitValue(c byte) uint64 {
	var d byte
	if c <= '9' {
		d = c - '0'
	} else {
		d = c | 0x20 - 'a' + 10
	}
	return uint64(d)
}

// digits is a string of n symbolic digits; decimal numbers have no leading zero.
func digits(name string, n int, base int) string {
	b := sym.Bytes(name, n)
	pre := sym.Param("PRE", 0)
	boundary := "18446744073709551615"
	if n == 19 {
		boundary = "9223372036854775807"
	}
	for i, c := range b {
		switch base {
		case 2:
			sym.Assume(sym.And(c >= '0', c <= '1'))
		case 8:
			sym.Assume(sym.And(c >= '0', c <= '7'))
		case 10:
			sym.Assume(sym.And(c >= '0', c <= '9'))
			if i < pre && i < len(boundary) { // the leading digits of the limits
				b[i] = boundary[i]
			} else if i == 0 && n > 1 {
				sym.Assume(c != '0')
			}
		case 16:
			sym.Assume(sym.Or(sym.And(c >= '0', c <= '9'), sym.Or(sym.And(c >= 'a', c <= 'f'), sym.And(c >= 'A', c <= 'F'))))
		}
	}
	return string(b)
}

// number is the value of the digits and whether it exceeds the limit, which
// is that of the signed or of the unsigned numbers of 64 bits.
func number(s string, base uint64, limit uint64) (v uint64, over bool) {
	most, wraps := uint64(0), false // of as many digits
	for i := 0; i < len(s); i++ {
		d := digitValue(s[i])
		h, l := bits.Mul64(most, base)
		most = l + base - 1
		if h > 0 || most < l {
			wraps = true
		}
		next := v*base + d
		if wraps { // v*base or the sum does not fit in 64 bits
			over = sym.Or(over, sym.Or(v >= maxUint/base+1, next < v*base))
		}
		v = next
	}
	if limit == maxInt && (wraps || most > maxInt) {
		over = sym.Or(over, v >= maxInt+1)
	}
	return v, over
}

var prefixes = map[int]string{2: "0b", 8: "0o", 10: "", 16: "0x"}

const (
	maxInt  = 1<<63 - 1
	maxUint = 1<<64 - 1
)

// Integer: an integer literal has exactly its value or is reported (P06).
func Integer() {
	base := sym.Param("B", 10)
	d := digits("digit", sym.Param("N", 3), base)
	want, over := number(d, uint64(base), maxInt)
	n, errs := valueOf("x = " + prefixes[base] + d)
	sym.Observe("errors", len(errs))
	sym.Assert(over == (len(errs) > 0), "a literal is reported exactly if it does not fit")
	if len(errs) == 0 {
		il, ok := n.(*ast.IntegerLiteral)
		sym.Assert(ok, "the value is an integer literal")
		sym.Observe("value", il.Literal)
		sym.Assert(il.Literal == int64(want), "the literal has its value")
		sym.Reach("fits")
	} else {
		sym.Reach("over")
	}
}

// Bound: occurrence bounds keep their values or are reported (P06).
func Bound() {
	base := sym.Param("B", 10)
	d := digits("digit", sym.Param("N", 3), base)
	src, limit := "x = [*"+prefixes[base]+d+" tstr]", uint64(maxUint)
	if sym.Param("LOWER", 0) == 1 {
		src, limit = "x = ["+prefixes[base]+d+"* tstr]", maxInt
	}
	want, over := number(d, uint64(base), limit)
	n, errs := valueOf(src)
	sym.Observe("errors", len(errs))
	sym.Assert(over == (len(errs) > 0), "a bound is reported exactly if it does not fit")
	if len(errs) == 0 {
		a, ok := n.(*ast.Array)
		sym.Assert(ok && len(a.Rules) == 1, "the array has its entry")
		occ, ok := a.Rules[0].(*ast.NMOccurrence)
		sym.Assert(ok, "the entry is counted")
		if sym.Param("LOWER", 0) == 1 {
			sym.Assert(occ.M == nil && occ.N != nil, "there is a lower bound only")
			sym.Assert(occ.N.Literal == want, "the bound has its value")
		} else {
			sym.Assert(occ.M != nil && occ.N != nil && occ.N.Literal == 0, "there is an upper bound only")
			sym.Assert(occ.M.Literal == want, "the bound has its value")
		}
		sym.Reach("fits")
	} else {
		sym.Reach("over")
	}
}

// TagNumber: tag numbers keep their values or are reported (P06).
func TagNumber() {
	d := digits("digit", sym.Param("N", 3), 10)
	major := sym.Param("MAJOR", 0) == 1
	src := "x = #6." + d + "(tstr)"
	if major {
		src = "x = #" + d
	}
	want, over := number(d, 10, maxUint)
	n, errs := valueOf(src)
	sym.Observe("errors", len(errs))
	sym.Assert(over == (len(errs) > 0), "a tag is reported exactly if it does not fit")
	if len(errs) == 0 {
		tag, ok := n.(*ast.Tag)
		sym.Assert(ok && tag.Major != nil, "the value is a tag")
		if major {
			sym.Assert(tag.TagNumber == nil, "there is no tag number")
			sym.Assert(tag.Major.Literal == want, "the major type has its value")
		} else {
			sym.Assert(tag.TagNumber != nil && tag.Major.Literal == 6, "the major type has its value")
			sym.Assert(tag.TagNumber.Literal == want, "the tag number has its value")
		}
		sym.Reach("fits")
	} else {
		sym.Reach("over")
	}
}

// Fraction: a decimal fraction is the nearest double (P06). Up to 15 digits the
// quotient of the two integers, which are exact doubles, is just that.
func Fraction() {
	w := digits("whole", sym.Param("W", 1), 10)
	f := ""
	for i := 0; i < sym.Param("F", 1); i++ {
		c := sym.U8("fraction")
		sym.Assume(sym.And(c >= '0', c <= '9'))
		f += string([]byte{c})
	}
	if w[0] == '0' { // one case per number of leading zeros
		z := 0
		for z < len(f) && f[z] == '0' {
			z++
		}
		w, f = "0", strings.Repeat("0", z)+f[z:]
	}
	v, _ := number(w+f, 10, maxUint)
	scale := 1.0
	for i := 0; i < len(f); i++ {
		scale *= 10
	}
	n, errs := valueOf("x = " + w + "." + f)
	sym.Observe("errors", len(errs))
	sym.Assert(len(errs) == 0, "a fraction is accepted")
	fl, ok := n.(*ast.FloatLiteral)
	sym.Assert(ok, "the value is a number with a fraction")
	sym.Observe("value", fl.Literal)
	sym.Assert(fl.Literal == float64(v)/scale, "the literal has its value")
	sym.Reach("value")
}

// Text: texts and truth values keep their values (P06).
func Text() {
	b := sym.Bytes("text", sym.Param("N", 3))
	for _, c := range b {
		sym.Assume(sym.And(sym.And(c >= ' ', c != '"'), c < 0x80))
	}
	n, errs := valueOf("x = \"" + string(b) + "\"")
	sym.Assert(len(errs) == 0, "a text is accepted")
	t, ok := n.(*ast.TextLiteral)
	sym.Assert(ok, "the value is a text")
	sym.Assert(t.Literal == string(b), "the text has its characters")
	v := sym.Bool("bool")
	name := "false"
	if v {
		name = "true"
	}
	n, errs = valueOf("x = " + name)
	sym.Assert(len(errs) == 0, "a truth value is accepted")
	bl, ok := n.(*ast.BooleanLiteral)
	sym.Assert(ok && bl.Bool == v, "the truth value is kept")
	sym.Reach("value")
}

// Occurrence: markers carry the bounds written (P07).
func Occurrence() {
	form := sym.Choose("form", 8)
	n1, n2 := "", ""
	g1, g2 := false, false
	src := "x = ["
	item := []string{"tstr", "k: tstr", "(a: uint)", "a"}[sym.Choose("item", 4)]
	marker := "*"
	switch form {
	case 0: // ?
		marker = "?"
	case 1:
		marker = "+"
	case 2:
	case 3, 4, 5: // n* *m n*m
		if form != 4 {
			n1 = digits("n", sym.Param("N", 2), 10)
			g1 = sym.Bool("gap1")
		}
		if form != 3 {
			n2 = digits("m", sym.Param("M", 2), 10)
			g2 = sym.Bool("gap2")
			if len(n2) > 18 { // an entry of its own must fit
				sym.Assume(sym.Or(!g2, n2[0] < '9'))
			}
		}
	case 6: // 5 + x: no bound
		marker = "+"
		n1 = digits("n", 1, 10)
		g1 = sym.Bool("gap1")
	case 7:
		marker = "?"
		n1 = digits("n", 1, 10)
		g1 = sym.Bool("gap1")
	}
	below := sym.Bool("below") // gaps are line breaks after which the column goes on
	gap := func(wide bool) {
		if !wide || !below {
			src += " "
			return
		}
		n := len(src) - 1 - strings.LastIndexByte(src, '\n')
		src += "\n"
		for ; n > 0; n-- {
			src += " "
		}
	}
	src += n1
	if g1 {
		gap(true)
	}
	src += marker
	if g2 {
		gap(true)
	}
	src += n2
	gap(sym.Bool("gap3"))
	src += item + ", b: uint]\na = uint"
	v, errs := valueOf(src)
	sym.Observe("errors", len(errs))
	sym.Assert(len(errs) == 0, "the entries are accepted")
	arr, ok := v.(*ast.Array)
	sym.Assert(ok, "the value is an array")
	rules := arr.Rules
	want := func(n ast.Node, s string) { // an entry that is just a number
		il, ok := n.(*ast.IntegerLiteral)
		sym.Assert(ok, "a detached number is an entry")
		x, _ := number(s, 10, maxInt)
		sym.Assert(il.Literal == int64(x), "a detached number has its value")
	}
	if n1 != "" && (g1 || marker != "*") {
		sym.Assert(len(rules) > 0, "a detached number is an entry")
		want(rules[0], n1)
		rules, n1 = rules[1:], ""
		sym.Reach("detached")
	}
	sym.Assert(len(rules) > 0, "there is a marked entry")
	var it ast.Node
	switch x := rules[0].(type) {
	case *ast.Optional:
		sym.Assert(marker == "?", "? is optional")
		it = x.Item
		sym.Reach("optional")
	case *ast.NMOccurrence:
		sym.Assert(marker != "?", "other markers count")
		lo := uint64(0)
		if marker == "+" {
			lo = 1
		}
		if n1 != "" {
			lo, _ = number(n1, 10, maxInt)
		}
		sym.Assert(x.N != nil && x.N.Literal == lo, "the lower bound is as written")
		if n2 != "" && !g2 {
			hi, _ := number(n2, 10, maxInt)
			sym.Assert(x.M != nil && x.M.Literal == hi, "the upper bound is as written")
			sym.Reach("bounded")
		} else {
			sym.Assert(x.M == nil, "there is no upper bound")
			sym.Reach("unbounded")
		}
		it = x.Item
	default:
		sym.Fail("the entry is marked")
	}
	rules = rules[1:]
	if n2 != "" && g2 { // the item is the number
		want(it, n2)
		sym.Assert(len(rules) > 0, "the entry after a detached number is there")
		it, rules = rules[0], rules[1:]
	}
	switch x := it.(type) {
	case *ast.TstrType:
		ok = item == "tstr"
	case *ast.Entry:
		ok = item == "k: tstr" && x.Name.Name == "k"
	case *ast.Group:
		ok = item == "(a: uint)" && len(x.Entries) == 1
	case *ast.Identifier:
		ok = item == "a" && x.Name == "a"
	default:
		ok = false
	}
	sym.Assert(ok, "the marker applies to the entry that follows")
	sym.Assert(len(rules) == 1, "and only to that one")
	last, ok := rules[0].(*ast.Entry)
	sym.Assert(ok && last.Name.Name == "b", "and only to that one")
}
