package hparse

import (
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// A reference parser for the supported grammar, written from RFC 8610 and the
// statement of P03 as a recursive descent. It runs first and prunes token
// sequences that are not well-formed, so that only schemas remain.

const (
	cEOF = iota
	cIdent
	cInt
	cFloat
	cText
	cUint  // uint
	cTstr  // tstr, text
	cBytes // bstr, bytes
	cNum   // int, nint, float...
	cPlain // bool, true, false, nil, null
	cLparen
	cRparen
	cLbrack
	cRbrack
	cLbrace
	cRbrace
	cComma
	cKey // : =>
	cAssign
	cExtend
	cOpt
	cStar
	cPlus
	cTilde
	cAmp
	cHash
	cSlash
	cSlashes
	cRange
	cSize
	cRegexp
	cBits
	cCompare
	cComment
	cBad
)

// class groups the tokens the grammar treats alike; lit tells int from 5.
func class(t token.Token, name bool) int {
	switch t {
	case token.IDENT:
		return cIdent
	case token.INT:
		if name {
			return cNum
		}
		return cInt
	case token.FLOAT:
		if name {
			return cNum
		}
		return cFloat
	case token.TEXT_LITERAL:
		return cText
	case token.UINT:
		return cUint
	case token.TSTR, token.TEXT:
		return cTstr
	case token.BSTR, token.BYTES:
		return cBytes
	case token.NINT, token.FLOAT16, token.FLOAT32, token.FLOAT64:
		return cNum
	case token.BOOL, token.TRUE, token.FALSE, token.NIL, token.NULL:
		return cPlain
	case token.LPAREN:
		return cLparen
	case token.RPAREN:
		return cRparen
	case token.LBRACK:
		return cLbrack
	case token.RBRACK:
		return cRbrack
	case token.LBRACE:
		return cLbrace
	case token.RBRACE:
		return cRbrace
	case token.COMMA:
		return cComma
	case token.COLON, token.ARROW_MAP:
		return cKey
	case token.ASSIGN:
		return cAssign
	case token.TYPE_CHOICE_ASSIGN, token.GROUP_CHOICE_ASSIGN:
		return cExtend
	case token.OPTIONAL:
		return cOpt
	case token.ZERO_OR_MORE:
		return cStar
	case token.ONE_OR_MORE:
		return cPlus
	case token.UNWRAP:
		return cTilde
	case token.AMPERSAND:
		return cAmp
	case token.HASH:
		return cHash
	case token.TYPE_CHOICE:
		return cSlash
	case token.GROUP_CHOICE:
		return cSlashes
	case token.INCLUSIVE_BOUND, token.EXCLUSIVE_BOUND:
		return cRange
	case token.SIZE:
		return cSize
	case token.REGEXP:
		return cRegexp
	case token.BITS:
		return cBits
	case token.LT, token.LE, token.GT, token.GE, token.EQ, token.NE:
		return cCompare
	case token.COMMENT:
		return cComment
	}
	return cBad
}

// Kinds of nodes.
const (
	nLeaf   = iota // at: the token
	nGroup         // at: the bracket
	nArray         //
	nMap           //
	nEntry         // at: the separator, key: the name
	nOpt           // at: the marker
	nOccur         // at: the marker, lo, hi: the bounds or -1
	nUnwrap        // at: the operator
	nEnum          //
	nTag           // at: the hash, lo: the number or -1, kids: the type if any
	nChoice        // at: the operator
	nRange         //
	nCtl           //
)

type tree struct {
	kind    int
	at      int
	key     int
	lo, hi  int
	kids    []*tree
	trailer int
}

type rule struct {
	name, op int
	value    *tree
	comment  int // that ends its line, 0 if none
	before   int // the number of comments between rules before it
}

type ref struct {
	s   *stream
	i   int
	cls []int
	// follow is what may come after an entry
	follow uint64
	uses   []int // identifier tokens that need a definition
	rules  []rule
	// comments are allowed, those between rules
	comm uint64
	tops []int
	// there are comments among entries
	inner bool
}

func newRef(s *stream) *ref {
	return &ref{s: s, cls: make([]int, len(s.tok)+1)}
}

// peek is the class of the token k tokens ahead.
func (r *ref) peek(k int) int {
	i := r.i + k
	if i >= len(r.s.tok) {
		return cEOF
	}
	if r.cls[i] == 0 {
		r.cls[i] = sym.Conc(class(r.s.tok[i], r.s.name[i]))
	}
	return r.cls[i]
}

// expect prunes what the grammar does not allow k tokens ahead, before the
// alternatives are told apart; allowed is a set of classes.
func (r *ref) expect(k int, allowed uint64) {
	i := r.i + k
	if i < len(r.s.tok) && r.cls[i] == 0 {
		sym.Assume(allowed>>uint(class(r.s.tok[i], r.s.name[i]))&1 == 1)
	}
}

const (
	operands uint64 = 1<<cIdent | 1<<cInt | 1<<cFloat | 1<<cText | 1<<cUint | 1<<cTstr | 1<<cBytes | 1<<cNum | 1<<cPlain |
		1<<cLparen | 1<<cLbrack | 1<<cLbrace | 1<<cTilde | 1<<cAmp | 1<<cHash
	entries   = operands | 1<<cOpt | 1<<cStar | 1<<cPlus
	operators = uint64(1<<cSlash | 1<<cSlashes | 1<<cRange | 1<<cSize | 1<<cRegexp | 1<<cBits | 1<<cCompare)
)

// glued tells if the token k ahead is attached to the one before.
func (r *ref) glued(k int) bool { return r.i+k < len(r.s.tok) && r.s.glue[r.i+k] }

func (r *ref) take() int { r.i++; return r.i - 1 }

func (r *ref) schema() {
	r.follow = 1<<cIdent | r.comm
	for {
		r.expect(0, r.follow)
		if r.peek(0) == cEOF {
			return
		}
		if r.peek(0) == cComment {
			r.tops = append(r.tops, r.take())
			continue
		}
		if r.peek(0) != cIdent {
			sym.Skip()
		}
		x := rule{name: r.take(), before: len(r.tops)}
		r.expect(0, 1<<cAssign|1<<cExtend)
		if c := r.peek(0); c != cAssign && c != cExtend {
			sym.Skip()
		}
		x.op = r.take()
		x.value = r.choices()
		if r.peek(0) == cComment && sym.Conc(pick(r.s.nl[r.i], 1, 0)) == 0 {
			x.comment = r.take()
		}
		r.rules = append(r.rules, x)
	}
}

// choices is an entry or several separated by //.
func (r *ref) choices() *tree {
	t := r.entry()
	if r.peek(0) == cSlashes {
		at := r.take()
		return &tree{kind: nChoice, at: at, kids: []*tree{t, r.choices()}}
	}
	return t
}

func (r *ref) entry() *tree {
	r.expect(0, entries)
	switch r.peek(0) {
	case cOpt:
		at := r.take()
		return &tree{kind: nOpt, at: at, kids: []*tree{r.keyed()}}
	case cPlus:
		at := r.take()
		return &tree{kind: nOccur, at: at, lo: -1, hi: -1, kids: []*tree{r.keyed()}}
	case cStar:
		return r.star(-1)
	case cInt:
		r.expect(1, operators|r.follow|1<<cKey|1<<cStar)
		if r.peek(1) == cStar && r.glued(1) {
			return r.star(r.take())
		}
	}
	return r.keyed()
}

func (r *ref) star(lo int) *tree {
	at, hi := r.take(), -1
	r.expect(0, operands)
	if r.peek(0) == cInt && r.glued(0) {
		hi = r.take()
	}
	return &tree{kind: nOccur, at: at, lo: lo, hi: hi, kids: []*tree{r.keyed()}}
}

func (r *ref) keyed() *tree {
	r.expect(0, operands)
	c := r.peek(0)
	if c == cIdent || c == cInt {
		r.expect(1, operators|r.follow|1<<cKey)
	}
	if (c == cIdent || c == cInt) && r.peek(1) == cKey {
		key := r.take()
		if c == cIdent && r.s.tok[r.i] == token.ARROW_MAP {
			r.uses = append(r.uses, key)
		}
		at := r.take()
		return &tree{kind: nEntry, at: at, key: key, kids: []*tree{r.typ()}}
	}
	return r.typ()
}

func (r *ref) typ() *tree {
	t := r.type1()
	if r.peek(0) == cSlash {
		at := r.take()
		return &tree{kind: nChoice, at: at, kids: []*tree{t, r.typ()}}
	}
	return t
}

// bound is the numeric kind of an operand, 0 if it is none.
func (r *ref) bound(t *tree) int {
	if t.kind != nLeaf {
		return 0
	}
	switch r.cls[t.at] {
	case cInt:
		return 1
	case cFloat:
		return 2
	case cIdent: // the frames define a as an integer and b as a number with a fraction
		if r.s.real {
			return r.literal(t.at)
		}
		if sym.Param("T", 0) == 0 {
			return 0
		}
		switch sym.ConcStr(r.s.lit[t.at]) {
		case "a":
			return 1
		case "b":
			return 2
		}
	}
	return 0
}

// literal is the numeric kind of the number that the name at token i is
// defined to be, 0 if it is none.
func (r *ref) literal(i int) int {
	for j := 0; j+2 < len(r.s.tok); j++ {
		if r.s.tok[j+1] == token.ASSIGN && r.s.tok[j] == token.IDENT && sym.Conc(pick(r.s.lit[j] == r.s.lit[i], 1, 0)) == 1 {
			switch class(r.s.tok[j+2], r.s.name[j+2]) {
			case cInt:
				return 1
			case cFloat:
				return 2
			}
			return 0
		}
	}
	return 0
}

func (r *ref) type1() *tree {
	left := r.type2()
	c := cBad
	if left.kind == nLeaf {
		c = r.cls[left.at]
	}
	r.expect(0, operators|r.follow)
	op := r.peek(0)
	switch op {
	case cRange:
		if c != cInt && c != cFloat && c != cIdent {
			sym.Skip()
		}
	case cSize:
		if c != cTstr && c != cBytes && c != cUint {
			sym.Skip()
		}
	case cRegexp:
		if c != cTstr {
			sym.Skip()
		}
	case cBits:
	case cCompare:
		if c != cNum && c != cUint {
			sym.Skip()
		}
	default:
		return left
	}
	at := r.take()
	switch op {
	case cRange, cCompare:
		r.expect(0, 1<<cInt|1<<cFloat|1<<cIdent)
	case cRegexp:
		r.expect(0, 1<<cText|1<<cIdent)
	}
	if d := r.peek(0); op == cRange && d != cInt && d != cFloat && d != cIdent ||
		op == cRegexp && d != cText && d != cIdent ||
		op == cCompare && d != cInt && d != cFloat && d != cIdent {
		sym.Skip()
	}
	right := r.type2()
	if op == cRange {
		if k := r.bound(left); k == 0 || r.bound(right) != k {
			sym.Skip()
		}
		return &tree{kind: nRange, at: at, kids: []*tree{left, right}}
	}
	return &tree{kind: nCtl, at: at, kids: []*tree{left, right}}
}

func (r *ref) type2() *tree {
	r.expect(0, operands)
	switch r.peek(0) {
	case cIdent:
		r.uses = append(r.uses, r.i)
		return &tree{kind: nLeaf, at: r.take()}
	case cInt, cFloat, cText, cUint, cTstr, cBytes, cNum, cPlain:
		return &tree{kind: nLeaf, at: r.take()}
	case cLparen:
		return r.group(nGroup, cRparen)
	case cLbrack:
		return r.group(nArray, cRbrack)
	case cLbrace:
		return r.group(nMap, cRbrace)
	case cTilde:
		at := r.take()
		r.expect(0, 1<<cIdent)
		if r.peek(0) != cIdent {
			sym.Skip()
		}
		return &tree{kind: nUnwrap, at: at, kids: []*tree{r.type2()}}
	case cAmp:
		at := r.take()
		r.expect(0, 1<<cIdent|1<<cLparen)
		if c := r.peek(0); c != cIdent && c != cLparen {
			sym.Skip()
		}
		return &tree{kind: nEnum, at: at, kids: []*tree{r.type2()}}
	case cHash:
		t := &tree{kind: nTag, at: r.take(), lo: -1}
		r.expect(0, operators|r.follow|1<<cInt|1<<cFloat)
		if c := r.peek(0); c == cInt || c == cFloat {
			if !r.glued(0) {
				sym.Skip() // # 5 is outside the grammar considered
			}
			t.lo = r.take()
			r.expect(0, operators|r.follow|1<<cLparen)
		}
		if r.peek(0) == cLparen {
			if t.lo < 0 || !r.glued(0) {
				sym.Skip()
			}
			r.take()
			f := r.follow
			r.follow = 1 << cRparen
			t.kids = []*tree{r.typ()}
			if r.peek(0) != cRparen {
				sym.Skip()
			}
			r.follow = f
			r.take()
		}
		return t
	}
	sym.Skip()
	return nil
}

func (r *ref) group(kind, end int) *tree {
	t := &tree{kind: kind, at: r.take()}
	f := r.follow
	r.follow = entries | 1<<cComma | 1<<uint(end) | r.comm
	next := entries | 1<<uint(end) | r.comm
	r.expect(0, next)
	for r.peek(0) != end {
		if r.peek(0) != cComment {
			t.kids = append(t.kids, r.choices())
			if r.peek(0) == cComma {
				r.take()
				r.expect(0, next)
			}
		}
		for r.peek(0) == cComment {
			r.inner = true
			r.take()
			r.expect(0, next)
		}
	}
	r.follow = f
	r.take()
	return t
}

// A checker compares the tree of the code with that of the reference.
type checker struct{ s *stream }

func (c *checker) at(p token.Position, i int, what string) {
	q := c.s.pos[i]
	sym.Assert(sym.And(p.Offset == q.Offset, sym.And(p.Line == q.Line, p.Column == q.Column)), what+" is at the position of its token")
}

func (c *checker) is(ok bool, what string) {
	if !ok {
		sym.Fail("the tree has the intended shape: " + what)
	}
}

func (c *checker) kids(t *tree, n int, what string) bool {
	c.is(n == len(t.kids), what+" has all its entries")
	return true
}

func (c *checker) node(n ast.Node, t *tree) {
	s := c.s
	switch x := n.(type) {
	case *ast.Group:
		c.is(t.kind == nGroup, "group")
		c.at(x.Pos, t.at, "group")
		c.kids(t, len(x.Entries), "group")
		for i, k := range x.Entries {
			c.node(k, t.kids[i])
		}
	case *ast.Array:
		c.is(t.kind == nArray, "array")
		c.at(x.Pos, t.at, "array")
		c.kids(t, len(x.Rules), "array")
		for i, k := range x.Rules {
			c.node(k, t.kids[i])
		}
	case *ast.Map:
		c.is(t.kind == nMap, "map")
		c.at(x.Pos, t.at, "map")
		c.kids(t, len(x.Rules), "map")
		for i, k := range x.Rules {
			c.node(k, t.kids[i])
		}
	case *ast.Entry:
		c.is(t.kind == nEntry, "entry")
		c.at(x.Pos, t.at, "entry")
		c.at(x.Name.Pos, t.key, "entry key")
		sym.Assert(x.Name.Name == s.dec[t.key], "entry key has its name")
		c.node(x.Value, t.kids[0])
	case *ast.Optional:
		c.is(t.kind == nOpt, "optional")
		c.at(x.Pos, t.at, "optional")
		c.node(x.Item, t.kids[0])
	case *ast.NMOccurrence:
		c.is(t.kind == nOccur, "occurrence")
		c.at(x.Pos, t.at, "occurrence")
		sym.Assert(x.Token == s.tok[t.at], "occurrence has its marker")
		lo := uint64(0)
		if t.lo >= 0 {
			lo = uint64(s.ival[t.lo])
			c.at(x.N.Pos, t.lo, "lower bound")
		} else if s.tok[t.at] == token.ONE_OR_MORE {
			lo = 1
		}
		c.is(x.N != nil, "lower bound")
		sym.Assert(x.N.Literal == lo, "lower bound has its value")
		c.is((x.M != nil) == (t.hi >= 0), "upper bound")
		if x.M != nil {
			c.at(x.M.Pos, t.hi, "upper bound")
			sym.Assert(x.M.Literal == uint64(s.ival[t.hi]), "upper bound has its value")
		}
		c.node(x.Item, t.kids[0])
	case *ast.Unwrap:
		c.is(t.kind == nUnwrap, "unwrapping")
		c.at(x.Pos, t.at, "unwrapping")
		c.node(x.Item, t.kids[0])
	case *ast.Enumeration:
		c.is(t.kind == nEnum, "enumeration")
		c.at(x.Pos, t.at, "enumeration")
		c.node(x.Value, t.kids[0])
	case *ast.Tag:
		c.is(t.kind == nTag, "tag")
		c.at(x.Pos, t.at, "tag")
		c.is((x.Major != nil) == (t.lo >= 0), "tag major")
		if x.Major != nil {
			c.at(x.Major.Pos, t.lo, "tag major")
			sym.Assert(x.Major.Literal == s.major[t.lo], "tag major has its value")
			frac := s.tok[t.lo] == token.FLOAT
			c.is((x.TagNumber != nil) == frac, "tag number")
			if frac {
				sym.Assert(x.TagNumber.Literal == s.number[t.lo], "tag number has its value")
			}
		} else {
			c.is(x.TagNumber == nil, "tag number")
		}
		c.is((x.Item != nil) == (len(t.kids) > 0), "tagged type")
		if x.Item != nil {
			c.node(x.Item, t.kids[0])
		}
	case *ast.TypeChoice:
		c.is(t.kind == nChoice, "choice")
		c.at(x.Pos, t.at, "choice")
		sym.Assert(x.Token == s.tok[t.at], "choice has its operator")
		c.node(x.First, t.kids[0])
		c.node(x.Second, t.kids[1])
	case *ast.GroupChoice:
		c.is(t.kind == nChoice, "choice")
		c.at(x.Pos, t.at, "choice")
		sym.Assert(sym.And(x.Token == s.tok[t.at], x.Token == token.GROUP_CHOICE), "choice has its operator")
		c.node(x.First, t.kids[0])
		c.node(x.Second, t.kids[1])
	case *ast.Range:
		c.is(t.kind == nRange, "range")
		c.at(x.Pos, t.at, "range")
		sym.Assert(x.Token == s.tok[t.at], "range has its operator")
		c.node(x.From, t.kids[0])
		c.node(x.To, t.kids[1])
	case *ast.SizeOperatorControl:
		c.ctl(t, x.Pos, x.Token, token.SIZE)
		c.node(x.Type, t.kids[0])
		c.node(x.Size, t.kids[1])
	case *ast.Regexp:
		c.ctl(t, x.Pos, x.Token, token.REGEXP)
		c.node(x.Base, t.kids[0])
		c.node(x.Regex, t.kids[1])
	case *ast.Bits:
		c.ctl(t, x.Pos, x.Token, token.BITS)
		c.node(x.Base, t.kids[0])
		c.node(x.Contstraint, t.kids[1])
	case *ast.ComparatorOpControl:
		c.ctl(t, x.Pos, x.Token, x.Token)
		sym.Assert(class(x.Token, false) == cCompare, "comparison has its operator")
		sym.Assert(x.Operator == s.lit[t.at], "comparison has its operator")
		c.node(x.Left, t.kids[0])
		c.node(x.Right, t.kids[1])
	default:
		c.is(t.kind == nLeaf, "operand")
		c.leaf(n, t.at)
	}
}

func (c *checker) ctl(t *tree, pos token.Position, tok, want token.Token) {
	c.is(t.kind == nCtl, "control operator")
	c.at(pos, t.at, "control operator")
	sym.Assert(sym.And(tok == c.s.tok[t.at], tok == want), "control operator has its token")
}

// leaf checks the node of a single token.
func (c *checker) leaf(n ast.Node, i int) {
	s := c.s
	tok, name := s.tok[i], s.name[i]
	ok := func(pos token.Position, b bool) {
		c.at(pos, i, "operand")
		sym.Assert(b, "operand is that of the source")
	}
	switch x := n.(type) {
	case *ast.Identifier:
		ok(x.Pos, sym.And(tok == token.IDENT, x.Name == s.lit[i]))
	case *ast.IntegerLiteral:
		ok(x.Pos, sym.And(sym.And(tok == token.INT, !name), x.Literal == s.ival[i]))
	case *ast.FloatLiteral:
		ok(x.Range.Start, sym.And(sym.And(tok == token.FLOAT, !name), x.Literal == s.fval[i]))
	case *ast.TextLiteral:
		ok(x.Pos, sym.And(tok == token.TEXT_LITERAL, x.Literal == s.lit[i]))
	case *ast.BooleanLiteral:
		ok(x.Range.Start, sym.Or(sym.And(tok == token.TRUE, x.Bool), sym.And(tok == token.FALSE, !x.Bool)))
	case *ast.BooleanType:
		ok(x.Pos, sym.And(tok == token.BOOL, x.Token == tok))
	case *ast.IntegerType:
		ok(x.Pos, sym.And(sym.And(tok == token.INT, name), x.Token == tok))
	case *ast.UintType:
		ok(x.Range.Start, sym.And(tok == token.UINT, x.Token == tok))
	case *ast.NegativeIntegerType:
		ok(x.Pos, sym.And(tok == token.NINT, x.Token == tok))
	case *ast.FloatType:
		ok(x.Pos, sym.And(sym.Or(sym.And(tok == token.FLOAT, name), sym.Or(tok == token.FLOAT16, sym.Or(tok == token.FLOAT32, tok == token.FLOAT64))), x.Token == tok))
	case *ast.TstrType:
		ok(x.Pos, sym.And(sym.Or(tok == token.TSTR, tok == token.TEXT), x.Token == tok))
	case *ast.BytesType:
		ok(x.Pos, sym.And(tok == token.BYTES, x.Token == tok))
	case *ast.BstrType:
		ok(x.Pos, sym.And(tok == token.BSTR, x.Token == tok))
	case *ast.NullType:
		ok(x.Pos, sym.And(sym.Or(tok == token.NIL, tok == token.NULL), x.Token == tok))
	default:
		sym.Fail("operand is a node of the language")
	}
}

// defined tells if every use has a definition and no name two.
func (r *ref) defined() bool {
	ok := true
	for k, i := range r.uses {
		_ = k
		def := strings.HasPrefix(r.s.lit[i], "$")
		for _, x := range r.rules {
			def = sym.Or(def, r.s.lit[x.name] == r.s.lit[i])
		}
		ok = sym.And(ok, def)
	}
	for j := range r.rules {
		for i := 0; i < j; i++ {
			x, y := r.rules[i], r.rules[j]
			ok = sym.And(ok, !sym.And(r.s.lit[x.name] == r.s.lit[y.name], r.s.tok[y.op] == token.ASSIGN))
		}
	}
	return ok
}

// WellFormed: a well-formed schema is accepted with the intended tree (P03).
func WellFormed() {
	s := source(alphabet(), false)
	r := newRef(s)
	r.schema()
	sym.Assume(r.defined())
	p := parser.NewParser(s.lexer())
	cddl, errs := p.ParseFile()
	sym.Observe("errors", len(errs))
	if len(errs) > 0 {
		sym.Fail("a well-formed schema is accepted")
	}
	sym.Reach("accepted")
	r.matches(cddl)
}

// matches compares the tree of the code with that of the reference.
func (r *ref) matches(cddl *ast.CDDL) {
	s := r.s
	sym.Assert(len(cddl.Rules) == len(r.rules), "every rule is in the tree")
	c := &checker{s}
	for i, x := range r.rules {
		n, ok := cddl.Rules[i].(*ast.Rule)
		c.is(ok, "rule")
		c.at(n.Name.Pos, x.name, "rule name")
		sym.Assert(n.Name.Name == s.lit[x.name], "rule has its name")
		c.node(n.Value, x.value)
	}
}
