package hparse

import (
	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// A writer writes a tree back out as tokens and compares them, one by one,
// with the source.
type writer struct {
	s *stream
	i int
	// visit is told every node with the places of its first and last token
	visit func(n ast.Node, first, last int)
}

func (w *writer) told(n ast.Node, first, last int) {
	if w.visit != nil {
		w.visit(n, first, last)
	}
}

// skip passes over what the tree does not record.
func (w *writer) skip() {
	for w.i < len(w.s.tok) {
		if c := sym.Or(w.s.tok[w.i] == token.COMMA, w.s.tok[w.i] == token.COMMENT); !c {
			break
		}
		w.i++
	}
}

const what = "the tree accounts for every token of the source: "

// tok is the next token of the tree; it returns its place in the source.
func (w *writer) tok(kinds ...token.Token) int {
	w.skip()
	if w.i >= len(w.s.tok) {
		sym.Fail(what + "the tree has more tokens than the source")
	}
	ok := false
	for _, k := range kinds {
		ok = sym.Or(ok, w.s.tok[w.i] == k)
	}
	sym.Assert(ok, what+"the kinds of the tokens")
	w.i++
	return w.i - 1
}

func (w *writer) at(i int, p token.Position) {
	q := w.s.pos[i]
	sym.Assert(sym.And(p.Offset == q.Offset, sym.And(p.Line == q.Line, p.Column == q.Column)), what+"their places")
}

func (w *writer) lit(i int, ok bool) {
	sym.Assert(ok, what+"their values")
}

func (w *writer) op(k token.Token, p token.Position) int {
	i := w.tok(k)
	w.at(i, p)
	return i
}

func (w *writer) node(n ast.Node) {
	w.skip()
	i := w.i
	w.write(n)
	w.told(n, i, w.i-1)
}

func (w *writer) write(n ast.Node) {
	s := w.s
	switch x := n.(type) {
	case *ast.Group:
		w.op(token.LPAREN, x.Pos)
		for _, k := range x.Entries {
			w.node(k)
		}
		w.tok(token.RPAREN)
	case *ast.Array:
		w.op(token.LBRACK, x.Pos)
		for _, k := range x.Rules {
			w.node(k)
		}
		w.tok(token.RBRACK)
	case *ast.Map:
		w.op(token.LBRACE, x.Pos)
		for _, k := range x.Rules {
			w.node(k)
		}
		w.tok(token.RBRACE)
	case *ast.Entry:
		i := w.tok(token.IDENT, token.INT)
		w.at(i, x.Name.Pos)
		w.lit(i, x.Name.Name == s.dec[i])
		w.told(x.Name, i, i)
		w.at(w.tok(token.COLON, token.ARROW_MAP), x.Pos)
		w.node(x.Value)
	case *ast.Optional:
		w.op(token.OPTIONAL, x.Pos)
		w.node(x.Item)
	case *ast.NMOccurrence:
		if x.N == nil {
			sym.Fail(what + "an occurrence has a lower bound")
		}
		if x.N.Pos.Offset != x.Pos.Offset { // written down
			i := w.tok(token.INT)
			w.at(i, x.N.Pos)
			w.lit(i, sym.And(!s.name[i], x.N.Literal == uint64(s.ival[i])))
			w.told(x.N, i, i)
		}
		i := w.tok(token.ZERO_OR_MORE, token.ONE_OR_MORE)
		w.at(i, x.Pos)
		w.lit(i, x.Token == s.tok[i])
		if x.N.Pos.Offset == x.Pos.Offset {
			w.lit(i, sym.And(sym.Or(x.N.Literal == 0, x.Token == token.ONE_OR_MORE), sym.Or(x.N.Literal == 1, x.Token == token.ZERO_OR_MORE)))
		}
		if x.M != nil {
			i := w.tok(token.INT)
			w.at(i, x.M.Pos)
			w.lit(i, sym.And(!s.name[i], x.M.Literal == uint64(s.ival[i])))
			w.told(x.M, i, i)
		}
		w.node(x.Item)
	case *ast.Unwrap:
		w.op(token.UNWRAP, x.Pos)
		w.node(x.Item)
	case *ast.Enumeration:
		w.op(token.AMPERSAND, x.Pos)
		w.node(x.Value)
	case *ast.Tag:
		w.op(token.HASH, x.Pos)
		if x.Major != nil {
			i := w.tok(token.INT, token.FLOAT)
			w.at(i, x.Major.Pos)
			w.lit(i, sym.And(!s.name[i], x.Major.Literal == s.major[i]))
			w.lit(i, (x.TagNumber != nil) == (s.tok[i] == token.FLOAT))
			if x.TagNumber != nil {
				w.lit(i, x.TagNumber.Literal == s.number[i])
				w.told(x.TagNumber, i, i)
			}
			w.told(x.Major, i, i)
		} else {
			sym.Assert(x.TagNumber == nil, what+"a tag without a major has no number")
		}
		if x.Item != nil {
			w.tok(token.LPAREN)
			w.node(x.Item)
			w.tok(token.RPAREN)
		}
	case *ast.TypeChoice:
		w.node(x.First)
		w.infix(x.Pos, x.Token, token.TYPE_CHOICE, token.GROUP_CHOICE)
		w.node(x.Second)
	case *ast.GroupChoice:
		w.node(x.First)
		w.infix(x.Pos, token.GROUP_CHOICE, token.GROUP_CHOICE)
		w.node(x.Second)
	case *ast.Range:
		w.node(x.From)
		w.infix(x.Pos, x.Token, token.INCLUSIVE_BOUND, token.EXCLUSIVE_BOUND)
		w.node(x.To)
	case *ast.SizeOperatorControl:
		w.node(x.Type)
		w.infix(x.Pos, x.Token, token.SIZE)
		w.node(x.Size)
	case *ast.Regexp:
		w.node(x.Base)
		w.infix(x.Pos, x.Token, token.REGEXP)
		w.node(x.Regex)
	case *ast.Bits:
		w.node(x.Base)
		w.infix(x.Pos, x.Token, token.BITS)
		w.node(x.Contstraint)
	case *ast.ComparatorOpControl:
		w.node(x.Left)
		i := w.infix(x.Pos, x.Token, token.LT, token.LE, token.GT, token.GE, token.EQ, token.NE)
		w.lit(i, x.Operator == s.lit[i])
		w.node(x.Right)
	case nil:
		sym.Fail(what + "no operand is missing")
	default:
		w.skip()
		if w.i >= len(s.tok) {
			sym.Fail(what + "the tree has more tokens than the source")
		}
		(&checker{s}).leaf(n, w.i)
		w.i++
	}
}

func (w *writer) infix(p token.Position, is token.Token, kinds ...token.Token) int {
	i := w.tok(kinds...)
	w.at(i, p)
	w.lit(i, is == w.s.tok[i])
	return i
}

// Represented: an accepted source is what its tree says (P02).
func Represented() {
	s := source(alphabet(), sym.Param("NL", 0) == 1)
	cddl, errs := parser.NewParser(s.lexer()).ParseFile()
	sym.Observe("errors", len(errs))
	if len(errs) > 0 {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	w := &writer{s: s}
	w.root(cddl)
}

// root writes the whole tree.
func (w *writer) root(cddl *ast.CDDL) {
	s := w.s
	for _, r := range cddl.Rules {
		switch x := r.(type) {
		case *ast.Rule:
			i := w.tok(token.IDENT)
			w.at(i, x.Name.Pos)
			w.lit(i, x.Name.Name == s.lit[i])
			w.tok(token.ASSIGN, token.TYPE_CHOICE_ASSIGN, token.GROUP_CHOICE_ASSIGN)
			w.told(x.Name, i, i)
			w.node(x.Value)
			w.told(x, i, w.i-1)
		case *ast.Comment, *ast.CommentGroup:
		default:
			sym.Fail(what + "a rule or comment")
		}
	}
	w.skip()
	sym.Assert(w.i == len(s.tok), what+"no token is left over")
}
