package hparse

import (
	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// part is the stream of the tokens i..j-1, at the places they have in s.
func (s *stream) part(i, j int) *stream {
	p := &stream{tok: s.tok[i:j], lit: s.lit[i:j], text: s.text[i:j], pos: s.pos[i:j], nl: s.nl[i:j], glue: s.glue[i:j], eof: s.eof}
	if j < len(s.tok) {
		q := s.pos[j-1]
		p.eof = token.Position{Offset: j * cell, Line: q.Line + 1, Column: 1}
	}
	return p
}

func sameErrors(x, y parser.ErrorList, what string) {
	sym.Assert(len(x) == len(y), what+": as many errors")
	for i := range x {
		sym.Assert(samePos(x[i].Start(), y[i].Start()), what+": at the same places")
		sym.Assert(x[i].Error() == y[i].Error(), what+": the same errors")
	}
}

// Conjunction: what is parsed of a source is what is parsed of its parts (P11).
func Conjunction() {
	k, n := sym.Param("K", 2), sym.Param("N", 2)
	s := &stream{}
	pre, post := frame(sym.Param("T", 1))
	s.put(pre...)
	s.any("tok", k, alphabet(), true, false)
	s.put(post...)
	cut := len(s.tok)
	// the second begins a line with a rule
	y := e(token.IDENT, "y")
	s.add(y.tok, y.lit, y.text, y.value(), true, false)
	s.put(e(token.ASSIGN, "="))
	s.any("tok", n, alphabet(), true, false)
	s.put(e(token.IDENT, "c"), e(token.ASSIGN, "="), e(token.IDENT, "x"))

	first, second := s.part(0, cut), s.part(cut, len(s.tok))
	env2 := environment.NewEnvironment()
	parser.NewParser(second.lexer(), parser.WithEnv(env2)).ParseFile()
	cddl1, errs1 := parser.NewParser(first.lexer(), parser.WithEnv(env2)).ParseFile()
	if len(errs1) > 0 {
		_, errs := parser.NewParser(s.lexer()).ParseFile()
		sym.Assert(len(errs) > 0, "a source is not accepted if its first part is not")
		sym.Reach("first")
		return
	}
	env1 := environment.NewEnvironment()
	parser.NewParser(first.lexer(), parser.WithEnv(env1)).ParseFile()
	cddl2, errs2 := parser.NewParser(second.lexer(), parser.WithEnv(env1)).ParseFile()
	cddl, errs := parser.NewParser(s.lexer()).ParseFile()
	sym.Observe("errors", len(errs))
	sym.Observe("rules", len(cddl.Rules))
	sameErrors(errs, errs2, "the errors are those of the second")
	if len(errs) == 0 {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
	sym.Assert(len(cddl.Rules) == len(cddl1.Rules)+len(cddl2.Rules), "the rules are those of the first and of the second")
	c := &cmp{where: samePos, comments: true}
	for i, r := range cddl.Rules {
		o := ast.Node(nil)
		if i < len(cddl1.Rules) {
			o = cddl1.Rules[i]
		} else {
			o = cddl2.Rules[i-len(cddl1.Rules)]
		}
		c.nodes(r, o)
	}
}
