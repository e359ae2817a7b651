package hparse

import (
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

func samePos(p, q token.Position) bool {
	return sym.And(p.Offset == q.Offset, sym.And(p.Line == q.Line, p.Column == q.Column))
}

// pointed checks the errors of a source whose tokens begin at the positions given.
func pointed(errs parser.ErrorList, pos []token.Position) {
	sym.Observe("errors", len(errs))
	if len(errs) == 0 {
		sym.Reach("accepted")
		return
	}
	sym.Reach("rejected")
	down := 0
	for i, err := range errs {
		start := err.Start()
		ok := false
		for _, p := range pos {
			ok = sym.Or(ok, samePos(start, p))
		}
		sym.Assert(ok, "an error starts at a token")
		sym.Assert(err.Error() != "", "an error has a message")
		if i > 0 && start.Offset < errs[i-1].Start().Offset {
			down++
		}
	}
	sym.Assert(down <= 1, "the errors of each group are in source order")
	sym.Assert(samePos(errs.Start(), errs[0].Start()), "the errors start where the first does")
	sym.Assert(samePos(errs.End(), errs[len(errs)-1].End()), "the errors end where the last does")
}

// Diagnostics: every error points at a token (P10).
func Diagnostics() {
	s := source(alphabet(), sym.Param("NL", 0) == 1)
	_, errs := parser.NewParser(s.lexer()).ParseFile()
	pointed(errs, append(s.pos, s.eof))
}

// text is a source with N symbolic bytes in a frame.
func text() []byte {
	pre, post := "", ""
	switch sym.Param("T", 0) {
	case 1:
		pre = "x = "
	case 2:
		pre, post = "x = [\n ", "]\ny = x"
	case 3:
		pre, post = "x = {k: ", " }"
	case 4:
		pre, post = "x = \"", "\ny = x"
	}
	b := sym.Bytes("byte", sym.Param("N", 3))
	if sym.Param("ASCII", 1) == 1 {
		for _, c := range b {
			sym.Assume(c < 0x80)
		}
	}
	return append(append([]byte(pre), b...), post...)
}

// DiagnosticsText: the same with the real lexer (P10).
func DiagnosticsText() {
	src := text()
	var pos []token.Position
	l := lexer.NewLexer(src)
	for {
		tok, p, _ := l.Scan()
		pos = append(pos, p)
		if tok == token.EOF {
			break
		}
	}
	_, errs := parser.NewParser(lexer.NewLexer(src)).ParseFile()
	pointed(errs, pos)
}

// ReturnsText: parsing any text returns (P01).
func ReturnsText() {
	src := text()
	msg := sym.Try(func() {
		cddl, errs := parser.NewParser(lexer.NewLexer(src)).ParseFile()
		sym.Assert(cddl != nil, "a tree is returned")
		sym.Observe("rules", len(cddl.Rules))
		sym.Observe("errors", len(errs))
		if len(errs) == 0 {
			sym.Reach("accepted")
		} else {
			sym.Reach("rejected")
		}
	})
	sym.Assert(msg == "", "parsing does not panic: "+msg)
}
