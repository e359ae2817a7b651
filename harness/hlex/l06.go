package hlex

import (
	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// unclosed tells whether b contains a text literal that is not closed on its line.
func unclosed(b []byte) bool {
	st := 0 // 0 outside, 1 text, 2 comment
	for _, c := range b {
		switch st {
		case 0:
			if c == '"' {
				st = 1
			} else if c == ';' {
				st = 2
			}
		case 1:
			if c == '"' {
				st = 0
			} else if c == '\n' {
				return true
			}
		case 2:
			if c == '\n' {
				st = 0
			}
		}
	}
	return st == 1
}

func frame6(t int) (string, string) {
	switch t {
	case 1:
		return "a = ", ""
	case 2:
		return "a = \"", ""
	case 3:
		return "a = tstr .regexp \"", "\n"
	case 4:
		return "a = {k: \"", " }\nb = 1\n"
	case 5:
		return "a = 1\nb = a\n", ""
	case 6:
		return "", "\na = 1\n"
	}
	return "", ""
}

// Unclosed: a text literal that is not closed is reported by parsing (L06).
func Unclosed() {
	n := sym.Choose("len", sym.Param("N", 3)+1)
	pre, post := frame6(sym.Param("T", 0))
	mid := sym.Bytes("src", n)
	src := append(append([]byte(pre), mid...), post...)
	assumeUTF8(src)
	lex := lexer.NewLexer(src)
	p := parser.NewParser(lex)
	_, errs := p.ParseFile()
	if unclosed(src) {
		sym.Assert(len(errs) > 0, "an unclosed text literal is reported")
		sym.Reach("unclosed")
		return
	}
	sym.Assert(lex.ErrCount == 0 && len(lex.Errors) == 0, "closed text literals are not reported")
	sym.Reach("closed")
}

// TextValue: the value of a closed literal is what stands between its quotes (L06).
func TextValue() {
	n := sym.Choose("len", sym.Param("N", 6)+1)
	in := sym.Bytes("src", n)
	for _, c := range in {
		sym.Assume(c != '"' && c != '\n')
	}
	src := append(append([]byte("\""), in...), "\" x"...)
	assumeUTF8(src)
	lex := lexer.NewLexer(src)
	tok, _, lit := lex.Scan()
	sym.Assert(tok == token.TEXT_LITERAL, "a quoted text is a text literal")
	sym.Assert(lit == string(in), "its value is the text between the quotes")
	sym.Assert(lex.ErrCount == 0 && len(lex.Errors) == 0, "a closed text literal is not reported")
	tok, pos, lit := lex.Scan()
	sym.Assert(tok == token.IDENT && lit == "x" && pos.Offset == n+3, "scanning continues after the closing quote")
	file, errs := parser.NewParser(lexer.NewLexer(append([]byte("x = "), src[:n+2]...))).ParseFile()
	sym.Assert(len(errs) == 0 && len(file.Rules) == 1, "a text literal is accepted as the value of a rule")
	text, ok := file.Rules[0].(*ast.Rule).Value.(*ast.TextLiteral)
	sym.Assert(ok && text.Literal == string(in), "the tree has the text between the quotes")
	sym.Reach("end")
}
