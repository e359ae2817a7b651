package hparse

import (
	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// For the harnesses of other packages.

// TemplateLexer is a lexer for one of the templates.
func TemplateLexer(ts []string) *lexer.Lexer { return template(ts).lexer() }

// LongLexer is a lexer for one of the long templates.
func LongLexer(long func(int) []string) *lexer.Lexer { return template(templates(nil, long)).lexer() }

// List and Nest are the parts of long templates.
func List(n int, sep string, items ...string) string { return list(n, sep, items...) }
func Nest(n int, open, close, inner string) string   { return nest(n, open, close, inner) }

// TemplateSource is the text of one of the templates.
func TemplateSource(ts []string) []byte { return template(ts).src }

// Mixed is a lexer for a source of fixed tokens in which each %x stands for
// one of the tokens of an alphabet of x.
func Mixed(text []string, alphabets map[string][]string) *lexer.Lexer {
	s := &stream{}
	for _, w := range text {
		glue := w[0] == '_'
		if glue {
			w = w[1:]
		}
		if a, ok := alphabets[w]; ok {
			var es []entry
			for _, x := range a {
				es = append(es, meaning(x))
			}
			s.any("tok", 1, es, false, false)
			continue
		}
		x := meaning(w)
		x.glued = glue
		s.put(x)
	}
	return s.lexer()
}

func meaning(w string) entry {
	switch c := w[0]; {
	case c == '"':
		return entry{tok: token.TEXT_LITERAL, lit: w[1 : len(w)-1], text: w}
	case c >= '0' && c <= '9':
		for i := range w {
			if w[i] == '.' {
				return e(token.FLOAT, w)
			}
		}
		return e(token.INT, w)
	}
	return wordOf(w)
}

// Parse parses what a lexer reads.
func Parse(l *lexer.Lexer) (*ast.CDDL, parser.ErrorList) { return parser.NewParser(l).ParseFile() }

// IsName tells if a name is made of a letter and then letters, digits and single separators.
func IsName(s string) bool {
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case i == 0:
			ok = sym.And(ok, sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z')))
		default:
			ok = sym.And(ok, sym.Or(sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z')), sym.Or(digit(c), sym.Or(c == '-', c == '_'))))
		}
	}
	return ok
}
