package hparse

import (
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

func glued(tok token.Token, s string) entry { x := e(tok, s); x.glued = true; return x }

// frames are the beginnings and ends of sources around the symbolic tokens.
func frame(t int) (pre, post []entry) {
	id := func(s string) entry { return e(token.IDENT, s) }
	def := []entry{id("x"), e(token.ASSIGN, "=")}
	defs := []entry{id("a"), e(token.ASSIGN, "="), e(token.INT, "3"), id("b"), e(token.ASSIGN, "="), e(token.FLOAT, "7.25")}
	switch t {
	case 1: // the value of a rule, followed by a definition
		return def, defs
	case 2:
		return append(def, e(token.LPAREN, "(")), append([]entry{e(token.RPAREN, ")")}, defs...)
	case 3:
		return append(def, e(token.LBRACK, "[")), append([]entry{e(token.RBRACK, "]")}, defs...)
	case 4:
		return append(def, e(token.LBRACE, "{"), id("k"), e(token.COLON, ":")), append([]entry{e(token.RBRACE, "}")}, defs...)
	case 5:
		return append(def, e(token.HASH, "#"), glued(token.FLOAT, "6.2"), glued(token.LPAREN, "(")), append([]entry{e(token.RPAREN, ")")}, defs...)
	case 6: // deeply nested
		return append(def, e(token.LBRACE, "{"), e(token.OPTIONAL, "?"), id("k"), e(token.COLON, ":"), e(token.LBRACK, "["), e(token.ONE_OR_MORE, "+"), e(token.LPAREN, "(")),
			append([]entry{e(token.RPAREN, ")"), e(token.RBRACK, "]"), e(token.COMMA, ","), id("m"), e(token.COLON, ":"), e(token.HASH, "#"),
				glued(token.FLOAT, "6.2"), glued(token.LPAREN, "("), id("a"), e(token.RPAREN, ")"), e(token.RBRACE, "}")}, defs...)
	}
	return nil, nil
}

// source builds the stream of a run: a frame around N symbolic tokens.
func source(alphabet []entry, lines bool) *stream {
	s := &stream{}
	t := sym.Param("T", 0)
	if t >= 10 {
		pre, post := frame(1)
		s.put(pre...)
		for _, c := range patterns[t-10] {
			glue, alphabet := false, []entry{e(token.ILLEGAL, "!")}
			switch c {
			case 'o':
				glue, alphabet = true, plainOperands
			case 'x':
				glue, alphabet = true, cat(infix, controls)
			case 'p':
				alphabet = prefix
			case 's':
				alphabet = []entry{e(token.COMMA, ","), e(token.GROUP_CHOICE, "//"), e(token.TYPE_CHOICE, "/"), e(token.COLON, ":")}
			case '(', ')', '[', ']':
				s.put(wordOf(string(c)))
				continue
			}
			s.any("tok", 1, alphabet, glue && sym.Param("GLUE", 0) == 1, lines)
		}
		s.put(post...)
		return s
	}
	pre, post := frame(t)
	s.put(pre...)
	s.any("tok", sym.Param("N", 3), alphabet, sym.Param("GLUE", 1) == 1, lines)
	s.put(post...)
	return s
}

// patterns of operands, operators, prefixes and separators that give values of
// more tokens than sequences of all tokens can have.
var patterns = []string{"oxoxo", "poxo", "[poxopo]", "(oxoso)", "ppoxo", "oxpoxo"}

var plainOperands = []entry{e(token.IDENT, "a"), e(token.IDENT, "b"), e(token.INT, "5"), e(token.FLOAT, "6.2"), texts[0], e(token.UINT, "uint"), e(token.TSTR, "tstr"), e(token.INT, "int")}

// Returns: parsing any token sequence returns (P01).
func Returns() {
	s := source(alphabet(), sym.Param("NL", 1) == 1)
	p := parser.NewParser(s.lexer())
	msg := sym.Try(func() {
		cddl, errs := p.ParseFile()
		sym.Assert(cddl != nil, "a tree is returned")
		sym.Observe("rules", len(cddl.Rules))
		sym.Observe("errors", len(errs))
		if len(errs) == 0 {
			sym.Reach("accepted")
		} else {
			sym.Reach("rejected")
		}
	})
	sym.Assert(msg == "", "parsing does not panic: "+msg)
}
