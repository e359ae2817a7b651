package hparse

import (
	"strings"

	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// A token of the alphabet: its kind, the literal the lexer reports and its text.
type entry struct {
	tok  token.Token
	lit  string
	text string
	// written right after the token before
	glued bool
}

func e(tok token.Token, text string) entry { return entry{tok: tok, lit: text, text: text} }

// What a token means.
type value struct {
	name          bool
	dec           string
	ival          int64
	fval          float64
	major, number uint64
}

func (x entry) value() value {
	v := value{name: x.tok.String() == x.text, dec: x.lit}
	switch x.lit {
	case "5":
		v.ival, v.major = 5, 5
	case "3":
		v.ival, v.major = 3, 3
	case "0x1F":
		v.ival, v.major, v.dec = 31, 31, "31"
	case "6.2":
		v.fval, v.major, v.number = 6.2, 6, 2
	case "7.25":
		v.fval, v.major, v.number = 7.25, 7, 25
	}
	return v
}

// cell is the width of the cell every token is laid out in, padded with blanks.
const cell = 16

// A stream is a sequence of tokens laid out as a source text. Symbolically the
// lexer is replaced by Scan below, which hands out the stream; natively the
// text is built and the real lexer reads it.
type stream struct {
	tok  []token.Token
	lit  []string
	text []string
	pos  []token.Position
	name []bool   // the token is written as its name (the type int, not 5)
	dec  []string // the literal as a key: numbers in decimal
	ival []int64
	fval []float64
	// of numbers as tags
	major, number []uint64
	nl            []bool // the token starts a line
	glue          []bool // the token follows the one before without a blank
	eof           token.Position

	cur int
	own bool // any starts lines

	// of templates: the text, which the real lexer reads
	real          bool
	src           []byte
	lines, lineAt int
}

var current *stream

// Scan stands in for the lexer when running symbolically.
func Scan(l *lexer.Lexer) (token.Token, token.Position, string) {
	s := current
	if s.cur >= len(s.tok) {
		return token.EOF, s.eof, ""
	}
	i := s.cur
	s.cur++
	return s.tok[i], s.pos[i], s.lit[i]
}

// lexer returns a lexer for the stream.
func (s *stream) lexer() *lexer.Lexer {
	s.cur = 0
	current = s
	if s.real {
		return lexer.NewLexer(append([]byte(nil), s.src...))
	}
	if sym.Symbolic() {
		return lexer.NewLexer(nil)
	}
	return lexer.NewLexer([]byte(s.render()))
}

func (s *stream) render() string {
	var b strings.Builder
	for i := range s.tok {
		for b.Len() < s.pos[i].Offset {
			if b.Len() == s.pos[i].Offset-1 && s.nl[i] {
				b.WriteByte('\n')
			} else {
				b.WriteByte(' ')
			}
		}
		b.WriteString(s.text[i])
	}
	for b.Len() < s.eof.Offset {
		if b.Len() == s.eof.Offset-1 {
			b.WriteByte('\n')
		} else {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

func pick(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// add appends a token; its place is the next cell unless it is glued to the
// token before.
func (s *stream) add(tok token.Token, lit, text string, v value, nl, glue bool) {
	i := len(s.tok)
	off, line, col := i*cell, 1, i*cell+1
	if i > 0 {
		p := s.pos[i-1]
		nl = sym.Or(nl, s.tok[i-1] == token.COMMENT)
		gap := off - p.Offset
		off = pick(glue, p.Offset+len(s.text[i-1]), off)
		col = pick(glue, p.Column+len(s.text[i-1]), p.Column+gap)
		line = pick(nl, p.Line+1, p.Line)
		col = pick(nl, 1, col)
	}
	s.tok = append(s.tok, tok)
	s.lit = append(s.lit, lit)
	s.text = append(s.text, text)
	s.name = append(s.name, v.name)
	s.dec = append(s.dec, v.dec)
	s.ival = append(s.ival, v.ival)
	s.fval = append(s.fval, v.fval)
	s.major = append(s.major, v.major)
	s.number = append(s.number, v.number)
	s.nl = append(s.nl, nl)
	s.glue = append(s.glue, glue)
	s.pos = append(s.pos, token.Position{Offset: off, Line: line, Column: col})
	s.eof = token.Position{Offset: (i + 1) * cell, Line: line + 1, Column: 1}
}

func (s *stream) put(es ...entry) {
	for _, x := range es {
		s.add(x.tok, x.lit, x.text, x.value(), false, x.glued)
	}
}

// glueable tells if two tokens stay two tokens when written without a blank.
func glueable(a, b token.Token) bool {
	return sym.Or(sym.And(a == token.INT, b == token.ZERO_OR_MORE),
		sym.Or(sym.And(a == token.ZERO_OR_MORE, b == token.INT),
			sym.Or(sym.And(a == token.HASH, sym.Or(b == token.INT, b == token.FLOAT)),
				sym.And(sym.Or(a == token.INT, a == token.FLOAT), b == token.LPAREN))))
}

// any appends n symbolic tokens of the alphabet.
func (s *stream) any(name string, n int, alphabet []entry, glue, lines bool) {
	toks := make([]token.Token, len(alphabet))
	lits := make([]string, len(alphabet))
	texts := make([]string, len(alphabet))
	var (
		isname        = make([]bool, len(alphabet))
		dec           = make([]string, len(alphabet))
		ival          = make([]int64, len(alphabet))
		fval          = make([]float64, len(alphabet))
		major, number = make([]uint64, len(alphabet)), make([]uint64, len(alphabet))
	)
	for i, x := range alphabet {
		toks[i], lits[i], texts[i] = x.tok, x.lit, x.text
		v := x.value()
		isname[i], dec[i], ival[i], fval[i], major[i], number[i] = v.name, v.dec, v.ival, v.fval, v.major, v.number
	}
	for i := 0; i < n; i++ {
		k := sym.Range(name, 0, len(alphabet)-1)
		tok, lit, text := toks[k], lits[k], texts[k]
		g, l := false, s.own
		j := len(s.tok)
		if glue && j > 0 {
			g = sym.Bool("glue")
			sym.Assume(sym.Or(!g, glueable(s.tok[j-1], tok)))
		}
		if lines && j > 0 {
			l = sym.Bool("nl")
			sym.Assume(!sym.And(g, l))
			if sym.Param("NL", 0) == 2 {
				sym.Assume(sym.Or(tok == token.COMMENT, !l))
			}
		}
		s.add(tok, lit, text, value{isname[k], dec[k], ival[k], fval[k], major[k], number[k]}, l, g)
	}
}

var (
	names   = []entry{e(token.IDENT, "a"), e(token.IDENT, "b"), e(token.IDENT, "$s")}
	assigns = []entry{e(token.ASSIGN, "="), e(token.TYPE_CHOICE_ASSIGN, "/="), e(token.GROUP_CHOICE_ASSIGN, "//=")}
	ints    = []entry{e(token.INT, "5"), e(token.INT, "0x1F")}
	floats  = []entry{e(token.FLOAT, "6.2"), e(token.FLOAT, "7.25")}
	texts   = []entry{{tok: token.TEXT_LITERAL, lit: "t", text: "\"t\""}}
	types   = []entry{e(token.INT, "int"), e(token.UINT, "uint"), e(token.NINT, "nint"), e(token.FLOAT, "float"), e(token.FLOAT16, "float16"),
		e(token.FLOAT32, "float32"), e(token.FLOAT64, "float64"), e(token.TSTR, "tstr"), e(token.TEXT, "text"), e(token.BYTES, "bytes"),
		e(token.BSTR, "bstr"), e(token.BOOL, "bool"), e(token.TRUE, "true"), e(token.FALSE, "false"), e(token.NIL, "nil"), e(token.NULL, "null")}
	brackets = []entry{e(token.LPAREN, "("), e(token.RPAREN, ")"), e(token.LBRACK, "["), e(token.RBRACK, "]"), e(token.LBRACE, "{"), e(token.RBRACE, "}")}
	infix    = []entry{e(token.TYPE_CHOICE, "/"), e(token.GROUP_CHOICE, "//"), e(token.COLON, ":"), e(token.ARROW_MAP, "=>"), e(token.COMMA, ","),
		e(token.INCLUSIVE_BOUND, ".."), e(token.EXCLUSIVE_BOUND, "...")}
	controls = []entry{e(token.SIZE, ".size"), e(token.BITS, ".bits"), e(token.REGEXP, ".regexp"), e(token.LT, ".lt"), e(token.LE, ".le"),
		e(token.GT, ".gt"), e(token.GE, ".ge"), e(token.EQ, ".eq"), e(token.NE, ".ne")}
	prefix = []entry{e(token.OPTIONAL, "?"), e(token.ZERO_OR_MORE, "*"), e(token.ONE_OR_MORE, "+"), e(token.UNWRAP, "~"), e(token.AMPERSAND, "&"), e(token.HASH, "#")}
	comms  = []entry{comment("c"), comment("")}
	rest   = []entry{{tok: token.ILLEGAL, lit: "!", text: "!"}, e(token.MINUS, "-"), e(token.PERIOD, "."), e(token.LEFT_ANGLE_BRACKET, "<"), e(token.RIGHT_ANGLE_BRACKET, ">"),
		e(token.ANY, "any"), e(token.CBOR, ".cbor"), e(token.DEFAULT, ".default"), e(token.WITHIN, ".within")}
)

// comment extends up to the newline that ends its cell.
func comment(s string) entry {
	for len(s) < cell-2 {
		s += " "
	}
	return entry{tok: token.COMMENT, lit: s, text: ";" + s}
}

func cat(xs ...[]entry) (out []entry) {
	for _, x := range xs {
		out = append(out, x...)
	}
	return out
}

var everything = cat(names, assigns, ints, floats, texts, types, brackets, infix, controls, prefix, comms, rest)

// language is the alphabet without what no schema contains.
var language = cat(names, assigns, ints, floats, texts, types, brackets, infix, controls, prefix)

// small has one token of each kind.
var small = []entry{e(token.IDENT, "a"), e(token.ASSIGN, "="), e(token.INT, "5"), e(token.FLOAT, "6.2"), e(token.UINT, "uint"), e(token.TSTR, "tstr"),
	e(token.INT, "int"), e(token.LPAREN, "("), e(token.RPAREN, ")"), e(token.LBRACK, "["), e(token.RBRACK, "]"), e(token.TYPE_CHOICE, "/"), e(token.GROUP_CHOICE, "//"),
	e(token.COLON, ":"), e(token.COMMA, ","), e(token.INCLUSIVE_BOUND, ".."), e(token.SIZE, ".size"), e(token.LT, ".lt"),
	e(token.OPTIONAL, "?"), e(token.ZERO_OR_MORE, "*"), e(token.UNWRAP, "~"), e(token.HASH, "#")}

// tiny has what shapes nesting.
var tiny = []entry{e(token.IDENT, "a"), e(token.INT, "5"), e(token.TSTR, "tstr"), e(token.LPAREN, "("), e(token.RPAREN, ")"),
	e(token.TYPE_CHOICE, "/"), e(token.GROUP_CHOICE, "//"), e(token.COLON, ":"), e(token.COMMA, ","), e(token.INCLUSIVE_BOUND, ".."), e(token.SIZE, ".size"),
	e(token.OPTIONAL, "?"), e(token.ZERO_OR_MORE, "*"), e(token.AMPERSAND, "&")}

// alphabet of the run.
func alphabet() []entry {
	switch sym.Param("A", 1) {
	case 0:
		return everything
	case 2:
		return small
	case 3:
		return tiny
	}
	return language
}
