package hbase

import (
	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// Sockets: the predicates on names (A04).
func Sockets() {
	b := sym.Bytes("name", sym.Param("N", 3))
	id := &ast.Identifier{Name: string(b)}
	one := len(b) > 0 && b[0] == '$'
	two := one && len(b) > 1 && b[1] == '$'
	plug, socket := id.IsPlug(), id.IsSocket()
	sym.Observe("plug", plug)
	sym.Observe("socket", socket)
	sym.Assert(plug == two, "a plug starts with two dollar signs")
	sym.Assert(socket == sym.And(one, !two), "a socket starts with exactly one dollar sign")
	sym.Assert(!sym.And(plug, socket), "a name is not both")
	sym.Assert(string(b) == id.Name, "the name is as before")
	if len(b) == 0 || plug {
		sym.Reach("plug")
	} else if socket {
		sym.Reach("socket")
	} else {
		sym.Reach("name")
	}
}

type class struct {
	tok     token.Token
	name    string
	numeric bool
	control bool
}

// The predefined names of the language, after RFC 8610 and RFC 9165.
var predefined = []class{
	{token.INT, "int", true, false}, {token.UINT, "uint", true, false}, {token.NINT, "nint", true, false},
	{token.FLOAT, "float", true, false}, {token.FLOAT16, "float16", true, false}, {token.FLOAT32, "float32", true, false}, {token.FLOAT64, "float64", true, false},
	{token.TSTR, "tstr", false, false}, {token.TEXT, "text", false, false}, {token.BYTES, "bytes", false, false}, {token.BSTR, "bstr", false, false},
	{token.BOOL, "bool", false, false}, {token.TRUE, "true", false, false}, {token.FALSE, "false", false, false}, {token.NIL, "nil", false, false},
	{token.NULL, "null", false, false}, {token.ANY, "any", false, false},
	{token.SIZE, ".size", false, true}, {token.BITS, ".bits", false, true}, {token.REGEXP, ".regexp", false, true}, {token.CBOR, ".cbor", false, true},
	{token.CBORSEQ, ".cborseq", false, true}, {token.WITHIN, ".within", false, true}, {token.AND, ".and", false, true}, {token.LT, ".lt", false, true},
	{token.LE, ".le", false, true}, {token.GT, ".gt", false, true}, {token.GE, ".ge", false, true}, {token.EQ, ".eq", false, true}, {token.NE, ".ne", false, true},
	{token.DEFAULT, ".default", false, true}, {token.PLUS, ".plus", false, true}, {token.CAT, ".cat", false, true}, {token.DET, ".det", false, true},
	{token.ABNF, ".abnf", false, true}, {token.ABNFB, ".abnfb", false, true}, {token.FEATURE, ".feature", false, true},
}

// Punctuation and what else is printed as it is written.
var punctuation = []class{
	{tok: token.MINUS, name: "-"}, {tok: token.LPAREN, name: "("}, {tok: token.LBRACK, name: "["}, {tok: token.LBRACE, name: "{"},
	{tok: token.RPAREN, name: ")"}, {tok: token.RBRACK, name: "]"}, {tok: token.RBRACE, name: "}"}, {tok: token.COMMA, name: ","},
	{tok: token.PERIOD, name: "."}, {tok: token.COLON, name: ":"}, {tok: token.ASSIGN, name: "="}, {tok: token.ARROW_MAP, name: "=>"},
	{tok: token.OPTIONAL, name: "?"}, {tok: token.TYPE_CHOICE, name: "/"}, {tok: token.GROUP_CHOICE, name: "//"}, {tok: token.TYPE_CHOICE_ASSIGN, name: "/="},
	{tok: token.GROUP_CHOICE_ASSIGN, name: "//="}, {tok: token.AMPERSAND, name: "&"}, {tok: token.HASH, name: "#"}, {tok: token.LEFT_ANGLE_BRACKET, name: "<"},
	{tok: token.RIGHT_ANGLE_BRACKET, name: ">"}, {tok: token.INCLUSIVE_BOUND, name: ".."}, {tok: token.EXCLUSIVE_BOUND, name: "..."},
	{tok: token.ZERO_OR_MORE, name: "*"}, {tok: token.ONE_OR_MORE, name: "+"}, {tok: token.UNWRAP, name: "~"},
}

// Words: looking up any word (T01).
func Words() {
	w := string(sym.Bytes("word", sym.Param("N", 5)))
	got := token.Lookup(w)
	sym.Observe("token", int(got))
	found := false
	for _, c := range predefined {
		is := w == c.name
		sym.Assert((got == c.tok) == is, "a word gets a token exactly if it is the token's name")
		found = sym.Or(found, is)
	}
	sym.Assert(sym.Or(found, got == token.IDENT), "every other word is an identifier")
	if found {
		sym.Assert(got.String() == w, "the token of a word prints as the word")
		sym.Reach("predefined")
	} else {
		sym.Reach("identifier")
	}
}

// Classes: the predicates on every token value (T01).
func Classes() {
	t := token.Token(sym.Int("token"))
	if r := sym.Param("RANGE", 0); r > 0 {
		sym.Assume(sym.And(t >= token.Token(-r), t <= token.Token(r)))
	}
	numeric, control := false, false
	for _, c := range predefined {
		if c.numeric {
			numeric = sym.Or(numeric, t == c.tok)
		}
		if c.control {
			control = sym.Or(control, t == c.tok)
		}
	}
	sym.Assert(t.IsNumeric() == numeric, "a token is numeric exactly if it is a number or numeric type")
	sym.Assert(t.IsControlOp() == control, "a token is a control operator exactly if its name is looked up with a dot")
	w := string(sym.Bytes("literal", sym.Param("N", 5)))
	lit := t == token.TEXT_LITERAL
	for _, c := range predefined {
		if c.numeric {
			lit = sym.Or(lit, sym.And(t == c.tok, w != c.name))
		}
	}
	sym.Assert(t.IsLiteral(w) == lit, "a literal is a text or a number that is not the name of a type")
	if sym.Or(numeric, control) {
		sym.Reach("class")
	} else {
		sym.Reach("none")
	}
}

// Printed: every token value has a name (T01).
func Printed() {
	t := token.Token(sym.Range("token", -sym.Param("LO", 40), sym.Param("HI", 140)))
	name := ""
	msg := sym.Try(func() { name = t.String() })
	sym.Assert(msg == "", "printing a token does not panic: "+msg)
	sym.Assert(len(name) > 0, "a token has a name")
	for _, cs := range [][]class{predefined, punctuation} {
		for _, c := range cs {
			sym.Assert(sym.Or(t != c.tok, name == c.name), "a token prints as it is written")
			if !c.control && !c.numeric && t == c.tok {
				sym.Reach("name")
			}
		}
	}
	sym.Reach("end")
}

// Distinct: the predefined names have distinct tokens (T01).
func Distinct() {
	i, j := sym.Range("i", 0, len(predefined)-1), sym.Range("j", 0, len(predefined)-1)
	toks := make([]token.Token, len(predefined))
	for k, c := range predefined {
		toks[k] = token.Lookup(c.name)
	}
	sym.Assert(sym.Or(i == j, toks[i] != toks[j]), "distinct names have distinct tokens")
	sym.Assert(toks[i] != token.IDENT, "a predefined name is no identifier")
	sym.Reach("end")
}
