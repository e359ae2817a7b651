package hlex

import (
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// word is the token of a word, ctlop that of a dotted word.
func word(s string) token.Token {
	switch s {
	case "int":
		return token.INT
	case "uint":
		return token.UINT
	case "nint":
		return token.NINT
	case "float":
		return token.FLOAT
	case "float16":
		return token.FLOAT16
	case "float32":
		return token.FLOAT32
	case "float64":
		return token.FLOAT64
	case "tstr":
		return token.TSTR
	case "text":
		return token.TEXT
	case "bytes":
		return token.BYTES
	case "bstr":
		return token.BSTR
	case "bool":
		return token.BOOL
	case "true":
		return token.TRUE
	case "false":
		return token.FALSE
	case "nil":
		return token.NIL
	case "null":
		return token.NULL
	case "any":
		return token.ANY
	}
	return token.IDENT
}

func ctlop(s string) token.Token {
	switch s {
	case ".size":
		return token.SIZE
	case ".bits":
		return token.BITS
	case ".regexp":
		return token.REGEXP
	case ".cbor":
		return token.CBOR
	case ".cborseq":
		return token.CBORSEQ
	case ".within":
		return token.WITHIN
	case ".and":
		return token.AND
	case ".lt":
		return token.LT
	case ".le":
		return token.LE
	case ".gt":
		return token.GT
	case ".ge":
		return token.GE
	case ".eq":
		return token.EQ
	case ".ne":
		return token.NE
	case ".default":
		return token.DEFAULT
	case ".plus":
		return token.PLUS
	case ".cat":
		return token.CAT
	case ".det":
		return token.DET
	case ".abnf":
		return token.ABNF
	case ".abnfb":
		return token.ABNFB
	case ".feature":
		return token.FEATURE
	}
	return token.ILLEGAL
}

func alpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func digit(c byte) bool { return c >= '0' && c <= '9' }
func start(c byte) bool { return alpha(c) || c == '@' || c == '_' || c == '$' }
func body(c byte) bool  { return start(c) || digit(c) || c == '-' || c == '.' }
func hexd(c byte) bool  { return digit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }

func at(b []byte, i int) byte {
	if i < len(b) {
		return b[i]
	}
	return 0
}

// reference classifies the token at the start of b by the language definition.
// ok is false where the property says nothing.
func reference(b []byte) (tok token.Token, n int, ok bool) {
	c := b[0]
	switch {
	case start(c):
		n = 1
		for n < len(b) && body(b[n]) {
			n++
		}
		return word(string(b[:n])), n, true
	case digit(c):
		if c == '0' && len(b) > 1 {
			var in func(byte) bool
			switch b[1] {
			case 'x':
				in = hexd
			case 'b':
				in = func(c byte) bool { return c == '0' || c == '1' }
			case 'o':
				in = func(c byte) bool { return c >= '0' && c <= '7' }
			}
			if in != nil {
				n = 2
				for n < len(b) && in(b[n]) {
					n++
				}
				return token.INT, n, n > 2
			}
		}
		n = 1
		for n < len(b) && digit(b[n]) {
			n++
		}
		if n+1 < len(b) && b[n] == '.' && digit(b[n+1]) {
			n += 2
			for n < len(b) && digit(b[n]) {
				n++
			}
			return token.FLOAT, n, true
		}
		return token.INT, n, true
	case c >= utf8.RuneSelf:
		r, w := utf8.DecodeRune(b)
		_ = r
		return token.ILLEGAL, w, true
	}
	switch c {
	case '-':
		return token.MINUS, 1, true
	case '?':
		return token.OPTIONAL, 1, true
	case ':':
		return token.COLON, 1, true
	case '(':
		return token.LPAREN, 1, true
	case ')':
		return token.RPAREN, 1, true
	case '{':
		return token.LBRACE, 1, true
	case '}':
		return token.RBRACE, 1, true
	case '[':
		return token.LBRACK, 1, true
	case ']':
		return token.RBRACK, 1, true
	case '+':
		return token.ONE_OR_MORE, 1, true
	case '*':
		return token.ZERO_OR_MORE, 1, true
	case '<':
		return token.LEFT_ANGLE_BRACKET, 1, true
	case '>':
		return token.RIGHT_ANGLE_BRACKET, 1, true
	case '#':
		return token.HASH, 1, true
	case '~':
		return token.UNWRAP, 1, true
	case ',':
		return token.COMMA, 1, true
	case '&':
		return token.AMPERSAND, 1, true
	case '=':
		if at(b, 1) == '>' {
			return token.ARROW_MAP, 2, true
		}
		return token.ASSIGN, 1, true
	case '/':
		if at(b, 1) == '/' {
			if at(b, 2) == '=' {
				return token.GROUP_CHOICE_ASSIGN, 3, true
			}
			return token.GROUP_CHOICE, 2, true
		}
		if at(b, 1) == '=' {
			return token.TYPE_CHOICE_ASSIGN, 2, true
		}
		return token.TYPE_CHOICE, 1, true
	case '.':
		if at(b, 1) == '.' {
			if at(b, 2) == '.' {
				return token.EXCLUSIVE_BOUND, 3, true
			}
			return token.INCLUSIVE_BOUND, 2, true
		}
		n = 1
		for n < len(b) && alpha(b[n]) {
			n++
		}
		if n == 1 {
			return token.PERIOD, 1, true
		}
		if n < len(b) && body(b[n]) {
			return 0, 0, false
		}
		t := ctlop(string(b[:n]))
		return t, n, true
	case ';':
		n = 1
		for n < len(b) && b[n] != '\n' {
			n++
		}
		return token.COMMENT, n - 1, true
	case '"':
		n = 1
		for n < len(b) && b[n] != '\n' {
			if b[n] == '"' {
				return token.TEXT_LITERAL, n - 1, true
			}
			n++
		}
		return token.TEXT_LITERAL, 0, false
	}
	return token.ILLEGAL, 1, true
}

// Kinds: the kind and extent of a token, for every token of N bytes (L04).
func Kinds() {
	src := source(true)
	k := sym.Param("K", 1) // tokens examined
	l := lexer.NewLexer(src)
	for i := 0; i < k; i++ {
		tok, pos, lit := l.Scan()
		off := pos.Offset
		if off >= len(src) {
			sym.Assert(tok == token.EOF, "end-of-file at the end")
			sym.Reach("eof")
			return
		}
		sym.Assert(tok != token.EOF, "no end-of-file before the end")
		want, n, ok := reference(src[off:])
		if !ok {
			return
		}
		sym.Assert(tok == want, "a lexeme has the right token kind")
		sym.Assert(len(lit) == n, "a lexeme has the right extent")
		if want.IsControlOp() {
			sym.Reach("ctlop")
		} else if want == token.FLOAT {
			sym.Reach("float")
		}
	}
	sym.Reach("end")
}
