package hlex

import (
	"strings"
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// source is a symbolic source: a concrete frame chosen by the parameter T with
// N symbolic bytes in it. valid restricts it to well-formed UTF-8.
func source(valid bool) []byte {
	n := sym.Param("N", 3)
	if sym.Param("LENS", 1) == 1 {
		n = sym.Choose("len", n+1)
	}
	pre, post := frame(sym.Param("T", 0))
	b := append([]byte(pre), sym.Bytes("src", n)...)
	b = append(b, post...)
	if valid {
		assumeUTF8(b)
	}
	return b
}

func frame(t int) (pre, post string) {
	x := sym.Param("X", 20) // repetitions
	switch t {
	case 1:
		return "a = \"x\"\n; c\n\n b", "c / 4\n"
	case 2:
		return "person = {\n  name: tstr, ; full name\n  age: uint .size ", "\n}\nthing = 0x1F..20 \t\r\n"
	case 3:
		return "; \u00e9\u00fc \u65e5\u672c\n\"\u00e9\" ", " k => v ; \u65e5\r\nx//=y"
	case 4:
		return "a = 1.5 ... ", "\r\n\r\n\t;end"
	// long sources, lines and tokens
	case 5:
		return many(x), "\n x = 1\n"
	case 6:
		return "= " + strings.Repeat("a-b_c.", 2*x) + "d", strings.Repeat("E$9", 5*x) + " = 1\n"
	case 7:
		return "\"" + strings.Repeat("text; \t", 2*x), strings.Repeat(" x = y", 2*x) + "\" y\n"
	case 8:
		return "z ;" + strings.Repeat("text \"x", 2*x), strings.Repeat(" x = y", 2*x) + "\n y ;"
	case 9:
		return "x = " + strings.Repeat("123", 5*x), strings.Repeat("50", 5*x) + ".7\n"
	case 10:
		return strings.Repeat("\n", 20*x) + "x\t" + strings.Repeat(" \r", 8*x), strings.Repeat("\t ", 8*x) + "y\n" + strings.Repeat("\n", 20*x)
	case 11:
		return "a = 0xF" + strings.Repeat("0aB", 3*x), strings.Repeat("7", 3*x) + " "
	case 12:
		return strings.Repeat("[ {( a,", 4*x), strings.Repeat(")}]", 4*x)
	case 13:
		return "x = 0." + strings.Repeat("123", 4*x), strings.Repeat("50", 4*x) + "..b"
	}
	return "", ""
}

// many is a source of n lines.
func many(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString("rule = { k: tstr, * [ 1*2 int ], x => \"\u00e9\" } / 0x1F..20 // b ; note\n")
	}
	return b.String()
}

func assumeUTF8(b []byte) {
	for i := 0; i < len(b); {
		if b[i] < utf8.RuneSelf {
			i++
			continue
		}
		r, w := utf8.DecodeRune(b[i:])
		sym.Assume(r != utf8.RuneError || w != 1)
		i += w
	}
}

func blank(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

func blanks(b []byte) bool {
	ok := true
	for _, c := range b {
		ok = sym.And(ok, blank(c))
	}
	return ok
}

// Tiling: tokens cover the source and literals are the source text (L02).
func Tiling() {
	src := source(true)
	n := len(src)
	l := lexer.NewLexer(src)
	end := 0
	for i := 0; i <= n; i++ {
		tok, pos, lit := l.Scan()
		off := pos.Offset
		sym.Assert(off >= end && off <= n, "a token does not overlap the one before")
		sym.Assert(blanks(src[end:off]), "only blanks between tokens")
		switch tok {
		case token.EOF:
			sym.Assert(lit == "", "end-of-file has an empty literal")
			sym.Assert(off == n, "end-of-file is at the end")
			sym.Reach("eof")
			return
		case token.TEXT_LITERAL:
			sym.Assert(src[off] == '"', "a text literal starts with a quote")
			sym.Assert(off+1+len(lit) <= n, "a literal lies in the source")
			sym.Assert(string(src[off+1:off+1+len(lit)]) == lit, "a text literal is the text between its quotes")
			end = off + 1 + len(lit)
			if end < n && src[end] == '"' {
				end++
				sym.Reach("text")
			}
		case token.COMMENT:
			sym.Assert(src[off] == ';', "a comment starts with a semicolon")
			sym.Assert(off+1+len(lit) <= n, "a literal lies in the source")
			sym.Assert(string(src[off+1:off+1+len(lit)]) == lit, "a comment is the text after its semicolon")
			end = off + 1 + len(lit)
			sym.Assert(end == n || src[end] == '\n', "a comment extends to the end of its line")
			sym.Reach("comment")
		default:
			sym.Assert(len(lit) > 0, "a token has a literal")
			sym.Assert(off+len(lit) <= n, "a literal lies in the source")
			sym.Assert(string(src[off:off+len(lit)]) == lit, "a literal is the source text at its offset")
			end = off + len(lit)
			sym.Reach("other")
		}
	}
	sym.Fail("more tokens than bytes")
}

// Positions: line and column of every token (L03).
func Positions() {
	src := source(true)
	n := len(src)
	l := lexer.NewLexer(src)
	line, last, k := 1, -1, 0
	for i := 0; i <= n; i++ {
		tok, pos, _ := l.Scan()
		off := pos.Offset
		sym.Assert(off >= k && off <= n, "a token lies in the source, after the one before")
		for ; k < off; k++ {
			if src[k] == '\n' {
				line++
				last = k
			}
		}
		sym.Assert(pos.Line == line, "the line is one plus the newlines before the token")
		sym.Assert(pos.Column == off-last, "the column is one plus the bytes since the last newline")
		if i > 0 {
			// a token never starts at a blank: its offset is its first byte
			sym.Assert(tok == token.EOF || !blank(src[off]), "the offset is the first byte of the token")
		}
		if line > 1 {
			sym.Reach("line2")
		}
		if tok == token.EOF {
			sym.Assert(off == n, "end-of-file is at the end")
			sym.Observe("line", pos.Line)
			sym.Observe("col", pos.Column)
			sym.Reach("eof")
			return
		}
	}
	sym.Fail("more tokens than bytes")
}
