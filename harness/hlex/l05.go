package hlex

import (
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// Memory: scanning writes no byte of the caller's buffer (L05).
func Memory() {
	n := sym.Choose("len", sym.Param("N", 4)+1)
	pre, post := frame(sym.Param("T", 0))
	buf := append([]byte(pre), sym.Bytes("buf", n)...)
	buf = append(buf, post...)
	n = len(buf)
	buf = append(buf, sym.Bytes("after", 3)...)
	keep := append([]byte(nil), buf...)
	l := lexer.NewLexer(buf[:n])
	for i := 0; i <= n; i++ {
		tok, _, _ := l.Scan()
		if tok == token.EOF {
			break
		}
	}
	same := true
	for i := range buf {
		same = sym.And(same, buf[i] == keep[i])
	}
	sym.Assert(same, "the caller's buffer is unchanged")
	sym.Reach("end")
}

// Suffix: what is scanned after a token is what the rest alone gives (L05).
func Suffix() {
	src := source(true)
	l := lexer.NewLexer(src)
	tok, pos, lit := l.Scan()
	end := pos.Offset + len(lit)
	switch tok {
	case token.EOF:
		return
	case token.TEXT_LITERAL:
		end++
		if end < len(src) && src[end] == '"' {
			end++
		}
	case token.COMMENT:
		end++
	}
	sym.Assert(end <= len(src), "a token ends in the source")
	s := lexer.NewLexer(src[end:])
	for i := 0; i <= len(src); i++ {
		t1, p1, l1 := l.Scan()
		t2, p2, l2 := s.Scan()
		sym.Assert(t1 == t2, "the rest gives the same tokens")
		sym.Assert(l1 == l2, "the rest gives the same literals")
		sym.Assert(p1.Offset == p2.Offset+end, "the rest gives the same offsets")
		if t1 == token.EOF {
			sym.Reach("eof")
			return
		}
		sym.Reach("tok")
	}
	sym.Fail("more tokens than bytes")
}

type scanned struct {
	t   token.Token
	p   token.Position
	lit string
}

func scanN(l *lexer.Lexer, n int) []scanned {
	var out []scanned
	for i := 0; i < n; i++ {
		t, p, s := l.Scan()
		out = append(out, scanned{t, p, s})
	}
	return out
}

// Independent: lexers do not influence each other, whatever the schedule (L05).
func Independent() {
	n := sym.Param("N", 2)
	a, b := sym.Bytes("a", n), sym.Bytes("b", n)
	wa, wb := scanN(lexer.NewLexer(a), n+1), scanN(lexer.NewLexer(b), n+1)
	la, lb := lexer.NewLexer(a), lexer.NewLexer(b)
	i, j := 0, 0
	for i <= n || j <= n {
		var got, want scanned
		if j > n || i <= n && sym.Bool("turn") {
			got.t, got.p, got.lit = la.Scan()
			want = wa[i]
			i++
		} else {
			got.t, got.p, got.lit = lb.Scan()
			want = wb[j]
			j++
		}
		sym.Assert(got.t == want.t, "interleaving does not change a token")
		sym.Assert(got.p == want.p, "interleaving does not change a position")
		sym.Assert(got.lit == want.lit, "interleaving does not change a literal")
	}
	sym.Reach("end")
}
