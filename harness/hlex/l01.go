// Package hlex holds the lexer harnesses.
package hlex

import (
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// ScanAll: every token of N arbitrary bytes (L01).
func ScanAll() {
	src := source(false)
	n := len(src)
	l := lexer.NewLexer(src)
	prev := -1
	toks := 0
	for {
		tok, pos, lit := l.Scan()
		if toks == 0 {
			sym.Observe("tok", int(tok))
			sym.Observe("off", pos.Offset)
			sym.Observe("lit", lit)
		}
		if tok == token.EOF {
			sym.Assert(pos.Offset == n, "end-of-file is reported at the end of the source")
			break
		}
		toks++
		sym.Assert(pos.Offset > prev, "a token starts after the previous one")
		sym.Assert(pos.Offset < n, "a token starts inside the source")
		sym.Assert(toks <= n, "at most one token per byte")
		prev = pos.Offset
	}
	for i := 0; i < 2; i++ {
		tok, pos, _ := l.Scan()
		sym.Assert(tok == token.EOF, "end-of-file is final")
		sym.Assert(pos.Offset == n, "end-of-file stays at the end of the source")
	}
	sym.Observe("toks", toks)
	sym.Reach("end")
}
