package hbase

import (
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

func position(name string, limit int) token.Position {
	num := func(what string) int {
		n := sym.Int(name + " " + what)
		if limit > 0 {
			sym.Assume(sym.And(n >= -limit, n <= limit))
		}
		return n
	}
	return token.Position{Filename: string(sym.Bytes(name+" file", sym.Choose(name+" file length", sym.Param("F", 2)+1))),
		Offset: num("offset"), Line: num("line"), Column: num("column")}
}

// Moves: moving a position (T02).
func Moves() {
	p := position("p", 0)
	a, b := sym.Int("a"), sym.Int("b")
	q := p.To(a)
	sym.Assert(sym.And(q.Offset == p.Offset+a, q.Column == p.Column+a), "moving advances offset and column")
	sym.Assert(sym.And(q.Line == p.Line, q.Filename == p.Filename), "moving keeps the file and line")
	sym.Assert(p.To(a).To(b) == p.To(a+b), "moves add up")
	sym.Assert(p.To(0) == p, "not moving changes nothing")
	sym.Reach("end")
}

func decimal(n int) string {
	neg := n < 0
	u := uint64(n)
	if neg {
		u = -u
	}
	out := ""
	for {
		out = string([]byte{byte('0' + u%10)}) + out
		u /= 10
		if u == 0 {
			break
		}
	}
	if neg {
		out = "-" + out
	}
	return out
}

// Prints: a position prints what is set (T02).
func Prints() {
	p := position("p", sym.Param("LIMIT", 999))
	got := p.String()
	want := decimal(p.Line)
	if len(p.Filename) > 0 {
		want = p.Filename + ":" + want
		sym.Reach("file")
	}
	if p.Column > 0 {
		want += ":" + decimal(p.Column)
		sym.Reach("column")
	} else {
		sym.Reach("line")
	}
	sym.Assert(got == want, "a position prints as its file, line and column")
}

// Ranges: a range prints its ends (T02).
func Ranges() {
	limit := sym.Param("LIMIT", 99)
	r := token.PositionRange{Start: position("start", limit), End: position("end", limit)}
	got := r.String()
	want := "line " + decimal(r.Start.Line) + ", column " + decimal(r.Start.Column)
	if r.Start.Line == r.End.Line {
		want += " ~ " + decimal(r.End.Column)
		sym.Reach("same")
	} else {
		want += " to line " + decimal(r.End.Line) + ", column " + decimal(r.End.Column)
		sym.Reach("lines")
	}
	sym.Assert(got == want, "a range prints its start and its end")
}
