package hparse

import (
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// maker makes trees by hand, at places that are symbolic.
type maker struct{}

func (m *maker) pos() token.Position {
	// few places, so that nodes often share one
	n := sym.Int("pos")
	sym.Assume(sym.And(n >= 0, n < 3))
	return token.Position{Offset: n, Line: 1, Column: n + 1}
}

func (m *maker) uint() *ast.UintLiteral {
	if sym.Bool("absent") {
		return nil
	}
	return &ast.UintLiteral{Pos: m.pos(), Literal: 1}
}

func (m *maker) comment() *ast.Comment {
	if sym.Bool("absent") {
		return nil
	}
	return &ast.Comment{Pos: m.pos(), Text: "c"}
}

const leaves = 14

// leaf is a node without children.
func (m *maker) leaf(k int) ast.Node {
	p := m.pos()
	r := token.PositionRange{Start: p, End: p}
	switch k {
	case 0:
		return &ast.Identifier{Pos: p, Name: "a"}
	case 1:
		return &ast.IntegerLiteral{Pos: p, Literal: 1}
	case 2:
		return &ast.UintLiteral{Pos: p}
	case 3:
		return &ast.TextLiteral{Pos: p, Literal: "t"}
	case 4:
		return &ast.FloatLiteral{Range: r}
	case 5:
		return &ast.BooleanLiteral{Range: r}
	case 6:
		return &ast.BooleanType{Pos: p}
	case 7:
		return &ast.BstrType{Pos: p}
	case 8:
		return &ast.BytesType{Pos: p}
	case 9:
		return &ast.TstrType{Pos: p}
	case 10:
		return &ast.UintType{Range: r}
	case 11:
		return &ast.FloatType{Pos: p}
	case 12:
		return &ast.NullType{Pos: p}
	case 13:
		return &ast.Comment{Pos: p, Text: "c"}
	}
	if sym.Bool("negative") {
		return &ast.NegativeIntegerType{Pos: p}
	}
	return &ast.IntegerType{Pos: p}
}

// node is any node of a depth.
func (m *maker) node(depth int) ast.Node {
	if depth == 0 || depth < sym.Param("DEPTH", 2) && sym.Bool("leaf") {
		if depth < sym.Param("DEPTH", 2)-1 {
			return m.leaf(0)
		}
		return m.leaf(sym.Choose("leaf", leaves+1))
	}
	p := m.pos()
	// one of the children is deeper than the others
	two := func() (ast.Node, ast.Node) {
		if sym.Bool("second") {
			return m.leaf(0), m.node(depth - 1)
		}
		return m.node(depth - 1), m.leaf(3)
	}
	kind := sym.Choose("kind", 19)
	list := func() (out []ast.Node) {
		n := sym.Choose("children", 4)
		if n == 0 {
			return
		}
		deep := sym.Choose("deep", n)
		for i := 0; i < n; i++ {
			if i == deep {
				out = append(out, m.node(depth-1))
			} else {
				out = append(out, m.leaf(0))
			}
		}
		return
	}
	entries := func() (out []ast.GroupEntry) {
		for _, k := range list() {
			g, ok := k.(ast.GroupEntry)
			if !ok {
				sym.Skip()
			}
			out = append(out, g)
		}
		return
	}
	switch kind {
	case 0:
		return &ast.Array{Pos: p, Rules: entries()}
	case 1:
		return &ast.Group{Pos: p, Entries: entries()}
	case 2:
		return &ast.Map{Pos: p, Rules: list()}
	case 3:
		n := &ast.CDDL{Pos: p}
		for _, k := range list() {
			g, ok := k.(ast.CDDLEntry)
			if !ok {
				sym.Skip()
			}
			n.Rules = append(n.Rules, g)
		}
		return n
	case 4:
		n := &ast.CommentGroup{}
		for i := sym.Choose("comments", 4); i > 0; i-- {
			n.List = append(n.List, &ast.Comment{Pos: m.pos()})
		}
		return n
	case 5:
		a, b := two()
		return &ast.Bits{Pos: p, Base: a, Contstraint: b}
	case 6:
		a, b := two()
		return &ast.ComparatorOpControl{Pos: p, Left: a, Right: b}
	case 7:
		return &ast.Regexp{Pos: p, Base: &ast.TstrType{Pos: m.pos()}, Regex: m.node(depth - 1)}
	case 8:
		a, b := two()
		return &ast.SizeOperatorControl{Pos: p, Type: a, Size: b}
	case 9:
		return &ast.Entry{Pos: p, Name: &ast.Identifier{Pos: m.pos(), Name: "k"}, Value: m.node(depth - 1), TrailingComment: m.comment()}
	case 10:
		return &ast.Rule{Pos: p, Name: &ast.Identifier{Pos: m.pos(), Name: "r"}, Value: m.node(depth - 1), TrailingComment: m.comment()}
	case 11:
		return &ast.Enumeration{Pos: p, Value: m.node(depth - 1)}
	case 12:
		a, b := two()
		return &ast.GroupChoice{Pos: p, First: a, Second: b}
	case 13:
		a, b := two()
		return &ast.TypeChoice{Pos: p, First: a, Second: b}
	case 14:
		return &ast.Optional{Pos: p, Item: m.node(depth - 1)}
	case 15:
		return &ast.NMOccurrence{Pos: p, N: m.uint(), M: m.uint(), Item: m.node(depth - 1)}
	case 16:
		a, b := two()
		return &ast.Range{Pos: p, From: a, To: b}
	case 17:
		n := &ast.Tag{Pos: p, Major: m.uint(), TagNumber: m.uint()}
		if sym.Bool("item") {
			n.Item = m.node(depth - 1)
		}
		return n
	}
	return &ast.Unwrap{Pos: p, Item: m.node(depth - 1)}
}

// WalkedAny: walking visits every node of any tree once (A02).
func WalkedAny() {
	m := &maker{}
	n := m.node(sym.Param("DEPTH", 2))
	walked(n)
}

// number is a number of 1 to n digits and its notation.
func decimal(name string, n int) (int, string) {
	pre := ""
	if n > 2 && sym.Param("PRE", 0) == 1 { // two digits after some of the limits
		pre = []string{"21474836", "42949672", "90071992547409", "92233720368547"}[sym.Choose("prefix", 4)]
		n = 2
	}
	b := append([]byte(pre), sym.Bytes(name, 1+sym.Choose("width", n))...)
	v := 0
	for i, c := range b {
		if i >= len(pre) {
			sym.Assume(digit(c))
		}
		if i == 0 && len(b) > 1 {
			sym.Assume(c != '0')
		}
		v = v*10 + int(c-'0')
	}
	return v, string(b)
}

// FormattedAny: the texts of names, numbers, choices and groups made by hand
// show what they hold and where they are (A03).
func FormattedAny() {
	place := func() (token.Position, string) {
		line, l := decimal("line", sym.Param("P", 2))
		column, c := decimal("column", sym.Param("P", 2))
		return token.Position{Offset: sym.Choose("offset", 2), Line: line, Column: column}, "Column: " + c + ", Line: " + l + " "
	}
	format := func(n ast.Node) (out string) {
		msg := sym.Try(func() { out = astutils.Format(n) })
		sym.Assert(msg == "", "formatting does not panic: "+msg)
		return
	}
	leaf := func() (n ast.Node, has []string) {
		p, at := place()
		switch sym.Choose("leaf", 2) {
		case 0:
			name := string(sym.Bytes("name", sym.Param("K", 3)))
			for i := 0; i < len(name); i++ {
				sym.Assume(sym.Or(letter(name[i]), digit(name[i])))
			}
			n = &ast.Identifier{Pos: p, Name: name}
			has = []string{"'" + name + "'", at}
			sym.Reach("name")
		case 1:
			v, s := decimal("value", sym.Param("W", 18))
			if sym.Bool("negative") && v != 0 {
				v, s = -v, "-"+s
			}
			n = &ast.IntegerLiteral{Pos: p, Literal: int64(v)}
			has = []string{"'" + s + "'", at}
			sym.Reach("number")
		}
		return
	}
	check := func(n ast.Node, has []string) {
		out := format(n)
		for _, s := range has {
			sym.Assert(strings.Contains(out, s), "the text of a node has its parts")
		}
	}
	switch sym.Choose("node", 3) {
	case 0:
		check(leaf())
	case 1:
		p, at := place()
		// the alternatives differ, so neither stands for the other
		x := &ast.Identifier{Pos: token.Position{Line: 1, Column: 5}, Name: "x"}
		y, _ := leaf()
		c := &ast.TypeChoice{Pos: p, First: x, Second: y}
		if sym.Bool("swap") {
			c.First, c.Second = y, x
		}
		check(c, []string{at, format(x), format(y)})
		sym.Reach("choice")
	case 2:
		p, at := place()
		n := sym.Choose("entries", sym.Param("E", 12))
		g := &ast.Group{Pos: p}
		for i := 0; i < n; i++ {
			g.Entries = append(g.Entries, &ast.Identifier{Pos: token.Position{Line: 1, Column: 5}, Name: "x"})
		}
		check(g, []string{at, ": " + strconv.Itoa(n) + "\n"})
		sym.Reach("group")
	}
}
