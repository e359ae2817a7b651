package hparse

import (
	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// lastEntry is the entry a rule ends with, nil if it ends otherwise.
func lastEntry(n ast.Node) *ast.Entry {
	switch x := n.(type) {
	case *ast.Entry:
		return x
	case *ast.Optional:
		return lastEntry(x.Item)
	case *ast.NMOccurrence:
		return lastEntry(x.Item)
	case *ast.TypeChoice:
		return lastEntry(x.Second)
	case *ast.GroupChoice:
		return lastEntry(x.Second)
	}
	return nil
}

// Commented: a schema with comments is parsed as the one without (P09).
func Commented() {
	commented(source(append(alphabet(), comms...), true)) // with NL=2
}

func commented(s *stream) {
	r := newRef(s)
	r.comm = 1 << cComment
	r.schema()
	sym.Assume(r.defined())
	cddl, errs := parser.NewParser(s.lexer()).ParseFile()
	sym.Observe("errors", len(errs))
	if len(errs) > 0 {
		sym.Fail("a well-formed schema with comments is accepted")
	}
	c := &checker{s}
	rules, tops := 0, 0
	top := func(x *ast.Comment) {
		sym.Assert(tops < len(r.tops), "there is no comment too many")
		i := r.tops[tops]
		tops++
		c.at(x.Pos, i, "comment")
		sym.Assert(x.Text == s.lit[i], "a comment between rules has its text")
		sym.Reach("between")
	}
	for _, n := range cddl.Rules {
		switch x := n.(type) {
		case *ast.Comment:
			top(x)
		case *ast.CommentGroup:
			for _, y := range x.List {
				top(y)
			}
		case *ast.Rule:
			sym.Assert(rules < len(r.rules), "there is no rule too many")
			y := r.rules[rules]
			rules++
			sym.Assert(tops == y.before, "comments and rules are in order")
			c.at(x.Name.Pos, y.name, "rule name")
			sym.Assert(x.Name.Name == s.lit[y.name], "rule has its name")
			c.node(x.Value, y.value)
			trailing := x.TrailingComment
			if e := lastEntry(x.Value); e != nil && trailing == nil {
				trailing = e.TrailingComment
			}
			if y.comment > 0 {
				sym.Assert(trailing != nil, "a comment at the end of a rule is attached to it")
				c.at(trailing.Pos, y.comment, "comment")
				sym.Assert(trailing.Text == s.lit[y.comment], "a comment at the end of a rule has its text")
				sym.Reach("trailing")
			} else {
				sym.Assert(trailing == nil, "no other comment is attached to a rule")
			}
		default:
			sym.Fail("there are only rules and comments")
		}
	}
	sym.Assert(rules == len(r.rules), "every rule is in the tree")
	sym.Assert(tops == len(r.tops), "every comment between rules is in the tree")
	if n := sym.Param("T", 0); n > 1 && r.inner {
		sym.Reach("inside")
	}
}

// Uncommented: comments on lines of their own around any source change neither
// its rules nor its errors (P09).
func Uncommented() {
	var plain, noted stream
	first := []entry{e(token.IDENT, "q"), e(token.ASSIGN, "="), e(token.TSTR, "tstr")}
	last := []entry{e(token.IDENT, "y"), e(token.ASSIGN, "="), e(token.IDENT, "q")}
	pre, post := frame(sym.Param("T", 1))
	n := sym.Param("N", 2)
	plain.put(first...)
	plain.put(pre...)
	i := len(plain.tok)
	plain.any("tok", n, alphabet(), true, false)
	plain.put(post...)
	plain.put(last...)
	note := func() {
		k := sym.Choose("comments", sym.Param("C", 2)+1)
		for ; k > 0; k-- {
			noted.own = true
			noted.any("comment", 1, comms, false, false)
			noted.own = false
		}
	}
	// moved tells where the tokens are
	at := map[int]int{}
	copyTok := func(j int) {
		at[j] = len(noted.tok)
		noted.add(plain.tok[j], plain.lit[j], plain.text[j], value{}, plain.nl[j], plain.glue[j])
	}
	note()
	for j := range plain.tok {
		if j == len(first) || j == i+n+len(post) {
			note()
		}
		copyTok(j)
	}
	note()
	c1, errs1 := parser.NewParser(plain.lexer()).ParseFile()
	c2, errs2 := parser.NewParser(noted.lexer()).ParseFile()
	sym.Observe("errors", len(errs1))
	same := func(p, q token.Position) bool {
		ok := false
		for j := range plain.tok {
			o, n := plain.pos[j], noted.pos[at[j]]
			d := p.Offset - o.Offset // inside the token
			in := sym.And(sym.And(d >= 0, d < len(plain.text[j])), sym.And(p.Line == o.Line, p.Column == o.Column+d))
			ok = sym.Or(ok, sym.And(in, samePos(q, token.Position{Offset: n.Offset + d, Line: n.Line, Column: n.Column + d})))
		}
		return sym.Or(ok, sym.And(p.Offset == plain.eof.Offset, q.Offset == noted.eof.Offset))
	}
	sym.Assert(len(errs1) == len(errs2), "comments do not change the number of errors")
	for k := range errs1 {
		sym.Assert(same(errs1[k].Start(), errs2[k].Start()), "comments do not change the places of errors")
	}
	var rules []ast.Node
	for _, x := range c2.Rules {
		switch x.(type) {
		case *ast.Comment, *ast.CommentGroup:
		default:
			rules = append(rules, x)
		}
	}
	sym.Assert(len(rules) == len(c1.Rules), "comments do not change the rules")
	c := &cmp{where: same}
	for k, x := range c1.Rules {
		c.nodes(x, rules[k])
	}
	if len(errs1) > 0 {
		sym.Reach("rejected")
	} else {
		sym.Reach("accepted")
	}
}
