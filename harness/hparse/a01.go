package hparse

import (
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// accepted is a source and its tree, if it has no errors.
func accepted(lines bool) (*stream, *ast.CDDL) {
	var s *stream
	if sym.Param("VALUES", 0) == 1 {
		s = template(append(templates(valued, longValued), templates(noted, longNoted)...))
	} else {
		s = source(alphabet(), lines)
	}
	cddl, errs := parser.NewParser(s.lexer()).ParseFile()
	sym.Observe("errors", len(errs))
	if len(errs) > 0 {
		sym.Skip()
	}
	return s, cddl
}

// Spans: every node covers its own text (A01).
func Spans() {
	s, cddl := accepted(sym.Param("NL", 1) == 1)
	span := func(n ast.Node) (p, q token.Position) {
		msg := sym.Try(func() { p, q = n.Start(), n.End() })
		sym.Assert(msg == "", "asking for a span does not panic: "+msg)
		return
	}
	within := func(n, k ast.Node) bool {
		p, q := span(n)
		a, b := span(k)
		return sym.And(sym.And(p.Offset <= a.Offset, p.Line <= a.Line), sym.And(b.Offset <= q.Offset, b.Line <= q.Line))
	}
	visit := func(n ast.Node, first, last int) {
		p, q := span(n)
		from := samePos(p, s.pos[first])
		if x, ok := n.(*ast.UintLiteral); ok { // a tag number starts inside its token
			d := x.Pos.Offset - s.pos[first].Offset
			from = sym.Or(from, sym.And(sym.And(d > 0, d < len(s.text[first])), sym.And(p.Line == s.pos[first].Line, p.Column == s.pos[first].Column+d)))
		}
		line := false
		for i := first; i <= last; i++ {
			line = sym.Or(line, sym.And(q.Line == s.pos[i].Line, sym.And(q.Offset >= s.pos[i].Offset, q.Column-s.pos[i].Column == q.Offset-s.pos[i].Offset)))
		}
		to := sym.And(line, sym.And(p.Offset <= q.Offset, q.Offset <= s.pos[last].Offset+len(s.text[last])))
		ok := sym.And(from, to)
		for _, k := range children(n) {
			if _, comment := k.(*ast.Comment); !comment {
				ok = sym.And(ok, within(n, k))
			}
		}
		sym.Assert(ok, "a node starts where its text does, ends within it and spans its children")
		size := -1
		switch x := n.(type) {
		case *ast.Identifier:
			size = len(x.Name)
		case *ast.TextLiteral:
			size = len(x.Literal)
		}
		if size >= 0 {
			sym.Reach("sized")
			sym.Assert(q.Offset-p.Offset == size, "the span of a name, text or comment has the bytes of its content")
		}
		sym.Reach("node")
	}
	w := &writer{s: s, visit: visit}
	w.root(cddl)
	var comments func(n ast.Node)
	comments = func(n ast.Node) {
		if c, ok := n.(*ast.Comment); ok {
			p, q := span(c)
			at := false
			for i := range s.tok {
				at = sym.Or(at, sym.And(s.tok[i] == token.COMMENT, samePos(p, s.pos[i])))
			}
			sym.Assert(at, "a comment starts where its text does")
			sym.Assert(q.Offset-p.Offset == len(c.Text), "the span of a comment has the bytes of its text")
			sym.Reach("comment")
		}
		for _, k := range children(n) {
			comments(k)
		}
	}
	comments(cddl)
	p, q := span(cddl)
	ok := sym.And(sym.And(p.Line >= 1, p.Column >= 1), sym.And(p.Offset >= 0, q.Offset <= s.eof.Offset))
	ok = sym.And(ok, p.Offset <= q.Offset)
	for _, k := range cddl.Rules {
		a, b := span(k)
		ok = sym.And(ok, sym.And(a.Offset <= b.Offset, within(cddl, k)))
	}
	sym.Assert(ok, "a tree is within its source and spans its rules")
}

// children of a node in the order of the source.
func children(n ast.Node) (out []ast.Node) {
	add := func(k ast.Node) { out = append(out, k) }
	lit := func(k *ast.UintLiteral) {
		if k != nil {
			add(k)
		}
	}
	trailing := func(c *ast.Comment) {
		if c != nil {
			add(c)
		}
	}
	switch x := n.(type) {
	case *ast.CDDL:
		for _, k := range x.Rules {
			add(k)
		}
	case *ast.Rule:
		add(x.Name)
		add(x.Value)
		trailing(x.TrailingComment)
	case *ast.Entry:
		add(x.Name)
		add(x.Value)
		trailing(x.TrailingComment)
	case *ast.Group:
		for _, k := range x.Entries {
			add(k)
		}
	case *ast.Array:
		for _, k := range x.Rules {
			add(k)
		}
	case *ast.Map:
		for _, k := range x.Rules {
			add(k)
		}
	case *ast.CommentGroup:
		for _, k := range x.List {
			add(k)
		}
	case *ast.Optional:
		add(x.Item)
	case *ast.NMOccurrence:
		lit(x.N)
		lit(x.M)
		add(x.Item)
	case *ast.Unwrap:
		add(x.Item)
	case *ast.Enumeration:
		add(x.Value)
	case *ast.Tag:
		lit(x.Major)
		lit(x.TagNumber)
		if x.Item != nil {
			add(x.Item)
		}
	case *ast.TypeChoice:
		add(x.First)
		add(x.Second)
	case *ast.GroupChoice:
		add(x.First)
		add(x.Second)
	case *ast.Range:
		add(x.From)
		add(x.To)
	case *ast.SizeOperatorControl:
		add(x.Type)
		add(x.Size)
	case *ast.Regexp:
		add(x.Base)
		add(x.Regex)
	case *ast.Bits:
		add(x.Base)
		add(x.Contstraint)
	case *ast.ComparatorOpControl:
		add(x.Left)
		add(x.Right)
	}
	return
}

// A call of a visitor.
type call struct {
	by int // the visitor
	n  ast.Node
}

type recorder struct {
	log     *[]call
	decline *int // the number of the node to decline, counted down; or
	each    bool // decline any
	made    *int // visitors made
	id      int
}

func (r *recorder) Visit(n ast.Node) astutils.Visitor {
	*r.log = append(*r.log, call{r.id, n})
	if n == nil {
		return nil
	}
	if r.each {
		if sym.Bool("decline") {
			return nil
		}
	} else {
		*r.decline--
		if *r.decline == 0 {
			return nil
		}
	}
	*r.made++
	return &recorder{log: r.log, decline: r.decline, each: r.each, made: r.made, id: *r.made}
}

// Walked: walking visits every node once (A02).
func Walked() {
	_, cddl := accepted(sym.Param("NL", 1) == 1)
	walked(cddl)
}

func walked(root ast.Node) {
	var log []call
	decline := 0
	each := sym.Param("EACH", 0) == 1
	if !each {
		decline = sym.Choose("decline", sym.Param("D", 12))
	}
	made := 0
	msg := sym.Try(func() {
		astutils.Walk(&recorder{log: &log, decline: &decline, each: each, made: &made}, root)
	})
	sym.Assert(msg == "", "walking does not panic: "+msg)
	// the log must be that of a walk of the tree
	i, ids := 0, 0
	next := func(by int, n ast.Node) {
		if i >= len(log) {
			sym.Fail("every node is visited")
		}
		sym.Assert(log[i].by == by, "the children of a node are visited by the visitor it returned")
		sym.Assert(log[i].n == n, "nodes are visited once each, in source order, parents first, and nil after the children")
		i++
	}
	var walk func(by int, n ast.Node)
	walk = func(by int, n ast.Node) {
		next(by, n)
		// declined nodes made no visitor: the next call is not by theirs
		if i >= len(log) || log[i].by != ids+1 {
			sym.Reach("declined")
			return
		}
		ids++
		id := ids
		for _, k := range children(n) {
			walk(id, k)
		}
		next(id, nil)
	}
	walk(0, root)
	sym.Assert(i == len(log), "nothing is visited twice")
	sym.Assert(ids == made, "every visitor is used")
	sym.Reach("walked")
}

// Formatted: printing shows what it prints (A03).
func Formatted() {
	_, cddl := accepted(false)
	digits := func(n int) string {
		out := ""
		for ; n > 9; n /= 10 {
			out = string(rune('0'+n%10)) + out
		}
		return string(rune('0'+n)) + out
	}
	var show func(n ast.Node) string
	show = func(n ast.Node) string {
		out := ""
		msg := sym.Try(func() { out = astutils.Format(n) })
		sym.Assert(msg == "", "formatting does not panic: "+msg)
		sym.Assert(out != "", "formatting gives a text")
		has := func(sub, what string) {
			sym.Assert(strings.Contains(out, sub), "the text of a node has its "+what)
		}
		place := func(p token.Position) {
			has("Column: "+digits(sym.Conc(p.Column))+",", "column")
			has("Line: "+digits(sym.Conc(p.Line))+" ", "line")
		}
		switch x := n.(type) {
		case *ast.Identifier:
			has("'"+sym.ConcStr(x.Name)+"'", "name")
			place(x.Pos)
			sym.Reach("name")
		case *ast.IntegerLiteral:
			has("'"+digits(sym.Conc(int(x.Literal)))+"'", "value")
			place(x.Pos)
			sym.Reach("number")
		case *ast.TypeChoice:
			place(x.Pos)
			leaf := func(k ast.Node) {
				t := show(k)
				if _, ok := k.(*ast.Group); ok { // indented
					t = strings.SplitN(t, "\n", 2)[0]
				} else if len(children(k)) > 0 {
					return
				}
				has(t, "alternatives")
			}
			leaf(x.First)
			leaf(x.Second)
			sym.Reach("choice")
			return out
		case *ast.Group:
			has(": "+digits(len(x.Entries))+"\n", "number of entries")
			place(x.Pos)
			sym.Reach("group")
		}
		for _, k := range children(n) {
			show(k)
		}
		return out
	}
	show(cddl)
}

// LiteralSpan: a literal of any width spans its text (A01).
func LiteralSpan() {
	base, pre, post := sym.Param("B", 10), "x = ", ""
	d := ""
	if base == 0 { // a text
		b := sym.Bytes("text", sym.Param("N", 3))
		for _, c := range b {
			sym.Assume(sym.And(c >= ' ', sym.And(c < 0x7f, sym.And(c != '"', c != '\\'))))
		}
		pre, d, post = pre+"\"", string(b), "\""
	} else {
		pre += prefixes[base]
		d = digits("digit", sym.Param("N", 3), base)
	}
	if f := sym.Param("F", 0); f > 0 {
		b := sym.Bytes("fraction", f)
		for _, c := range b {
			sym.Assume(sym.And(c >= '0', c <= '9'))
		}
		d += "." + string(b)
	}
	start := 4
	switch sym.Param("AT", 0) {
	case 1:
		post = "* int"
	case 2:
		pre = "x = *" + prefixes[base]
		post = " int"
	}
	src := pre + d + post
	n, errs := valueOf(src)
	if len(errs) > 0 {
		sym.Skip()
	}
	occ, _ := n.(*ast.NMOccurrence)
	if occ != nil {
		n = occ.N
		if occ.M != nil {
			start, n = 5, occ.M
		}
	}
	p, q := n.Start(), n.End()
	sym.Observe("end", q.Offset)
	sym.Assert(sym.And(p.Offset == start, p.Column == start+1), "a literal starts where its text does")
	sym.Assert(sym.And(q.Offset > start, sym.And(q.Offset <= len(pre)+len(d), q.Column == q.Offset+1)), "a literal ends within its text")
	sym.Reach("literal")
}
