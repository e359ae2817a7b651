package hparse

import (
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// naming is the alphabet for questions about names: every place a name may be
// used at, and names that are sockets or differ in a letter only.
var naming = []entry{e(token.IDENT, "a"), e(token.IDENT, "b"), e(token.IDENT, "ab"), e(token.IDENT, "$a"), e(token.IDENT, "$$a"),
	e(token.ASSIGN, "="), e(token.TYPE_CHOICE_ASSIGN, "/="), e(token.INT, "5"), e(token.UINT, "uint"), e(token.TSTR, "tstr"),
	{tok: token.TEXT_LITERAL, lit: "b", text: "\"b\""}, e(token.LPAREN, "("), e(token.RPAREN, ")"),
	e(token.LBRACK, "["), e(token.RBRACK, "]"), e(token.LBRACE, "{"), e(token.RBRACE, "}"),
	e(token.COLON, ":"), e(token.ARROW_MAP, "=>"), e(token.TYPE_CHOICE, "/"), e(token.GROUP_CHOICE, "//"), e(token.OPTIONAL, "?"), e(token.ZERO_OR_MORE, "*"),
	e(token.UNWRAP, "~"), e(token.AMPERSAND, "&"), e(token.SIZE, ".size"), e(token.REGEXP, ".regexp"), e(token.BITS, ".bits"), e(token.LT, ".lt")}

// known builds an environment that has some of the names.
func known() (*environment.Environment, []string, []ast.Node) {
	env := environment.NewEnvironment()
	var names []string
	var nodes []ast.Node
	if sym.Param("E", 0) == 1 {
		for _, n := range []string{"a", "ab"} {
			if sym.Bool("known") {
				node := &ast.BooleanType{Token: token.BOOL}
				env.Add(n, node)
				names = append(names, n)
				nodes = append(nodes, node)
			}
		}
	}
	return env, names, nodes
}

// Resolve: exactly the undefined uses of names are reported (P04).
func Resolve() {
	s := source(naming, false)
	r := newRef(s)
	r.schema()
	env, names, _ := known()
	defs := append([]string(nil), names...)
	for _, x := range r.rules {
		n := sym.ConcStr(s.lit[x.name])
		for _, d := range defs { // redefinitions are P05's
			if d == n && sym.Conc(int(s.tok[x.op])) == int(token.ASSIGN) {
				sym.Skip()
			}
		}
		defs = append(defs, n)
	}
	var undefined []int
	for _, i := range r.uses {
		n := sym.ConcStr(s.lit[i])
		found := strings.HasPrefix(n, "$")
		for _, d := range defs {
			if d == n {
				found = true
			}
		}
		if !found {
			undefined = append(undefined, i)
		}
	}
	_, errs := parser.NewParser(s.lexer(), parser.WithEnv(env)).ParseFile()
	sym.Observe("errors", len(errs))
	sym.Assert(len(errs) <= len(undefined), "names that are defined are not reported")
	sym.Assert(len(errs) >= len(undefined), "names that are not defined are reported")
	for k, i := range undefined {
		p, q := errs[k].Start(), s.pos[i]
		sym.Assert(sym.And(p.Offset == q.Offset, sym.And(p.Line == q.Line, p.Column == q.Column)), "the report points at the use")
		sym.Assert(strings.Contains(errs[k].Error(), sym.ConcStr(s.lit[i])), "the report names the name")
	}
	if len(undefined) > 0 {
		sym.Reach("undefined")
	} else if len(r.uses) > 0 {
		sym.Reach("defined")
	}
}

// Bounds: a name used as a range bound needs a definition (P04).
func Bounds() {
	s := &stream{}
	bounds := []entry{e(token.IDENT, "a"), e(token.IDENT, "b"), e(token.INT, "5"), e(token.FLOAT, "6.2")}
	rng := []entry{e(token.INCLUSIVE_BOUND, ".."), e(token.EXCLUSIVE_BOUND, "...")}
	def := []entry{e(token.IDENT, "a"), e(token.IDENT, "b"), e(token.IDENT, "ab"), e(token.IDENT, "$a")}
	vals := []entry{e(token.INT, "3"), e(token.FLOAT, "7.25")}
	rule := func() {
		s.any("def", 1, def, false, false)
		s.put(e(token.ASSIGN, "="))
		s.any("value", 1, vals, false, false)
	}
	before := sym.Bool("before")
	if before {
		rule()
	}
	d := len(s.tok) + 2
	s.put(e(token.IDENT, "x"), e(token.ASSIGN, "="))
	s.any("from", 1, bounds, false, false)
	s.any("op", 1, rng, false, false)
	s.any("to", 1, bounds, false, false)
	if !before {
		rule()
	}
	name := 0
	if !before {
		name = d + 3
	}
	// a number of the kind is what every bound must be
	kind := func(i int) (k int, undefined bool) {
		switch sym.Conc(int(s.tok[i])) {
		case int(token.INT):
			return 1, false
		case int(token.FLOAT):
			return 2, false
		}
		if sym.ConcStr(s.lit[i]) != sym.ConcStr(s.lit[name]) {
			return 0, true
		}
		if sym.Conc(int(s.tok[name+2])) == int(token.INT) {
			return 1, false
		}
		return 2, false
	}
	k1, u1 := kind(d)
	k2, u2 := kind(d + 2)
	_, errs := parser.NewParser(s.lexer()).ParseFile()
	sym.Observe("errors", len(errs))
	if u1 || u2 {
		sym.Assert(len(errs) > 0, "an undefined bound is reported")
		ok := false
		for _, err := range errs {
			for _, i := range []int{d, d + 2} {
				if u := i == d && u1 || i != d && u2; u {
					ok = sym.Or(ok, err.Start().Offset == s.pos[i].Offset)
				}
			}
		}
		sym.Assert(ok, "the report points at the bound")
		sym.Reach("undefined")
	} else if k1 == k2 {
		sym.Assert(len(errs) == 0, "defined bounds are not reported")
		sym.Reach("defined")
	}
}

// Redefine: every redefinition is reported and the first definition stays (P05).
func Redefine() {
	env, names, nodes := known()
	def := []entry{e(token.IDENT, "a"), e(token.IDENT, "ab"), e(token.IDENT, "$a"), e(token.IDENT, "$$a")}
	known := len(names)
	for k := 0; k < sym.Param("S", 1); k++ { // sources sharing the environment
		s := &stream{}
		for i := 0; i < sym.Param("N", 3); i++ {
			s.any("name", 1, def, false, true)
			s.any("op", 1, assigns, false, false)
			s.put([]entry{e(token.INT, "5"), e(token.TSTR, "tstr"), {tok: token.TEXT_LITERAL, lit: "t", text: "\"t\""}}[i%3])
		}
		cddl, errs := parser.NewParser(s.lexer(), parser.WithEnv(env)).ParseFile()
		sym.Observe("errors", len(errs))
		n := 0
		sym.Assert(len(cddl.Rules) == sym.Param("N", 3), "every definition is in the tree")
		for i := 0; i < sym.Param("N", 3); i++ {
			name := sym.ConcStr(s.lit[3*i])
			old := false
			for _, d := range names {
				if d == name {
					old = true
				}
			}
			if old && sym.Conc(int(s.tok[3*i+1])) == int(token.ASSIGN) {
				sym.Assert(n < len(errs), "every redefinition is reported")
				p, q := errs[n].Start(), s.pos[3*i]
				sym.Assert(sym.And(p.Offset == q.Offset, sym.And(p.Line == q.Line, p.Column == q.Column)), "the report points at the redefinition")
				sym.Assert(strings.Contains(errs[n].Error(), name), "the report names the name")
				n++
				sym.Reach("redefined")
			}
			if !old {
				names = append(names, name)
				nodes = append(nodes, cddl.Rules[i].(*ast.Rule).Value)
			} else if !(i == 0 && k == 0 && known == 0) {
				sym.Reach("extended")
			}
		}
		sym.Assert(n == len(errs), "nothing else is reported")
	}
	for i, n := range names {
		sym.Assert(env.Exists(n) && env.Get(n) == nodes[i], "the environment keeps the first definition")
	}
	for _, n := range []string{"a", "ab", "$a", "$$a", "x"} {
		in := false
		for _, d := range names {
			if d == n {
				in = true
			}
		}
		sym.Assert(env.Exists(n) == in, "the environment has exactly the names defined")
	}
}
