package hbase

import (
	"strconv"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// Symbols: the symbol table is a write-once map (E01).
func Symbols() {
	k, n := sym.Param("ENVS", 2), sym.Param("LEN", 1)
	envs := make([]*environment.Environment, k)
	for i := range envs {
		envs[i] = environment.NewEnvironment()
	}
	name := func() string {
		return string(sym.Bytes("name", sym.Choose("length", n+1)))
	}
	type def struct {
		env  int
		name string
		node ast.Node
	}
	var defs []def
	find := func(env int, s string) (ast.Node, bool) {
		for _, d := range defs {
			if d.env == env && d.name == s {
				return d.node, true
			}
		}
		return nil, false
	}
	check := func(env int, s string) {
		node, ok := find(env, s)
		sym.Assert(envs[env].Exists(s) == ok, "a name exists exactly if it was added")
		got := envs[env].Get(s)
		if ok {
			sym.Assert(got == node, "a name has the node of its first addition")
		} else {
			sym.Assert(got == nil, "another name has none")
		}
	}
	for i := 0; i < sym.Param("FILL", 0); i++ {
		s, node := "n"+strconv.Itoa(i), &ast.Identifier{Name: "n"}
		sym.Assert(envs[0].Add(s, node) == nil, "adding a new name works")
		defs = append(defs, def{0, s, node})
	}
	for i := 0; i < sym.Param("N", 3); i++ {
		env, s := sym.Choose("env", k), name()
		_, had := find(env, s)
		var node ast.Node = &ast.Identifier{Name: "n"}
		if sym.Choose("node", 2) == 1 {
			node = nil
		}
		err := envs[env].Add(s, node)
		if had {
			sym.Assert(err == environment.ErrSymbolExists, "adding a name again fails")
			sym.Reach("again")
		} else {
			sym.Assert(err == nil, "adding a new name works")
			defs = append(defs, def{env, s, node})
			sym.Reach("new")
		}
		check(env, s)
	}
	for env := range envs {
		check(env, name())
		for _, d := range defs {
			check(env, d.name)
		}
	}
}
