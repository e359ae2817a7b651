package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

// genCodec writes the functions that decode a document into the structures of a
// package and back as encoding/json and yaml do by reflection: fields are found
// by their tags. pkg is the harness package that is to hold them.
func genCodec(dir, pkg, root string) ([]byte, error) {
	fset := token.NewFileSet()
	types := map[string]ast.Expr{}
	custom := map[string]bool{} // types with methods of their own
	name := ""
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, x := range ents {
		if !strings.HasSuffix(x.Name(), ".go") || strings.HasSuffix(x.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, x.Name()), nil, 0)
		if err != nil {
			return nil, err
		}
		name = f.Name.Name
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if t, ok := s.(*ast.TypeSpec); ok && t.TypeParams == nil {
						types[t.Name.Name] = t.Type
					}
				}
			case *ast.FuncDecl:
				switch d.Name.Name {
				case "UnmarshalJSON", "UnmarshalYAML", "UnmarshalText", "MarshalJSON", "MarshalYAML", "MarshalText":
					if d.Recv != nil {
						t := d.Recv.List[0].Type
						if p, ok := t.(*ast.StarExpr); ok {
							t = p.X
						}
						if id, ok := t.(*ast.Ident); ok {
							custom[id.Name] = true
						}
					}
				}
			}
		}
	}
	g := &codecGen{pkg: name, types: types, custom: custom, done: map[string]bool{}, todo: []string{root}}
	for len(g.todo) > 0 {
		t := g.todo[0]
		g.todo = g.todo[1:]
		if !g.done[t] {
			g.done[t] = true
			g.structure(t)
		}
	}
	mod := strings.TrimSuffix(zzMod, "/zzverif")
	rel, _ := filepath.Rel(repoDir, dir)
	src := fmt.Sprintf("package %s\n\nimport %s %q\n\nfunc init() {\ndecodeInto = func(f byte, d *doc, v any, e *error) bool { x, ok := v.(*%s.%s); if ok { dec%s(f, d, x, e) }; return ok }\nencodeFrom = func(f byte, v any) *doc { if x, ok := v.(*%s.%s); ok && x != nil { return enc%s(f, x) }; return nil }\n}\n%s",
		pkg, name, mod+"/"+filepath.ToSlash(rel), name, root, root, name, root, root, g.out.String())
	out, err := format.Source([]byte(src))
	if err != nil {
		return nil, fmt.Errorf("codec: %v\n%s", err, src)
	}
	return out, nil
}

type codecGen struct {
	pkg    string
	types  map[string]ast.Expr
	custom map[string]bool
	done   map[string]bool
	todo   []string
	out    bytes.Buffer
	n      int
}

type codecField struct {
	name, json, yaml string
	jomit, yomit     bool
	typ              ast.Expr
}

func (g *codecGen) structure(t string) {
	p := func(f string, a ...any) { fmt.Fprintf(&g.out, f, a...) }
	st, ok := g.types[t].(*ast.StructType)
	if !ok || g.custom[t] {
		p("func dec%s(f byte, d *doc, x *%s.%s, e *error) { unsupported() }\nfunc enc%s(f byte, x *%s.%s) *doc { unsupported(); return nil }\n", t, g.pkg, t, t, g.pkg, t)
		return
	}
	fs, odd := g.fields(st, "x.", true, true)
	p("func dec%s(f byte, d *doc, x *%s.%s, e *error) {\n", t, g.pkg, t)
	if odd {
		p("unsupported()\n")
	}
	p("if d.kind == null { return }\nif d.kind != object { mismatch(e); return }\nfor i, k := range d.keys {\nswitch field(f, k, []string{")
	for _, f := range fs {
		p("%q,", f.json)
	}
	p("}, []string{")
	for _, f := range fs {
		p("%q,", f.yaml)
	}
	p("}) {\n")
	for i, f := range fs {
		p("case %d:\n", i)
		g.decode(f.typ, f.name, "d.vals[i]")
	}
	p("}\n}\n}\n")
	p("func enc%s(f byte, x *%s.%s) *doc {\nd := &doc{kind: object}\n", t, g.pkg, t)
	if odd {
		p("unsupported()\n")
	}
	for _, f := range fs {
		p("{ v := %s\nd.put(f, %q, %q, %v, %v, v) }\n", g.encode(f.typ, f.name), f.json, f.yaml, f.jomit, f.yomit)
	}
	p("return d\n}\n")
}

// fields lists the keys of a structure and where their values go; those of
// structures set in line are among them. odd says that there is a tag option
// that is not understood.
func (g *codecGen) fields(st *ast.StructType, at string, js, ys bool) (fs []codecField, odd bool) {
	for _, f := range st.Fields.List {
		tag := ""
		if f.Tag != nil {
			tag, _ = strconv.Unquote(f.Tag.Value)
		}
		names := f.Names
		embedded := len(names) == 0
		if embedded {
			id, ok := f.Type.(*ast.Ident)
			if !ok {
				return nil, true
			}
			names = []*ast.Ident{id}
		}
		for _, n := range names {
			if !n.IsExported() {
				odd = odd || embedded
				continue
			}
			c := codecField{name: at + n.Name, typ: f.Type}
			jin, yin := false, false
			if js {
				key := reflect.StructTag(tag).Get("json")
				parts := strings.Split(key, ",")
				c.json = parts[0]
				jin = embedded && c.json == ""
				if c.json == "" {
					c.json = n.Name
				}
				if key == "-" || jin {
					c.json = ""
				}
				for _, o := range parts[1:] {
					c.jomit = c.jomit || o == "omitempty"
					odd = odd || o != "omitempty"
				}
			}
			if ys {
				key, ok := reflect.StructTag(tag).Lookup("yaml")
				if !ok && !strings.Contains(tag, ":") {
					key = tag
				}
				parts := strings.Split(key, ",")
				c.yaml = parts[0]
				if c.yaml == "" {
					c.yaml = strings.ToLower(n.Name)
				}
				for _, o := range parts[1:] {
					c.yomit = c.yomit || o == "omitempty"
					yin = yin || o == "inline"
					odd = odd || o != "omitempty" && o != "flow" && o != "inline"
				}
				if key == "-" || yin {
					c.yaml = ""
				}
			}
			if c.json != "" || c.yaml != "" {
				fs = append(fs, c)
			}
			if jin || yin {
				id, _ := f.Type.(*ast.Ident)
				if id == nil {
					return nil, true
				}
				in, ok := g.types[id.Name].(*ast.StructType)
				if !ok || g.custom[id.Name] {
					return nil, true
				}
				more, o := g.fields(in, c.name+".", jin, yin)
				fs, odd = append(fs, more...), odd || o
			}
		}
	}
	return fs, odd
}

func (g *codecGen) typeText(t ast.Expr) string {
	switch t := t.(type) {
	case *ast.Ident:
		if _, ok := g.types[t.Name]; ok {
			return g.pkg + "." + t.Name
		}
		return t.Name
	case *ast.StarExpr:
		return "*" + g.typeText(t.X)
	case *ast.ArrayType:
		if t.Len == nil {
			return "[]" + g.typeText(t.Elt)
		}
	case *ast.MapType:
		return "map[" + g.typeText(t.Key) + "]" + g.typeText(t.Value)
	case *ast.InterfaceType:
		return "any"
	}
	return ""
}

// decode writes the statements that set lv from the document dv.
func (g *codecGen) decode(t ast.Expr, lv, dv string) {
	p := func(f string, a ...any) { fmt.Fprintf(&g.out, f, a...) }
	g.n++
	n := g.n
	switch t := t.(type) {
	case *ast.Ident:
		if u, ok := g.types[t.Name]; ok {
			if _, st := u.(*ast.StructType); st {
				g.todo = append(g.todo, t.Name)
				p("dec%s(f, %s, &%s, e)\n", t.Name, dv, lv)
				return
			}
			if id, ok := u.(*ast.Ident); ok && !g.custom[t.Name] && id.Name == "string" {
				p("decString(f, %s, (*string)(&%s), e)\n", dv, lv)
				return
			}
			p("unsupported()\n")
			return
		}
		switch t.Name {
		case "string":
			p("decString(f, %s, &%s, e)\n", dv, lv)
		case "bool":
			p("decBool(%s, &%s, e)\n", dv, lv)
		case "any":
			p("%s = decAny(f, %s)\n", lv, dv)
		case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64":
			p("{ n, ok := decInt(%s, e)\nif ok { %s = %s(n) } }\n", dv, lv, t.Name)
		default:
			p("unsupported()\n")
		}
	case *ast.InterfaceType:
		p("%s = decAny(f, %s)\n", lv, dv)
	case *ast.StarExpr:
		p("if %s.kind == null { %s = nil } else {\nif %s == nil { %s = new(%s) }\n", dv, lv, lv, lv, g.typeText(t.X))
		g.decode(t.X, "(*"+lv+")", dv)
		p("}\n")
	case *ast.ArrayType:
		if t.Len != nil {
			p("unsupported()\n")
			return
		}
		p("switch %s.kind {\ncase null:\n%s = nil\ncase array:\ns%d := make(%s, len(%s.vals))\nfor i%d := range s%d {\n", dv, lv, n, g.typeText(t), dv, n, n)
		g.decode(t.Elt, fmt.Sprintf("s%d[i%d]", n, n), fmt.Sprintf("%s.vals[i%d]", dv, n))
		p("}\n%s = s%d\ndefault:\nmismatch(e)\n}\n", lv, n)
	case *ast.MapType:
		if k, ok := t.Key.(*ast.Ident); !ok || k.Name != "string" {
			p("unsupported()\n")
			return
		}
		p("switch %s.kind {\ncase null:\n%s = nil\ncase object:\nif %s == nil { %s = %s{} }\nfor i%d, k%d := range %s.keys {\nvar v%d %s\n", dv, lv, lv, lv, g.typeText(t), n, n, dv, n, g.typeText(t.Value))
		g.decode(t.Value, fmt.Sprintf("v%d", n), fmt.Sprintf("%s.vals[i%d]", dv, n))
		p("%s[k%d] = v%d\n}\ndefault:\nmismatch(e)\n}\n", lv, n, n)
	default:
		p("unsupported()\n")
	}
}

// encode is an expression for the document of a value.
func (g *codecGen) encode(t ast.Expr, v string) string {
	switch t := t.(type) {
	case *ast.Ident:
		if u, ok := g.types[t.Name]; ok {
			if _, st := u.(*ast.StructType); st {
				g.todo = append(g.todo, t.Name)
				return fmt.Sprintf("enc%s(f, &%s)", t.Name, v)
			}
			if id, ok := u.(*ast.Ident); ok && !g.custom[t.Name] && id.Name == "string" {
				return "encString(string(" + v + "))"
			}
			return "unsupportedDoc()"
		}
		switch t.Name {
		case "string":
			return "encString(" + v + ")"
		case "bool":
			return "encBool(" + v + ")"
		case "any":
			return "encAny(" + v + ")"
		case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64":
			return "encInt(int64(" + v + "))"
		}
	case *ast.InterfaceType:
		return "encAny(" + v + ")"
	case *ast.StarExpr:
		return fmt.Sprintf("func() *doc { p := %s; if p == nil { return &doc{} }; return %s }()", v, g.encode(t.X, "(*p)"))
	case *ast.ArrayType:
		if t.Len == nil {
			return fmt.Sprintf("func() *doc { s := %s; if s == nil { return &doc{} }; d := &doc{kind: array}; for i := range s { d.vals = append(d.vals, %s) }; return d }()", v, g.encode(t.Elt, "s[i]"))
		}
	case *ast.MapType:
		return fmt.Sprintf("func() *doc { m := %s; if m == nil { return &doc{} }; d := &doc{kind: object}; for k, v := range m { d.keys, d.vals = append(d.keys, k), append(d.vals, %s) }; return d }()", v, g.encode(t.Value, "v"))
	}
	return "unsupportedDoc()"
}
