// Package hgen checks the code generator.
package hgen

import (
	"bytes"
	gast "go/ast"
	"go/format"
	goparser "go/parser"
	gotoken "go/token"
	"io"
	"strconv"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/lexer"
	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"
	"github.com/HannesKimara/cddlc/zzverif/hparse"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// meaning tells if the meaning of the output is checked (G02) rather than its form (G01).
func meaning() bool { return sym.Param("MEANING", 0) == 1 }

// form asserts a requirement on the form of the output.
func form(ok bool, msg string) {
	if meaning() {
		if !ok {
			sym.Skip()
		}
		return
	}
	sym.Assert(ok, msg)
}

var written []any

// Node stands in for go/format.Node when running symbolically.
func Node(w io.Writer, fset *gotoken.FileSet, node any) error {
	written = append(written, node)
	return nil
}

var _ = format.Node

// generate runs the generator. Symbolically the result is the syntax tree it
// hands to the formatter; natively it is the tree of the text it writes.
// It is nil if the generator refuses the schema, which it must not if that is supported.
func generate(cddl *ast.CDDL, pkg string, must bool) *gast.File {
	written = nil
	var file *gast.File
	var out bytes.Buffer
	var err error
	msg := sym.Try(func() {
		g := gogen.NewGenerator(pkg)
		g.Visit(cddl)
		err = g.String(&out)
	})
	if !must && (msg != "" || err != nil) {
		sym.Reach("refused")
		return nil
	}
	form(msg == "", "a supported schema is generated: "+msg)
	form(err == nil, "a supported schema is generated")
	if sym.Symbolic() {
		form(len(written) == 1, "one file is written")
		f, ok := written[0].(*gast.File)
		if !ok { // a fragment of another type
			form(false, "a file is written")
		}
		file = f
	} else {
		f, err := goparser.ParseFile(gotoken.NewFileSet(), "x.go", out.Bytes(), 0)
		if err != nil {
			form(false, "the output is Go")
		}
		file = f
	}
	form(file.Name != nil && file.Name.Name == pkg, "the output is in the package asked for")
	return file
}

func isASCIILetter(c byte) bool {
	return sym.Or(sym.And(c >= 'a', c <= 'z'), sym.Or(sym.And(c >= 'A', c <= 'Z'), c == '_'))
}

var keywords = []string{"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if", "import",
	"interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var"}

func goName(s string) {
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		x := isASCIILetter(c)
		if i > 0 {
			x = sym.Or(x, sym.And(c >= '0', c <= '9'))
		}
		ok = sym.And(ok, x)
	}
	for _, k := range keywords {
		if len(k) == len(s) {
			ok = sym.And(ok, s != k)
		}
	}
	form(ok, "names are identifiers and no keywords")
}

// letters of a name without separators, in lower case.
func letters(s string) (out []byte) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if isASCIILetter(c) && c != '_' || c >= '0' && c <= '9' {
			if c >= 'A' && c <= 'Z' {
				c += 'a' - 'A'
			}
			out = append(out, c)
		}
	}
	return
}

func named(id *gast.Ident, name string) {
	form(id != nil, "there is a name")
	goName(id.Name)
	if !meaning() {
		return
	}
	if name[0] >= '0' && name[0] <= '9' { // integer keys
		n := len(id.Name) - len(name)
		sym.Assert(n > 0 && id.Name[n:] == name, "names correspond to those of the schema")
		return
	}
	sym.Assert(string(letters(id.Name)) == string(letters(name)), "names correspond to those of the schema")
}

func isIdent(x gast.Expr, names ...string) {
	id, ok := x.(*gast.Ident)
	sym.Assert(ok, "the type is a name")
	ok = false
	for _, n := range names {
		ok = sym.Or(ok, id.Name == n)
	}
	sym.Assert(ok, "predefined types are mapped to their counterparts")
}

// supported tells if the generator supports a type; top if it is that of a rule.
func supported(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.TstrType, *ast.BytesType, *ast.BstrType, *ast.IntegerType, *ast.NegativeIntegerType, *ast.UintType, *ast.FloatType, *ast.BooleanType, *ast.NullType:
		return true
	case *ast.Identifier:
		return hparse.IsName(x.Name)
	case *ast.SizeOperatorControl:
		_, ok := x.Size.(*ast.IntegerLiteral)
		return ok
	case *ast.Group:
		return entries(x.Entries)
	case *ast.Array:
		return entries(x.Rules)
	case *ast.NMOccurrence:
		switch x.Item.(type) {
		case *ast.Entry, *ast.NMOccurrence, *ast.Optional:
			return false
		}
		return supported(x.Item)
	}
	return false
}

func entries(es []ast.GroupEntry) bool {
	for _, e := range es {
		var item ast.Node
		switch o := e.(type) {
		case *ast.Optional:
			item = o.Item
		case *ast.NMOccurrence:
			item = o.Item
		}
		if item != nil {
			x, ok := item.(*ast.Entry)
			if !ok {
				return false
			}
			e = x
		}
		switch x := e.(type) {
		case *ast.Identifier:
			if !hparse.IsName(x.Name) {
				return false
			}
		case *ast.Entry:
			if !supported(x.Value) {
				return false
			}
			if c := x.Name.Name[0]; !(c >= '0' && c <= '9') && !hparse.IsName(x.Name.Name) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func literal(n ast.Node) bool {
	switch n.(type) {
	case *ast.IntegerLiteral, *ast.FloatLiteral, *ast.TextLiteral, *ast.BooleanLiteral:
		return true
	}
	return false
}

func typed(x gast.Expr, n ast.Node) {
	switch n := n.(type) {
	case *ast.TstrType:
		isIdent(x, "string")
	case *ast.BytesType, *ast.BstrType:
		a, ok := x.(*gast.ArrayType)
		sym.Assert(ok && a.Len == nil, "byte strings are slices")
		isIdent(a.Elt, "byte", "uint8")
	case *ast.IntegerType, *ast.NegativeIntegerType:
		isIdent(x, "int", "int64")
	case *ast.UintType:
		isIdent(x, "uint", "uint64")
	case *ast.FloatType:
		isIdent(x, "float32", "float64")
	case *ast.BooleanType:
		isIdent(x, "bool")
	case *ast.NullType:
		if id, ok := x.(*gast.Ident); ok {
			goName(id.Name)
			sym.Assert(id.Name != "nil", "a type is not a value")
		}
	case *ast.Identifier:
		id, ok := x.(*gast.Ident)
		sym.Assert(ok, "a name is mapped to a name")
		named(id, n.Name)
	case *ast.SizeOperatorControl:
		typed(x, n.Type)
	case *ast.NMOccurrence:
		a, ok := x.(*gast.ArrayType)
		sym.Assert(ok && a.Len == nil, "repeated entries are slices")
		typed(a.Elt, n.Item)
		sym.Reach("slice")
	case *ast.Group:
		structure(x, n.Entries, false)
	case *ast.Array:
		structure(x, n.Rules, true)
	default:
		sym.Fail("unexpected type")
	}
}

func structure(x gast.Expr, es []ast.GroupEntry, array bool) {
	st, ok := x.(*gast.StructType)
	sym.Assert(ok && st.Fields != nil, "groups and arrays are structs")
	fs := st.Fields.List
	if len(fs) > 0 && len(fs[0].Names) == 1 && fs[0].Names[0].Name == "_" {
		sym.Assert(array, "only arrays are marked to be arrays")
		tag(fs[0].Tag)
		fs = fs[1:]
	} else {
		sym.Assert(!array, "arrays are marked to be arrays")
	}
	sym.Assert(len(fs) == len(es), "there is one field for each entry")
	for i, f := range fs {
		e, opt, typ := es[i], false, f.Type
		switch o := e.(type) {
		case *ast.Optional:
			e, opt = o.Item.(ast.GroupEntry), true
		case *ast.NMOccurrence:
			e = o.Item.(ast.GroupEntry)
			a, ok := typ.(*gast.ArrayType)
			sym.Assert(ok && a.Len == nil, "repeated entries are slices")
			typ = a.Elt
			sym.Reach("repeated")
		}
		omit := tag(f.Tag)
		sym.Assert(omit == opt, "exactly the optional entries are omitted when empty")
		switch e := e.(type) {
		case *ast.Entry:
			sym.Assert(len(f.Names) == 1, "a field has a name")
			named(f.Names[0], e.Name.Name)
			typed(typ, e.Value)
			sym.Reach("field")
		case *ast.Identifier:
			sym.Assert(len(f.Names) == 0, "an entry without a key is embedded")
			typed(typ, e)
			sym.Reach("embedded")
		}
	}
}

// tag checks a field's tag and tells if it has the option omitempty.
func tag(l *gast.BasicLit) bool {
	if l == nil {
		return false
	}
	form(l.Kind == gotoken.STRING, "a tag is a text")
	s, err := strconv.Unquote(l.Value)
	form(err == nil, "a tag is a text")
	omit := false
	for i := 0; i+len("omitempty") <= len(s); i++ {
		if s[i:i+len("omitempty")] == "omitempty" {
			omit = true
		}
	}
	return omit
}

func digitsOnly(s string) bool {
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, sym.And(s[i] >= '0', s[i] <= '9'))
	}
	return ok
}

func valued(x gast.Expr, n ast.Node) {
	if b, ok := n.(*ast.BooleanLiteral); ok {
		id, ok := x.(*gast.Ident)
		sym.Assert(ok, "truth values are named")
		if b.Bool {
			sym.Assert(id.Name == "true", "literals keep their values")
		} else {
			sym.Assert(id.Name == "false", "literals keep their values")
		}
		sym.Reach("bool")
		return
	}
	l, ok := x.(*gast.BasicLit)
	sym.Assert(ok, "literals are literals")
	switch n := n.(type) {
	case *ast.IntegerLiteral:
		sym.Assert(l.Kind == gotoken.INT && digitsOnly(l.Value) && (len(l.Value) == 1 || l.Value[0] != '0'), "integers are integer literals")
		v := int64(0)
		for i := 0; i < len(l.Value); i++ {
			v = v*10 + int64(l.Value[i]-'0')
		}
		sym.Assert(v == n.Literal, "literals keep their values")
		sym.Reach("int")
	case *ast.FloatLiteral:
		sym.Assert(l.Kind == gotoken.FLOAT, "numbers with a fraction are such literals")
		v, err := strconv.ParseFloat(l.Value, 64)
		sym.Assert(err == nil && v == n.Literal, "literals keep their values")
		point := false
		for i := 0; i < len(l.Value); i++ {
			point = point || l.Value[i] == '.' || l.Value[i] == 'e'
		}
		sym.Assert(point, "numbers with a fraction are such literals")
		sym.Reach("float")
	case *ast.TextLiteral:
		sym.Assert(l.Kind == gotoken.STRING, "texts are text literals")
		v, err := strconv.Unquote(l.Value)
		sym.Assert(err == nil && v == n.Literal, "literals keep their values")
		sym.Reach("text")
	}
}

// wellFormed checks a type that the generator was not asked for.
func wellFormed(x gast.Expr) {
	switch x := x.(type) {
	case *gast.Ident:
		goName(x.Name)
		form(x.Name != "true" && x.Name != "false" && x.Name != "nil", "a type is not a value")
	case *gast.StarExpr:
		wellFormed(x.X)
	case *gast.ArrayType:
		wellFormed(x.Elt)
	case *gast.MapType:
		wellFormed(x.Key)
		wellFormed(x.Value)
	case *gast.InterfaceType:
		form(x.Methods == nil || len(x.Methods.List) == 0, "interfaces have no methods")
	case *gast.SelectorExpr:
		wellFormed(x.X)
		goName(x.Sel.Name)
	case *gast.StructType:
		form(x.Fields != nil, "a struct has fields")
		for _, f := range x.Fields.List {
			for _, n := range f.Names {
				goName(n.Name)
			}
			if len(f.Names) == 0 {
				t := f.Type
				if p, ok := t.(*gast.StarExpr); ok {
					t = p.X
				}
				_, ok := t.(*gast.Ident)
				form(ok, "only names are embedded")
			}
			wellFormed(f.Type)
			tag(f.Tag)
		}
	default:
		form(false, "types are types")
	}
}

// calls counts the calls of functions of packages in a method.
func calls(f *gast.FuncDecl) (n int) {
	for _, s := range f.Body.List {
		switch s := s.(type) {
		case *gast.ReturnStmt:
		case *gast.ExprStmt:
			call, ok := s.X.(*gast.CallExpr)
			form(ok, "statements are calls")
			_, ok = call.Fun.(*gast.SelectorExpr)
			form(ok, "statements are calls of functions of packages")
			n++
		default:
			sym.Reach("other statement")
		}
	}
	return
}

// wellValued checks a literal without comparing it with the schema's.
func wellValued(x gast.Expr) {
	l, ok := x.(*gast.BasicLit)
	if !ok {
		id, ok := x.(*gast.Ident)
		form(ok && (id.Name == "true" || id.Name == "false"), "literals are literals")
		return
	}
	switch l.Kind {
	case gotoken.INT:
		form(digitsOnly(l.Value) && (len(l.Value) == 1 || l.Value[0] != '0'), "literals are literals")
		sym.Reach("int")
	case gotoken.FLOAT:
		_, err := strconv.ParseFloat(l.Value, 64)
		form(err == nil, "literals are literals")
		sym.Reach("float")
	case gotoken.STRING:
		_, err := strconv.Unquote(l.Value)
		form(err == nil, "literals are literals")
		sym.Reach("text")
	default:
		form(false, "literals are literals")
	}
}

func check(cddl *ast.CDDL, file *gast.File) {
	ds := file.Decls
	imports, used := 0, 0
	if len(ds) > 0 {
		if g, ok := ds[0].(*gast.GenDecl); ok && g.Tok == gotoken.IMPORT {
			imports = len(g.Specs)
			for i, s := range g.Specs {
				im, ok := s.(*gast.ImportSpec)
				form(ok, "imports are imports")
				for _, t := range g.Specs[:i] {
					form(t.(*gast.ImportSpec).Path.Value != im.Path.Value, "nothing is imported twice")
				}
			}
			ds = ds[1:]
			sym.Reach("import")
		}
	}
	for _, n := range cddl.Rules {
		r, ok := n.(*ast.Rule)
		if !ok {
			continue
		}
		form(len(ds) > 0, "every rule has a declaration")
		g, ok := ds[0].(*gast.GenDecl)
		form(ok && len(g.Specs) == 1, "every rule has one declaration")
		ds = ds[1:]
		if literal(r.Value) {
			sym.Assert(g.Tok == gotoken.VAR, "a literal is a variable")
			v, ok := g.Specs[0].(*gast.ValueSpec)
			sym.Assert(ok && len(v.Names) == 1 && len(v.Values) == 1, "a literal is a variable")
			declared(v.Names[0], r)
			if meaning() {
				valued(v.Values[0], r.Value)
			} else {
				wellValued(v.Values[0])
			}
			continue
		}
		sym.Assert(g.Tok == gotoken.TYPE, "a rule is a type")
		t, ok := g.Specs[0].(*gast.TypeSpec)
		sym.Assert(ok, "a rule is a type")
		declared(t.Name, r)
		if meaning() && supported(r.Value) {
			typed(t.Type, r.Value)
		} else if !meaning() {
			wellFormed(t.Type)
		}
		form(len(ds) > 0, "every type has a method")
		f, ok := ds[0].(*gast.FuncDecl)
		form(ok && f.Name != nil && f.Name.Name == "Valid" && f.Recv != nil && len(f.Recv.List) == 1 && f.Body != nil, "every type has a method")
		ds = ds[1:]
		recv := f.Recv.List[0]
		if len(recv.Names) > 0 {
			goName(recv.Names[0].Name)
		}
		x := recv.Type
		if s, ok := x.(*gast.StarExpr); ok {
			x = s.X
		}
		id, ok := x.(*gast.Ident)
		form(ok && id.Name == t.Name.Name, "the method is that of its type")
		form(f.Type != nil && f.Type.Results != nil && len(f.Type.Results.List) == 1, "the method returns an error")
		isIdent(f.Type.Results.List[0].Type, "error")
		used += calls(f)
		sym.Reach("type")
	}
	form(len(ds) == 0, "nothing else is declared")
	form((imports > 0) == (used > 0), "packages are imported if and only if their functions are called")
}

// declared checks the name that a rule declares.
func declared(id *gast.Ident, r *ast.Rule) {
	if hparse.IsName(r.Name.Name) {
		named(id, r.Name.Name)
	} else {
		goName(id.Name)
	}
}

func generated(l *lexer.Lexer) {
	cddl, errs := hparse.Parse(l)
	sym.Observe("errors", len(errs))
	if len(errs) > 0 {
		sym.Skip()
	}
	must := true
	for _, n := range cddl.Rules {
		if r, ok := n.(*ast.Rule); ok {
			must = must && (supported(r.Value) || literal(r.Value)) && hparse.IsName(r.Name.Name)
		}
	}
	if file := generate(cddl, "lib", must); file != nil {
		check(cddl, file)
	}
}

var schemas = []string{
	"%n = %i",
	"%n = [ %n : tstr , ? %n : %n ] | x = %n",
	"%n = ( %k : ( %n : uint ) , l : uint .size %i )",
	"%n = float | x = %i y = %n",
	"%n = true | %n = null",
	"x = * %n | %n = bstr .size %i",
	"x = uint .size %i | y = bytes .size %i | z = bytes",
	"a = ( %n : %i )",
	"a = [ * %n : tstr , ? %k : %n , %n ] %n = int",
}

// quoted are schemas with texts.
var quoted = []string{
	"x = %t",
	"y = %t | z = %t",
	"k = ( k : %t )",
}

// Values: schemas with symbolic names and values.
func Values() {
	generated(hparse.TemplateLexer(schemas))
}

func long(n int) []string {
	list, nest := hparse.List, hparse.Nest
	rules := list(n, " | ", "r@ = int", "s@ = [ k : tstr , ? l : r0 ]", "t@ = 5", "u@ = uint .size 5", "v@ = ( k : s1 , * m : bool )", "w@ = \"t\"", "x@ = bytes .size 5")
	return []string{
		rules + " | %n = %i",
		"%n = [ k : tstr ] | " + rules + " | y = %n",
		"x = [ " + list(n, " , ", "k@ : int", "? l@ : tstr", "* m@ : bytes", "n@ : [ k : uint ]", "o@ : x") + " , z : %n ] | %n = int",
		"x = ( %n : int , " + list(n, " , ", "k@ : int", "? l@ : x", "* m@ : bytes", "n@ : ( k : uint , * l : float )") + " )",
		"x = " + nest(n/2, "( k : [ l :", "] )", "%n") + " %n = tstr",
		"x = [ k : " + nest(n/2, "[ * k :", "]", "x") + " , %n : tstr ]",
		"%N = tstr | x = ( %N : %n , k : int ) | %n = ( %N : bool )",
	}
}

// Long: long schemas with a symbolic name or number in them.
func Long() { generated(hparse.LongLexer(long)) }

// nameds are schemas with one symbolic name in each place.
var nameds = []string{
	"%n = tstr",
	"%n = %i",
	"x = ( %n : [ k : uint ] )",
	"x = [ ? %n : float , * k : x ]",
	"x = ( k : bool , * %n : int )",
	"x = ( k : ( ? m : x , %n : bytes ) )",
}

// Names: schemas with symbolic names.
func Names() { generated(hparse.TemplateLexer(nameds)) }

// Texts: schemas with symbolic texts.
func Texts() { generated(hparse.TemplateLexer(quoted[:sym.Param("UPTO", 1)])) }

var shapes = [][]string{
	{"x", "=", "%v", "y", "=", "%v", "a", "=", "%t"},
	{"x", "=", "(", "k", ":", "%t", ",", "%p", "m", ":", "%t", ")", "a", "=", "%v"},
	{"x", "=", "[", "%p", "k", ":", "%t", "m", ":", "[", "%p", "n", ":", "%t", "]", "]", "a", "=", "tstr"},
	{"x", "=", "(", "%e", "%e", "%e", ")", "a", "=", "tstr"},
	{"x", "=", "%p", "%t", "%x", "%v", "a", "=", "tstr"},
	{"x", "=", "[", "%e", "%e", "%e", "%e", "]", "a", "=", "tstr"},
	{"x", "=", "(", "k", ":", "(", "%e", "%e", "%e", ")", ",", "l", ":", "*", "%t", ")", "a", "=", "%v"},
	{"x", "=", "[", "k", ":", "%q", "[", "l", ":", "%q", "%t", "]", ",", "%q", "m", ":", "%t", "]", "a", "=", "tstr"},
	{"x", "=", "{", "%p", "k", ":", "%t", "}", "a", "=", "[", "%v", "]"},
	{"x", "=", "[", "%p", "k", ":", "(", "%p", "a", ",", "%p", "l", ":", "%v", ")", "]", "y", "%s", "%v", "a", "=", "tstr"},
}

// Shapes: schemas of symbolic tokens.
func Shapes() {
	types := []string{"tstr", "text", "bytes", "bstr", "uint", "int", "nint", "float", "float16", "float32", "float64", "bool", "null", "nil", "a"}
	alphabets := map[string][]string{
		"%t": types,
		"%v": append(append([]string(nil), types...), "true", "false", "5", "0x1F", "6.2", "7.25", "6.0", "\"t\"", "\"\"", "\"a\\b\""),
		"%p": {"?", "*", "a", ",", "~"},
		"%q": {"*", "+", "?", "&"},
		"%x": {".size", "/", ",", ".."},
		"%s": {"=", "/=", "//="},
		"%e": {"k", "l", "a", ":", ",", "tstr", "uint", "?", "*", "5", "[", "]"},
	}
	generated(hparse.Mixed(shapes[sym.Param("T", 0)], alphabets))
}

// Numbers: schemas with numbers of many digits.
func Numbers() {
	generated(hparse.TemplateLexer([]string{"x = %h", "x = %l", "x = [ k : uint ] y = %h"}))
}
