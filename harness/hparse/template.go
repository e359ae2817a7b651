package hparse

import (
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// Templates are sources whose tokens are fixed and whose names, numbers, texts
// and comments are symbolic; the real lexer reads them. A word is a token of
// the alphabet or one of
//
//	%i  an integer of W digits       %u  one of 20 digits, near 2^64
//	%f  a number with a fraction     %l  one of 19 digits, near 2^63
//	%g  a tag and its number         %G  a tag with a number of 20 digits
//	%n  a name of K bytes            %t  a text of K bytes
//	%h  a number with many digits, the last two of any value
//	%N, %T, %C  the same with much before these bytes
//	%c  a comment of K bytes         %k  an integer of KW digits, for keys
//
// and a word after an underscore follows the token before without a blank, one
// after a bar starts a line.

// valued are schemas; every name used in them is defined.
var valued = []string{
	"a = %i",
	"a = %f",
	"a = %t",
	"a = %i / %t / %f / a",
	"a = # _%i",
	"a = # _%g",
	"a = # _%g _( %t )",
	"a = # _%i _( a )",
	"a = %i .. %i",
	"a = %f ... %f",
	"a = b .. %i | b = %i",
	"a = %f ... b b = %f",
	"a = [ %i _* tstr , %i _* _%i %t , * _%i a , + %i ]",
	"a = [ %i _* _%i k : %i / %f , ? %t ]",
	"a = { %k : %i , %n : %t , b => %f } b = tstr",
	"a = ( %n : tstr // %k => %n : ) ",
	"a = ( %n : tstr // %k => %f )",
	"a = [ tstr .size %i , tstr .regexp %t ]",
	"a = [ uint .lt %i , float .ge %f , b .bits a ] b = uint",
	"%n = %i | $b /= %t | $b //= %f",
	"a = [ ? $x , ~ a , & a , & ( %n : %i ) ]",
	"a = [ %i , %i , a , a , %t %t ]",
	"a = { k : { l : [ # _%g _( %n : %i ) ] } }",
	"a = { k : { l : [ # _%g _( %i / %t ) ] } }",
	"a = { true : %i }",
}

// noted are schemas with comments.
var noted = []string{
	"%c a = %i %c %c %c b = %t",
	"a = [ %c | %i , %c | %t %c ] %c | b = tstr",
	"a = { %c | k : %i , %c | l : %t , %c } | %c b = tstr",
	"a = { k : %i } %c | %c %c b = tstr",
}

var words map[string]entry

func wordOf(s string) entry {
	if words == nil {
		words = map[string]entry{}
		for _, x := range everything {
			words[x.text] = x
		}
	}
	if x, ok := words[s]; ok {
		return x
	}
	if s[0] == ';' {
		return entry{tok: token.COMMENT, lit: s[1:], text: s}
	}
	if digit(s[0]) {
		panic("a number without a value: " + s)
	}
	for i := 0; i < len(s); i++ {
		if !letter(s[i]) && !digit(s[i]) && s[i] != '%' {
			panic("no word: " + s)
		}
	}
	return e(token.IDENT, s)
}

func letter(c byte) bool {
	return sym.Or(sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z')), sym.Or(c == '$', sym.Or(c == '@', c == '_')))
}

func digit(c byte) bool { return sym.And(c >= '0', c <= '9') }

// symName is a name of k symbolic bytes that is not predefined.
func symName(k int) string {
	b := sym.Bytes("name", k)
	for i, c := range b {
		ok := letter(c)
		if i > 0 {
			ok = sym.Or(ok, digit(c))
			if i < k-1 {
				ok = sym.Or(ok, c == '-')
			}
		}
		sym.Assume(ok)
	}
	s := string(b)
	for _, x := range types {
		if len(x.text) == k {
			sym.Assume(s != x.text)
		}
	}
	if k == 3 {
		sym.Assume(s != "any")
	}
	return s
}

// symDigits is a string of n symbolic digits after a fixed beginning.
func symDigits(pre string, n int) (string, uint64) {
	b := append([]byte(pre), sym.Bytes("digit", n)...)
	v := uint64(0)
	for i, c := range b {
		if i >= len(pre) {
			sym.Assume(digit(c))
		}
		if i == 0 && len(b) > 1 {
			sym.Assume(c != '0')
		}
		v = v*10 + uint64(c-'0')
	}
	return string(b), v
}

// fill appends the tokens of a template.
func (s *stream) fill(t string) {
	s.real = true
	w, f, k := sym.Param("W", 2), sym.Param("F", 2), sym.Param("K", 1)
	wide := sym.Param("WIDE", 0) == 1 // texts and comments beyond ASCII
	line := false
	for _, word := range strings.Fields(t) {
		if word == "|" {
			line = true
			continue
		}
		glue := word[0] == '_'
		if glue {
			word = word[1:]
		}
		x := wordOf(word)
		v := x.value()
		if x.tok == token.INT {
			v.major = uint64(v.ival)
		}
		if len(word) == 2 && word[0] == '%' {
			v = value{}
			switch word[1] {
			case 'i', 'u', 'l', 'k':
				x.tok = token.INT
				switch word[1] {
				case 'i':
					x.text, v.major = symDigits("", w)
				case 'k':
					x.text, v.major = symDigits("", sym.Param("KW", 2))
				case 'u':
					x.text, v.major = symDigits("184467440737095516", 2)
				case 'l':
					x.text, v.major = symDigits("92233720368547758", 2)
				}
				v.ival = int64(v.major)
			case 'f':
				x.tok = token.FLOAT
				a, n := symDigits("", sym.Param("FW", 2))
				sym.Assume(a[0] != '0')
				b := sym.Bytes("digit", f)
				scale := 1.0
				for _, c := range b {
					sym.Assume(digit(c))
					n = n*10 + uint64(c-'0')
					scale *= 10
				}
				x.text = a + "." + string(b)
				v.fval = float64(n) / scale
			case 'h':
				x.tok = token.FLOAT
				pre := []string{"0.0000000000000", "9007199254740992.0", "0.1000000000000000", "123456789.123456", "17976931348623157000000."}[sym.Choose("beginning", 5)]
				d := sym.Bytes("digit", 2)
				sym.Assume(sym.And(digit(d[0]), digit(d[1])))
				x.text = sym.ConcStr(pre + string(d))
				v.fval, _ = strconv.ParseFloat(x.text, 64)
			case 'g', 'G':
				x.tok = token.FLOAT
				var a, b string
				a, v.major = symDigits("", 1)
				if word[1] == 'g' {
					b, v.number = symDigits("", f)
				} else {
					b, v.number = symDigits("184467440737095516", 2)
				}
				x.text = a + "." + b
			case 'n':
				x.tok, x.text = token.IDENT, symName(k)
			case 'N':
				x.tok, x.text = token.IDENT, strings.Repeat("a-name", sym.Param("LONG", 1))+symName(k)
			case 't', 'T':
				x.tok = token.TEXT_LITERAL
				b := sym.Bytes("text", k)
				for _, c := range b {
					sym.Assume(sym.And(sym.Or(c < 0x80, wide), sym.And(c != '"', c != '\n')))
				}
				x.text = string(b)
				if word[1] == 'T' {
					x.text = strings.Repeat("; a text ", sym.Param("LONG", 1)) + x.text
				}
			case 'c', 'C':
				x.tok = token.COMMENT
				b := sym.Bytes("comment", k)
				for _, c := range b {
					sym.Assume(sym.And(sym.Or(c < 0x80, wide), c != '\n'))
				}
				x.text = string(b)
				if word[1] == 'C' {
					x.text = strings.Repeat("; a \"note ", sym.Param("LONG", 1)) + x.text
				}
			}
			x.lit = x.text
			switch x.tok {
			case token.TEXT_LITERAL:
				x.text = "\"" + x.text + "\""
			case token.COMMENT:
				x.text = ";" + x.text
			}
			v.dec = x.lit
		}
		s.put1(x, v, line, glue)
		line = x.tok == token.COMMENT
	}
	s.endFill()
}

// put1 appends a token at the end of the text.
func (s *stream) put1(x entry, v value, line, glue bool) {
	if len(s.tok) > 0 {
		switch {
		case line:
			s.newline()
		case !glue:
			s.src = append(s.src, ' ')
		}
	}
	p := token.Position{Offset: len(s.src), Line: s.lines + 1, Column: len(s.src) - s.lineAt + 1}
	s.tok = append(s.tok, x.tok)
	s.lit = append(s.lit, x.lit)
	s.text = append(s.text, x.text)
	s.name = append(s.name, v.name)
	s.dec = append(s.dec, v.dec)
	s.ival = append(s.ival, v.ival)
	s.fval = append(s.fval, v.fval)
	s.major = append(s.major, v.major)
	s.number = append(s.number, v.number)
	s.nl = append(s.nl, line)
	s.glue = append(s.glue, glue)
	s.pos = append(s.pos, p)
	s.src = append(s.src, x.text...)
}

func (s *stream) newline() {
	s.src = append(s.src, '\n')
	s.lines++
	s.lineAt = len(s.src)
}

func (s *stream) endFill() {
	s.newline()
	s.eof = token.Position{Offset: len(s.src), Line: s.lines + 1, Column: 1}
}

// template builds a source from one of the templates.
func template(ts []string) *stream {
	s := &stream{}
	s.fill(ts[sym.Choose("template", len(ts))])
	return s
}

// RepresentedValues: the tree has the values of the source (P02).
func RepresentedValues() {
	s := template(templates(valued, longValued))
	cddl, errs := parser.NewParser(s.lexer()).ParseFile()
	sym.Observe("errors", len(errs))
	if len(errs) > 0 {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	w := &writer{s: s}
	w.root(cddl)
}

// WellFormedValues: schemas are accepted whatever their values are (P03).
func WellFormedValues() {
	s := template(templates(valued, longValued))
	r := newRef(s)
	r.schema()
	sym.Assume(r.defined())
	cddl, errs := parser.NewParser(s.lexer()).ParseFile()
	sym.Observe("errors", len(errs))
	if len(errs) > 0 {
		sym.Fail("a well-formed schema is accepted")
	}
	sym.Reach("accepted")
	r.matches(cddl)
}

// CommentedValues: comments are comments whatever they say (P09).
func CommentedValues() {
	commented(template(templates(noted, longNoted)))
}

// uses are the templates of sources that use names, all of which are symbolic
// except those of rules named x and y, which nothing refers to.
var uses = []string{
	"%n = %i | x = %n",
	"x = %n | %n = %i",
	"x = [ %n , ? %n ] | %n = tstr",
	"x = { %n : %n , %n => tstr } %n = uint",
	"x = %n / int / %n | %n /= tstr",
	"x = ( ~ %n // & %n ) %n //= ( int )",
	"x = # _6.2 _( %n ) %n = 5",
	"x = uint .bits %n y = tstr .regexp %n %n = %t",
	"x = uint .size %n y = uint .lt %n %n = 5",
	"x = { k : [ + %n ] } %n = [ %n ]",
	"x = [ %t , 5 : %n ] %n = ( k : tstr )",
	"%c %n = %n %c y = [ %c | %n %c ]",
	"%n = 5 | %n /= %n | %n //= 6.2",
}

// broken are the ends of sources that are not schemas.
var broken = []string{
	"| ]",
	"| 5 = tstr",
	"| zzzzzzz = ]",
	"| zzzzzzz tstr",
	"| zzzzzzz = 5 .. 5 ..",
}

// Named: a use is reported exactly if no rule defines its name (P04).
func Named() {
	s := template(templates(uses, longUses))
	r := newRef(s)
	r.comm = 1 << cComment
	r.schema()
	for j := range r.rules { // redefinitions are P05's
		for i := 0; i < j; i++ {
			x, y := r.rules[i], r.rules[j]
			sym.Assume(sym.Or(s.lit[x.name] != s.lit[y.name], s.tok[y.op] != token.ASSIGN))
		}
	}
	tail := -1
	if sym.Param("BROKEN", 0) == 1 { // what follows the rules is no rule
		tail = len(s.tok)
		s.fill(broken[sym.Choose("tail", len(broken))])
	}
	cddl, all := parser.NewParser(s.lexer()).ParseFile()
	sym.Observe("errors", len(all))
	sym.Observe("rules", len(cddl.Rules))
	errs := all
	if tail >= 0 {
		errs = nil
		for _, err := range all {
			if sym.Conc(err.Start().Offset) < sym.Conc(s.pos[tail].Offset) {
				errs = append(errs, err)
			}
		}
		sym.Assert(len(errs) < len(all), "what is no rule is reported")
	}
	k := 0
	for _, i := range r.uses {
		def := s.lit[i][0] == '$'
		for _, x := range r.rules {
			def = sym.Or(def, s.lit[x.name] == s.lit[i])
		}
		reported := k < len(errs)
		if reported {
			reported = sym.Conc(pick(samePos(errs[k].Start(), s.pos[i]), 1, 0)) == 1
		}
		sym.Assert(def != reported, "a use is reported exactly if its name is not defined")
		if reported {
			sym.Assert(strings.Contains(errs[k].Error(), s.lit[i]), "the report names the name")
			k++
			sym.Reach("undefined")
		} else {
			sym.Reach("defined")
		}
	}
	sym.Assert(k == len(errs), "nothing else is reported")
}

// definitions are the templates of sources that define symbolic names.
var definitions = []string{
	"%n = %i | %n = tstr",
	"%n = %i %n = tstr | %n = %t",
	"%n /= %i %n = tstr %n //= %f",
	"%n = %n | %n = %n",
	"%n = [ %n : %i ] | %n = { %n : tstr }",
	"%n = ( %n : %i ) %c %n = ( %n : %i ) %c %n = %i %c",
}

// Redefined: a definition is reported exactly if its name has one (P05).
func Redefined() {
	s := template(templates(definitions, longDefinitions))
	r := newRef(s)
	r.comm = 1 << cComment
	r.schema()
	for _, i := range r.uses { // the others are P04's
		def := s.lit[i][0] == '$'
		for _, x := range r.rules {
			def = sym.Or(def, s.lit[x.name] == s.lit[i])
		}
		sym.Assume(def)
	}
	env := environment.NewEnvironment()
	cddl, errs := parser.NewParser(s.lexer(), parser.WithEnv(env)).ParseFile()
	sym.Observe("errors", len(errs))
	var rules []*ast.Rule
	for _, n := range cddl.Rules {
		if x, ok := n.(*ast.Rule); ok {
			rules = append(rules, x)
		}
	}
	sym.Assert(len(rules) == len(r.rules), "every definition is in the tree")
	k := 0
	for j, y := range r.rules {
		defined := false
		for _, x := range r.rules[:j] {
			defined = sym.Or(defined, s.lit[x.name] == s.lit[y.name])
		}
		again := sym.And(defined, s.tok[y.op] == token.ASSIGN)
		reported := k < len(errs)
		if reported {
			reported = sym.Conc(pick(samePos(errs[k].Start(), s.pos[y.name]), 1, 0)) == 1
		}
		sym.Assert(again == reported, "a definition is reported exactly if its name is defined already")
		if reported {
			sym.Assert(strings.Contains(errs[k].Error(), s.lit[y.name]), "the report names the name")
			k++
			sym.Reach("redefined")
		}
		n := env.Get(s.lit[y.name])
		sym.Assert(defined == (n != rules[j].Value), "the environment keeps the first definition")
	}
	sym.Assert(k == len(errs), "nothing else is reported")
	sym.Reach("end")
}

// mistaken are templates of sources with numbers that may be too large and
// operands that may not fit.
var mistaken = []string{
	"a = %l",
	"a = %u",
	"a = # _%u",
	"a = # _%G",
	"a = # _%G _( %u )",
	"a = [ %u _* tstr ] | b = tstr",
	"a = [ %l _* _%u tstr ] | b = %u",
	"a = [ * _%u tstr , %u ]",
	"a = { %u : tstr , %l : uint } b = c",
	"a = %l .. %u",
	"a = 6.2 .. %u",
	"a = %u .. %f",
	"a = tstr .size %u | b = uint .lt %u",
	"a = tstr .regexp %u | b = %l",
	"%c a = %u %c | b = [ %c %u %c ]",
	"a = ( %u : %u // %u )",
	"a = ? %u | b = %n a = %u",
	"a = ~ %u | b = & %u c = %l / %u",
	"a = %n .. %u b = 6.2 ... %n",
	"a = { %t : %n %n : %t ( } | b = 5 .. %n",
}

// DiagnosticsValues: errors about values point at their tokens (P10).
func DiagnosticsValues() {
	s := template(templates(mistaken, longMistaken))
	_, errs := parser.NewParser(s.lexer()).ParseFile()
	pointed(errs, append(s.pos, s.eof))
}

// Separate: what was parsed before does not change what is parsed (P11).
func Separate() {
	all := append(append(append([]string(nil), uses...), mistaken...), noted...)
	s := &stream{}
	s.fill(all[sym.Choose("template", len(all))])
	before := &stream{}
	before.fill([]string{uses[0], uses[3], mistaken[len(mistaken)-1], noted[0]}[sym.Choose("before", 4)])
	run := func(s *stream) (*ast.CDDL, parser.ErrorList) { return parser.NewParser(s.lexer()).ParseFile() }
	c1, errs1 := run(s)
	run(before)
	c2, errs2 := run(s)
	sym.Observe("errors", len(errs1))
	sameErrors(errs1, errs2, "an earlier source changes nothing")
	sym.Assert(len(c1.Rules) == len(c2.Rules), "an earlier source changes no rules")
	c := &cmp{where: samePos, comments: true}
	for i, x := range c1.Rules {
		c.nodes(x, c2.Rules[i])
	}
	if len(errs1) > 0 {
		sym.Reach("rejected")
	} else {
		sym.Reach("accepted")
	}
}
