package hcmd

import (
	"flag"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/cmd/cddlc/commands"
	"github.com/HannesKimara/cddlc/errors"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/cmdmain"
	"github.com/HannesKimara/cddlc/zzverif/fakejson"
	"github.com/HannesKimara/cddlc/zzverif/fakeos"
	"github.com/HannesKimara/cddlc/zzverif/sym"
	"github.com/urfave/cli/v2"
)

func context(args ...string) *cli.Context {
	set := flag.NewFlagSet("x", flag.ContinueOnError)
	set.Bool("lex", false, "")
	if err := set.Parse(args); err != nil {
		sym.Skip()
	}
	return cli.NewContext(nil, set, nil)
}

// rawReader takes the text apart line by line.
type lineReader struct{ text string }

func (r *lineReader) next() (string, bool) {
	if r.text == "" {
		return "", false
	}
	l := r.text
	if i := strings.IndexByte(l, '\n'); i >= 0 {
		r.text = l[i+1:]
		return l[:i], true
	}
	r.text = ""
	return l, true
}

// checkReport asserts that the report shows every error with its line.
func checkReport(report string, src []byte, errs []errors.Diagnostic) {
	lines := strings.Split(string(src), "\n")
	r := &lineReader{report}
	for _, e := range errs {
		pos := e.Start()
		line := ""
		if pos.Line >= 1 && pos.Line <= len(lines) {
			line = lines[pos.Line-1]
		}
		found := false
		for !found {
			l, ok := r.next()
			sym.Assert(ok, "every error is shown, in order")
			found = strings.Contains(l, e.Error())
		}
		l, _ := r.next()
		sym.Assert(strings.HasSuffix(l, line), "an error is shown with the text of its line")
		prefix := l[:len(l)-len(line)]
		digits := strings.TrimFunc(prefix, func(c rune) bool { return c < '0' || c > '9' })
		sym.Assert(digits == strconv.Itoa(pos.Line), "an error is shown with the number of its line")
		mark, ok := r.next()
		sym.Assert(ok, "an error is shown with a marker")
		col := pos.Column - 1
		if col < 0 || col > len(line) {
			sym.Fail("an error points into its line")
		}
		want := utf8.RuneCountInString(prefix + line[:col])
		k := 0
		for k < len(mark) && (mark[k] == ' ' || mark[k] == '\t') {
			k++
		}
		sym.Assert(k == want && utf8.RuneCountInString(mark[k:]) >= 1, "the marker is under the place of the error")
		for i := 0; i < k && i < len(l); i++ {
			if mark[i] == '\t' {
				sym.Assert(i < len(prefix)+col && tabAt(prefix+line, i), "the marker is indented with what is before it")
			}
		}
	}
}

// tabAt tells if the n-th character is a tab.
func tabAt(s string, n int) bool {
	for _, c := range s {
		if n == 0 {
			return c == '\t'
		}
		n--
	}
	return false
}

func source() []byte {
	t := [][2]string{
		{"", ""},
		{"a = uint\n\tb = \"é\" / ", "\nc = uint"},
		{"a = [", ""},
		{"a = uint\na = ", "\n\n"},
		{"; ü\r\na = \"ü\" .size x", ""},
		{"\n\n\n\n\n\n\n\n\na = b", "\nc = d\n"},
		{"a = x ..\n\n\ty", "\nx = 1\ny = 2.5\nb = 5 .. tstr\nc = uint .lt tstr"}, // errors that end elsewhere
		{"a = ", "\nb = c"},       // after many lines
		{"", "b ] b = 5 .. tstr"}, // after much on the line
		{"a = ", "\nb = c"},       // after many errors
		{"", ""},                  // after many characters that are no tokens
	}[sym.Param("T", 0)]
	n := sym.Param("LONG", 1)
	switch sym.Param("T", 0) {
	case 7:
		t[0] = strings.Repeat("\n", n) + t[0]
	case 8:
		t[0] = "a = [ " + strings.Repeat("int, ", n) + t[0]
	case 9:
		t[0] = strings.Repeat("x = y\n", n) + t[0]
	case 10:
		t[0] = strings.Repeat("! ", n) + t[0]
	}
	b := append([]byte{}, t[0]...)
	x := sym.Bytes("src", sym.Param("K", 2))
	if sym.Param("ASCII", 0) == 1 {
		for _, c := range x {
			sym.Assume(c < 0x80)
		}
	}
	b = append(b, x...)
	return append(b, t[1]...)
}

// Reported checks the reports of generate and parse.
func Reported() {
	const cwd = "/work"
	setup(cwd, 0)
	src := source()
	fakeos.Put(cwd+"/s/x.cddl", append([]byte{}, src...))
	fakeos.Put(cwd+"/cddlc.json", []byte("j 1\np|s|o"))
	_, errs := parser.NewParser(lexer.NewLexer(append([]byte{}, src...))).ParseFile()
	if len(errs) == 0 {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
	if sym.Param("CMD", 0) == 0 {
		if len(errs) == 0 {
			sym.Skip() // what generate does with it is another property
		}
		_, crash := run(func() error { return commands.GenerateCmd(nil) })
		sym.Assert(crash == "", "reporting does not crash: "+crash)
	} else {
		fakejson.EncodeHook = func(v any) ([]byte, error) { return []byte("tree"), nil }
		_, crash := run(func() error { return cmdmain.ParseCmd(context("s/x.cddl")) })
		sym.Assert(crash == "", "reporting does not crash: "+crash)
	}
	report := string(fakeos.Errors())
	checkReport(report, src, errs)
	if len(errs) == 0 {
		sym.Assert(strings.TrimSpace(report) == "", "no error is reported if there is none")
	}
}

// Lexed checks the listing of the tokens of a file.
func Lexed() {
	const cwd = "/work"
	setup(cwd, sym.Param("FAULTS", 0))
	src := source()
	fakeos.Put(cwd+"/x.cddl", append([]byte{}, src...))
	err, crash := run(func() error { return cmdmain.LexerCmd(context("x.cddl")) })
	sym.Assert(crash == "", "listing does not crash: "+crash)
	checkFaults(err)
	if len(fakeos.Failed) > 0 {
		return
	}
	lex := lexer.NewLexer(append([]byte{}, src...))
	bad := false
	r := &lineReader{string(fakeos.Output())}
	for {
		tok, pos, lit := lex.Scan()
		if tok == token.ILLEGAL {
			bad = true
		}
		if !multiline(lit) {
			l, ok := r.next()
			sym.Assert(ok, "every token is listed")
			sym.Assert(strings.HasPrefix(l, pos.String()), "a token is listed with its position")
			l = l[len(pos.String()):]
			sym.Assert(strings.Contains(l, tok.String()) && strings.HasSuffix(l, lit), "a token is listed with its kind and text: "+l)
		} else {
			return
		}
		if tok == token.EOF {
			break
		}
	}
	_, more := r.next()
	sym.Assert(!more, "nothing but tokens is listed")
	if bad {
		sym.Reach("illegal")
	} else {
		sym.Reach("legal")
	}
	sym.Assert((err != nil) == bad, "listing fails exactly if there is an illegal token")
}

func multiline(s string) bool { return strings.IndexByte(s, '\n') >= 0 }

// Arguments checks that the commands that take a file take exactly one.
func Arguments() {
	setup("/work", 0)
	fakeos.Put("/work/x.cddl", []byte("a = uint"))
	fakejson.EncodeHook = func(v any) ([]byte, error) { return []byte("tree"), nil }
	f := cmdmain.LexerCmd
	if sym.Bool("parse") {
		f = cmdmain.ParseCmd
	}
	args := [][]string{{}, {"x.cddl"}, {"x.cddl", "x.cddl"}, {"y.cddl"}, {"/work"}, {""}}
	i := sym.Choose("arguments", len(args))
	err, crash := run(func() error { return f(context(args[i]...)) })
	sym.Assert(crash == "", "a command does not crash: "+crash)
	sym.Assert((err == nil) == (i == 1), "a command takes the name of one file that can be read")
}
