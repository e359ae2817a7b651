package hcmd

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/cmd/cddlc/commands"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"
	"github.com/HannesKimara/cddlc/zzverif/fakeos"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// generated is what the generator makes of a source, and whether the source is
// accepted by the parser and the generator.
func generated(pkg string, src []byte) (text string, ok bool) {
	var out bytes.Buffer
	var err error
	n := 0
	msg := sym.Try(func() {
		cddl, errs := parser.NewParser(lexer.NewLexer(append([]byte{}, src...))).ParseFile()
		n = len(errs)
		if n == 0 {
			g := gogen.NewGenerator(pkg)
			g.Visit(cddl)
			err = g.String(&out)
		}
	})
	return out.String(), msg == "" && err == nil && n == 0
}

// complete tells if a file is the generated text after a comment.
func complete(got, text string) bool {
	if !strings.HasSuffix(got, text) {
		return false
	}
	head := strings.TrimSpace(got[:len(got)-len(text)])
	if head == "" {
		return true
	}
	if strings.HasPrefix(head, "/*") && len(head) >= 4 {
		return strings.Index(head[2:], "*/") == len(head)-4
	}
	for _, l := range strings.Split(head, "\n") {
		if !strings.HasPrefix(l, "//") {
			return false
		}
	}
	return true
}

// checkFaults asserts that the failure of an operation was reported.
func checkFaults(err error) {
	for _, f := range fakeos.Failed {
		sym.Assert(err != nil || strings.HasPrefix(f, "rclose"), "generate reports a failure to "+f)
	}
}

// Discover checks which configuration generate uses.
func Discover() {
	cwds := []string{"/work", "/w[o]rk", "/a*/b"}
	cwd := cwds[sym.Choose("cwd", len(cwds))]
	setup(cwd, sym.Param("FAULTS", 1))
	put := func(p, text string) { fakeos.Put(cwd+"/"+p, []byte(text)) }
	put("sj/j.cddl", "j = uint\n")
	put("sy/y.cddl", "y = uint\n")
	put("so/o.cddl", "o = uint\n")
	put("d.cddl", "d = uint\n")
	kinds := func(format string) string {
		return []string{"", format + " 1\np|s" + format + "|o" + format, "bad", "<dir>", "<empty>"}[sym.Choose(format, 5)]
	}
	j, y := kinds("j"), kinds("y")
	for _, x := range [][2]string{{"cddlc.json", j}, {"cddlc.yaml", y}} {
		if x[1] == "<dir>" {
			fakeos.Put(cwd+"/"+x[0], nil)
		} else if x[1] == "<empty>" {
			fakeos.Put(cwd+"/"+x[0], []byte{})
		} else if x[1] != "" {
			put(x[0], x[1])
		}
	}
	others := []string{"", "cddlc.a", "cddlc.json.bak", "cddlc.yml", "cddlc.jsonc", "cddlc.yaml~", "cddlc", "cddlc.", "Cddlc.json", "cddlc.JSON", ".cddlc.json", "xcddlc.json", "sub/cddlc.json"}
	if o := others[sym.Choose("other file", len(others))]; o != "" {
		put(o, "j 1\np|so|oo")
	}
	err, crash := run(func() error { return commands.GenerateCmd(nil) })
	sym.Assert(crash == "", "generate does not crash: "+crash)
	checkFaults(err)
	want, fails := "dist/d.go", false
	switch {
	case j != "":
		want, fails = "oj/j.go", j[0] != 'j'
	case y != "":
		want, fails = "oy/y.go", y[0] != 'y'
	default:
		sym.Reach("default")
	}
	if fails {
		sym.Reach("broken")
		sym.Assert(err != nil, "generate reports a configuration that it cannot read")
	} else if len(fakeos.Failed) == 0 {
		sym.Assert(err == nil, "generate succeeds with a valid configuration")
	}
	for _, o := range []string{"oj/j.go", "oy/y.go", "dist/d.go", "oo/o.go"} {
		_, exists := fakeos.Content(cwd + "/" + o)
		if o != want || fails {
			sym.Assert(!exists, "generate writes the outputs of the configuration only, not "+o)
		} else if err == nil {
			sym.Reach("used")
			sym.Assert(exists, "generate writes the outputs of the configuration: "+o)
		}
	}
}

// schema is a file of a source directory.
type schema struct {
	name, text string
}

var schemas = []schema{
	{"a.cddl", "a = uint\n"},
	{"b.cddl", "b = { x: tstr }\n"},
	{"c.d.cddl", ""},
	{".cddl", "e = \"t\"\n"},
	{"bad.cddl", "f = \n"},
	{"worse.cddl", "g = uint\nh = undefined\n"},
	{"refused.cddl", "i = uint / tstr\n"},
	{"n.txt", "n = uint\n"},
	{"n.cddl.bak", "n = uint\n"},
	{"n.CDDL", "n = uint\n"},
	{"ncddl", "n = uint\n"},
	{"cddl", "n = \n"},
	{"n.go", "package n\n"},
}

// Generate checks the outputs of generate for one or two builds of up to two
// files each, whatever operation fails.
func Generate() {
	const cwd = "/work"
	setup(cwd, sym.Param("FAULTS", 1))
	nb, nf := sym.Param("BUILDS", 1), sym.Param("FILES", 1)
	fakeos.Put(cwd+"/keep.go", []byte("keep"))
	conf := "j 1"
	type out struct {
		path, text string
		ok, schema bool
		old        string
	}
	var outs []out
	good := true
	for b := 0; b < nb; b++ {
		id := string(rune('a' + b))
		src, dst := "src"+id, "out"+id
		pkg := []string{"p", "1p"}[sym.Choose("package", sym.Param("PKGS", 2))]
		conf += "\n" + pkg + "|" + src + "|" + dst
		state := sym.Choose("source directory", sym.Param("STATES", 3))
		switch state {
		case 0:
			fakeos.Put(cwd+"/"+src, nil)
		case 1:
			fakeos.Put(cwd+"/"+src, []byte("file"))
		}
		dir := sym.Choose("output directory", 3)
		switch dir {
		case 1:
			fakeos.Put(cwd+"/"+dst, nil)
		case 2:
			fakeos.Put(cwd+"/"+dst, []byte("file"))
		}
		if state != 0 {
			good = false
			continue
		}
		last := -1
		for f := 0; f < nf; f++ {
			i := sym.Choose("file", len(schemas))
			if i <= last {
				sym.Skip()
			}
			last = i
			s := schemas[i]
			fakeos.Put(cwd+"/"+src+"/"+s.name, []byte(s.text))
			fakeos.Lookup(cwd + "/" + src + "/" + s.name).Special = s.name == "b.cddl"
			o := out{path: cwd + "/" + dst + "/" + strings.TrimSuffix(s.name, ".cddl") + ".go", old: "<none>"}
			o.schema = strings.HasSuffix(s.name, ".cddl")
			if o.schema {
				o.text, o.ok = generated(pkg, []byte(s.text))
				if !o.ok || dir == 2 {
					good = false
				}
			}
			if dir == 1 && sym.Bool("output exists") {
				o.old = "/* an earlier and quite a bit longer output than any of the new ones */ package p\n"
				fakeos.Put(o.path, []byte(o.old))
			}
			outs = append(outs, o)
		}
	}
	fakeos.Put(cwd+"/cddlc.json", []byte(conf))
	err, crash := run(func() error { return commands.GenerateCmd(nil) })
	sym.Assert(crash == "", "generate does not crash: "+crash)
	checkFaults(err)
	if !good {
		sym.Reach("failing")
		sym.Assert(err != nil, "generate reports a failing step")
	} else if len(fakeos.Failed) == 0 {
		sym.Assert(err == nil, "generate succeeds if every step does")
	}
	sym.Assert(content(cwd+"/keep.go") == "keep" && content(cwd+"/cddlc.json") == conf, "generate leaves other files alone")
	mine := map[string]bool{}
	for _, o := range outs {
		got := content(o.path)
		if !o.schema {
			sym.Reach("other")
			sym.Assert(got == o.old, "generate makes nothing of files that are no schemas")
			continue
		}
		mine[o.path] = true
		if !o.ok {
			sym.Reach("rejected")
			sym.Assert(got == o.old, "generate leaves the output of a schema it cannot use alone")
		} else if err == nil {
			sym.Reach("written")
			sym.Assert(complete(got, o.text), "generate writes the output completely: "+got)
		}
	}
	if err == nil {
		sym.Assert(fakeos.Unclosed() == 0, "generate closes what it writes")
	}
	for _, p := range fakeos.Touched {
		if n := fakeos.Lookup(p); n != nil && !n.Dir && len(fakeos.Failed) == 0 {
			sym.Assert(mine[p], "generate writes nothing but its outputs: "+p)
		}
	}
	for _, p := range fakeos.Opened {
		sym.Assert(strings.HasSuffix(p, ".cddl") || strings.HasPrefix(p, cwd+"/out") || p == cwd+"/cddlc.json", "generate reads schemas only: "+p)
	}
}

// Accepts checks that generate succeeds exactly with sources that the parser and
// the generator accept, with symbolic bytes in a source.
func Many() {
	const cwd = "/work"
	setup(cwd, sym.Param("FAULTS", 0))
	n := sym.Param("LONG", 10)
	bad := sym.Choose("bad", 4) // one of the schemas, or none, is no schema
	at := []int{0, n / 2, n - 1, -1}[bad]
	var texts []string
	good := true
	for i := 0; i < n; i++ {
		src := []byte("a = int\n")
		switch i {
		case at:
			src = append([]byte("a = "), sym.Bytes("src", 1)...)
			src = append(src, "\nb = uint\n"...)
		case 1:
			src = []byte(strings.Repeat("; a comment\n", n))
			for k := 0; k < n; k++ {
				src = append(src, "a-rule-with-a-name"+strconv.Itoa(k)+" = [ k : tstr ]\n"...)
			}
		}
		name := cwd + "/s/x" + strconv.Itoa(i)
		fakeos.Put(name+".cddl", append([]byte{}, src...))
		fakeos.Put(name+".txt", []byte("a = int"))
		text, ok := generated("p", src)
		if !ok {
			text, good = "", false
		}
		texts = append(texts, text)
	}
	fakeos.Put(cwd+"/cddlc.json", []byte("j 1\np|s|o"))
	err, crash := run(func() error { return commands.GenerateCmd(nil) })
	sym.Assert(crash == "", "generate does not crash: "+crash)
	checkFaults(err)
	if !good {
		sym.Reach("rejected")
		sym.Assert(err != nil, "generate reports a failing step")
	} else if len(fakeos.Failed) == 0 {
		sym.Assert(err == nil, "generate succeeds if every step does")
	}
	for i, text := range texts {
		got := content(cwd + "/o/x" + strconv.Itoa(i) + ".go")
		if text == "" {
			sym.Assert(got == "<none>", "generate leaves the output of a schema it cannot use alone")
		} else if err == nil {
			sym.Reach("written")
			sym.Assert(complete(got, text), "generate writes the output completely: "+got)
		}
	}
}

func Accepts() {
	const cwd = "/work"
	setup(cwd, 0)
	src := []byte("a = ")
	src = append(src, sym.Bytes("src", sym.Param("K", 1))...)
	src = append(src, "\nb = uint\n"...)
	fakeos.Put(cwd+"/s/x.cddl", append([]byte{}, src...))
	fakeos.Put(cwd+"/o/x.go", []byte("old"))
	fakeos.Put(cwd+"/cddlc.json", []byte("j 1\np|s|o"))
	text, ok := generated("p", src)
	err, crash := run(func() error { return commands.GenerateCmd(nil) })
	sym.Assert(crash == "", "generate does not crash: "+crash)
	sym.Assert((err == nil) == ok, "generate succeeds exactly if the schema can be used")
	if ok {
		sym.Reach("written")
		sym.Assert(complete(content(cwd+"/o/x.go"), text), "generate writes the output completely")
	} else {
		sym.Reach("rejected")
		sym.Assert(content(cwd+"/o/x.go") == "old", "generate leaves the output of a schema it cannot use alone")
	}
}

// Header checks that the comment before the output is one, whatever the arguments
// of the command.
func Header() {
	const cwd = "/work"
	setup(cwd, 0)
	fakeos.Put(cwd+"/s/x.cddl", []byte("a = uint\n"))
	fakeos.Put(cwd+"/cddlc.json", []byte("j 1\np|s|o"))
	arg := sym.Bytes("argument", sym.Param("K", 2))
	for _, c := range arg {
		sym.Assume(c != 0 && c < 0x80)
	}
	fakeos.Args = []string{"cddlc", "generate", string(arg)}
	if sym.Bool("as the program's name") {
		fakeos.Args = []string{string(arg), "generate"}
	}
	text, ok := generated("p", []byte("a = uint\n"))
	err, crash := run(func() error { return commands.GenerateCmd(nil) })
	sym.Assert(crash == "" && err == nil && ok, "generate succeeds")
	sym.Reach("written")
	sym.Assert(complete(content(cwd+"/o/x.go"), text), "the output is a comment and the generated text")
}
