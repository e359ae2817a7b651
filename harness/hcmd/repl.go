package hcmd

import (
	"strings"

	"github.com/HannesKimara/cddlc/cmd/cddlc/commands"
	"github.com/HannesKimara/cddlc/config"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/zzverif/fakeos"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// Session checks a session of the interactive mode.
func Session() {
	setup("/work", 0)
	inputs := [][2]string{
		{"", ""},
		{"a = uint\na = tstr\n:tree a b\n", "\nc = a\n"},
		{":pv\na = 5\n:tree a\n", "\n\n:help\n\tb = / \n"},
		{"a = undefined\n:pv\n", "\nundefined = 1"},
		{"a = [1, {b: 2}, (c: 3)]\n:tree a\n:pv\n", "\n:tree a\n:tree  \n:tree"},
		{"a = 1\n", "\n:exit\nb = /\n"},
		{":", "\na = 1\n"},
		{":tree", "\na = / \n"},
		{"\na = int\n", "\n" + strings.Repeat("a = 5 ", 20) + "\nc = undefined"}, // after a long line
		{"a = int\n", "\nc = undefined"},                                         // after many lines
	}
	in := inputs[sym.Param("T", 0)]
	switch sym.Param("T", 0) {
	case 8:
		in[0] = "b = undefined ;" + strings.Repeat("x", sym.Param("LINE", 10)) + in[0]
	case 9:
		in[0] = strings.Repeat("a = undefined\n", sym.Param("LINE", 10)) + in[0]
	}
	text := []byte(in[0])
	text = append(text, sym.Bytes("src", sym.Param("K", 1))...)
	text = append(text, in[1]...)
	fakeos.SetStdin(append([]byte{}, text...))
	var args []string
	if sym.Param("LEX", 0) == 1 {
		args = []string{"-lex"}
	}
	crash := ""
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(fakeos.Exiting); ok {
					return
				}
				panic(r)
			}
		}()
		err, crash = nil, ""
		err = commands.Repl(context(args...))
	}()
	_ = crash
	out := string(fakeos.Output())
	env := environment.NewEnvironment()
	for len(text) > 0 {
		line := text
		if i := strings.IndexByte(string(text), '\n'); i >= 0 {
			line, text = text[:i], text[i+1:]
		} else {
			text = nil
		}
		if n := len(line); n > 0 && line[n-1] == '\r' {
			line = line[:n-1]
		}
		cmd := strings.TrimSpace(string(line))
		if strings.HasPrefix(cmd, ":exit") {
			sym.Reach("exit")
			sym.Assert(fakeos.Exited, "the session ends when told to")
			break
		}
		if strings.HasPrefix(cmd, ":help") || strings.HasPrefix(cmd, ":pv") || strings.HasPrefix(cmd, ":tree") {
			continue
		}
		_, errs := parser.NewParser(lexer.NewLexer(append([]byte{}, line...)), parser.WithEnv(env)).ParseFile()
		for _, e := range errs {
			sym.Reach("errors")
			i := strings.Index(out, e.Error())
			sym.Assert(i >= 0, "every error of a line is shown")
			out = out[i+len(e.Error()):]
		}
	}
	if fakeos.Exited {
		return
	}
	sym.Reach("end")
	sym.Assert(err != nil, "the session ends with its input")
}

// Plugins checks the validation of the plugins of a configuration.
func Plugins() {
	setup("/work", sym.Param("FAULTS", 1))
	fakeos.Put("/work/dir", nil)
	fakeos.Put("/work/file", []byte("x"))
	fakeos.Put("/work/dir/sub", nil)
	paths := []string{"dir", "/work/dir/sub", "dir/", "file", "missing", "file/x", "dir/../dir"}
	c := &config.Config{}
	good := true
	n := sym.Choose("plugins", sym.Param("N", 2)+1)
	for i := 0; i < n; i++ {
		p := paths[sym.Choose("path", len(paths))]
		if p == "file" || p == "missing" || p == "file/x" {
			good = false
		}
		c.Plugins = append(c.Plugins, &config.Plugin{
			Name:   []string{"p", ""}[sym.Choose("name", 2)],
			Remote: config.PluginRemote{URL: []string{"", "http://example.org/p"}[sym.Choose("remote", 2)]},
			Local:  config.PluginLocal{Path: p},
		})
	}
	err, crash := run(c.Valid)
	sym.Assert(crash == "", "validation does not crash: "+crash)
	if !good || len(fakeos.Failed) > 0 {
		sym.Reach("bad")
		sym.Assert(err != nil, "a plugin whose path is no directory is reported")
	} else {
		sym.Reach("good")
		sym.Assert(err == nil, "plugins whose paths are directories are accepted")
	}
}
