// Package hcmd checks the commands of the tool against a file system in memory.
package hcmd

import (
	"errors"
	"io"

	"github.com/HannesKimara/cddlc/config"
	_ "github.com/HannesKimara/cddlc/zzverif/fakefilepath"
	_ "github.com/HannesKimara/cddlc/zzverif/fakefmt"
	_ "github.com/HannesKimara/cddlc/zzverif/fakeioutil"
	"github.com/HannesKimara/cddlc/zzverif/fakejson"
	"github.com/HannesKimara/cddlc/zzverif/fakeos"
	"github.com/HannesKimara/cddlc/zzverif/fakeyaml"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// Configurations are written here in a notation of the harness: the format's
// letter, the version, and a line for the package, source and output directories
// of each build. What encoding/json and yaml make of real files is not looked at.
func encode(format byte, c *config.Config) []byte {
	b := []byte{format, ' '}
	b = append(b, c.Version...)
	for _, x := range c.Builds {
		b = append(b, '\n')
		b = append(b, x.Package+"|"+x.SourceDir+"|"+x.OutDir...)
	}
	if len(c.Plugins) > 0 {
		b = append(b, "\nplugins"...)
	}
	return b
}

var errSyntax = errors.New("syntax error")

func decode(format byte, data []byte, v any) error {
	if len(data) == 0 {
		return io.EOF
	}
	if data[0] != format {
		return errSyntax
	}
	c, ok := v.(*config.Config)
	if !ok {
		sym.Skip()
	}
	var lines []string
	for i, j := 0, 0; j <= len(data); j++ {
		if j == len(data) || data[j] == '\n' {
			if j > i {
				lines = append(lines, string(data[i:j]))
			}
			i = j + 1
		}
	}
	c.Version = lines[0][2:]
	for _, l := range lines[1:] {
		var p [3]string
		k := 0
		for i := 0; i < len(l); i++ {
			if l[i] == '|' {
				k++
			} else {
				p[k] += l[i : i+1]
			}
		}
		c.Builds = append(c.Builds, &config.BuildConfig{Package: p[0], SourceDir: p[1], OutDir: p[2]})
	}
	return nil
}

// setup prepares an empty file system with a working directory.
func setup(cwd string, faults int) {
	fakeos.Reset(cwd, faults)
	enc := func(format byte) func(v any) ([]byte, error) {
		return func(v any) ([]byte, error) {
			c, ok := v.(*config.Config)
			if !ok {
				sym.Skip()
			}
			return encode(format, c), nil
		}
	}
	fakejson.EncodeHook, fakeyaml.EncodeHook = enc('j'), enc('y')
	fakejson.DecodeHook = func(data []byte, v any) error { return decode('j', data, v) }
	fakeyaml.DecodeHook = func(data []byte, v any) error { return decode('y', data, v) }
}

// run runs a command; the error of one that panics is told apart.
func run(f func() error) (err error, crash string) {
	crash = sym.Try(func() { err = f() })
	return
}

func content(p string) string {
	b, ok := fakeos.Content(p)
	if !ok {
		return "<none>"
	}
	return string(b)
}
