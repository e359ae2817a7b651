package hconf

import (
	"strings"

	"github.com/HannesKimara/cddlc/cmd/cddlc/commands"
	"github.com/HannesKimara/cddlc/config"
	_ "github.com/HannesKimara/cddlc/zzverif/fakefilepath"
	_ "github.com/HannesKimara/cddlc/zzverif/fakefmt"
	_ "github.com/HannesKimara/cddlc/zzverif/fakeioutil"
	"github.com/HannesKimara/cddlc/zzverif/fakejson"
	"github.com/HannesKimara/cddlc/zzverif/fakeos"
	"github.com/HannesKimara/cddlc/zzverif/fakeyaml"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

func setup(faults int) {
	fakeos.Reset("/work", faults)
	fakejson.EncodeHook = func(v any) ([]byte, error) { return encode('j', v) }
	fakeyaml.EncodeHook = func(v any) ([]byte, error) { return encode('y', v) }
	fakejson.DecodeHook = func(data []byte, v any) error { return decode('j', data, v) }
	fakeyaml.DecodeHook = func(data []byte, v any) error { return decode('y', data, v) }
}

// value is a text of any K printable characters that need no quotes.
func value() string {
	b := sym.Bytes("value", sym.Param("K", 2))
	for _, c := range b {
		sym.Assume(sym.And(sym.And(c >= ' ', c < 0x7f), sym.And(c != '"', c != '\\')))
	}
	return string(b)
}

// want is what a configuration file says.
type want struct {
	version string
	builds  [][3]string
	plugins [][3]string
	options [][2]string
}

// member adds a text under a key, or leaves it out.
func (d *doc) member(k string) string {
	if sym.Param("ALL", 0) == 0 && sym.Bool("leave out "+k) {
		return ""
	}
	v := value()
	d.keys, d.vals = append(d.keys, k), append(d.vals, &doc{kind: text, str: v})
	return v
}

func (d *doc) add(k string, v *doc) { d.keys, d.vals = append(d.keys, k), append(d.vals, v) }

// written is a configuration file and what it says.
func written() (*doc, *want) {
	d, w := &doc{kind: object}, &want{}
	parts := []func(){
		func() { w.version = d.member("version") },
		func() {
			n := sym.Choose("builds", sym.Param("BUILDS", 2)+2)
			if n == 0 {
				return
			}
			l := &doc{kind: array}
			for i := 1; i < n; i++ {
				b := &doc{kind: object}
				var x [3]string
				if sym.Bool("other order") {
					x[2], x[1], x[0] = b.member("output"), b.member("src"), b.member("package")
				} else {
					x[0], x[1], x[2] = b.member("package"), b.member("src"), b.member("output")
				}
				l.vals = append(l.vals, b)
				w.builds = append(w.builds, x)
			}
			d.add("builds", l)
		},
		func() {
			n := sym.Choose("plugins", sym.Param("PLUGINS", 1)+2)
			if n == 0 {
				return
			}
			l := &doc{kind: array}
			for i := 1; i < n; i++ {
				b := &doc{kind: object}
				var x [3]string
				x[0] = b.member("name")
				if sym.Bool("local") {
					o := &doc{kind: object}
					x[1] = o.member("path")
					b.add("local", o)
				}
				if sym.Bool("remote") {
					o := &doc{kind: object}
					x[2] = o.member("url")
					b.add("remote", o)
				}
				l.vals = append(l.vals, b)
				w.plugins = append(w.plugins, x)
			}
			d.add("plugins", l)
		},
		func() {
			n := sym.Choose("options", sym.Param("OPTIONS", 1)+2)
			if n == 0 {
				return
			}
			o := &doc{kind: object}
			for i := 1; i < n; i++ {
				k := []string{"first", "second", "third"}[i-1]
				v := value()
				o.add(k, &doc{kind: text, str: v})
				w.options = append(w.options, [2]string{k, v})
			}
			d.add("options", o)
		},
	}
	if only := sym.Param("PART", 0); only > 0 {
		parts[only-1]()
	} else if sym.Bool("reversed") {
		for i := len(parts) - 1; i >= 0; i-- {
			parts[i]()
		}
	} else {
		for _, f := range parts {
			f()
		}
	}
	return d, w
}

func (w *want) is(c *config.Config) {
	is := func(ok bool, what string) { sym.Assert(ok, "a configuration is what its file says: "+what) }
	if c == nil {
		sym.Fail("a configuration is loaded")
	}
	is(c.Version == w.version, "version")
	if len(c.Builds) != len(w.builds) || len(c.Plugins) != len(w.plugins) || len(c.Options) != len(w.options) {
		sym.Fail("a configuration is what its file says: number of builds, plugins and options")
	}
	for i, b := range c.Builds {
		if b == nil {
			sym.Fail("a build is loaded")
		}
		is(b.Package == w.builds[i][0], "package")
		is(b.SourceDir == w.builds[i][1], "source directory")
		is(b.OutDir == w.builds[i][2], "output directory")
	}
	for i, p := range c.Plugins {
		if p == nil {
			sym.Fail("a plugin is loaded")
		}
		is(p.Name == w.plugins[i][0], "plugin name")
		is(p.Local.Path == w.plugins[i][1], "plugin path")
		is(p.Remote.URL == w.plugins[i][2], "plugin address")
	}
	for _, o := range w.options {
		v, ok := c.Options[o[0]].(string)
		is(ok, "option")
		is(v == o[1], "option")
	}
}

// place gives the path of a file in one of the formats.
func place(f int) string {
	return []string{"/work/cddlc.json", "/work/cddlc.yaml", "/a/b/cddlc.yaml"}[f]
}

func render(d *doc, f int) []byte {
	if f == 0 || sym.Bool("flow style") {
		return append(d.json(nil), '\n')
	}
	return d.yaml(nil, "")
}

// Loaded: a configuration is what its file says.
func Loaded() {
	f := sym.Choose("format", 3)
	d, w := written()
	if f > 0 && len(d.keys) == 0 {
		sym.Skip()
	}
	setup(sym.Param("FAULTS", 0))
	fakeos.Put(place(f), render(d, f))
	var c *config.Config
	var err error
	msg := sym.Try(func() { c, err = config.LoadConfig(place(f)) })
	sym.Assert(msg == "", "loading does not crash: "+msg)
	for _, x := range fakeos.Failed {
		if !strings.Contains(x, "close") {
			sym.Assert(err != nil, "loading reports a failure to "+x)
		}
	}
	if err != nil {
		sym.Assert(len(fakeos.Failed) > 0, "a configuration that is well-formed is loaded: "+err.Error())
		sym.Reach("failed")
		return
	}
	w.is(c)
	sym.Reach("loaded")
	if c.Options != nil {
		sym.Reach("options")
	}
}

// Truncated: a file cut short, or of another name, is an error.
func Truncated() {
	f := sym.Choose("format", 2)
	d, _ := written()
	setup(0)
	b := append(d.json(nil), '\n')
	cut := 0
	path := place(f)
	if sym.Bool("other name") {
		path = []string{"/work/cddlc.yml", "/work/cddlc.json.bak", "/work/xcddlc.json", "/work/cddlc", "/work/cddlc.jsonyaml"}[sym.Choose("name", 5)]
		cut = len(b)
		sym.Reach("name")
	} else if sym.Bool("missing") {
		path = "/none/cddlc.json"
		sym.Reach("missing")
	} else {
		cut = sym.Choose("cut", len(b)-1)
		sym.Reach("cut")
	}
	if path != "/none/cddlc.json" {
		fakeos.Put(path, b[:cut])
	}
	var err error
	msg := sym.Try(func() { _, err = config.LoadConfig(path) })
	sym.Assert(msg == "", "loading does not crash: "+msg)
	sym.Assert(err != nil, "a file that is cut short, missing or of another name is an error")
}

// Initial: what init writes is loaded as the default configuration.
func Initial() {
	setup(0)
	if err := commands.InitCmd(nil); err != nil {
		sym.Fail("a configuration is written: " + err.Error())
	}
	c, err := config.LoadConfig("/work/cddlc.json")
	if err != nil {
		sym.Fail("what init writes is loaded: " + err.Error())
	}
	def := config.NewDefaultConfig()
	w := &want{version: def.Version}
	for _, b := range def.Builds {
		w.builds = append(w.builds, [3]string{b.Package, b.SourceDir, b.OutDir})
	}
	for _, p := range def.Plugins {
		w.plugins = append(w.plugins, [3]string{p.Name, p.Local.Path, p.Remote.URL})
	}
	w.is(c)
	sym.Assert(len(def.Options) == 0, "the default configuration has no options")
	sym.Reach("same")
}
