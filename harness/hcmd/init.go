package hcmd

import (
	"strings"

	"github.com/HannesKimara/cddlc/cmd/cddlc/commands"
	"github.com/HannesKimara/cddlc/config"
	"github.com/HannesKimara/cddlc/zzverif/fakeos"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// Init checks the initialisation of a project, whatever operation fails and
// whatever another process creates between two operations.
func Init() {
	cwds := []string{"/work", "/a/b c", "/"}
	cwd := cwds[sym.Choose("cwd", len(cwds))]
	setup(cwd, sym.Param("FAULTS", 1))
	target := strings.TrimSuffix(cwd, "/") + "/cddlc.json"
	other := strings.TrimSuffix(cwd, "/") + "/cddlc.txt"
	fakeos.Put(other, []byte("other"))

	theirs := "<none>" // what others wrote there
	old := []string{"<none>", "", "x", "j 7\np|s|o", "<dir>"}[sym.Choose("old", 5)]
	existed := old != "<none>"
	switch old {
	case "<none>":
	case "<dir>":
		fakeos.Put(target, nil)
	default:
		fakeos.Put(target, []byte(old))
		theirs = old
	}
	races := sym.Param("RACES", 1)
	raced := false
	fakeos.Meanwhile = func() {
		if races > 0 && fakeos.Lookup(target) == nil && sym.Bool("another process creates the file") {
			races--
			raced = true
			fakeos.Put(target, []byte("theirs"))
			theirs = "theirs"
		}
	}
	err, crash := run(func() error { return commands.InitCmd(nil) })
	fakeos.Meanwhile = nil
	sym.Assert(crash == "", "init does not crash: "+crash)
	sym.Assert(content(other) == "other", "init leaves other files alone")
	if existed {
		sym.Reach("exists")
		sym.Assert(err != nil, "init reports an existing configuration")
	}
	if existed || raced {
		sym.Assert(content(target) == theirs, "init leaves a configuration it did not create alone")
		sym.Assert(err != nil, "init reports that it did not create the configuration")
		return
	}
	for _, f := range fakeos.Failed {
		if strings.HasPrefix(f, "stat") && content(target) != "<none>" {
			continue // decided in another way
		}
		sym.Assert(err != nil || strings.HasPrefix(f, "rclose"), "init reports a failure to "+f)
	}
	if err == nil {
		sym.Reach("created")
		got := strings.TrimSpace(content(target))
		sym.Assert(got == string(encode('j', config.NewDefaultConfig())), "init writes the default configuration: "+got)
		sym.Assert(fakeos.Unclosed() == 0, "init closes the file it writes")
		for _, p := range fakeos.Touched {
			if p != target {
				sym.Assert(fakeos.Lookup(p) == nil || p == cwd, "init leaves nothing else behind: "+p)
			}
		}
	} else {
		sym.Reach("failed")
	}
}
