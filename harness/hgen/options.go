package hgen

import (
	"strings"

	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// Options checks the validation of the generator's options.
func Options() {
	k := sym.Param("K", 9)
	name := sym.String("name", k)
	o := gogen.Options{EmitIdent: sym.Bool("ident"), GeneratePlugStub: sym.Bool("stub"), CaseConversion: name}
	err := o.Valid()
	if name == "camelcase" || name == "snakecase" {
		sym.Reach("supported")
		sym.Assert(err == nil, "a supported case conversion is valid")
	} else {
		sym.Reach("unsupported")
		sym.Assert(err != nil, "any other case conversion is invalid")
		sym.Assert(strings.Contains(err.Error(), name), "the error names the case conversion")
	}
}
