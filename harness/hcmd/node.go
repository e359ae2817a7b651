package hcmd

import (
	gast "go/ast"
	gotoken "go/token"
	"io"
)

// Node stands in for go/format.Node when running symbolically.
func Node(w io.Writer, fset *gotoken.FileSet, node any) error {
	text := "package "
	if f, ok := node.(*gast.File); ok {
		text += f.Name.Name
		for range f.Decls {
			text += "\ndecl"
		}
	}
	_, err := io.WriteString(w, text+"\n")
	return err
}
