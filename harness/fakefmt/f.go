// Package fakefmt stands in for fmt: what is printed goes to the stand-in for the standard output.
package fakefmt

import (
	"fmt"
	"io"

	"github.com/HannesKimara/cddlc/zzverif/fakeos"
)

type (
	Stringer   = fmt.Stringer
	GoStringer = fmt.GoStringer
	Formatter  = fmt.Formatter
	State      = fmt.State
)

func Print(a ...any) (int, error)                          { return fmt.Fprint(fakeos.Stdout, a...) }
func Println(a ...any) (int, error)                        { return fmt.Fprintln(fakeos.Stdout, a...) }
func Printf(f string, a ...any) (int, error)               { return fmt.Fprintf(fakeos.Stdout, f, a...) }
func Fprint(w io.Writer, a ...any) (int, error)            { return fmt.Fprint(w, a...) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return fmt.Fprintln(w, a...) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) { return fmt.Fprintf(w, f, a...) }
func Sprint(a ...any) string                               { return fmt.Sprint(a...) }
func Sprintln(a ...any) string                             { return fmt.Sprintln(a...) }
func Sprintf(f string, a ...any) string                    { return fmt.Sprintf(f, a...) }
func Errorf(f string, a ...any) error                      { return fmt.Errorf(f, a...) }
func Append(b []byte, a ...any) []byte                     { return append(b, fmt.Sprint(a...)...) }
func Appendf(b []byte, f string, a ...any) []byte          { return append(b, fmt.Sprintf(f, a...)...) }
func Appendln(b []byte, a ...any) []byte                   { return append(b, fmt.Sprintln(a...)...) }
