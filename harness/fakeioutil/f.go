// Package fakeioutil stands in for io/ioutil.
package fakeioutil

import (
	"io"

	"github.com/HannesKimara/cddlc/zzverif/fakeos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)         { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser         { return io.NopCloser(r) }
func ReadFile(p string) ([]byte, error)           { return fakeos.ReadFile(p) }
func ReadDir(p string) ([]fakeos.FileInfo, error) { return fakeos.ReadDirInfo(p) }
func WriteFile(p string, data []byte, perm fakeos.FileMode) error {
	return fakeos.WriteFile(p, data, perm)
}
func TempFile(dir, pattern string) (*fakeos.File, error) { return fakeos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)        { return fakeos.MkdirTemp(dir, pattern) }
