package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Rewrite asks for the source files of some directories of the tree under test to
// be seen with imports replaced, so that the code as it stands runs against the
// harness's stand-ins for the operating system. It is kept in a harness
// directory's rewrite.json.
type Rewrite struct {
	// Dirs are the directories rewritten, with everything below them.
	Dirs []string `json:"dirs"`
	// Imports gives the harness package that stands in for an import.
	Imports map[string]string `json:"imports"`
	// Copies gives for a directory holding a command the name of a harness package
	// through which its functions can be called.
	Copies map[string]string `json:"copies"`
	// Codec gives for a package and a structure of it (dir.Type) the harness
	// package that gets functions to decode and encode it.
	Codec map[string]string `json:"codec"`
}

// rewriteFiles writes rewritten copies of the sources to tmp and adds them to files.
func rewriteFiles(dirs []string, files map[string]string, tmp string) error {
	for _, d := range dirs {
		b, err := os.ReadFile(filepath.Join(verif, "harness", d, "rewrite.json"))
		if err != nil {
			continue
		}
		var rw Rewrite
		if err := json.Unmarshal(b, &rw); err != nil {
			return fmt.Errorf("%s/rewrite.json: %v", d, err)
		}
		n := 0
		put := func(to string, src []byte) error {
			n++
			f := filepath.Join(tmp, fmt.Sprintf("rw%d_%s", n, filepath.Base(to)))
			files[to] = f
			return os.WriteFile(f, src, 0o644)
		}
		for from, to := range rw.Codec {
			dir, root, _ := strings.Cut(from, ".")
			src, err := genCodec(filepath.Join(repoDir, dir), to, root)
			if err != nil {
				return err
			}
			if err := put(filepath.Join(overlayAt, to, "zz_codec.go"), src); err != nil {
				return err
			}
		}
		for _, dir := range rw.Dirs {
			err := filepath.Walk(filepath.Join(repoDir, dir), func(p string, fi os.FileInfo, err error) error {
				if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
					return err
				}
				src, err := os.ReadFile(p)
				if err != nil {
					return err
				}
				out, name, err := rewriteImports(src, rw.Imports, "")
				if err != nil {
					return err
				}
				if err := put(p, out); err != nil {
					return err
				}
				rel, _ := filepath.Rel(repoDir, filepath.Dir(p))
				if to := rw.Copies[rel]; to != "" && name == "main" {
					out, _, err := rewriteImports(src, rw.Imports, to)
					if err != nil {
						return err
					}
					return put(filepath.Join(overlayAt, to, filepath.Base(p)), out)
				}
				return nil
			})
			if err != nil {
				return err
			}
		}
	}
	return nil
}

// rewriteImports replaces imports (and the package name if one is given), keeping
// the name by which the rest of the file knows each import.
func rewriteImports(src []byte, imports map[string]string, pkg string) ([]byte, string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ImportsOnly)
	if err != nil {
		return nil, "", err
	}
	type edit struct {
		from, to int
		text     string
	}
	var es []edit
	at := func(p token.Pos) int { return fset.Position(p).Offset }
	if pkg != "" {
		es = append(es, edit{at(f.Name.Pos()), at(f.Name.End()), pkg})
	}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to, ok := imports[path]
		if !ok {
			continue
		}
		text := strconv.Quote(zzMod + "/" + to)
		if im.Name == nil {
			name := path[strings.LastIndexByte(path, '/')+1:]
			if i := strings.IndexByte(name, '.'); i > 0 {
				name = name[:i]
			}
			text = name + " " + text
		}
		es = append(es, edit{at(im.Path.Pos()), at(im.Path.End()), text})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].from < es[j].from })
	var out bytes.Buffer
	pos := 0
	for _, e := range es {
		out.Write(src[pos:e.from])
		out.WriteString(e.text)
		pos = e.to
	}
	out.Write(src[pos:])
	return out.Bytes(), f.Name.Name, nil
}
