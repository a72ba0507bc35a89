// Package parser (go/parser): files come from the simulated file system.
package parser

import (
	"bytes"
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"io/fs"
	"path/filepath"
	"strings"

	"github.com/hsiaosiyuan0/mole/zzsim/shim/os"
)

func ParseFile(fset *token.FileSet, filename string, src interface{}, mode parser.Mode) (*ast.File, error) {
	if src == nil {
		b, err := os.ReadFile(filename)
		if err != nil {
			return nil, err
		}
		src = b
	} else if r, ok := src.(io.Reader); ok {
		var b bytes.Buffer
		if _, err := b.ReadFrom(r); err != nil {
			return nil, err
		}
		src = b.Bytes()
	}
	return parser.ParseFile(fset, filename, src, mode)
}

func ParseDir(fset *token.FileSet, path string, filter func(fs.FileInfo) bool, mode parser.Mode) (pkgs map[string]*ast.Package, first error) {
	list, err := os.ReadDir(path)
	if err != nil {
		return nil, err
	}
	pkgs = make(map[string]*ast.Package)
	for _, d := range list {
		if d.IsDir() || !strings.HasSuffix(d.Name(), ".go") {
			continue
		}
		if filter != nil {
			info, err := d.Info()
			if err != nil {
				return nil, err
			}
			if !filter(info) {
				continue
			}
		}
		filename := filepath.Join(path, d.Name())
		if src, err := ParseFile(fset, filename, nil, mode); err == nil {
			name := src.Name.Name
			pkg, found := pkgs[name]
			if !found {
				pkg = &ast.Package{Name: name, Files: make(map[string]*ast.File)}
				pkgs[name] = pkg
			}
			pkg.Files[filename] = src
		} else if first == nil {
			first = err
		}
	}
	return
}

func ParseExprFrom(fset *token.FileSet, filename string, src interface{}, mode parser.Mode) (ast.Expr, error) {
	if src == nil {
		return nil, errors.New("sim: ParseExprFrom without source")
	}
	return parser.ParseExprFrom(fset, filename, src, mode)
}
