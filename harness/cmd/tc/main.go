// tc type-checks the library's packages for build configurations whose compiler is not installed here
// (build tags gc/gccgo, operating systems, architectures). Usage: tc REPO MODULE GOOS GOARCH COMPILER [TAGS]
// Exit 0: consistent; 1: an error in the library's own packages; 3: cannot tell (imports that cannot be resolved, ...).
package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

type imp struct {
	ctx    build.Context
	root   string
	mod    string
	fset   *token.FileSet
	std    types.Importer
	done   map[string]*types.Package
	errs   []string
	opaque bool // some import could not be resolved
}

func (m *imp) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := m.done[path]; ok {
		return p, nil
	}
	if path == m.mod || strings.HasPrefix(path, m.mod+"/") {
		return m.check(path), nil
	}
	if strings.Contains(strings.SplitN(path, "/", 2)[0], ".") {
		m.opaque = true
		return nil, fmt.Errorf("third-party package %s", path)
	}
	p, err := m.std.Import(path)
	if err != nil {
		m.opaque = true
	}
	return p, err
}

func (m *imp) check(path string) *types.Package {
	dir := filepath.Join(m.root, strings.TrimPrefix(path, m.mod))
	bp, err := m.ctx.ImportDir(dir, 0)
	if err != nil {
		m.errs = append(m.errs, err.Error())
		return nil
	}
	var fs []*ast.File
	third := false
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(m.fset, filepath.Join(dir, n), nil, 0)
		if err != nil {
			m.errs = append(m.errs, err.Error())
			return nil
		}
		for _, s := range f.Imports {
			v := strings.Trim(s.Path.Value, `"`)
			if strings.Contains(strings.SplitN(v, "/", 2)[0], ".") && !strings.HasPrefix(v, m.mod) {
				third = true
			}
		}
		fs = append(fs, f)
	}
	cfg := types.Config{Importer: m, Sizes: types.SizesFor("gc", m.ctx.GOARCH), FakeImportC: true, Error: func(err error) {
		if e, ok := err.(types.Error); ok && !e.Soft && !strings.Contains(e.Msg, "could not import") && !third {
			m.errs = append(m.errs, fmt.Sprintf("%s: %s", m.fset.Position(e.Pos), e.Msg))
		}
	}}
	p, _ := cfg.Check(path, m.fset, fs, nil)
	m.done[path] = p
	return p
}

func main() {
	a := os.Args[1:]
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH, ctx.Compiler, ctx.CgoEnabled = a[2], a[3], a[4], false
	if len(a) > 5 && a[5] != "" {
		ctx.BuildTags = strings.Split(a[5], ",")
	}
	fset := token.NewFileSet()
	m := &imp{ctx: ctx, root: a[0], mod: a[1], fset: fset, std: importer.ForCompiler(fset, "source", nil), done: map[string]*types.Package{}}
	for _, p := range []string{"", "/internal", "/ubc", "/cgo"} {
		if _, err := os.Stat(filepath.Join(a[0], p)); err == nil {
			m.Import(m.mod + p)
		}
	}
	if m.opaque {
		fmt.Println("unresolved imports:", m.errs)
		os.Exit(3)
	}
	if len(m.errs) > 0 {
		fmt.Println(strings.Join(m.errs, "\n"))
		os.Exit(1)
	}
}
