// instr inserts a scheduling point before every statement of the Go files of a scratch copy of the
// library: instr ROOT MODULE. It prints the number of sites and writes ROOT/vsched-sites.txt.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	root, mod := os.Args[1], os.Args[2]
	site := 0
	var sites []string
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := fi.Name(); p != root && (b == "test" || b == "vsched" || b == "testdata" || strings.HasPrefix(b, ".")) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		type ins struct {
			off  int
			text string
		}
		var list []ins
		add := func(st []ast.Stmt) {
			for _, s := range st {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					continue
				}
				site++
				pos := fs.Position(s.Pos())
				sites = append(sites, fmt.Sprintf("%d %s:%d", site, strings.TrimPrefix(p, root+"/"), pos.Line))
				list = append(list, ins{pos.Offset, fmt.Sprintf("vsched.Y(%d);", site)})
			}
		}
		nosplit := map[*ast.BlockStmt]bool{}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil && fd.Body != nil {
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") {
						nosplit[fd.Body] = true
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
				fmt.Fprintln(os.Stderr, "the library uses goroutines or channels itself:", fs.Position(n.Pos()))
				os.Exit(4)
			case *ast.BlockStmt:
				if nosplit[b] {
					return false
				}
				add(b.List)
			case *ast.CaseClause:
				add(b.Body)
			case *ast.CommClause:
				add(b.Body)
			}
			return true
		})
		// package sync becomes the scheduler-aware stand-in
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				o := fs.Position(im.Path.Pos()).Offset
				name := "sync "
				if im.Name != nil {
					name = ""
				}
				list = append(list, ins{o, name + `"` + mod + `/vsched"/*`}, ins{o + len(im.Path.Value), "*/"})
			}
		}
		if len(list) == 0 {
			return nil
		}
		used := false
		for _, l := range list {
			used = used || strings.HasPrefix(l.text, "vsched.Y")
		}
		if used {
			e := fs.Position(f.Name.End()).Offset
			list = append(list, ins{e, `; import vsched "` + mod + `/vsched"`})
		}
		sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
		var out []byte
		last := 0
		for _, l := range list {
			out = append(out, src[last:l.off]...)
			out = append(out, l.text...)
			last = l.off
		}
		out = append(out, src[last:]...)
		return os.WriteFile(p, out, 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.WriteFile(filepath.Join(root, "vsched-sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644)
	fmt.Println(site)
}
