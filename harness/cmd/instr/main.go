// Command instr writes instrumented copies of goji's packages, with a call of
// vfsched.Y before every statement, and a go build overlay that uses them.
// Insertions are made within existing lines, so positions stay meaningful.
//
//	instr REPO OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var pkgs = []string{".", "bind", "graceful", "graceful/listener", "web", "web/middleware", "web/mutil"}

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	var sites []string
	for _, p := range pkgs {
		files, _ := filepath.Glob(filepath.Join(repo, p, "*.go"))
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fatal(err)
			}
			res, n := instrument(f, src, &sites)
			if n == 0 {
				continue
			}
			dst := filepath.Join(out, strings.ReplaceAll(p, "/", "_")+"__"+filepath.Base(f))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				fatal(err)
			}
			replace[f] = dst
		}
	}
	write(filepath.Join(out, "overlay.json"), map[string]any{"Replace": replace})
	write(filepath.Join(out, "sites.json"), sites)
	fmt.Printf("%d files, %d sites\n", len(replace), len(sites))
}

func fatal(err error) { fmt.Fprintln(os.Stderr, err); os.Exit(1) }
func write(p string, v any) {
	b, _ := json.Marshal(v)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fatal(err)
	}
}

func instrument(name string, src []byte, sites *[]string) ([]byte, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		fatal(err)
	}
	type ins struct {
		off  int
		text string
	}
	var l []ins
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			pos := fset.Position(s.Pos())
			id := len(*sites)
			*sites = append(*sites, fmt.Sprintf("%s:%d", name, pos.Line))
			l = append(l, ins{pos.Offset, fmt.Sprintf("vfsched.Y(%d); ", id)})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	if len(l) == 0 {
		return nil, 0
	}
	l = append(l, ins{fset.Position(f.Name.End()).Offset, `; import vfsched "vh/vfsched"`})
	sort.SliceStable(l, func(i, j int) bool { return l[i].off < l[j].off })
	var b strings.Builder
	at := 0
	for _, i := range l {
		b.Write(src[at:i.off])
		b.WriteString(i.text)
		at = i.off
	}
	b.Write(src[at:])
	return []byte(b.String()), len(l)
}
