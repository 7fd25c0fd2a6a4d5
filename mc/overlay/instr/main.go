// instr REPO OUTDIR OVERLAY.json: put a scheduling point before every statement of the library's
// packages, in copies that replace the originals through the build overlay.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func main() {
	repo, out, ov := os.Args[1], os.Args[2], os.Args[3]
	b, err := os.ReadFile(ov)
	die(err)
	var o struct{ Replace map[string]string }
	die(json.Unmarshal(b, &o))
	n, site := 0, 0
	die(filepath.Walk(filepath.Join(repo, "metadata"), func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if i.IsDir() && (i.Name() == "testdata" || strings.HasPrefix(i.Name(), "_")) {
			return filepath.SkipDir
		}
		if i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		die(err)
		text := instrument(p, src, &site)
		if text == "" {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		q := filepath.Join(out, "stmt__"+strings.ReplaceAll(rel, "/", "__"))
		n++
		o.Replace[p] = q
		return os.WriteFile(q, []byte(text), 0o644)
	}))
	b, err = json.Marshal(o)
	die(err)
	die(os.WriteFile(ov, b, 0o644))
}

func instrument(name string, src []byte, site *int) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return "" // the build reports it
	}
	at := map[int]string{}
	list := func(l []ast.Stmt, entry bool) {
		for i, s := range l {
			*site++
			arg := *site * 2
			if entry && i == 0 {
				arg++
			}
			if _, is := s.(*ast.EmptyStmt); is {
				continue
			}
			at[fset.Position(s.Pos()).Offset] = fmt.Sprintf("verifpt.VerifStmt(%d); ", arg)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				list(x.Body.List, true)
			}
		case *ast.FuncLit:
			list(x.Body.List, true)
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
				off := fset.Position(s.Pos()).Offset
				if at[off] == "" {
					list([]ast.Stmt{s}, false)
				}
			}
		case *ast.CaseClause:
			list(x.Body, false)
		case *ast.CommClause:
			list(x.Body, false)
		}
		return true
	})
	if len(at) == 0 {
		return ""
	}
	at[fset.Position(f.Name.End()).Offset] = "; import verifpt \"syscall\""
	var offs []int
	for k := range at {
		offs = append(offs, k)
	}
	sort.Ints(offs)
	var sb strings.Builder
	last := 0
	for _, k := range offs {
		sb.Write(src[last:k])
		sb.WriteString(at[k])
		last = k
	}
	sb.Write(src[last:])
	return sb.String()
}
