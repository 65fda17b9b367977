package main

// Mechanical instrumentation for the concurrency harnesses: a call of
// zzYield, which sometimes gives up the processor, goes in front of every
// statement. The result is used through an overlay and lives in a temporary
// directory; the verifier itself works on the original text.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const yieldSrc = `package PKG

import (
	zzrand "math/rand/v2"
	zzruntime "runtime"
	zzatomic "sync/atomic"
	zztime "time"
)

// ZZRate is the rate of yields in 1/1024, set before the goroutines start.
var ZZRate uint32 = 200

// zzHot is a statement at which goroutines linger, a different one every few
// milliseconds.
var zzHot uint32

func zzYield(id uint32) {
	r := zzrand.Uint32()
	if ZZRate > 0 {
		if r>>22 == 1 {
			zzatomic.StoreUint32(&zzHot, zzrand.Uint32()%(zzPoints+zzPoints/4+1))
		}
		if zzatomic.LoadUint32(&zzHot) == id && r&3 != 0 {
			zztime.Sleep(zztime.Duration(100+r>>4&1023) * zztime.Microsecond)
			return
		}
	}
	if r&1023 >= ZZRate {
		return
	}
	if (r>>10)&255 == 0 {
		zztime.Sleep(zztime.Duration((r>>18)&63) * zztime.Microsecond)
		return
	}
	zzruntime.Gosched()
}
`

func instrumentPkg(dir, tmp string, repl map[string]string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	pkg := ""
	points := 0
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		for _, cg := range file.Comments {
			if cg.Pos() < file.Package && strings.Contains(cg.Text(), "+build ignore") {
				pkg = ""
			}
		}
		pkg = file.Name.Name
		// comments would be misplaced by the printer
		file.Comments = nil
		call := func() ast.Stmt {
			points++
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("zzYield"), Args: []ast.Expr{ast.NewIdent(strconv.Itoa(points))}}}
		}
		weave := func(list []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range list {
				out = append(out, call(), s)
			}
			return out
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				for _, s := range n.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				n.List = weave(n.List)
			case *ast.CaseClause:
				n.Body = weave(n.Body)
			case *ast.CommClause:
				n.Body = weave(n.Body)
			}
			return true
		})
		var buf bytes.Buffer
		if err := printer.Fprint(&buf, fset, file); err != nil {
			return err
		}
		out := filepath.Join(tmp, "inst_"+filepath.Base(f))
		if err := os.WriteFile(out, buf.Bytes(), 0o644); err != nil {
			return err
		}
		repl[f] = out
	}
	y := filepath.Join(tmp, "zz_yield.go")
	if err := os.WriteFile(y, []byte(strings.Replace(yieldSrc, "PKG", pkg, 1)+fmt.Sprintf("\nconst zzPoints = %d\n", points)), 0o644); err != nil {
		return err
	}
	repl[filepath.Join(dir, "zz_verif_yield.go")] = y
	return nil
}
