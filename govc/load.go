package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the SSA form of the code under verification, rebuilt from /repo on
// every run.
type Prog struct {
	reach sync.Map
	ssa   *ssa.Program
	pkgs  map[string]*ssa.Package // by package name: message, sizeof, ring, kafka
	funcs map[string]*ssa.Function
	types map[string]*types.Named
	dir   string

	globals map[*ssa.Global]*globalFacts
}

const modPath = "github.com/savaki/kafka"

// ghost is specification code added to package kafka for this run.
var ghost string

func LoadProg(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off"),
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes |
			packages.NeedTypesInfo | packages.NeedImports | packages.NeedTypesSizes | packages.NeedExportFile,
	}
	if ghost != "" {
		cfg.Overlay = map[string][]byte{dir + "/zz_ghost_verif.go": []byte(ghost)}
	}
	pkgs, err := packages.Load(cfg, "./...", "encoding/binary")
	if err != nil {
		return nil, err
	}
	p := &Prog{pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, types: map[string]*types.Named{}, dir: dir}
	for _, k := range pkgs {
		for _, e := range k.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa = prog
	for _, k := range ps {
		if k == nil {
			continue
		}
		p.pkgs[k.Pkg.Name()] = k
		for _, m := range k.Members {
			switch m := m.(type) {
			case *ssa.Function:
				p.funcs[funcName(m)] = m
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				p.types[k.Pkg.Name()+"."+n.Obj().Name()] = n
				for i := 0; i < n.NumMethods(); i++ {
					f := prog.FuncValue(n.Method(i))
					if f != nil {
						p.funcs[funcName(f)] = f
					}
				}
			}
		}
	}
	p.findGlobals()
	return p, nil
}

// funcName is e.g. message.(*Encoder).PutInt16, message.Foo.Size, sizeof.Bytes
func funcName(f *ssa.Function) string {
	if f.Parent() != nil {
		return funcName(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Name()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		ptr := false
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
			ptr = true
		}
		n := "?"
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name()
			if nt.Obj().Pkg() != nil {
				pk = nt.Obj().Pkg().Name()
			}
		}
		if ptr {
			return fmt.Sprintf("%s.(*%s).%s", pk, n, f.Name())
		}
		return fmt.Sprintf("%s.%s.%s", pk, n, f.Name())
	}
	return pk + "." + f.Name()
}

func (p *Prog) inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
	}
	return false
}
