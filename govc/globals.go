package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// What is known about a package variable of the module: whether anything but
// the initialisation of its package can change it, and whether it holds the
// error that initialisation made.
type globalFacts struct {
	fixed bool // nothing but init stores to it or to what it holds
	made  bool // an error from errors.New or fmt.Errorf, stored once
}

func (p *Prog) findGlobals() {
	{
		p.globals = map[*ssa.Global]*globalFacts{}
		stores := map[*ssa.Global][]ssa.Value{}
		for _, k := range p.pkgs {
			for _, m := range k.Members {
				if g, ok := m.(*ssa.Global); ok {
					p.globals[g] = &globalFacts{fixed: true}
				}
			}
		}
		for f := range ssautil.AllFunctions(p.ssa) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok || p.globals[g] == nil {
							continue
						}
						if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) && s.Val != ssa.Value(g) && initOf(f, g) {
							stores[g] = append(stores[g], s.Val)
							continue
						}
						if !readOnly(in, g) && !initOf(f, g) {
							p.globals[g].fixed = false
						}
					}
				}
			}
		}
		for g, fs := range p.globals {
			if len(stores[g]) != 1 {
				continue
			}
			v := stores[g][0]
			if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
				switch c.Call.StaticCallee().String() {
				case "errors.New", "fmt.Errorf":
					fs.made = true
				}
			}
		}
	}
}

// constError says whether g is a package variable of the module that holds,
// from initialisation on, an error made there for it.
func (p *Prog) constError(g *ssa.Global) bool {
	fs := p.globals[g]
	return fs != nil && fs.fixed && fs.made
}

func initOf(f *ssa.Function, g *ssa.Global) bool {
	return f.Pkg == g.Pkg && f.Parent() == nil && f == g.Pkg.Func("init")
}

// readOnly says whether in, of which v is an operand, only reads through v.
func readOnly(in ssa.Instruction, v ssa.Value) bool {
	var all func(ssa.Value) bool
	switch in := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return true
		}
		if shallow(in.Type()) {
			return true
		}
		all = func(w ssa.Value) bool {
			for _, r := range *w.Referrers() {
				if !readOnly(r, w) {
					return false
				}
			}
			return true
		}
		return all(in)
	case *ssa.FieldAddr, *ssa.IndexAddr:
		w := in.(ssa.Value)
		for _, r := range *w.Referrers() {
			if !readOnly(r, w) {
				return false
			}
		}
		return true
	case *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Extract, *ssa.Next:
		w := in.(ssa.Value)
		if shallow(w.Type()) {
			return true
		}
		for _, r := range *w.Referrers() {
			if !readOnly(r, w) {
				return false
			}
		}
		return true
	case *ssa.Range:
		for _, r := range *in.Referrers() {
			if !readOnly(r, in) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return true
			}
		}
		return false
	case *ssa.BinOp:
		return true // comparison with nil
	}
	return false
}

// shallow: a value of the type is not a way to change memory it shares with
// others. Interface values are what an error variable holds.
func shallow(t types.Type) bool {
	switch t := under(t).(type) {
	case *types.Basic, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !shallow(t.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return shallow(t.Elem())
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if !shallow(t.At(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}
