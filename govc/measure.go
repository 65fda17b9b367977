package main

// Termination: a loop must have a measure, an integer that every iteration makes smaller and that
// stays above a bound. Candidates are the distances between the two sides of the comparisons that
// may end the loop, as functions of the state at the loop header.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type measure struct {
	text string
	eval func(st *State) *Term // st is positioned at the loop header
}

// headVal evaluates v, a value of the loop body, in a state at the loop header; additions are
// mathematical. It gives nil for what is not a function of the header state.
func (x *Exec) headVal(st *State, v ssa.Value, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, n int) Val {
	if n == 0 {
		return nil
	}
	in, isInstr := v.(ssa.Instruction)
	if !isInstr || !body[in.Block()] || in.Parent() != head.Parent() {
		if _, ok := v.(*ssa.Const); ok {
			return x.get(st, v)
		}
		if r, ok := st.top().env[v]; ok {
			return r
		}
		return nil
	}
	if ph, ok := v.(*ssa.Phi); ok && in.Block() == head {
		return st.top().env[ph]
	}
	sub := func(v ssa.Value) Val { return x.headVal(st, v, head, body, n-1) }
	num := func(v ssa.Value) *Term {
		t, ok := sub(v).(*Term)
		if !ok || t.sort != "Int" {
			return nil
		}
		return t
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		a, b := num(v.X), num(v.Y)
		if a == nil || b == nil {
			return nil
		}
		switch v.Op {
		case token.ADD:
			return x.c.Add(a, b)
		case token.SUB:
			return x.c.Sub(a, b)
		}
	case *ssa.Convert:
		if isInteger(v.Type()) && isInteger(v.X.Type()) {
			if t := num(v.X); t != nil {
				return t
			}
		}
	case *ssa.Field:
		if s := sub(v.X); s != nil {
			return x.field(st, s.(*StructV), v.Field)
		}
	case *ssa.FieldAddr:
		if p, ok := sub(v.X).(*PtrV); ok {
			return p.step(Step{field: v.Field}, v.Type().(*types.Pointer).Elem())
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if p, ok := sub(v.X).(*PtrV); ok {
				return x.load(st, p)
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			switch s := sub(v.Call.Args[0]).(type) {
			case *SliceV:
				return s.len
			}
		}
	}
	return nil
}

func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// measures are the candidates for a loop; total reports that the loop ends by the rules of the language.
func (x *Exec) measures(head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (ms []*measure, total bool) {
	add := func(text string, a, b ssa.Value, k int64) {
		ms = append(ms, &measure{text, func(st *State) (t *Term) {
			defer func() {
				if recover() != nil {
					t = nil
				}
			}()
			va, ok1 := x.headVal(st, a, head, body, 12).(*Term)
			vb, ok2 := x.headVal(st, b, head, body, 12).(*Term)
			if !ok1 || !ok2 || va.sort != "Int" || vb.sort != "Int" {
				return nil
			}
			return x.c.Add(x.c.Sub(va, vb), x.c.Int(k))
		}})
	}
	for _, b := range head.Parent().Blocks {
		if !body[b] || len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || body[b.Succs[0]] && body[b.Succs[1]] {
			continue
		}
		if ex, ok := iff.Cond.(*ssa.Extract); ok && b == head {
			if _, ok := ex.Tuple.(*ssa.Next); ok {
				return nil, true // range over a map or a string
			}
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isInteger(cmp.X.Type()) {
			continue
		}
		switch cmp.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			add(fmt.Sprintf("%s - %s", name(cmp.Y), name(cmp.X)), cmp.Y, cmp.X, 0)
			add(fmt.Sprintf("%s - %s", name(cmp.X), name(cmp.Y)), cmp.X, cmp.Y, 0)
		}
	}
	return
}

func name(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return c.Value.String()
	}
	if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
		return p.Comment
	}
	return v.Name()
}

// decreases adds the obligations that the loop comes to an end: hs is the state at the header,
// backs are the states that reach it again.
func (x *Exec) decreases(hs *State, backs []*State, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	if x.partial || len(backs) == 0 {
		return
	}
	ms, total := x.measures(head, body)
	if total {
		return
	}
	c := x.c
	goal := func(m *measure, o *State) *Term {
		a, b := m.eval(hs), m.eval(o)
		if a == nil || b == nil {
			return nil
		}
		// two below the bound of the comparison: a step may overshoot
		return c.And(c.Le(c.Int(-2), a), c.Lt(b, a))
	}
next:
	for _, m := range ms {
		for _, o := range backs {
			if o.dead {
				continue
			}
			g := goal(m, o)
			if g == nil || !x.valid(o, g) {
				continue next
			}
		}
		for _, o := range backs {
			if !o.dead {
				x.assert(o, goal(m, o), "termination", "loop-ends", "each iteration makes smaller: "+m.text)
			}
		}
		return
	}
	x.unsupported(backs[0], "no measure shows that the loop ends")
}

// reaches reports whether a call of f may lead to a call of g, through static calls and the
// functions f mentions.
func (p *Prog) reaches(f, g *ssa.Function) bool {
	if v, ok := p.reach.Load(f); ok {
		return v.(map[*ssa.Function]bool)[g]
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if !p.inRepo(f) {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if h, ok := (*o).(*ssa.Function); ok {
						walk(h)
					}
				}
			}
		}
	}
	walk(f)
	p.reach.Store(f, seen)
	return seen[g]
}
