package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// deref checks a pointer value.
func (x *Exec) deref(st *State, v Val) *PtrV {
	switch p := v.(type) {
	case *PtrV:
		if r, ok := x.refPtr[p.obj]; ok && !x.opts["nonnil"] {
			if r.op == "var" && len(r.name) > 7 && r.name[:7] == "global:" {
				return p
			}
			nn := x.c.Not(x.c.Eq(r, x.nilRef()))
			if x.quick(st, nn) != 1 {
				x.assert(st, nn, "panic", "no-panic", "nil pointer dereference")
			}
		}
		return p
	case NilPtr:
		x.assert(st, x.c.False, "panic", "no-panic", "nil pointer dereference")
		st.dead = true
		return nil
	}
	x.unsupported(st, fmt.Sprintf("dereference of %T", v))
	return nil
}

func (x *Exec) idx(st *State, i, n *Term) {
	c := x.c
	x.assert(st, c.And(c.Le(c.Int(0), i), c.Lt(i, n)), "panic", "no-panic", "index out of range")
}

// instr executes a straight-line instruction; forked reports that the
// returned states replace st.
func (x *Exec) instr(st *State, in ssa.Instruction) ([]*State, bool) {
	c := x.c
	f := st.top()
	set := func(v ssa.Value, r Val) { f.env[v] = r }
	bad := func(v ssa.Value, what string) {
		x.unsupported(st, what)
		set(v, x.fresh(st, "unk", v.Type()))
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		set(in, x.alloc(st, t, x.zero(t)))
	case *ssa.Store:
		if p := x.deref(st, x.get(st, in.Addr)); p != nil {
			if h, ok := x.extra["storeval"].(func(*State, *PtrV, Val) bool); ok && h(st, p, x.get(st, in.Val)) {
				return nil, false
			}
			if k := x.onStore(st, p); k {
				x.store(st, p, x.get(st, in.Val))
			}
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := x.deref(st, x.get(st, in.X))
			if p == nil {
				set(in, x.fresh(st, "unk", in.Type()))
				return nil, false
			}
			if h, ok := x.extra["loadval"].(func(*State, *PtrV) (Val, bool)); ok {
				if v, done := h(st, p); done {
					set(in, v)
					return nil, false
				}
			}
			x.onLoad(st, p)
			set(in, x.load(st, p))
		case token.NOT:
			set(in, c.Not(x.term(st, in.X)))
		case token.SUB:
			set(in, x.wrap(st, c.Neg(x.term(st, in.X)), in.Type()))
		case token.XOR: // bitwise complement: -x-1
			set(in, x.wrap(st, c.Sub(c.Int(-1), x.term(st, in.X)), in.Type()))
		case token.ARROW:
			if m := x.models["recv"]; m != nil {
				cc := &Call{instr: in, name: "recv", args: []Val{x.get(st, in.X)}, argT: []types.Type{in.X.Type()}, resT: in.Type()}
				return m(x, st, cc), true
			}
			bad(in, "channel receive")
		default:
			bad(in, "unary "+in.Op.String())
		}
	case *ssa.BinOp:
		set(in, x.binop(st, in.Op, x.get(st, in.X), x.get(st, in.Y), in.X.Type(), in.Type()))
	case *ssa.FieldAddr:
		p := x.deref(st, x.get(st, in.X))
		if p == nil {
			set(in, x.fresh(st, "unk", in.Type()))
			return nil, false
		}
		set(in, p.step(Step{field: in.Field}, in.Type().(*types.Pointer).Elem()))
	case *ssa.Field:
		set(in, x.field(st, x.get(st, in.X).(*StructV), in.Field))
	case *ssa.IndexAddr:
		i := x.term(st, in.Index)
		el := in.Type().(*types.Pointer).Elem()
		switch b := x.get(st, in.X).(type) {
		case *SliceV:
			x.idx(st, i, b.len)
			if b.base == nil {
				st.dead = true
				return nil, false
			}
			set(in, b.base.step(Step{field: -1, idx: c.Add(b.off, i)}, el))
		case *PtrV:
			n := under(in.X.Type().(*types.Pointer).Elem()).(*types.Array).Len()
			x.idx(st, i, c.Int(n))
			set(in, b.step(Step{field: -1, idx: i}, el))
		default:
			bad(in, "index address")
		}
	case *ssa.Index:
		i := x.term(st, in.Index)
		switch t := under(in.X.Type()).(type) {
		case *types.Array:
			x.idx(st, i, c.Int(t.Len()))
			set(in, x.unreify(st, c.Select(x.term(st, in.X), i), in.Type()))
		case *types.Basic:
			s := x.term(st, in.X)
			x.idx(st, i, x.strLen(s))
			set(in, x.intRange(c.App("strat", "Int", s, i), in.Type()))
		default:
			bad(in, "index")
		}
	case *ssa.Slice:
		x.slice(st, in)
	case *ssa.MakeSlice:
		n, k := x.term(st, in.Len), x.term(st, in.Cap)
		x.assert(st, c.And(c.Le(c.Int(0), n), c.Le(n, k)), "panic", "no-panic", "makeslice: length out of range")
		el := under(in.Type()).(*types.Slice).Elem()
		if h, ok := x.extra["onmake"].(func(*State, *Term, types.Type)); ok {
			h(st, k, el)
		}
		p := x.alloc(st, types.NewArray(el, -1), c.ConstArr(x.reify(st, x.zero(el), el)))
		set(in, &SliceV{base: p, off: c.Int(0), len: n, cap: k, isnil: c.False, elem: el})
	case *ssa.MakeMap:
		r := x.newRef(st, "map")
		st.ghost["made:"+r.name] = x.c.True
		set(in, r)
	case *ssa.MakeChan:
		r := x.newRef(st, "chan")
		st.ghost["chancap:"+r.name] = x.term(st, in.Size)
		st.ghost["made:"+r.name] = x.c.True
		set(in, r)
	case *ssa.MakeClosure:
		fv := &FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fv.bind = append(fv.bind, x.get(st, b))
		}
		set(in, fv)
	case *ssa.MakeInterface:
		set(in, &IfaceV{typ: in.X.Type(), val: x.get(st, in.X)})
	case *ssa.ChangeInterface:
		set(in, x.get(st, in.X))
	case *ssa.ChangeType:
		v := x.get(st, in.X)
		if s, ok := v.(*StructV); ok {
			n := &StructV{typ: in.Type()}
			for i := range s.fields {
				n.fields = append(n.fields, x.field(st, s, i))
			}
			v = n
		}
		set(in, v)
	case *ssa.Convert:
		x.convert(st, in)
	case *ssa.TypeAssert:
		return x.typeAssert(st, in)
	case *ssa.Extract:
		v := x.get(st, in.Tuple)
		tv, ok := v.(*TupleV)
		if !ok {
			bad(in, "extract")
			return nil, false
		}
		set(in, tv.vs[in.Index])
	case *ssa.Lookup:
		if b, ok := under(in.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			i, s := x.term(st, in.Index), x.term(st, in.X)
			x.idx(st, i, x.strLen(s))
			set(in, x.intRange(c.App("strat", "Int", s, i), in.Type()))
			return nil, false
		}
		if m := x.models["maplookup"]; m != nil {
			cc := &Call{instr: in, args: []Val{x.get(st, in.X), x.get(st, in.Index)}, argT: []types.Type{in.X.Type(), in.Index.Type()}, resT: in.Type()}
			return m(x, st, cc), true
		}
		bad(in, "map lookup")
	case *ssa.MapUpdate:
		if m := x.models["mapupdate"]; m != nil {
			cc := &Call{args: []Val{x.get(st, in.Map), x.get(st, in.Key), x.get(st, in.Value)}, argT: []types.Type{in.Map.Type(), in.Key.Type(), in.Value.Type()}}
			return m(x, st, cc), true
		}
		x.unsupported(st, "map update")
	case *ssa.Send:
		if m := x.models["send"]; m != nil {
			cc := &Call{args: []Val{x.get(st, in.Chan), x.get(st, in.X)}, argT: []types.Type{in.Chan.Type(), in.X.Type()}}
			return m(x, st, cc), true
		}
		x.unsupported(st, "channel send")
	case *ssa.Range:
		if m := x.models["range"]; m != nil {
			cc := &Call{instr: in, args: []Val{x.get(st, in.X)}, argT: []types.Type{in.X.Type()}, resT: in.Type()}
			return m(x, st, cc), true
		}
		bad(in, "range over map or string")
	case *ssa.Next:
		if m := x.models["next"]; m != nil {
			cc := &Call{instr: in, args: []Val{x.get(st, in.Iter)}, resT: in.Type()}
			return m(x, st, cc), true
		}
		bad(in, "map iteration")
	default:
		if v, ok := in.(ssa.Value); ok {
			bad(v, fmt.Sprintf("%T", in))
		} else {
			x.unsupported(st, fmt.Sprintf("%T", in))
		}
	}
	return nil, false
}

func (x *Exec) newRef(st *State, hint string) *Term {
	t := x.c.Fresh(hint, "Ref")
	x.c.Attach(t, x.c.Not(x.c.Eq(t, x.nilRef())))
	x.c.Attach(t, x.c.Eq(x.c.App("refid", "Int", t), x.c.Int(int64(x.newObjID()))))
	return t
}

// onStore / onLoad let a concurrency model intercept accesses.
func (x *Exec) onStore(st *State, p *PtrV) bool {
	if h, ok := x.extra["onstore"].(func(*State, *PtrV) bool); ok {
		return h(st, p)
	}
	return true
}
func (x *Exec) onLoad(st *State, p *PtrV) {
	if h, ok := x.extra["onload"].(func(*State, *PtrV)); ok {
		h(st, p)
	}
}

func (x *Exec) slice(st *State, in *ssa.Slice) {
	c := x.c
	f := st.top()
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.term(st, v)
	}
	switch b := x.get(st, in.X).(type) {
	case *SliceV:
		lo := opt(in.Low, c.Int(0))
		hi := opt(in.High, b.len)
		mx := opt(in.Max, b.cap)
		cut := (b.cut || in.High != nil && hi != b.len) && in.Max == nil
		x.assert(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, b.cap)), "panic", "no-panic", "slice bounds out of range")
		f.env[in] = &SliceV{base: b.base, off: c.Add(b.off, lo), len: c.Sub(hi, lo), cap: c.Sub(mx, lo), isnil: b.isnil, elem: b.elem, cut: cut}
	case *PtrV:
		at := under(in.X.Type().(*types.Pointer).Elem()).(*types.Array)
		n := c.Int(at.Len())
		lo := opt(in.Low, c.Int(0))
		hi := opt(in.High, n)
		mx := opt(in.Max, n)
		x.assert(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)), "panic", "no-panic", "slice bounds out of range")
		f.env[in] = &SliceV{base: b, off: lo, len: c.Sub(hi, lo), cap: c.Sub(mx, lo), isnil: c.False, elem: at.Elem(), cut: in.High != nil && hi != n && in.Max == nil}
	case *Term:
		lo := opt(in.Low, c.Int(0))
		hi := opt(in.High, x.strLen(b))
		x.assert(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, x.strLen(b))), "panic", "no-panic", "slice bounds out of range")
		t := c.App("substr", "Str", b, lo, hi)
		x.assume(st, c.Eq(x.strLen(t), c.Sub(hi, lo)))
		f.env[in] = t
	default:
		x.unsupported(st, "slice expression")
		f.env[in] = x.fresh(st, "unk", in.Type())
	}
}

func (x *Exec) convert(st *State, in *ssa.Convert) {
	c := x.c
	f := st.top()
	v := x.get(st, in.X)
	_, _, fi := intType(in.X.Type())
	_, _, ti := intType(in.Type())
	if fi && ti {
		f.env[in] = x.wrap(st, v.(*Term), in.Type())
		return
	}
	if s, ok := v.(*SliceV); ok && sortOf(in.Type()) == "Str" && sortOf(s.elem) == "Int" {
		f.env[in] = x.sliceStr(st, s)
		return
	}
	if sl, ok := under(in.Type()).(*types.Slice); ok && sortOf(in.X.Type()) == "Str" {
		s := v.(*Term)
		arr := c.App("strarr", arrSort("Int"), s)
		n := x.strLen(s)
		x.assume(st, c.Eq(x.mkstr(arr, c.Int(0), n), s))
		p := x.alloc(st, types.NewArray(sl.Elem(), -1), arr)
		f.env[in] = &SliceV{base: p, off: c.Int(0), len: n, cap: n, isnil: c.False, elem: sl.Elem()}
		return
	}
	x.unsupported(st, "conversion "+typeName(in.X.Type())+" to "+typeName(in.Type()))
	f.env[in] = x.fresh(st, "unk", in.Type())
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) ([]*State, bool) {
	f := st.top()
	v := x.get(st, in.X)
	c := x.c
	if iv, ok := v.(*IfaceV); ok {
		okv := false
		var r Val
		if it, isI := under(in.AssertedType).(*types.Interface); isI {
			okv = types.Implements(iv.typ, it)
			r = iv
		} else {
			okv = types.Identical(iv.typ, in.AssertedType)
			r = iv.val
		}
		if !okv {
			r = x.zero(in.AssertedType)
		}
		if in.CommaOk {
			f.env[in] = &TupleV{[]Val{r, c.Bool(okv)}}
			return nil, false
		}
		x.assert(st, c.Bool(okv), "panic", "no-panic", "type assertion")
		f.env[in] = r
		return nil, false
	}
	t := x.reify(st, v, in.X.Type())
	okt := c.App("implements:"+typeName(in.AssertedType), "Bool", t)
	c.Attach(okt, c.Imp(okt, c.Not(c.Eq(t, x.nilIface()))))
	var r Val = t
	if _, isI := under(in.AssertedType).(*types.Interface); !isI {
		r = x.unreify(st, c.App("payload:"+typeName(in.AssertedType), sortOf(in.AssertedType), t), in.AssertedType)
	}
	if in.CommaOk {
		f.env[in] = &TupleV{[]Val{r, okt}}
		return nil, false
	}
	x.assert(st, okt, "panic", "no-panic", "type assertion")
	f.env[in] = r
	return nil, false
}

func (x *Exec) builtin(st *State, cc *Call) []*State {
	c := x.c
	switch cc.builtin {
	case "len", "cap":
		switch v := cc.args[0].(type) {
		case *SliceV:
			if cc.builtin == "cap" {
				return x.ret(st, cc, v.cap)
			}
			return x.ret(st, cc, v.len)
		case *Term:
			if v.sort == "Str" {
				return x.ret(st, cc, x.strLen(v))
			}
		}
		if m := x.models["maplen"]; m != nil {
			return m(x, st, cc)
		}
	case "append":
		if r := x.appendSlice(st, cc); r != nil {
			return x.ret(st, cc, r)
		}
	case "copy":
		if m := x.models[cc.name]; m != nil {
			return m(x, st, cc)
		}
		if r := x.copySlice(st, cc); r != nil {
			return x.ret(st, cc, r)
		}
	case "min", "max":
		t := x.reify(st, cc.args[0], cc.argT[0])
		if t.sort == "Int" {
			for i := 1; i < len(cc.args); i++ {
				u := cc.args[i].(*Term)
				p := c.Le(t, u)
				if cc.builtin == "max" {
					p = c.Le(u, t)
				}
				t = c.Ite(p, t, u)
			}
			return x.ret(st, cc, t)
		}
	case "delete", "close", "clear":
		if m := x.models[cc.name]; m != nil {
			return m(x, st, cc)
		}
	case "print", "println":
		return x.ret(st, cc, nil)
	case "recover":
		return x.ret(st, cc, x.nilIface())
	}
	x.unsupported(st, "builtin "+cc.builtin)
	return x.ret(st, cc, x.fresh(st, "unk", cc.resT))
}

// appendSlice models append of a constant number of elements, or of a whole
// slice to an empty one.
func (x *Exec) appendSlice(st *State, cc *Call) Val {
	c := x.c
	a, ok := cc.args[0].(*SliceV)
	if !ok || len(cc.args) < 2 {
		return nil
	}
	b, ok := cc.args[1].(*SliceV)
	if !ok {
		return nil
	}
	zeroOff := a.off.op == "int" && a.off.ival.Sign() == 0
	if b.len.op == "int" && b.len.ival.IsInt64() && b.len.ival.Int64() <= 16 && (zeroOff || a.base == nil) {
		n := int(b.len.ival.Int64())
		var content *Term
		if a.base == nil {
			content = c.ConstArr(x.reify(st, x.zero(a.elem), a.elem))
		} else {
			content = x.sliceContent(st, a)
		}
		for i := 0; i < n; i++ {
			e := c.Select(x.sliceContent(st, b), c.Add(b.off, c.Int(int64(i))))
			content = c.Store(content, c.Add(a.len, c.Int(int64(i))), e)
		}
		if n == 0 {
			return a
		}
		p := x.alloc(st, types.NewArray(a.elem, -1), content)
		nl := c.Add(a.len, b.len)
		k := c.Fresh("cap", "Int")
		c.Attach(k, c.Le(nl, k))
		c.Attach(k, c.Le(k, c.Big(maxLen)))
		x.assume(st, c.Le(nl, c.Big(maxLen)))
		x.appended(st, a, p)
		return &SliceV{base: p, off: c.Int(0), len: nl, cap: k, isnil: c.False, elem: a.elem}
	}
	if (a.base == nil || x.quick(st, c.Eq(a.len, c.Int(0))) == 1) && b.base != nil {
		// a copy of b
		content := x.sliceContent(st, b)
		es := sortOf(b.elem)
		arr := content
		if !(b.off.op == "int" && b.off.ival.Sign() == 0) {
			arr = c.App("shift:"+es, arrSort(es), content, b.off)
			if es == "Int" {
				x.assume(st, c.Eq(x.mkstr(arr, c.Int(0), b.len), x.mkstr(content, b.off, b.len)))
			}
		}
		p := x.alloc(st, types.NewArray(a.elem, -1), arr)
		k := c.Fresh("cap", "Int")
		c.Attach(k, c.Le(b.len, k))
		x.appended(st, a, p)
		return &SliceV{base: p, off: c.Int(0), len: b.len, cap: k, isnil: c.And(a.isnil, c.Eq(b.len, c.Int(0))), elem: a.elem}
	}
	return nil
}

// appended records that the result of appending to a may lie in a's memory:
// further writes to one show in the other, and what lay beyond the end of a
// is overwritten.
func (x *Exec) appended(st *State, a *SliceV, p *PtrV) {
	if a.base == nil || x.quick(st, x.c.Eq(a.cap, a.len)) == 1 {
		return
	}
	o := x.obj(st, a.base.obj)
	if a.cut {
		if !o.fresh {
			x.unsupported(st, "append may overwrite memory of the caller")
		}
		if h, ok := x.extra["onstore"].(func(*State, *PtrV) bool); ok {
			h(st, a.base)
		}
	}
	x.spoil(st, o.grp, a.base.obj)
	if a.cut {
		k := *x.obj(st, a.base.obj)
		k.stale = true
		st.heap[k.id] = &k
	}
	x.share(st, a.base.obj, p.obj)
}

// copySlice models copy exactly for byte strings through mkstr when it fills
// the destination from its start.
func (x *Exec) copySlice(st *State, cc *Call) Val {
	c := x.c
	d, ok := cc.args[0].(*SliceV)
	if !ok || d.base == nil {
		return nil
	}
	var src, sl *Term
	var so *Term
	switch s := cc.args[1].(type) {
	case *SliceV:
		if s.base == nil {
			return c.Int(0)
		}
		src, so, sl = x.sliceContent(st, s), s.off, s.len
	case *Term:
		if s.sort != "Str" {
			return nil
		}
		src, so, sl = c.App("strarr", arrSort("Int"), s), c.Int(0), x.strLen(s)
		x.assume(st, c.Eq(x.mkstr(src, so, sl), s))
	}
	n := c.Ite(c.Le(sl, d.len), sl, d.len)
	if x.valid(st, c.Le(sl, d.len)) {
		n = sl
	} else if x.valid(st, c.Le(d.len, sl)) {
		n = d.len
	}
	if n.op == "int" && n.ival.IsInt64() && n.ival.Int64() <= 64 {
		arr := x.sliceContent(st, d)
		for i := int64(0); i < n.ival.Int64(); i++ {
			arr = c.Store(arr, c.Add(d.off, c.Int(i)), c.Select(src, c.Add(so, c.Int(i))))
		}
		x.store(st, d.base, arr)
		return n
	}
	if sortOf(d.elem) != "Int" {
		return nil
	}
	old := x.sliceContent(st, d)
	arr := c.App("blit", arrSort("Int"), old, d.off, src, so, n)
	x.assume(st, c.Eq(x.mkstr(arr, d.off, n), x.mkstr(src, so, n)))
	x.store(st, d.base, arr)
	return n
}
