package main

// Symbolic Go values and the heap.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// *Term: integers (Int), booleans (Bool), strings (Str), arrays (Array Int S),
// opaque pointers/maps/channels/functions (Ref) and interfaces (Iface).

type StructV struct {
	typ    types.Type
	term   *Term // opaque origin, nil if built from fields
	fields []Val // nil entries are read from term
}
type Step struct {
	field int   // >=0: struct field
	idx   *Term // array index
}
type PtrV struct {
	obj  int
	path []Step
	elem types.Type
}
type SliceV struct {
	base  *PtrV // location of the backing array; nil for the nil slice
	off   *Term
	len   *Term
	cap   *Term
	isnil *Term
	elem  types.Type
	term  *Term // the term it was read from, if unchanged
	cut   bool  // sliced with an upper bound: its memory may hold more elements of another slice
}
type FuncV struct {
	fn   *ssa.Function
	bind []Val
}
type TupleV struct{ vs []Val }
type IfaceV struct {
	typ types.Type
	val Val
}
type NilPtr struct{}

type Obj struct {
	id    int
	typ   types.Type // type of the value held
	val   Val
	fresh bool // allocated during this execution
	grp   int  // objects of one non-zero group may be the same memory
	stale bool // written under the name of another object of its group
}

var maxLen = pow2(48) // bound on the length of any slice or string (address space)

func under(t types.Type) types.Type { return t.Underlying() }

func isSigned(b *types.Basic) bool { return b.Info()&types.IsUnsigned == 0 }
func bitsOf(b *types.Basic) uint {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}
func intType(t types.Type) (bits uint, signed bool, ok bool) {
	b, k := under(t).(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	return bitsOf(b), isSigned(b), true
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func sortOf(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return "Str"
		}
		return "Ref"
	case *types.Struct:
		return "T:" + typeName(t)
	case *types.Slice:
		return "Sl:" + sortOf(u.Elem())
	case *types.Array:
		return arrSort(sortOf(u.Elem()))
	case *types.Interface:
		return "Iface"
	}
	return "Ref"
}

// ---- terms with facts

func (x *Exec) intRange(t *Term, typ types.Type) *Term {
	if b, s, ok := intType(typ); ok && t.op != "int" && t.op != "lin" {
		lo, hi := typeRange(b, s)
		x.c.Attach(t, x.c.Le(x.c.Big(lo), t))
		x.c.Attach(t, x.c.Le(t, x.c.Big(hi)))
	}
	return t
}
func (x *Exec) strLen(s *Term) *Term {
	c := x.c
	switch {
	case s.op == "var" && strings.HasPrefix(s.name, "str:"):
		return c.Int(int64(len(s.name) - 4))
	case s.op == "app" && s.name == "sconcat":
		return c.Add(x.strLen(s.args[0]), x.strLen(s.args[1]))
	}
	l := c.App("slen", "Int", s)
	if l.ax == nil {
		c.Attach(l, c.Le(c.Int(0), l))
		c.Attach(l, c.Le(l, c.Big(maxLen)))
		if s.op == "app" && s.name == "mkstr" {
			n := s.args[2]
			c.Attach(l, c.Imp(c.Le(c.Int(0), n), c.Eq(l, n)))
		}
		c.Attach(l, c.Eq(c.Eq(l, c.Int(0)), c.Eq(s, x.strConst(""))))
	}
	return l
}
func (x *Exec) strConst(s string) *Term {
	t := x.c.Var("str:"+s, "Str")
	if t.ax == nil {
		x.c.Attach(t, x.c.Eq(x.c.App("slen", "Int", t), x.c.Int(int64(len(s)))))
		id := x.strIDs[s]
		if id == 0 {
			id = len(x.strIDs) + 1
			x.strIDs[s] = id
		}
		x.c.Attach(t, x.c.Eq(x.c.App("strtag", "Int", t), x.c.Int(int64(id))))
	}
	return t
}
func (x *Exec) concat(a, b *Term) *Term {
	if a == x.strConst("") {
		return b
	}
	if b == x.strConst("") {
		return a
	}
	if a.op == "app" && a.name == "sconcat" { // right-associate
		return x.concat(a.args[0], x.concat(a.args[1], b))
	}
	if a.op == "var" && strings.HasPrefix(a.name, "str:") {
		if b.op == "var" && strings.HasPrefix(b.name, "str:") {
			return x.strConst(a.name[4:] + b.name[4:])
		}
		if b.op == "app" && b.name == "sconcat" && b.args[0].op == "var" && strings.HasPrefix(b.args[0].name, "str:") {
			return x.concat(x.strConst(a.name[4:]+b.args[0].name[4:]), b.args[1])
		}
	}
	return x.c.App("sconcat", "Str", a, b)
}

// mkstr is the byte string held by A[o..o+n).
func (x *Exec) mkstr(a, o, n *Term) *Term {
	if n.op == "int" && n.ival.Sign() == 0 {
		return x.strConst("")
	}
	t := x.c.App("mkstr", "Str", a, o, n)
	if t.ax == nil {
		x.c.Attach(t, x.c.Imp(x.c.Le(x.c.Int(0), n), x.c.Eq(x.c.App("slen", "Int", t), n)))
		x.c.Attach(t, x.c.Imp(x.c.Eq(n, x.c.Int(0)), x.c.Eq(t, x.strConst(""))))
	}
	return t
}

func (x *Exec) nilIface() *Term { return x.c.Var("nil", "Iface") }
func (x *Exec) nilRef() *Term   { return x.c.Var("nilref", "Ref") }

// ---- conversions between values and terms

func (x *Exec) reify(st *State, v Val, typ types.Type) *Term {
	c := x.c
	switch v := v.(type) {
	case *Term:
		return v
	case *StructV:
		s := under(v.typ).(*types.Struct)
		if v.term != nil {
			mod := false
			for i, f := range v.fields {
				if f != nil {
					_ = i
					mod = true
				}
			}
			if !mod {
				return v.term
			}
		}
		srt := sortOf(v.typ)
		var as []*Term
		same := v.term
		for i := 0; i < s.NumFields(); i++ {
			a := x.reify(st, x.field(st, v, i), s.Field(i).Type())
			as = append(as, a)
			if v.term != nil && a != c.App(srt+"."+fieldName(s, i), a.sort, v.term) {
				same = nil
			}
		}
		if same != nil {
			return same
		}
		if len(as) == 0 {
			return c.Var("unit:"+srt, srt)
		}
		m := c.App("mk:"+srt, srt, as...)
		if m.ax == nil {
			for i, a := range as {
				c.Attach(m, c.Eq(c.App(srt+"."+fieldName(s, i), a.sort, m), a))
			}
			c.Attach(m, c.True)
		}
		return m
	case *SliceV:
		srt := "Sl:" + sortOf(v.elem)
		if v.base == nil {
			return x.nilSliceTerm(srt)
		}
		content := x.sliceContent(st, v)
		if v.term != nil && content == x.arrOf(v.term, v.elem) {
			return v.term
		}
		m := c.App("mkslice:"+srt, srt, content, v.off, v.len, v.isnil)
		if m.ax == nil {
			c.Attach(m, c.Eq(c.App("sllen:"+srt, "Int", m), v.len))
			c.Attach(m, c.Eq(c.App("slnil:"+srt, "Bool", m), v.isnil))
			if v.off.op == "int" && v.off.ival.Sign() == 0 {
				c.Attach(m, c.Eq(c.App("slarr:"+srt, arrSort(sortOf(v.elem)), m), content))
			}
			// content as a byte string
			if sortOf(v.elem) == "Int" {
				c.Attach(m, c.Eq(x.mkstr(x.arrOf(m, v.elem), c.Int(0), v.len), x.mkstr(content, v.off, v.len)))
			}
		}
		return m
	case *PtrV:
		name := fmt.Sprintf("ptr:%d", v.obj)
		var as []*Term
		for _, s := range v.path {
			if s.idx != nil {
				name += "[]"
				as = append(as, s.idx)
			} else {
				name += fmt.Sprintf(".%d", s.field)
			}
		}
		t := c.App(name, "Ref", as...)
		if o, ok := x.refPtr[v.obj]; ok && len(v.path) == 0 {
			return o
		}
		if len(t.ax) == 0 {
			c.Attach(t, c.Not(c.Eq(t, x.nilRef())))
			c.Attach(t, c.Eq(c.App("refid", "Int", t), c.Int(int64(v.obj))))
		}
		x.unre[t] = v
		return t
	case NilPtr:
		return x.nilRef()
	case *FuncV:
		var as []*Term
		for i, b := range v.bind {
			as = append(as, x.reify(st, b, v.fn.FreeVars[i].Type()))
		}
		t := c.App("closure:"+funcName(v.fn)+fmt.Sprint(len(as)), "Ref", as...)
		c.Attach(t, c.Not(c.Eq(t, x.nilRef())))
		x.unre[t] = v
		return t
	case *IfaceV:
		a := x.reify(st, v.val, v.typ)
		t := c.App("iface:"+typeName(v.typ), "Iface", a)
		c.Attach(t, c.Not(c.Eq(t, x.nilIface())))
		x.unre[t] = v
		return t
	}
	panic(fmt.Sprintf("reify %T", v))
}

func fieldName(s *types.Struct, i int) string { return s.Field(i).Name() }

func (x *Exec) nilSliceTerm(srt string) *Term {
	t := x.c.Var("nilslice:"+srt, srt)
	if t.ax == nil {
		x.c.Attach(t, x.c.Eq(x.c.App("sllen:"+srt, "Int", t), x.c.Int(0)))
		x.c.Attach(t, x.c.App("slnil:"+srt, "Bool", t))
	}
	return t
}
func (x *Exec) arrOf(s *Term, elem types.Type) *Term {
	es := sortOf(elem)
	return x.c.App("slarr:Sl:"+es, arrSort(es), s)
}
func (x *Exec) slLen(s *Term) *Term {
	l := x.c.App("sllen:"+s.sort, "Int", s)
	if l.ax == nil {
		x.c.Attach(l, x.c.Le(x.c.Int(0), l))
		x.c.Attach(l, x.c.Le(l, x.c.Big(maxLen)))
		x.c.Attach(l, x.c.Imp(x.slNil(s), x.c.Eq(l, x.c.Int(0))))
	}
	return l
}
func (x *Exec) slNil(s *Term) *Term { return x.c.App("slnil:"+s.sort, "Bool", s) }

// unreify turns a term of the given Go type into a value.
func (x *Exec) unreify(st *State, t *Term, typ types.Type) Val {
	c := x.c
	if v, ok := x.unre[t]; ok {
		return v
	}
	switch u := under(typ).(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return x.intRange(t, typ)
		}
		return t
	case *types.Struct:
		return &StructV{typ: typ, term: t, fields: make([]Val, u.NumFields())}
	case *types.Slice:
		if t.op == "app" && strings.HasPrefix(t.name, "mkslice:") {
			// built from a value: content is a snapshot
			id := x.sliceObj(t, u.Elem(), t.args[0])
			return &SliceV{base: &PtrV{obj: id}, off: t.args[1], len: t.args[2], cap: x.slCap(t, t.args[2]), isnil: t.args[3], elem: u.Elem(), term: nil}
		}
		id := x.sliceObj(t, u.Elem(), x.arrOf(t, u.Elem()))
		return &SliceV{base: &PtrV{obj: id}, off: c.Int(0), len: x.slLen(t), cap: x.slCap(t, x.slLen(t)), isnil: x.slNil(t), elem: u.Elem(), term: t}
	case *types.Pointer:
		if t == x.nilRef() {
			return NilPtr{}
		}
		id, ok := x.refObj[t]
		if !ok {
			id = x.newObjID()
			x.refObj[t] = id
			x.refPtr[id] = t
			el := u.Elem()
			x.initObj[id] = &Obj{id: id, typ: el, val: x.unreify(st, c.App("deref:"+sortOf(el), sortOf(el), t), el)}
		}
		return &PtrV{obj: id, elem: u.Elem()}
	}
	return t
}
func (x *Exec) slCap(t, n *Term) *Term {
	k := x.c.App("slcap:"+t.sort, "Int", t)
	if k.ax == nil {
		x.c.Attach(k, x.c.Le(n, k))
		x.c.Attach(k, x.c.Le(k, x.c.Big(maxLen)))
	}
	return k
}
func (x *Exec) sliceObj(t *Term, elem types.Type, content *Term) int {
	id, ok := x.refObj[t]
	if !ok {
		id = x.newObjID()
		x.refObj[t] = id
		x.initObj[id] = &Obj{id: id, typ: types.NewArray(elem, -1), val: content}
	}
	return id
}
func (x *Exec) newObjID() int { x.nobj++; return x.nobj }

func (x *Exec) sliceContent(st *State, v *SliceV) *Term {
	if v.base == nil {
		return x.c.Var("noarr:"+sortOf(v.elem), arrSort(sortOf(v.elem)))
	}
	return x.load(st, v.base).(*Term)
}

// sliceStr is the byte string a []byte holds.
func (x *Exec) sliceStr(st *State, v *SliceV) *Term {
	if v.base == nil {
		return x.strConst("")
	}
	return x.mkstr(x.sliceContent(st, v), v.off, v.len)
}

func (x *Exec) field(st *State, s *StructV, i int) Val {
	if s.fields[i] != nil {
		return s.fields[i]
	}
	u := under(s.typ).(*types.Struct)
	ft := u.Field(i).Type()
	return x.unreify(st, x.c.App(sortOf(s.typ)+"."+fieldName(u, i), sortOf(ft), s.term), ft)
}
func (s *StructV) with(i int, v Val) *StructV {
	n := &StructV{typ: s.typ, term: s.term, fields: append([]Val{}, s.fields...)}
	n.fields[i] = v
	return n
}

func (x *Exec) zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return x.c.Int(0)
		case u.Info()&types.IsBoolean != 0:
			return x.c.False
		case u.Info()&types.IsString != 0:
			return x.strConst("")
		}
		return x.nilRef()
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fields = append(s.fields, x.zero(u.Field(i).Type()))
		}
		return s
	case *types.Slice:
		return x.nilSlice(u.Elem())
	case *types.Array:
		return x.c.ConstArr(x.reify(nil, x.zero(u.Elem()), u.Elem()))
	case *types.Pointer:
		return NilPtr{}
	case *types.Interface:
		return x.nilIface()
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, x.zero(u.At(i).Type()))
		}
		return tv
	}
	return x.nilRef()
}
func (x *Exec) nilSlice(elem types.Type) *SliceV {
	z := x.c.Int(0)
	return &SliceV{off: z, len: z, cap: z, isnil: x.c.True, elem: elem}
}

// fresh returns an arbitrary value of the type.
func (x *Exec) fresh(st *State, hint string, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, x.fresh(st, hint, u.At(i).Type()))
		}
		return tv
	case *types.Struct:
		if u.NumFields() == 0 {
			return x.zero(t)
		}
	}
	return x.unreify(st, x.c.Fresh(hint, sortOf(t)), t)
}

// ---- heap

func (x *Exec) obj(st *State, id int) *Obj {
	if o := st.heap[id]; o != nil {
		return o
	}
	o := x.initObj[id]
	if o == nil {
		panic(fmt.Sprintf("no object %d", id))
	}
	return o
}
func (x *Exec) alloc(st *State, t types.Type, v Val) *PtrV {
	id := x.newObjID()
	st.heap[id] = &Obj{id: id, typ: t, val: v, fresh: true}
	return &PtrV{obj: id, elem: t}
}

func (x *Exec) load(st *State, p *PtrV) Val {
	o := x.obj(st, p.obj)
	if o.stale {
		x.unsupported(st, "memory written under another name is read")
	}
	v, t := o.val, o.typ
	for _, s := range p.path {
		v, t = x.sub(st, v, t, s)
	}
	return v
}
func (x *Exec) sub(st *State, v Val, t types.Type, s Step) (Val, types.Type) {
	if s.idx != nil {
		el := under(t).(*types.Array).Elem()
		e := x.c.Select(v.(*Term), s.idx)
		return x.unreify(st, e, el), el
	}
	u := under(t).(*types.Struct)
	return x.field(st, v.(*StructV), s.field), u.Field(s.field).Type()
}
func (x *Exec) store(st *State, p *PtrV, nv Val) {
	o := x.obj(st, p.obj)
	n := *o
	n.val = x.update(st, o.val, o.typ, p.path, nv)
	st.heap[p.obj] = &n
	x.spoil(st, o.grp, p.obj)
}

// spoil records that memory of a group was written: what its other members
// hold is no longer known.
func (x *Exec) spoil(st *State, grp, but int) {
	if grp == 0 {
		return
	}
	for id, m := range st.heap {
		if m.grp != grp || id == but || m.stale {
			continue
		}
		if !m.fresh {
			x.unsupported(st, "write to memory that may belong to the caller")
		}
		k := *m
		k.stale = true
		st.heap[id] = &k
	}
}

// share puts two objects into one group.
func (x *Exec) share(st *State, a, b int) {
	if a == b {
		return
	}
	oa, ob := x.obj(st, a), x.obj(st, b)
	ga, gb := oa.grp, ob.grp
	g := ga
	if g == 0 {
		g = gb
	}
	if g == 0 {
		x.ngrp++
		g = x.ngrp
	}
	set := func(o *Obj) {
		if o.grp != g {
			k := *o
			k.grp = g
			st.heap[k.id] = &k
		}
	}
	set(oa)
	set(ob)
	if gb != 0 && gb != g {
		for _, m := range st.heap {
			if m.grp == gb {
				set(m)
			}
		}
	}
}

// mayShare tells whether two objects may be the same memory.
func (x *Exec) mayShare(st *State, a, b int) bool {
	if a == b {
		return true
	}
	oa, ob := x.obj(st, a), x.obj(st, b)
	return oa.grp != 0 && oa.grp == ob.grp
}
func (x *Exec) update(st *State, v Val, t types.Type, path []Step, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	sv, stt := x.sub(st, v, t, s)
	n := x.update(st, sv, stt, path[1:], nv)
	if s.idx != nil {
		return x.c.Store(v.(*Term), s.idx, x.reify(st, n, stt))
	}
	return v.(*StructV).with(s.field, n)
}

// ptr adds a step.
func (p *PtrV) step(s Step, elem types.Type) *PtrV {
	return &PtrV{obj: p.obj, path: append(append([]Step{}, p.path...), s), elem: elem}
}

func (x *Exec) constant(k *ssa.Const) Val {
	if k.Value == nil {
		return x.zero(k.Type())
	}
	b, ok := under(k.Type()).(*types.Basic)
	if !ok {
		return x.zero(k.Type())
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(k.Value)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			n = new(big.Int)
		}
		return x.c.Big(n)
	case b.Info()&types.IsBoolean != 0:
		return x.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		return x.strConst(constant.StringVal(k.Value))
	}
	return x.c.Var("const:"+k.Value.ExactString(), "Ref")
}
