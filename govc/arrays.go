package main

// Spec functions over byte streams: what it means for a value of each
// protocol type to be encoded at a position, its size, and equality.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// scalar kinds: i8 i16 i32 i64 bool str bytes; arrays: i32arr i64arr strarr
// and msgarr of a message type. Array elements: i32 i64 str msg:<T>.

var kindBytes = map[string]int64{"i8": 1, "i16": 2, "i32": 4, "i64": 8, "bool": 1}

// at is the big-endian two's complement integer stored at A[o..].
func (x *Exec) at(kind string, a, o *Term) *Term {
	c := x.c
	n := kindBytes[kind]
	t := c.App(kind+"at", "Int", a, o)
	if t.ax == nil {
		lo, hi := typeRange(uint(n*8), true)
		c.Attach(t, c.Le(c.Big(lo), t))
		c.Attach(t, c.Le(t, c.Big(hi)))
		if x.opts["bytes"] {
			u := c.Int(0)
			for k := int64(0); k < n; k++ {
				b := c.Select(a, c.Add(o, c.Int(k)))
				c.Attach(t, c.Le(c.Int(0), b))
				c.Attach(t, c.Le(b, c.Int(255)))
				u = c.Add(u, c.MulK(b, pow2(uint(8*(n-1-k)))))
			}
			c.Attach(t, c.Eq(t, c.Ite(c.Le(u, c.Big(hi)), u, c.Sub(u, c.Big(pow2(uint(8*n)))))))
		}
	}
	return t
}

func (x *Exec) w32(t *Term) *Term {
	if t.op == "int" {
		return x.c.Wrap(t, 32, true)
	}
	return x.c.Wrap(t, 32, true)
}
func (x *Exec) w16(t *Term) *Term { return x.c.Wrap(t, 16, true) }

// varint model: vstr(i) is the zig-zag base-128 encoding of i.
func (x *Exec) vlen(i *Term) *Term {
	c := x.c
	t := c.App("vlen", "Int", i)
	if t.ax == nil {
		c.Attach(t, c.Le(c.Int(1), t))
		c.Attach(t, c.Le(t, c.Int(10)))
		// n bytes carry zig-zag values below 2^(7n)
		lim := new(big.Int)
		for n := int64(1); n <= 9; n++ {
			lim = pow2(uint(7*n - 1))
			in := c.And(c.Le(c.Big(new(big.Int).Neg(lim)), i), c.Lt(i, c.Big(lim)))
			c.Attach(t, c.Eq(in, c.Le(t, c.Int(n))))
		}
	}
	return t
}
func (x *Exec) vstr(i *Term) *Term {
	t := x.c.App("vstr", "Str", i)
	if t.ax == nil {
		x.vstrArgs = append(x.vstrArgs, i)
		x.c.Attach(t, x.c.Eq(x.c.App("slen", "Int", t), x.vlen(i)))
	}
	return t
}

// ---- elements of arrays

func elemKind(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int32:
			return "i32"
		case types.Int64:
			return "i64"
		case types.String:
			return "str"
		}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "message" {
			return "msg:" + n.Obj().Name()
		}
		switch sortOf(t) {
		case hdrSort:
			return "hdr"
		case recSort:
			return "rec"
		}
	}
	return ""
}
func (x *Exec) ver(kind string) []*Term {
	if kind == "rec" {
		if v, ok := x.extra["recargs"].([]*Term); ok {
			return v
		}
		return []*Term{x.c.Var("nobase", "Int"), x.c.Var("nofirst", "Int")}
	}
	if strings.HasPrefix(kind, "msg:") {
		if v, ok := x.extra["version"].(*Term); ok {
			return []*Term{v}
		}
		return []*Term{x.c.Var("noversion", "Int")}
	}
	return nil
}

func (x *Exec) szElem(kind string, e *Term, v []*Term) *Term {
	c := x.c
	if n, ok := kindBytes[kind]; ok {
		return c.Int(n)
	}
	if kind == "str" {
		return c.Add(c.Int(2), x.strLen(e))
	}
	switch kind {
	case "hdr":
		k, v := x.hdrParts(e)
		return c.Add(x.szField(nil, "varstr", k, nil), x.szField(nil, "varstr", v, nil))
	case "rec":
		return x.recSize(e, v)
	}
	return x.msgSize(kind[4:], e, v[0])
}

// msgSize is the specified size of a message, a mathematical integer.
func (x *Exec) msgSize(T string, e, v *Term) *Term {
	c := x.c
	t := c.App("sz:"+T, "Int", e, v)
	if t.ax == nil {
		c.Attach(t, c.Le(c.Int(0), t))
		c.Attach(t, c.Le(t, c.Big(maxLen)))
		if f, ok := x.extra["minsize"].(func(T string, e, v *Term) *Term); ok {
			c.Attach(t, f(T, t, v))
		}
	}
	return t
}

func (x *Exec) szArr(kind string, arr, k *Term, v []*Term) *Term {
	c := x.c
	if n, ok := kindBytes[kind]; ok {
		return c.MulK(k, big.NewInt(n))
	}
	if k.op == "int" && k.ival.Sign() == 0 {
		return c.Int(0)
	}
	t := x.szArrRaw(kind, arr, k, v)
	if t.axGen == nil {
		t.axGen = func() []*Term {
			p := c.Sub(k, c.Int(1))
			e := c.Select(arr, p)
			prev := x.szArrRaw(kind, arr, p, v)
			if p.op == "int" && p.ival.Sign() == 0 {
				prev = c.Int(0)
			}
			out := []*Term{
				c.Imp(c.Le(c.Int(1), k), c.Eq(t, c.Add(prev, x.szElem(kind, e, v)))),
				c.Imp(c.Le(k, c.Int(0)), c.Eq(t, c.Int(0))),
			}
			// with loops unrolled there is no invariant to carry the
			// recursion: unfold it as deep as the loops
			for d := 0; d < x.unroll && k.op != "int"; d++ {
				q := c.Sub(p, c.Int(1))
				pq := x.szArrRaw(kind, arr, q, v)
				out = append(out, c.Imp(c.Le(c.Int(1), p), c.Eq(prev, c.Add(pq, x.szElem(kind, c.Select(arr, q), v)))))
				p, prev = q, pq
			}
			if x.unroll > 0 && k.op != "int" {
				for j := int64(1); j <= int64(x.unroll)+1; j++ {
					J := c.Int(j)
					mn := c.Int(0)
					if kind == "str" || x.opts["elemmin1"] {
						mn = c.Sub(k, J)
					}
					out = append(out, c.Imp(c.Le(J, k), c.Le(c.Add(x.szArr(kind, arr, J, v), mn), t)))
				}
			}
			return out
		}
	}
	return t
}
func (x *Exec) szArrRaw(kind string, arr, k *Term, v []*Term) *Term {
	c := x.c
	t := c.App("szArr:"+kind, "Int", append([]*Term{arr, k}, v...)...)
	if t.ax == nil {
		c.Attach(t, c.Le(c.Int(0), t))
		c.Attach(t, c.Le(t, c.Big(maxLen)))
		c.Attach(t, c.Imp(c.Eq(k, c.Int(0)), c.Eq(t, c.Int(0))))
		// lemma szArr-min: every element takes at least min bytes
		mn := c.Int(0)
		if kind == "str" {
			mn = c.MulK(k, big.NewInt(2))
		} else if x.opts["elemmin1"] {
			mn = k
		}
		if mn.op != "int" {
			c.Attach(t, c.Imp(c.Le(c.Int(0), k), c.Le(mn, t)))
		}
	}
	return t
}

// monotone instantiates the lemma szArr(j) + (n-j)*min <= szArr(n) for 0<=j<=n.
func (x *Exec) monotone(st *State, kind string, arr, j, n *Term, v []*Term) {
	c := x.c
	if _, ok := kindBytes[kind]; ok {
		return
	}
	m := c.Int(0)
	if kind == "str" || x.opts["elemmin1"] {
		m = c.Sub(n, j)
	}
	x.assume(st, c.Imp(c.And(c.Le(c.Int(0), j), c.Le(j, n)), c.Le(c.Add(x.szArr(kind, arr, j, v), m), x.szArr(kind, arr, n, v))))
}

func (x *Exec) encElem(kind string, a, o, e *Term, v []*Term) *Term {
	c := x.c
	switch kind {
	case "i8", "i16", "i32", "i64":
		return c.Eq(x.at(kind, a, o), e)
	case "str":
		n := x.strLen(e)
		return c.And(c.Eq(x.at("i16", a, o), x.w16(n)), c.Eq(x.mkstr(a, c.Add(o, c.Int(2)), n), e))
	}
	switch kind {
	case "hdr":
		k, v := x.hdrParts(e)
		return c.And(x.encField(nil, "varstr", a, o, k, nil), x.encField(nil, "varstr", a, c.Add(o, x.szField(nil, "varstr", k, nil)), v, nil))
	case "rec":
		return x.recEnc(a, o, e, v)
	}
	return c.App("enc:"+kind[4:], "Bool", a, o, e, v[0])
}
func (x *Exec) eqElem(kind string, a, b *Term, v []*Term) *Term {
	if strings.HasPrefix(kind, "msg:") {
		return x.c.App("eqv:"+kind[4:], "Bool", a, b, v[0])
	}
	return x.c.Eq(a, b)
}
func (x *Exec) domElem(kind string, e *Term, v []*Term) *Term {
	switch {
	case kind == "str":
		return x.c.Le(x.strLen(e), x.c.Int(32767))
	case strings.HasPrefix(kind, "msg:"):
		return x.c.App("dom:"+kind[4:], "Bool", e, v[0])
	}
	return x.c.True
}

// prefix predicates, unfolded one step where they are mentioned
func (x *Exec) prefix(name string, args []*Term, k *Term, v []*Term, step func(p *Term) *Term, more func(t *Term, k *Term)) *Term {
	c := x.c
	if k.op == "int" && k.ival.Sign() <= 0 {
		return c.True
	}
	raw := func(k *Term) *Term {
		if k.op == "int" && k.ival.Sign() <= 0 {
			return c.True
		}
		t := c.App(name, "Bool", append(append(append([]*Term{}, args...), k), v...)...)
		if t.ax == nil {
			c.Attach(t, c.Imp(c.Le(k, c.Int(0)), t))
			if more != nil {
				more(t, k)
			}
		}
		return t
	}
	t := raw(k)
	if t.axGen == nil {
		t.axGen = func() []*Term {
			p := c.Sub(k, c.Int(1))
			out := []*Term{c.Imp(c.Le(c.Int(1), k), c.Eq(t, c.And(raw(p), step(p))))}
			for d := 0; d < x.unroll && k.op != "int"; d++ {
				q := c.Sub(p, c.Int(1))
				out = append(out, c.Imp(c.Le(c.Int(1), p), c.Eq(raw(p), c.And(raw(q), step(q)))))
				p = q
			}
			if x.unroll > 0 && k.op != "int" {
				for j := int64(0); j <= int64(x.unroll); j++ {
					out = append(out, c.Imp(c.And(t, c.Lt(c.Int(j), k)), step(c.Int(j))))
				}
			}
			return out
		}
	}
	return t
}
func (x *Exec) encArr(kind string, a, o, arr, k *Term, v []*Term) *Term {
	c := x.c
	return x.prefix("encArr:"+kind, []*Term{a, o, arr}, k, v, func(p *Term) *Term {
		return x.encElem(kind, a, c.Add(o, x.szArr(kind, arr, p, v)), c.Select(arr, p), v)
	}, nil)
}
func (x *Exec) domArr(kind string, arr, k *Term, v []*Term) *Term {
	return x.prefix("domArr:"+kind, []*Term{arr}, k, v, func(p *Term) *Term {
		return x.domElem(kind, x.c.Select(arr, p), v)
	}, nil)
}
func (x *Exec) eqArr(kind string, a, b, k *Term, v []*Term) *Term {
	c := x.c
	if a == b {
		return c.True
	}
	name := "eqArr:" + kind
	return x.prefix(name, []*Term{a, b}, k, v, func(p *Term) *Term {
		return x.eqElem(kind, c.Select(a, p), c.Select(b, p), v)
	}, func(t, k *Term) {
		if a.op == "store" {
			c.Attach(t, c.Imp(c.Le(k, a.args[1]), c.Eq(t, c.App(name, "Bool", append([]*Term{a.args[0], b, k}, v...)...))))
		}
	})
}

// elim instantiates encArr/domArr at an index.
func (x *Exec) elim(st *State, kind string, a, o, arr, n, j *Term, v []*Term) {
	c := x.c
	in := c.And(c.Le(c.Int(0), j), c.Lt(j, n))
	x.assume(st, c.Imp(c.And(in, x.encArr(kind, a, o, arr, n, v)), x.encElem(kind, a, c.Add(o, x.szArr(kind, arr, j, v)), c.Select(arr, j), v)))
	x.assume(st, c.Imp(c.And(in, x.domArr(kind, arr, n, v)), x.domElem(kind, c.Select(arr, j), v)))
}

// ---- fields

// contentOf gives (array, len, isnil) of a slice starting at its offset.
func (x *Exec) contentOf(st *State, v Val) (arr, n, isnil *Term) {
	s := v.(*SliceV)
	c := x.c
	if s.base == nil {
		return c.Var("noarr:"+sortOf(s.elem), arrSort(sortOf(s.elem))), c.Int(0), c.True
	}
	arr = x.sliceContent(st, s)
	if !(s.off.op == "int" && s.off.ival.Sign() == 0) {
		arr = c.App("shift:"+sortOf(s.elem), arr.sort, arr, s.off)
	}
	return arr, s.len, s.isnil
}

// arrKind maps an array field kind to its element kind.
func arrKind(kind string) string {
	switch kind {
	case "i32arr":
		return "i32"
	case "i64arr":
		return "i64"
	case "strarr":
		return "str"
	}
	if strings.HasPrefix(kind, "msgarr:") {
		return "msg:" + kind[7:]
	}
	return ""
}

func (x *Exec) szField(st *State, kind string, v Val, ver *Term) *Term {
	c := x.c
	if n, ok := kindBytes[kind]; ok {
		return c.Int(n)
	}
	switch kind {
	case "str":
		return c.Add(c.Int(2), x.strLen(v.(*Term)))
	case "bytes":
		return c.Add(c.Int(4), v.(*SliceV).len)
	case "nstr":
		return c.Ite(x.eq(st, v, NilPtr{}, nil), c.Int(2), c.Add(c.Int(2), x.strLen(x.nstrVal(st, v))))
	case "varint":
		return x.vlen(v.(*Term))
	case "varbytes":
		n := v.(*SliceV).len
		return c.Add(x.vlen(n), n)
	case "varstr":
		n := x.strLen(v.(*Term))
		return c.Add(x.vlen(n), n)
	}
	ek := arrKind(kind)
	arr, n, _ := x.contentOf(st, v)
	return c.Add(c.Int(4), x.szArr(ek, arr, n, verArgs(ek, ver)))
}
func verArgs(ek string, ver *Term) []*Term {
	if strings.HasPrefix(ek, "msg:") {
		return []*Term{ver}
	}
	return nil
}
func (x *Exec) nstrVal(st *State, v Val) *Term {
	if p, ok := v.(*PtrV); ok {
		return x.load(st, p).(*Term)
	}
	return x.strConst("")
}

// encField: the value is encoded at A[o..].
func (x *Exec) encField(st *State, kind string, a, o *Term, v Val, ver *Term) *Term {
	c := x.c
	switch kind {
	case "i8", "i16", "i32", "i64":
		return c.Eq(x.at(kind, a, o), v.(*Term))
	case "bool":
		return c.Eq(x.at("i8", a, o), c.Ite(v.(*Term), c.Int(1), c.Int(0)))
	case "str":
		return x.encElem("str", a, o, v.(*Term), nil)
	case "nstr":
		isn := x.eq(st, v, NilPtr{}, nil)
		return c.And(c.Imp(isn, c.Eq(x.at("i16", a, o), c.Int(-1))),
			c.Imp(c.Not(isn), x.encElem("str", a, o, x.nstrVal(st, v), nil)))
	case "bytes":
		s := v.(*SliceV)
		return c.And(c.Eq(x.at("i32", a, o), x.w32(s.len)), c.Eq(x.mkstr(a, c.Add(o, c.Int(4)), s.len), x.sliceStr(st, s)))
	case "varint":
		return x.encVar(a, o, v.(*Term))
	case "varbytes":
		s := v.(*SliceV)
		return c.And(x.encVar(a, o, s.len), c.Eq(x.mkstr(a, c.Add(o, x.vlen(s.len)), s.len), x.sliceStr(st, s)))
	case "varstr":
		s := v.(*Term)
		n := x.strLen(s)
		return c.And(x.encVar(a, o, n), c.Eq(x.mkstr(a, c.Add(o, x.vlen(n)), n), s))
	}
	ek := arrKind(kind)
	arr, n, isnil := x.contentOf(st, v)
	body := c.And(c.Eq(x.at("i32", a, o), x.w32(n)), x.encArr(ek, a, c.Add(o, c.Int(4)), arr, n, verArgs(ek, ver)))
	if strings.HasPrefix(kind, "msgarr:") {
		return body
	}
	return c.And(c.Imp(isnil, c.Eq(x.at("i32", a, o), c.Int(-1))), c.Imp(c.Not(isnil), body))
}
func (x *Exec) encVar(a, o, i *Term) *Term {
	return x.c.Eq(x.mkstr(a, o, x.vlen(i)), x.vstr(i))
}

// eqField: a decoded value equals the one encoded.
func (x *Exec) eqField(sa *State, a Val, sb *State, b Val, kind string, ver *Term) *Term {
	c := x.c
	switch kind {
	case "i8", "i16", "i32", "i64", "bool", "str", "varint", "varstr":
		return c.Eq(a.(*Term), b.(*Term))
	case "bytes", "varbytes":
		s, t := a.(*SliceV), b.(*SliceV)
		return c.And(c.Eq(s.len, t.len), c.Eq(x.sliceStr(sa, s), x.sliceStr(sb, t)))
	}
	ek := arrKind(kind)
	aa, an, anil := x.contentOf(sa, a)
	ba, bn, bnil := x.contentOf(sb, b)
	r := c.And(c.Eq(an, bn), x.eqArr(ek, aa, ba, bn, verArgs(ek, ver)))
	if strings.HasPrefix(kind, "msgarr:") {
		return r
	}
	return c.And(c.Eq(anil, bnil), r)
}

// domField: the value can be encoded faithfully.
func (x *Exec) domField(st *State, kind string, v Val, ver *Term) *Term {
	c := x.c
	switch kind {
	case "str":
		return c.Le(x.strLen(v.(*Term)), c.Int(32767))
	case "bytes":
		return c.Le(v.(*SliceV).len, c.Int(1<<31-1))
	}
	if ek := arrKind(kind); ek != "" {
		arr, n, _ := x.contentOf(st, v)
		return c.And(c.Le(n, c.Int(1<<31-1)), x.domArr(ek, arr, n, verArgs(ek, ver)))
	}
	return c.True
}

// ---- candidate invariants over arrays

type scopeArr struct {
	kind string
	arr  *Term
	n    *Term
	encA *Term // known encoding of the array, if any
	encO *Term
}

func (lc *LoopCtx) arrays() []scopeArr {
	x := lc.x
	st := lc.entry
	var out []scopeArr
	seen := map[*Term]bool{}
	add := func(s *SliceV) {
		k := elemKind(s.elem)
		if k == "" || s.base == nil {
			return
		}
		arr, n, _ := x.contentOf(st, s)
		if seen[arr] || arr.op == "constarr" {
			return
		}
		seen[arr] = true
		out = append(out, scopeArr{kind: k, arr: arr, n: n})
	}
	for _, t := range x.findApps(st, "encArr:*") {
		if !seen[t.args[2]] {
			seen[t.args[2]] = true
			out = append(out, scopeArr{kind: t.name[7:], arr: t.args[2], n: t.args[3], encA: t.args[0], encO: t.args[1]})
		}
	}
	var walk func(v Val, d int)
	walk = func(v Val, d int) {
		switch v := v.(type) {
		case *SliceV:
			add(v)
		case *StructV:
			u := under(v.typ).(*types.Struct)
			for i := range v.fields {
				if _, ok := under(u.Field(i).Type()).(*types.Slice); ok {
					walk(x.field(st, v, i), d)
				}
			}
		case *PtrV:
			if d < 2 {
				walk(x.load(st, v), d+1)
			}
		}
	}
	f := st.top()
	var ks []string
	byName := map[string]Val{}
	for v, r := range f.env {
		ks = append(ks, v.Name())
		byName[v.Name()] = r
	}
	sortStrings(ks)
	for _, k := range ks {
		walk(byName[k], 0)
	}
	return out
}

// streams are the writer terms whose position the loop changes.
func (lc *LoopCtx) ghostLeaf(prefix string) []*leaf {
	var out []*leaf
	for _, l := range lc.leaves {
		if strings.HasPrefix(l.ghost, prefix) {
			out = append(out, l)
		}
	}
	return out
}

func arrayCands(lc *LoopCtx) []*Cand {
	x := lc.x
	c := x.c
	var out []*Cand
	arrs := lc.arrays()
	ints := lc.ints()
	type idx struct {
		name string
		get  func(*State) *Term
	}
	var ids []idx
	for _, a := range ints {
		a := a
		if a.phi || strings.HasPrefix(a.name, "len(") || strings.HasPrefix(a.name, "heap:") {
			ids = append(ids, idx{a.name, a.get}, idx{a.name + "+1", func(s *State) *Term { return c.Add(a.get(s), c.Int(1)) }})
		}
	}
	for _, pl := range lc.ghostLeaf("pos:") {
		pl := pl
		w := pl.ghost[4:]
		p0 := x.ghost(lc.entry, pl.ghost, "Int")
		f0 := x.ghost(lc.entry, "failed:"+w, "Bool")
		out = append(out, &Cand{text: "stream failed on entry => failed", eval: func(s *State) *Term { return c.Imp(f0, x.ghost(s, "failed:"+w, "Bool")) }})
		out = append(out, &Cand{text: "stream failed on entry => pos == entry", eval: func(s *State) *Term { return c.Imp(f0, c.Eq(x.ghost(s, pl.ghost, "Int"), p0)) }})
		for _, l := range lc.leaves {
			l := l
			if l.sort == "Iface" && l.typ != nil {
				e := x.reify(lc.entry, x.leafVal(lc.entry, l), l.typ)
				out = append(out, &Cand{text: "stream failed on entry => " + l.key + " == entry", eval: func(s *State) *Term {
					return c.Imp(f0, c.Eq(x.reify(s, x.leafVal(s, l), l.typ), e))
				}})
			}
		}
		F := x.streamF(w)
		for _, a := range arrs {
			a := a
			v := x.ver(a.kind)
			for _, i := range ids {
				i := i
				out = append(out, &Cand{text: fmt.Sprintf("not failed => pos == entry + szArr(%s)", i.name), eval: func(s *State) *Term {
					return c.Or(x.ghost(s, "failed:"+w, "Bool"), c.Eq(x.ghost(s, pl.ghost, "Int"), c.Add(p0, x.szArr(a.kind, a.arr, i.get(s), v))))
				}}, &Cand{text: fmt.Sprintf("not failed => encArr(%s)", i.name), eval: func(s *State) *Term {
					return c.Or(x.ghost(s, "failed:"+w, "Bool"), x.encArr(a.kind, F, p0, a.arr, i.get(s), v))
				}})
			}
		}
	}
	// encoder fields mirror the stream
	if inv, ok := x.extra["loopinv"].([]*Cand); ok {
		out = append(out, inv...)
	}
	// sums of sizes and offsets
	for _, l := range ints {
		l := l
		e := l.get(lc.entry)
		for _, a := range arrs {
			a := a
			v := x.ver(a.kind)
			for _, i := range ids {
				i := i
				if i.name == l.name || strings.HasPrefix(i.name, l.name+"+") {
					continue
				}
				out = append(out, &Cand{text: fmt.Sprintf("%s == entry + szArr(%s)", l.name, i.name), eval: func(s *State) *Term {
					return c.Eq(l.get(s), x.wrapAs(c.Add(e, x.szArr(a.kind, a.arr, i.get(s), v)), l.typ))
				}}, &Cand{text: fmt.Sprintf("%s == entry + szArr(n) - szArr(%s)", l.name, i.name), eval: func(s *State) *Term {
					return c.Eq(l.get(s), x.wrapAs(c.Sub(c.Add(e, x.szArr(a.kind, a.arr, a.n, v)), x.szArr(a.kind, a.arr, i.get(s), v)), l.typ))
				}})
			}
		}
	}
	// decoded prefixes
	for _, l := range lc.leaves {
		l := l
		var get func(*State) *Term
		switch v := x.leafVal(lc.entry, l).(type) {
		case *Term:
			if strings.HasPrefix(v.sort, "(Array") {
				get = func(s *State) *Term { return x.leafVal(s, l).(*Term) }
			}
		case *SliceV:
			get = func(s *State) *Term { a, _, _ := x.contentOf(s, x.leafVal(s, l)); return a }
		}
		if get == nil {
			continue
		}
		for _, a := range arrs {
			a := a
			if get(lc.entry) == a.arr || get(lc.entry).sort != a.arr.sort {
				continue
			}
			v := x.ver(a.kind)
			for _, i := range ids {
				i := i
				out = append(out, &Cand{text: fmt.Sprintf("eqArr(%s, %s)", l.key, i.name), eval: func(s *State) *Term {
					return x.eqArr(a.kind, get(s), a.arr, i.get(s), v)
				}})
			}
		}
	}
	return out
}

// wrapAs reduces to an integer type unless it is 64 bits wide, for which
// sizes stay below the bound on lengths.
func (x *Exec) wrapAs(t *Term, typ types.Type) *Term {
	if typ == nil {
		return t
	}
	if b, s, ok := intType(typ); ok && b < 64 {
		return x.c.Wrap(t, b, s)
	}
	return t
}
