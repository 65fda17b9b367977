package main

// Contracts assumed for the standard library.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

func (x *Exec) streamKey(w *Term) string { return fmt.Sprint(w.id) }
func (x *Exec) streamF(key string) *Term {
	if m, ok := x.extra["stream:"+key].(*Term); ok {
		return x.c.App("F", arrSort("Int"), m)
	}
	return x.c.Var("F?"+key, arrSort("Int"))
}
func (x *Exec) stream(w *Term) string {
	k := x.streamKey(w)
	x.extra["stream:"+k] = w
	return k
}

func (x *Exec) freshErr(st *State, hint string) *Term {
	e := x.c.Fresh(hint, "Iface")
	return e
}
func (x *Exec) newErr(st *State, hint string) *Term {
	e := x.c.Fresh(hint, "Iface")
	x.c.Attach(e, x.c.Not(x.c.Eq(e, x.nilIface())))
	return e
}

// errIs is errors.Is(e, target).
func (x *Exec) errIs(e, target *Term) *Term {
	t := x.c.App("errors.Is", "Bool", e, target)
	x.c.Attach(t, x.c.Imp(x.c.Eq(e, target), t))
	x.c.Attach(t, x.c.Imp(x.c.And(t, x.c.Eq(e, x.nilIface())), x.c.Eq(target, x.nilIface())))
	return t
}

// write models io.Writer.Write: nothing may be written after a failure, and
// on success the bytes appear at the current position.
func (x *Exec) write(st *State, cc *Call, w *Term, content func(F, pos *Term) *Term, n *Term) []*State {
	c := x.c
	k := x.stream(w)
	failed := x.ghost(st, "failed:"+k, "Bool")
	x.assert(st, c.Not(failed), "pre", "no-write-after-error", "the stream is not written after a failed write")
	pos := x.ghost(st, "pos:"+k, "Int")
	err := x.freshErr(st, "werr")
	nn := c.Fresh("wn", "Int")
	c.Attach(nn, c.Le(c.Int(0), nn))
	ok := c.Eq(err, x.nilIface())
	npos := c.Fresh("pos", "Int")
	x.assume(st, c.Imp(ok, c.Eq(npos, c.Add(pos, n))))
	x.assume(st, c.Imp(ok, c.Eq(nn, n)))
	x.assume(st, c.Le(nn, n))
	x.assume(st, c.Imp(ok, content(x.streamF(k), pos)))
	first := x.ghost(st, "first:"+k, "Iface")
	st.ghost["pos:"+k] = npos
	st.ghost["failed:"+k] = c.Not(ok)
	nf := c.Ite(ok, first, err)
	st.ghost["first:"+k] = nf
	x.modeled["io.Writer.Write: err == nil iff all bytes were appended to the stream"] = true
	return x.ret(st, cc, &TupleV{[]Val{nn, err}})
}

func (x *Exec) bytesWritten(st *State, s *SliceV) func(F, pos *Term) *Term {
	c := x.c
	return func(F, pos *Term) *Term {
		if s.base == nil {
			return c.True
		}
		arr := x.sliceContent(st, s)
		fs := []*Term{c.Eq(x.mkstr(F, pos, s.len), x.mkstr(arr, s.off, s.len))}
		if s.len.op == "int" && s.len.ival.IsInt64() && s.len.ival.Int64() <= 16 {
			fs = nil
			for i := int64(0); i < s.len.ival.Int64(); i++ {
				b := c.Select(arr, c.Add(s.off, c.Int(i)))
				fs = append(fs, c.Eq(c.Select(F, c.Add(pos, c.Int(i))), b), c.Le(c.Int(0), b), c.Le(b, c.Int(255)))
			}
		}
		return c.And(fs...)
	}
}

func stdModels(x *Exec) {
	c := x.c
	m := x.models
	writeBytes := func(x *Exec, st *State, cc *Call) []*State {
		s, ok := cc.args[0].(*SliceV)
		if !ok {
			x.unsupported(st, "write")
			return x.ret(st, cc, x.fresh(st, "w", cc.resT))
		}
		return x.write(st, cc, cc.recvI, x.bytesWritten(st, s), s.len)
	}
	m["invoke:io.Writer.Write"] = writeBytes
	m["io.WriteString"] = func(x *Exec, st *State, cc *Call) []*State {
		s := cc.args[1].(*Term)
		w := x.reify(st, cc.args[0], nil)
		return x.write(st, cc, w, func(F, pos *Term) *Term { return c.Eq(x.mkstr(F, pos, x.strLen(s)), s) }, x.strLen(s))
	}
	m["invoke:message.flusher.Flush"] = func(x *Exec, st *State, cc *Call) []*State {
		e := c.App("flushresult", "Iface", cc.recvI)
		x.assert(st, c.Not(x.ghost(st, "failed:"+x.stream(cc.recvI), "Bool")), "pre", "no-write-after-error", "the stream is not flushed after a failed write")
		x.modeled["the stream's Flush returns its own error"] = true
		return x.ret(st, cc, e)
	}
	for _, n := range []int64{2, 4, 8} {
		n := n
		bits := fmt.Sprint(n * 8)
		m["binary.bigEndian.PutUint"+bits] = func(x *Exec, st *State, cc *Call) []*State {
			s := cc.args[1].(*SliceV)
			v := cc.args[2].(*Term)
			x.modeled["encoding/binary.BigEndian integer accessors (proved on the source of the standard library by the std tasks)"] = true
			x.assert(st, c.Le(c.Int(n), s.len), "panic", "no-panic", "PutUint: index out of range")
			if s.base == nil {
				st.dead = true
				return nil
			}
			arr := x.sliceContent(st, s)
			for k := int64(0); k < n; k++ {
				b := c.Mod(c.Div(v, pow2(uint(8*(n-1-k)))), pow2(8))
				if k == 0 {
					b = c.Div(v, pow2(uint(8*(n-1))))
				}
				arr = c.Store(arr, c.Add(s.off, c.Int(k)), b)
			}
			x.store(st, s.base, arr)
			return x.ret(st, cc, nil)
		}
		m["binary.bigEndian.Uint"+bits] = func(x *Exec, st *State, cc *Call) []*State {
			s := cc.args[1].(*SliceV)
			x.modeled["encoding/binary.BigEndian integer accessors (proved on the source of the standard library by the std tasks)"] = true
			x.assert(st, c.Le(c.Int(n), s.len), "panic", "no-panic", "Uint: index out of range")
			if s.base == nil {
				st.dead = true
				return nil
			}
			arr := x.sliceContent(st, s)
			u := c.Int(0)
			for k := int64(0); k < n; k++ {
				b := c.Select(arr, c.Add(s.off, c.Int(k)))
				c.Attach(b, c.Le(c.Int(0), b))
				c.Attach(b, c.Le(b, c.Int(255)))
				u = c.Add(u, c.MulK(b, pow2(uint(8*(n-1-k)))))
			}
			return x.ret(st, cc, u)
		}
	}
	m["binary.PutVarint"] = func(x *Exec, st *State, cc *Call) []*State {
		s := cc.args[0].(*SliceV)
		i := cc.args[1].(*Term)
		n := x.vlen(i)
		x.modeled["encoding/binary.PutVarint writes the zig-zag base-128 form (proved on the source of the standard library by the std tasks)"] = true
		x.assert(st, c.Le(n, s.len), "panic", "no-panic", "PutVarint: buffer too small")
		arr := c.Fresh("varr", arrSort("Int"))
		x.assume(st, c.Eq(x.mkstr(arr, s.off, n), x.vstr(i)))
		x.store(st, s.base, arr)
		return x.ret(st, cc, n)
	}
	m["binary.Varint"] = func(x *Exec, st *State, cc *Call) []*State {
		s := cc.args[0].(*SliceV)
		x.modeled["encoding/binary.Varint inverts PutVarint, reports 0 for a truncated value and <0 for overflow (proved on the source of the standard library by the std tasks)"] = true
		if s.base == nil {
			return x.ret(st, cc, &TupleV{[]Val{c.Int(0), c.Int(0)}})
		}
		val, n := x.vdec(x.sliceContent(st, s), s.off, s.len)
		return x.ret(st, cc, &TupleV{[]Val{val, n}})
	}
	m["errors.Is"] = func(x *Exec, st *State, cc *Call) []*State {
		return x.ret(st, cc, x.errIs(x.reify(st, cc.args[0], nil), x.reify(st, cc.args[1], nil)))
	}
	m["errors.New"] = func(x *Exec, st *State, cc *Call) []*State {
		return x.ret(st, cc, x.newErr(st, "err"))
	}
	m["fmt.Errorf"] = func(x *Exec, st *State, cc *Call) []*State {
		x.modeled["fmt.Errorf returns a non-nil error"] = true
		return x.ret(st, cc, x.newErr(st, "errorf"))
	}
	m["fmt.Println"] = func(x *Exec, st *State, cc *Call) []*State {
		return x.ret(st, cc, x.fresh(st, "r", cc.resT))
	}
	m["strconv.Itoa"] = func(x *Exec, st *State, cc *Call) []*State {
		x.modeled["strconv.Itoa"] = true
		i := cc.args[0].(*Term)
		if i.op == "int" {
			return x.ret(st, cc, x.strConst(i.ival.String()))
		}
		return x.ret(st, cc, c.App("itoa", "Str", i))
	}
}

// findApps lists the applications of a predicate mentioned on the path.
func (x *Exec) findApps(st *State, name string) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.sort != "Bool" {
			return
		}
		seen[t] = true
		if t.op == "app" && (t.name == name || strings.HasSuffix(name, "*") && strings.HasPrefix(t.name, name[:len(name)-1])) {
			out = append(out, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range st.pc {
		walk(t)
	}
	return out
}

// vdec is what encoding/binary.Varint returns for A[o..o+n).
func (x *Exec) vdec(a, o, n *Term) (val, cnt *Term) {
	c := x.c
	val = x.intRange(c.App("vdv", "Int", a, o, n), types.Typ[types.Int64])
	cnt = c.App("vdn", "Int", a, o, n)
	c.Attach(cnt, c.And(c.Le(c.Int(-11), cnt), c.Le(cnt, c.Int(10)), c.Imp(c.Le(c.Int(0), n), c.Le(cnt, n))))
	c.Attach(cnt, c.Imp(c.Eq(n, c.Int(0)), c.Eq(cnt, c.Int(0))))
	for _, i := range x.vstrArgs {
		enc := x.encVar(a, o, i)
		c.Attach(cnt, c.Imp(c.And(enc, c.Le(x.vlen(i), n)), c.And(c.Eq(cnt, x.vlen(i)), c.Eq(val, i))))
		c.Attach(cnt, c.Imp(c.And(enc, c.Le(c.Int(0), n), c.Lt(n, x.vlen(i))), c.Eq(cnt, c.Int(0))))
	}
	return val, cnt
}

func (x *Exec) doSelect(st *State, in *ssa.Select) []*State {
	if h, ok := x.extra["select"].(func(*State, *ssa.Select) []*State); ok {
		return h(st, in)
	}
	x.unsupported(st, "select")
	st.top().env[in] = x.fresh(st, "sel", in.Type())
	st.top().idx++
	return []*State{st}
}

func init() {
	sliceOf := func(v Val) *SliceV { return v.(*SliceV) }
	specFuns["len"] = func(e *Env, as []Val) Val {
		switch v := as[0].(type) {
		case *SliceV:
			return v.len
		case *Term:
			return e.x.strLen(v)
		}
		panic("len")
	}
	specFuns["cap"] = func(e *Env, as []Val) Val { return sliceOf(as[0]).cap }
	specFuns["isnil"] = func(e *Env, as []Val) Val { return e.equal(as[0], NilPtr{}) }
	specFuns["pos"] = func(e *Env, as []Val) Val {
		return e.x.ghost(e.st, "pos:"+e.x.stream(e.x.reify(e.st, as[0], nil)), "Int")
	}
	specFuns["failed"] = func(e *Env, as []Val) Val {
		return e.x.ghost(e.st, "failed:"+e.x.stream(e.x.reify(e.st, as[0], nil)), "Bool")
	}
	specFuns["first"] = func(e *Env, as []Val) Val {
		return e.x.ghost(e.st, "first:"+e.x.stream(e.x.reify(e.st, as[0], nil)), "Iface")
	}
	specFuns["F"] = func(e *Env, as []Val) Val { return e.x.streamF(e.x.stream(e.x.reify(e.st, as[0], nil))) }
	specFuns["flushresult"] = func(e *Env, as []Val) Val {
		return e.x.c.App("flushresult", "Iface", e.x.reify(e.st, as[0], nil))
	}
	specFuns["hasFlush"] = func(e *Env, as []Val) Val {
		return e.x.c.App("implements:message.flusher", "Bool", e.x.reify(e.st, as[0], nil))
	}
	specFuns["bytes"] = func(e *Env, as []Val) Val { return e.x.sliceContent(e.st, sliceOf(as[0])) }
	specFuns["base"] = func(e *Env, as []Val) Val { return sliceOf(as[0]).off }
	specFuns["str"] = func(e *Env, as []Val) Val {
		if s, ok := as[0].(*SliceV); ok {
			return e.x.sliceStr(e.st, s)
		}
		return as[0]
	}
	specFuns["mkstr"] = func(e *Env, as []Val) Val {
		return e.x.mkstr(as[0].(*Term), as[1].(*Term), as[2].(*Term))
	}
	specFuns["short"] = func(e *Env, as []Val) Val {
		x := e.x
		g := x.c.Var("globalval:io.ErrShortBuffer", "Iface")
		return x.errIs(x.reify(e.st, as[0], nil), g)
	}
	specFuns["w16"] = func(e *Env, as []Val) Val { return e.x.w16(as[0].(*Term)) }
	specFuns["w32"] = func(e *Env, as []Val) Val { return e.x.w32(as[0].(*Term)) }
	specFuns["vlen"] = func(e *Env, as []Val) Val { return e.x.vlen(as[0].(*Term)) }
	specFuns["vdn"] = func(e *Env, as []Val) Val {
		_, n := e.x.vdec(as[0].(*Term), as[1].(*Term), as[2].(*Term))
		return n
	}
	specFuns["vdv"] = func(e *Env, as []Val) Val {
		v, _ := e.x.vdec(as[0].(*Term), as[1].(*Term), as[2].(*Term))
		return v
	}
	specFuns["holds"] = func(e *Env, as []Val) Val {
		p, ok := as[0].(*PtrV)
		if !ok {
			return e.x.c.False
		}
		return e.x.c.Eq(e.x.load(e.st, p).(*Term), as[1].(*Term))
	}
	specFuns["ite"] = func(e *Env, as []Val) Val { return e.x.c.Ite(as[0].(*Term), as[1].(*Term), as[2].(*Term)) }
	for _, k := range []string{"i8", "i16", "i32", "i64"} {
		k := k
		specFuns[k+"at"] = func(e *Env, as []Val) Val { return e.x.at(k, as[0].(*Term), as[1].(*Term)) }
	}
	for _, k := range []string{"i8", "i16", "i32", "i64", "bool", "str", "nstr", "bytes", "i32arr", "i64arr", "strarr", "varint", "varbytes", "varstr"} {
		k := k
		specFuns["enc_"+k] = func(e *Env, as []Val) Val {
			return e.x.encField(e.st, k, as[0].(*Term), as[1].(*Term), as[2], nil)
		}
		specFuns["sz_"+k] = func(e *Env, as []Val) Val { return e.x.szField(e.st, k, as[0], nil) }
	}
	for _, k := range []string{"i32", "i64", "str"} {
		k := k
		specFuns["encArr_"+k] = func(e *Env, as []Val) Val {
			return e.x.encArr(k, as[0].(*Term), as[1].(*Term), as[2].(*Term), as[3].(*Term), nil)
		}
		specFuns["domArr_"+k] = func(e *Env, as []Val) Val { return e.x.domArr(k, as[0].(*Term), as[1].(*Term), nil) }
		specFuns["eqArr_"+k] = func(e *Env, as []Val) Val {
			a, _, _ := e.x.contentOf(e.st, as[0])
			return e.x.eqArr(k, a, as[1].(*Term), as[2].(*Term), nil)
		}
		specFuns["szArr_"+k] = func(e *Env, as []Val) Val { return e.x.szArr(k, as[0].(*Term), as[1].(*Term), nil) }
	}
	// samebacking(a, b): the slice a lies inside the array of b
	specFuns["sharesArray"] = func(e *Env, as []Val) Val {
		a, b := sliceOf(as[0]), sliceOf(as[1])
		return e.x.c.Bool(a.base != nil && b.base != nil && a.base.obj == b.base.obj)
	}
}

// arrayGhost: the behaviour quantifies over an array encoded at a position.
func arrayGhost(s *SpecSet, b *Behavior, kind, v string, at *node) {
	es := "Int"
	if kind == "str" {
		es = "Str"
	}
	if kind == "int" || kind == "string" {
		b.ghost = func(x *Exec, st *State, vars map[string]Val) {
			if kind == "int" {
				t := x.c.Var("ghost:"+v, "Int")
				vars[v] = x.intRange(t, types.Typ[types.Int64])
			} else {
				vars[v] = x.c.Var("ghost:"+v, "Str")
			}
		}
		return
	}
	b.ghost = func(x *Exec, st *State, vars map[string]Val) {
		vars[v] = x.c.Var("ghost:"+v, arrSort(es))
		n := x.c.Var("ghost:"+v+"_n", "Int")
		vars[v+"_n"] = n
		isn := x.c.Var("ghost:"+v+"_nil", "Bool")
		vars[v+"_nil"] = isn
		x.assume(st, x.c.And(x.c.Le(x.c.Int(0), n), x.c.Le(n, x.c.Int(1<<31-1)), x.c.Imp(isn, x.c.Eq(n, x.c.Int(0)))))
	}
	b.match = func(x *Exec, st *State, env *Env) []map[string]Val {
		var out []map[string]Val
		o := env.evalInt(s, at)
		for _, t := range x.findApps(st, "encArr:"+kind) {
			if t.args[1] == o || x.valid(st, x.c.Eq(t.args[1], o)) {
				isn := x.c.False
				if a := t.args[2]; a.op == "app" && strings.HasPrefix(a.name, "slarr:") {
					isn = x.slNil(a.args[0])
				}
				out = append(out, map[string]Val{v: t.args[2], v + "_n": t.args[3], v + "_nil": isn})
			}
		}
		return out
	}
}

var _ = strconv.Itoa
var _ = strings.TrimSpace
var _ types.Type
