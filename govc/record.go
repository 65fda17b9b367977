package main

// Record batches (C19). A Header is known by the sequences its Range method
// passes to the callback: every call enumerates the same pairs, in an order
// of its own. Range is executed as the ghost function zzRange below, which is
// added to the package for this check only; callbacks are the real ones.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ghostSrc = `package kafka

type zzHeader struct{ Key, Value string }

func zzRange(hs []zzHeader, fn func(key, value string)) {
	for i := 0; i < len(hs); i++ {
		fn(hs[i].Key, hs[i].Value)
	}
}
`

const hdrSort = "T:kafka.zzHeader"
const recSort = "T:kafka.Message"

var i64T = types.Typ[types.Int64]

func (x *Exec) hdrParts(e *Term) (k, v *Term) {
	return x.c.App(hdrSort+".Key", "Str", e), x.c.App(hdrSort+".Value", "Str", e)
}

// tsMillis is the specified timestamp: whole milliseconds since the epoch.
func (x *Exec) tsMillis(t *Term) *Term {
	c := x.c
	return c.Wrap(c.Add(c.MulK(x.timePart(t, "unix"), big.NewInt(1000)), c.Div(x.timePart(t, "nsec"), big.NewInt(1000000))), 64, true)
}

func (x *Exec) timePart(t *Term, part string) *Term {
	c := x.c
	u := c.App("time."+part, "Int", t)
	if u.ax == nil {
		if part == "unix" {
			x.intRange(u, i64T)
		} else {
			c.Attach(u, c.Le(c.Int(0), u))
			c.Attach(u, c.Lt(u, c.Int(1000000000)))
		}
	}
	return u
}

func (x *Exec) hdrCount(h *Term) *Term {
	c := x.c
	n := c.App("hcount", "Int", h)
	if n.ax == nil {
		c.Attach(n, c.Le(c.Int(0), n))
		c.Attach(n, c.Le(n, c.Big(maxLen)))
	}
	return c.Ite(c.Eq(h, x.nilIface()), c.Int(0), n)
}
func (x *Exec) hdrSize(h *Term) *Term {
	c := x.c
	n := c.App("hsize", "Int", h)
	if n.ax == nil {
		c.Attach(n, c.Le(c.Int(0), n))
		c.Attach(n, c.Le(n, c.Big(maxLen)))
	}
	return c.Ite(c.Eq(h, x.nilIface()), c.Int(0), n)
}

// hdrSeq names the order in which the pairs of h are enumerated by the j-th
// Range call at stream position pos.
func (x *Exec) hdrSeq(h, pos *Term, j int64) *Term {
	c := x.c
	return c.App("hdrseq", arrSort(hdrSort), h, pos, c.Int(j))
}

// recParts are the fields of a record behind its length, in order.
type recPart struct {
	kind string
	val  Val
	name string
}

func (x *Exec) recFields(e *Term, v []*Term) (parts []recPart, h *Term) {
	c := x.c
	mt := x.p.types["kafka.Message"]
	sv := x.unreify(nil, e, mt).(*StructV)
	get := func(n string) Val { return x.field(nil, sv, fieldIndex(mt, n)) }
	h = x.reify(nil, get("Header"), nil)
	ts := x.reify(nil, get("Timestamp"), nil)
	d := func(a, b *Term) *Term { return c.Wrap(c.Sub(a, b), 64, true) }
	return []recPart{
		{"i8", c.Int(0), "attributes"},
		{"varint", d(x.tsMillis(ts), v[1]), "timestampDelta"},
		{"varint", d(get("Offset").(*Term), v[0]), "offsetDelta"},
		{"varbytes", get("Key"), "key"},
		{"varbytes", get("Value"), "value"},
		{"varint", x.hdrCount(h), "header count"},
	}, h
}

// recBody is the number of bytes of a record behind its length prefix.
func (x *Exec) recBody(e *Term, v []*Term) *Term {
	c := x.c
	t := c.App("recbody", "Int", append([]*Term{e}, v...)...)
	if t.axGen == nil {
		t.axGen = func() []*Term {
			parts, h := x.recFields(e, v)
			s := c.Int(0)
			for _, p := range parts {
				s = c.Add(s, x.szField(newState(), p.kind, p.val, nil))
			}
			s = c.Add(s, x.hdrSize(h))
			// domain: the format has 32-bit record lengths
			return []*Term{c.Eq(t, s), c.Le(c.Int(0), t), c.Le(t, c.Int(1<<31-1))}
		}
	}
	return t
}

func (x *Exec) recSize(e *Term, v []*Term) *Term {
	b := x.recBody(e, v)
	return x.c.Add(x.vlen(b), b)
}

type recGoal struct {
	name string
	t    *Term
}

func (x *Exec) recEncParts(a, o, e *Term, v []*Term) []recGoal {
	c := x.c
	b := x.recBody(e, v)
	out := []recGoal{{"length", x.encVar(a, o, b)}}
	o = c.Add(o, x.vlen(b))
	parts, h := x.recFields(e, v)
	st := newState()
	for _, p := range parts {
		out = append(out, recGoal{p.name, x.encField(st, p.kind, a, o, p.val, nil)})
		o = c.Add(o, x.szField(st, p.kind, p.val, nil))
	}
	// the headers, in one of the orders in which Range enumerates them here
	var ds []*Term
	for j := int64(0); j < 3; j++ {
		ds = append(ds, x.encArr("hdr", a, o, x.hdrSeq(h, o, j), x.hdrCount(h), nil))
	}
	return append(out, recGoal{"headers", c.Or(ds...)})
}

func (x *Exec) recEnc(a, o, e *Term, v []*Term) *Term {
	var cs []*Term
	for _, g := range x.recEncParts(a, o, e, v) {
		cs = append(cs, g.t)
	}
	return x.c.And(cs...)
}

func (w *Worker) recExec(unroll int) (*Exec, *node) {
	x := w.newExec()
	c := x.c
	x.unroll = unroll
	zz := w.p.funcs["kafka.zzRange"]
	hdrT := w.p.types["kafka.zzHeader"]
	pos := func(st *State) *Term {
		if s, ok := x.extra["stream"].(string); ok {
			return x.ghost(st, "pos:"+s, "Int")
		}
		return x.ghost(st, "nopos", "Int")
	}
	x.models["invoke:kafka.Header.Range"] = func(x *Exec, st *State, cc *Call) []*State {
		x.modeled["Header.Range passes the same pairs to its callback on every call, each once, in any order"] = true
		h := cc.recvI
		x.assert(st, c.Not(c.Eq(h, x.nilIface())), "panic", "no-panic", "method call on a nil header")
		p := pos(st)
		j := int64(0)
		if last, ok := st.ghost["rangepos"].(*Term); ok && last == p {
			if jt, ok := st.ghost["rangej"].(*Term); ok && jt.op == "int" {
				j = jt.ival.Int64() + 1
			}
		}
		st.ghost["rangepos"], st.ghost["rangej"] = p, c.Int(j)
		arr := x.hdrSeq(h, p, j)
		n := x.hdrCount(h)
		x.assume(st, c.Eq(x.szArr("hdr", arr, n, nil), x.hdrSize(h)))
		id := x.newObjID()
		x.initObj[id] = &Obj{id: id, typ: types.NewArray(hdrT, -1), val: arr}
		hs := &SliceV{base: &PtrV{obj: id}, off: c.Int(0), len: n, cap: n, isnil: c.False, elem: hdrT}
		return x.enter(st, &Call{fn: zz, instr: cc.instr, args: []Val{hs, cc.args[0]}, onRet: cc.onRet, isDefer: cc.isDefer})
	}
	m := func(f func(t *Term) *Term) func(x *Exec, st *State, cc *Call) []*State {
		return func(x *Exec, st *State, cc *Call) []*State {
			x.modeled["time.Time accessors"] = true
			return x.ret(st, cc, f(x.reify(st, cc.args[0], nil)))
		}
	}
	x.models["time.Time.Unix"] = m(func(t *Term) *Term { return x.timePart(t, "unix") })
	x.models["time.Time.Nanosecond"] = m(func(t *Term) *Term { return x.timePart(t, "nsec") })
	x.models["time.Time.UnixMilli"] = m(x.tsMillis)
	x.models["time.Time.UnixNano"] = m(func(t *Term) *Term {
		return c.Wrap(c.Add(c.MulK(x.timePart(t, "unix"), big.NewInt(1000000000)), x.timePart(t, "nsec")), 64, true)
	})
	return x, parseExpr("encInv(e)")
}

var batchFields = []FieldDef{{Name: "BaseOffset", Kind: "i64"}, {Name: "BatchLength", Kind: "i32"}, {Name: "PartitionLeaderEpoch", Kind: "i32"},
	{Name: "magic", Kind: "i8"}, {Name: "CRC", Kind: "i32"}, {Name: "Attributes", Kind: "i16"}, {Name: "LastOffsetDelta", Kind: "i32"},
	{Name: "FirstTimestamp", Kind: "i64"}, {Name: "MaxTimestamp", Kind: "i64"}, {Name: "ProducerId", Kind: "i64"}, {Name: "ProducerEpoch", Kind: "i16"},
	{Name: "BaseSequence", Kind: "i32"}}

// recHelper is a contract for an unexported helper of the record code, guessed
// from its signature. It is used in callers only after it has been proved in
// the same run; a helper for which no guess is proved is entered instead.
type recHelper struct {
	fn   *ssa.Function
	name string
	kind string // count, hdrsize, body, full, encode
	// positions of the parameters that matter, -1 if absent
	msg, hdr, enc, base, first, batch int
	typ                               types.Type // result
}

// recHelpers are the package functions that fn calls, callees first.
func (w *Worker) recCallees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{fn: true}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !seen[g] && g.Pkg == fn.Pkg && len(g.Blocks) > 0 {
						seen[g] = true
						walk(g)
						if g.Parent() == nil {
							out = append(out, g)
						}
					}
				}
			}
		}
	}
	walk(fn)
	return out
}

// guesses lists the contracts that a signature suggests.
func (w *Worker) guesses(fn *ssa.Function) []*recHelper {
	h := recHelper{fn: fn, name: funcName(fn), msg: -1, hdr: -1, enc: -1, base: -1, first: -1, batch: -1}
	var i64s []int
	for i, p := range fn.Params {
		t := p.Type()
		switch {
		case types.Identical(t, w.p.types["kafka.Message"]):
			h.msg = i
		case types.Identical(t, w.p.types["kafka.Header"]):
			h.hdr = i
		case types.Identical(t, w.p.types["kafka.RecordBatch"]):
			h.batch = i
		case sortOf(t) == "Ref" && strings.HasSuffix(t.String(), "message.Encoder"):
			h.enc = i
		default:
			if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Int64 {
				i64s = append(i64s, i)
			}
		}
	}
	r := fn.Signature.Results()
	if r.Len() > 1 {
		return nil
	}
	if r.Len() == 1 {
		h.typ = r.At(0).Type()
		if _, _, ok := intType(h.typ); !ok {
			return nil
		}
	}
	var out []*recHelper
	add := func(kind string, base, first int) {
		g := h
		g.kind, g.base, g.first = kind, base, first
		out = append(out, &g)
	}
	withArgs := func(kinds ...string) {
		for _, k := range kinds {
			switch {
			case h.batch >= 0:
				add(k, -1, -1)
			case len(i64s) == 2:
				add(k, i64s[0], i64s[1])
				add(k, i64s[1], i64s[0])
			}
		}
	}
	switch {
	case h.msg < 0 && h.hdr >= 0 && h.enc < 0 && h.typ != nil:
		add("count", -1, -1)
		add("hdrsize", -1, -1)
	case h.msg >= 0 && h.enc < 0 && h.typ != nil:
		withArgs("body", "full")
	case h.msg >= 0 && h.enc >= 0 && h.typ == nil:
		withArgs("encode")
	}
	return out
}

func (h *recHelper) recArgs(x *Exec, st *State, args []Val) []*Term {
	if h.batch >= 0 {
		return []*Term{x.fieldOf(st, args[h.batch], "BaseOffset").(*Term), x.fieldOf(st, args[h.batch], "FirstTimestamp").(*Term)}
	}
	return []*Term{args[h.base].(*Term), args[h.first].(*Term)}
}

// spec is the specified result.
func (h *recHelper) spec(x *Exec, st *State, args []Val) *Term {
	switch h.kind {
	case "count":
		return x.wrapAs(x.hdrCount(x.reify(st, args[h.hdr], nil)), h.typ)
	case "hdrsize":
		return x.wrapAs(x.hdrSize(x.reify(st, args[h.hdr], nil)), h.typ)
	}
	m, v := x.reify(st, args[h.msg], nil), h.recArgs(x, st, args)
	if h.kind == "full" {
		return x.wrapAs(x.recSize(m, v), h.typ)
	}
	return x.wrapAs(x.recBody(m, v), h.typ)
}

var recDesc = map[string]string{
	"count": "the result is the number of headers", "hdrsize": "the result is the encoded size of the headers",
	"body": "the result is the number of bytes of the record behind its length prefix",
	"full": "the result is the number of bytes of the record with its length prefix",
}

// prove verifies one helper against its contract.
func (h *recHelper) prove(w *Worker, proved []*recHelper) *FuncResult {
	x, encInv := w.recExec(0)
	c := x.c
	w.useRecHelpers(x, proved)
	ps := make([]string, len(h.fn.Params))
	for i := range ps {
		ps[i] = fmt.Sprintf("p%d", i)
	}
	argsOf := func(vars map[string]Val) []Val {
		var as []Val
		for _, p := range ps {
			as = append(as, vars[p])
		}
		return as
	}
	if h.kind != "encode" {
		return x.runFn(h.fn, h.name, ps, nil, func(e, init *State, vars map[string]Val) {
			x.assert(e, c.Eq(e.result.(*Term), h.spec(x, init, argsOf(vars))), "post", h.kind, recDesc[h.kind])
		})
	}
	ps[h.enc] = "e"
	return x.runFn(h.fn, h.name, ps, func(st *State, vars map[string]Val) {
		e := &Env{x: x, st: st, old: st, vars: vars}
		x.assume(st, e.evalBool(w.specs, encInv))
		w.keepInv(x, encInv, vars)
		x.extra["stream"] = x.stream(x.reify(st, x.fieldOf(st, x.load(st, vars["e"].(*PtrV)), "target"), nil))
	}, func(e, init *State, vars map[string]Val) {
		as := argsOf(vars)
		m, v := x.reify(init, as[h.msg], nil), h.recArgs(x, init, as)
		e0 := &Env{x: x, st: init, old: init, vars: vars}
		e1 := &Env{x: x, st: e, old: init, vars: vars}
		x.assert(e, e1.evalBool(w.specs, encInv), "post", "inv", "the encoder stays consistent")
		x.assert(e, c.Imp(e0.failed(w.specs), e1.failed(w.specs)), "post", "sticky", "a failed encoder stays failed")
		good := e.clone()
		x.assume(good, c.Not(e1.failed(w.specs)))
		F, p0, p := e0.strF(w.specs), e0.pos(w.specs), e1.pos(w.specs)
		x.assert(good, c.Eq(p, c.Add(p0, x.recSize(m, v))), "post", "length", "the number of bytes written is that of the record layout")
		for _, g := range x.recEncParts(F, p0, m, v) {
			x.assert(good, g.t, "post", "record "+g.name, "the record carries its "+g.name)
		}
	})
}

// useRecHelpers installs the proved contracts.
func (w *Worker) useRecHelpers(x *Exec, proved []*recHelper) {
	c := x.c
	encInv := parseExpr("encInv(e)")
	for _, h := range proved {
		h := h
		if h.kind != "encode" {
			x.models[h.name] = func(x *Exec, st *State, cc *Call) []*State {
				x.called[h.name] = true
				return x.ret(st, cc, h.spec(x, st, cc.args))
			}
			continue
		}
		x.models[h.name] = func(x *Exec, st *State, cc *Call) []*State {
			x.called[h.name] = true
			p := cc.args[h.enc].(*PtrV)
			vars := map[string]Val{"e": p}
			m, v := x.reify(st, cc.args[h.msg], nil), h.recArgs(x, st, cc.args)
			old := st.clone()
			e0 := &Env{x: x, st: old, old: old, vars: vars}
			x.assert(st, e0.evalBool(w.specs, encInv), "pre", h.name+" requires a consistent encoder", "")
			tgt := x.fieldOf(st, x.load(st, p), "target")
			fs := x.stream(x.reify(st, tgt, nil))
			// the callee may change the encoder except its target, and the stream
			x.store(st, p, x.fresh(st, "enc", p.elem))
			ti := fieldIndex(p.elem, "target")
			x.store(st, p.step(Step{field: ti}, under(p.elem).(*types.Struct).Field(ti).Type()), tgt)
			st.ghost["pos:"+fs] = c.Fresh("pos", "Int")
			st.ghost["failed:"+fs] = c.Fresh("failed", "Bool")
			st.ghost["first:"+fs] = c.Fresh("first", "Iface")
			e1 := &Env{x: x, st: st, old: old, vars: vars}
			x.assume(st, e1.evalBool(w.specs, encInv))
			x.assume(st, c.Imp(e0.failed(w.specs), e1.failed(w.specs)))
			F, p0, p1 := e0.strF(w.specs), e0.pos(w.specs), e1.pos(w.specs)
			var gs []*Term
			for _, g := range x.recEncParts(F, p0, m, v) {
				gs = append(gs, g.t)
			}
			x.assume(st, c.Or(e1.failed(w.specs), c.And(append(gs, c.Eq(p1, c.Add(p0, x.recSize(m, v))))...)))
			return x.ret(st, cc, &TupleV{})
		}
	}
}

func (w *Worker) recordBatch(method string, unroll int) *FuncResult {
	fn := w.p.funcs["kafka.RecordBatch."+method]
	if fn == nil {
		return &FuncResult{Func: "kafka.RecordBatch." + method, Unsup: "function not found"}
	}
	var proved []*recHelper
	var subs []*FuncResult
	for _, f := range w.recCallees(fn) {
		gs := w.guesses(f)
		for _, h := range gs {
			r := w.tryHelper(h, proved)
			if debugInv {
				fmt.Fprintln(os.Stderr, "helper", h.name, h.kind, r.Unsup, len(r.Obligs), r.ok())
				for _, o := range r.Obligs {
					if o.Status != "proved" {
						fmt.Fprintln(os.Stderr, "   ", o.Status, o.Class, o.Name, o.Desc)
					}
				}
			}
			if r.ok() {
				proved = append(proved, h)
				subs = append(subs, r)
				break
			}
		}
	}
	res := w.recordBatchWith(method, unroll, proved)
	for i := len(subs) - 1; i >= 0; i-- {
		for _, u := range res.Used {
			if u == subs[i].Func {
				res.merge(subs[i])
				break
			}
		}
	}
	return res
}

func (w *Worker) tryHelper(h *recHelper, proved []*recHelper) (r *FuncResult) {
	defer func() {
		if e := recover(); e != nil {
			r = &FuncResult{Func: h.name, Unsup: fmt.Sprint(e)}
		}
	}()
	return h.prove(w, proved)
}

func (r *FuncResult) ok() bool {
	for _, o := range r.Obligs {
		if o.Status != "proved" {
			return false
		}
	}
	return r.Unsup == "" && !r.Bounded
}

func (r *FuncResult) merge(s *FuncResult) {
	r.Obligs = append(r.Obligs, s.Obligs...)
	r.Inlined = append(r.Inlined, s.Inlined...)
	r.Used = append(r.Used, s.Used...)
	r.Assumed = append(r.Assumed, s.Assumed...)
	r.Invs = append(r.Invs, s.Invs...)
	r.Paths += s.Paths
}

// keepInv offers the precondition as a loop invariant.
func (w *Worker) keepInv(x *Exec, inv *node, vars map[string]Val) {
	x.extra["loopinv"] = []*Cand{{text: "encoder consistent", eval: func(s *State) *Term {
		e := &Env{x: x, st: s, old: s, vars: vars}
		return e.evalBool(w.specs, inv)
	}}}
}

func (w *Worker) recordBatchWith(method string, unroll int, proved []*recHelper) *FuncResult {
	name := "kafka.RecordBatch." + method
	fn := w.p.funcs[name]
	if fn == nil || w.p.funcs["kafka.zzRange"] == nil || w.p.types["kafka.Message"] == nil {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x, encInv := w.recExec(unroll)
	c := x.c
	w.useRecHelpers(x, proved)
	params := []string{"r", "version"}
	if method == "Encode" {
		params = []string{"r", "e", "version"}
	}
	var r *StructV
	var base, first, arr, n *Term
	return x.runFn(fn, name, params, func(st *State, vars map[string]Val) {
		r = vars["r"].(*StructV)
		get := func(f string) Val { return x.fieldOf(st, r, f) }
		base, first = get("BaseOffset").(*Term), get("FirstTimestamp").(*Term)
		x.extra["recargs"] = []*Term{base, first}
		arr, n, _ = x.contentOf(st, get("Records"))
		if method == "Encode" {
			e := &Env{x: x, st: st, old: st, vars: vars}
			x.assume(st, e.evalBool(w.specs, encInv))
			w.keepInv(x, encInv, vars)
			tgt := x.reify(st, x.fieldOf(st, x.load(st, vars["e"].(*PtrV)), "target"), nil)
			x.extra["stream"] = x.stream(tgt)
		}
	}, func(e, init *State, vars map[string]Val) {
		v := []*Term{base, first}
		total := c.Int(4)
		for _, f := range batchFields {
			total = c.Add(total, c.Int(kindBytes[f.Kind]))
		}
		total = c.Add(total, x.szArr("rec", arr, n, v))
		if method == "Size" {
			x.assert(e, c.Eq(e.result.(*Term), x.w32(total)), "post", "size", "the reported size is that of the batch layout")
			return
		}
		e0 := &Env{x: x, st: init, old: init, vars: vars}
		e1 := &Env{x: x, st: e, old: init, vars: vars}
		good := e.clone()
		x.assume(good, c.Not(e1.failed(w.specs)))
		F, p0, p := e0.strF(w.specs), e0.pos(w.specs), e1.pos(w.specs)
		x.assert(good, c.Eq(p, c.Add(p0, total)), "post", "length", "the number of bytes written is that of the batch layout")
		o := p0
		for _, f := range batchFields {
			var val Val = c.Int(2)
			if f.Name != "magic" {
				val = x.fieldOf(init, r, f.Name)
			}
			x.assert(good, x.encField(good, f.Kind, F, o, val, nil), "post", "batch "+f.Name, "the batch carries "+f.Name)
			o = c.Add(o, c.Int(kindBytes[f.Kind]))
		}
		x.assert(good, c.Eq(x.at("i32", F, o), x.w32(n)), "post", "batch record count", "the batch carries the number of records")
		o = c.Add(o, c.Int(4))
		x.assert(good, x.encArr("rec", F, o, arr, n, v), "post", "records", "every record is laid out as the format prescribes, with its length prefix equal to the bytes that follow")
	})
}

func recordTasks() []*Task {
	var out []*Task
	for _, m := range []string{"Size", "Encode"} {
		m := m
		n := "kafka.RecordBatch." + m
		out = append(out, &Task{Name: n, Fn: n, Key: n, Custom: func(w *Worker, u int) *FuncResult { return w.recordBatch(m, u) }})
	}
	n := "kafka.MapHeader.Range"
	out = append(out, &Task{Name: n, Fn: n, Key: n, Custom: func(w *Worker, u int) *FuncResult { return w.mapRange(u) }})
	return out
}

// mapRange: MapHeader.Range honours the contract of Header.Range: the
// callback gets every pair of the map exactly once.
func (w *Worker) mapRange(unroll int) *FuncResult {
	name := "kafka.MapHeader.Range"
	fn := w.p.funcs[name]
	if fn == nil {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := w.newExec()
	c := x.c
	x.unroll = unroll
	iter := c.Var("iterator", "Ref")
	var m *Term
	x.models["range"] = func(x *Exec, st *State, cc *Call) []*State {
		x.assert(st, c.Eq(x.reify(st, cc.args[0], nil), m), "post", "own-pairs", "the pairs are those of the map")
		x.assert(st, c.Eq(x.ghost(st, "given", "Int"), c.Int(0)), "post", "once", "the map is enumerated once")
		x.modeled["range over a map yields every pair exactly once"] = true
		st.ghost["ranged"] = c.True
		return x.ret(st, cc, iter)
	}
	x.models["next"] = func(x *Exec, st *State, cc *Call) []*State {
		x.assert(st, c.Eq(x.ghost(st, "given", "Int"), x.ghost(st, "taken", "Int")), "post", "pair-given", "the previous pair has been passed to the callback")
		ok := c.Fresh("ok", "Bool")
		k, v := c.Fresh("key", "Str"), c.Fresh("value", "Str")
		st.ghost["k"], st.ghost["v"] = k, v
		s1 := st.clone()
		x.assume(s1, ok)
		s1.ghost["given"] = c.Add(x.ghost(s1, "given", "Int"), c.Int(1))
		x.assume(st, c.Not(ok))
		st.ghost["done"] = c.True
		return append(x.ret(s1, cc, &TupleV{[]Val{c.True, k, v}}), x.ret(st, cc, &TupleV{[]Val{c.False, k, v}})...)
	}
	x.models["dynamic"] = func(x *Exec, st *State, cc *Call) []*State {
		x.assert(st, c.And(c.Eq(cc.args[0].(*Term), x.ghost(st, "k", "Str")), c.Eq(cc.args[1].(*Term), x.ghost(st, "v", "Str"))), "post", "pair", "the callback gets the key and value of the current pair")
		st.ghost["taken"] = c.Add(x.ghost(st, "taken", "Int"), c.Int(1))
		x.assert(st, c.Eq(x.ghost(st, "given", "Int"), x.ghost(st, "taken", "Int")), "post", "once", "the callback gets each pair once")
		return x.ret(st, cc, x.fresh(st, "r", cc.resT))
	}
	x.cands = func(lc *LoopCtx) []*Cand {
		return []*Cand{{text: "pairs given == pairs taken", eval: func(s *State) *Term {
			return c.Eq(x.ghost(s, "given", "Int"), x.ghost(s, "taken", "Int"))
		}}, {text: "not done", eval: func(s *State) *Term { return c.Not(x.ghost(s, "done", "Bool")) }}}
	}
	return x.runFn(fn, name, []string{"m", "fn"}, func(st *State, vars map[string]Val) {
		m = x.reify(st, vars["m"], nil)
		st.ghost["given"], st.ghost["taken"] = c.Int(0), c.Int(0)
		st.ghost["done"], st.ghost["ranged"] = c.False, c.False
	}, func(e, init *State, vars map[string]Val) {
		x.assert(e, x.ghost(e, "done", "Bool"), "post", "all-pairs", "every pair is enumerated")
		x.assert(e, c.Eq(x.ghost(e, "given", "Int"), x.ghost(e, "taken", "Int")), "post", "all-given", "every pair is passed to the callback")
	})
}
