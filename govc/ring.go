package main

// C15, C16: the receive buffer. Rely-guarantee reasoning for one reader and
// one writer. Positions in the stream are mathematical integers:
//
//	R, W   published positions: start is the slot of R, next the slot of W,
//	       R <= W <= R+size-1
//	rp     reader: bytes taken out of the buffer so far
//	wp     writer: bytes put into the buffer so far
//	Rk, Wk what a side has last seen of the other side's position
//
// The reader owns the slots of [R, W), the writer those of [W, R+size). Each
// side relies on the other side's position only growing; between two accesses
// the other side may do any number of steps.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ringRun struct {
	w     *Worker
	x     *Exec
	prop  string
	write bool // WriteN, else ReadN
	r     *PtrV
	bufT  types.Type
	arg   *SliceV // the caller's slice
	arg0  *Term   // its content on entry
	n     *Term
	N     *Term
	data  *SliceV
	T     *Term // the stream
	J     *Term // arbitrary index into the caller's slice
	P0    *Term // position on entry
	ctx   *Term
	mine  *Term // channel this side waits on
	other *Term // channel that wakes the other side
}

func (r *ringRun) chk(st *State, props string, cond *Term, name, desc string) {
	if strings.Contains(props, r.prop) {
		r.x.assert(st, cond, "post", name, desc)
	}
}
func (r *ringRun) g(st *State, k string) *Term  { return r.x.ghost(st, k, "Int") }
func (r *ringRun) gb(st *State, k string) *Term { return r.x.ghost(st, k, "Bool") }

// dist is the number of slots from a to b going forward.
func (r *ringRun) dist(a, b *Term) *Term {
	c := r.x.c
	d := c.Sub(b, a)
	return c.Ite(c.Le(a, b), d, c.Add(d, r.N))
}
func (r *ringRun) inRange(v *Term) *Term {
	c := r.x.c
	return c.And(c.Le(c.Int(0), v), c.Lt(v, r.N))
}

// ringField names the field of the buffer a pointer points to.
func (r *ringRun) fieldName(p *PtrV) string {
	if r.r != nil && p.obj == r.r.obj && len(p.path) >= 1 && p.path[0].idx == nil {
		return under(r.bufT).(*types.Struct).Field(p.path[0].field).Name()
	}
	return ""
}
func (r *ringRun) isData(p *PtrV) bool {
	return r.data != nil && r.data.base != nil && p.obj == r.data.base.obj && len(p.path) == 1 && p.path[0].idx != nil
}

func (r *ringRun) own() string {
	if r.write {
		return "next"
	}
	return "start"
}

// slot turns a slot into the position it stands for, given what this side owns.
func (r *ringRun) pos(st *State, idx *Term) *Term {
	c := r.x.c
	if r.write {
		return c.Add(r.g(st, "W"), r.dist(r.g(st, "sW"), idx))
	}
	return c.Add(r.g(st, "R"), r.dist(r.g(st, "sR"), idx))
}

func (r *ringRun) loadIndex(st *State, f string) *Term {
	x := r.x
	c := x.c
	if f == r.own() {
		if r.write {
			return r.g(st, "sW")
		}
		return r.g(st, "sR")
	}
	v := c.Fresh(f, "Int")
	x.assume(st, r.inRange(v))
	if r.write {
		nr := c.Sub(r.g(st, "W"), r.dist(v, r.g(st, "sW")))
		x.assume(st, c.Le(r.g(st, "Rk"), nr))
		st.ghost["Rk"] = nr
	} else {
		nw := c.Add(r.g(st, "R"), r.dist(r.g(st, "sR"), v))
		x.assume(st, c.Le(r.g(st, "Wk"), nw))
		st.ghost["Wk"] = nw
		cl := r.gb(st, "closedKnown")
		st.ghost["afterClose"] = c.Or(cl, r.gb(st, "afterClose"))
		st.ghost["Wc"] = c.Ite(cl, nw, r.g(st, "Wc"))
	}
	st.ghost["checked"] = c.True
	return v
}

func (r *ringRun) storeIndex(st *State, f string, v *Term) {
	x := r.x
	c := x.c
	if f != r.own() {
		r.chk(st, "C15 C16", c.False, "own-index", "a side publishes its own position only")
		return
	}
	if !x.valid(st, r.inRange(v)) {
		x.unsupported(st, "index published in another form than a slot")
	}
	if r.write {
		nw := r.pos(st, v)
		r.chk(st, "C15", c.Le(nw, r.g(st, "wp")), "publishes-written-bytes", "only bytes that have been written are handed to the reader")
		r.chk(st, "C15", c.Le(nw, c.Add(r.g(st, "Rk"), c.Sub(r.N, c.Int(1)))), "full-is-not-empty", "the writer leaves a slot free, so that full and empty differ")
		st.ghost["W"], st.ghost["sW"] = nw, v
	} else {
		nr := r.pos(st, v)
		r.chk(st, "C15", c.Le(nr, r.g(st, "rp")), "releases-read-bytes", "only bytes that have been read are handed back to the writer")
		st.ghost["R"], st.ghost["sR"] = nr, v
	}
	st.ghost["signalled"] = c.False
}

// dataLoad reads one byte of the buffer.
func (r *ringRun) dataLoad(st *State, idx *Term) *Term {
	x := r.x
	c := x.c
	if r.write {
		x.unsupported(st, "the writer reads the buffer")
		return c.Fresh("b", "Int")
	}
	a := r.pos(st, c.Sub(idx, r.data.off))
	r.chk(st, "C15", c.Lt(a, r.g(st, "Wk")), "reads-published-bytes", "the reader reads only bytes that the writer has handed over")
	rp := r.g(st, "rp")
	st.ghost["rp"] = c.Ite(c.Le(c.Add(a, c.Int(1)), rp), rp, c.Add(a, c.Int(1)))
	return c.Select(r.T, a)
}

// dataStore writes k bytes, the i-th being src[so+i], into the buffer.
func (r *ringRun) dataStore(st *State, idx, k *Term, byteAt func(j *Term) *Term) {
	x := r.x
	c := x.c
	if !r.write {
		r.chk(st, "C15", c.False, "reader-writes-nothing", "the reader does not write into the buffer")
		return
	}
	a := r.pos(st, c.Sub(idx, r.data.off))
	some := c.Lt(c.Int(0), k)
	r.chk(st, "C15", c.Imp(some, c.Le(c.Add(a, k), c.Add(r.g(st, "Rk"), r.N))), "overwrites-nothing", "the writer does not write over bytes that have not been read")
	wp := r.g(st, "wp")
	r.chk(st, "C15", c.Imp(some, c.Eq(a, wp)), "in-order", "the bytes are stored in order")
	// the caller's byte at the same place, for an arbitrary one of them
	j := c.Sub(wp, r.P0)
	q := c.Fresh("q", "Int")
	s := st.clone()
	x.assume(s, c.And(some, c.Le(c.Int(0), q), c.Lt(q, k)))
	if !s.dead {
		r.chk(s, "C15", c.Eq(byteAt(q), c.Select(r.arg0, c.Add(r.arg.off, j, q))), "stores-the-bytes", "the bytes stored are the caller's")
	}
	st.ghost["wp"] = c.Ite(some, c.Add(wp, k), wp)
}

func (r *ringRun) block(st *State, chans []*Term, what string) {
	x := r.x
	c := x.c
	hasMine, hasDone := false, false
	for _, t := range chans {
		hasMine = hasMine || t == r.mine
		hasDone = hasDone || t == c.App("ctxdone", "Ref", r.ctx)
	}
	r.chk(st, "C16", c.Bool(hasDone), "wait-sees-close", "a side that waits is woken by close")
	r.chk(st, "C16", c.Bool(hasMine), "wait-sees-signal", "a side waits for its own signal")
	r.chk(st, "C16", c.Not(r.gb(st, "closedKnown")), "no-wait-after-close", "a side that has been woken by close does not wait again")
	r.chk(st, "C16", r.gb(st, "signalled"), "signals-before-wait", "a side signals the other one after publishing and before waiting")
	if r.write {
		r.chk(st, "C16", c.Eq(r.g(st, "W"), r.g(st, "wp")), "publishes-before-wait", "the writer hands over all bytes written before it waits")
		r.chk(st, "C16", c.And(r.gb(st, "checked"), c.Eq(r.g(st, "wp"), c.Add(r.g(st, "Rk"), c.Sub(r.N, c.Int(1))))), "rechecks-before-wait", "the writer waits only if the buffer is full by what it has seen since it was last woken")
	} else {
		r.chk(st, "C16", c.Eq(r.g(st, "R"), r.g(st, "rp")), "publishes-before-wait", "the reader hands back all bytes read before it waits")
		r.chk(st, "C16", c.And(r.gb(st, "checked"), c.Eq(r.g(st, "rp"), r.g(st, "Wk"))), "rechecks-before-wait", "the reader waits only if the buffer is empty by what it has seen since it was last woken")
	}
}

func (r *ringRun) sel(st *State, in *ssa.Select) []*State {
	x := r.x
	c := x.c
	var recvs []*Term
	sends := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			recvs = append(recvs, x.term(st, s.Chan))
		} else {
			sends++
		}
	}
	if in.Blocking {
		if sends > 0 {
			r.chk(st, "C16", c.False, "signal-never-blocks", "signalling does not block")
		} else {
			r.block(st, recvs, "select")
		}
	}
	var out []*State
	fin := func(s *State, i int) {
		tv := &TupleV{vs: []Val{c.Int(int64(i)), c.Fresh("ok", "Bool")}}
		for _, ss := range in.States {
			if ss.Dir == types.RecvOnly {
				tv.vs = append(tv.vs, x.zero(under(ss.Chan.Type()).(*types.Chan).Elem()))
			}
		}
		s.top().env[in] = tv
		s.top().idx++
		out = append(out, s)
	}
	for i, ss := range in.States {
		s := st.clone()
		t := x.term(st, ss.Chan)
		if ss.Dir == types.RecvOnly {
			r.received(s, t)
		} else {
			r.signal(s, t)
		}
		fin(s, i)
	}
	if !in.Blocking {
		s := st.clone()
		if sends == 1 && len(in.States) == 1 {
			// no room: a signal is already pending, if there is room for one
			r.signal(s, x.term(st, in.States[0].Chan))
		}
		fin(s, -1)
	}
	return out
}

func (r *ringRun) received(s *State, t *Term) {
	x := r.x
	c := x.c
	switch t {
	case c.App("ctxdone", "Ref", r.ctx):
		s.ghost["closedKnown"] = c.True
	case r.mine:
	default:
		x.unsupported(s, "receive from an unknown channel")
	}
	s.ghost["checked"] = c.False
}

func (r *ringRun) signal(s *State, t *Term) {
	c := r.x.c
	if t == r.other {
		s.ghost["signalled"] = c.True
		return
	}
	if t != r.mine {
		r.x.unsupported(s, "send on an unknown channel")
	}
}

func (r *ringRun) models() {
	x := r.x
	c := x.c
	m := x.models
	index := func(st *State, v Val) string {
		if p, ok := v.(*PtrV); ok {
			if f := r.fieldName(p); f == "start" || f == "next" {
				return f
			}
		}
		x.unsupported(st, "atomic access to something else than the positions")
		return ""
	}
	load := func(x *Exec, st *State, cc *Call) []*State {
		f := index(st, cc.args[0])
		if f == "" {
			return x.ret(st, cc, x.fresh(st, "v", cc.resT))
		}
		return x.ret(st, cc, r.loadIndex(st, f))
	}
	store := func(x *Exec, st *State, cc *Call) []*State {
		if f := index(st, cc.args[0]); f != "" {
			r.storeIndex(st, f, cc.args[1].(*Term))
		}
		return x.ret(st, cc, nil)
	}
	m["atomic.LoadInt32"], m["atomic.(*Int32).Load"] = load, load
	m["atomic.StoreInt32"], m["atomic.(*Int32).Store"] = store, store
	x.modeled["sync/atomic loads and stores are sequentially consistent"] = true
	x.modeled["channels of capacity 1 keep one pending signal"] = true
	m["invoke:context.Context.Done"] = func(x *Exec, st *State, cc *Call) []*State {
		return x.ret(st, cc, c.App("ctxdone", "Ref", cc.recvI))
	}
	m["invoke:context.Context.Err"] = func(x *Exec, st *State, cc *Call) []*State {
		if cc.recvI != r.ctx {
			x.unsupported(st, "error of another context")
			return x.ret(st, cc, x.freshErr(st, "ctxerr"))
		}
		open := st.clone()
		x.assume(open, c.Not(r.gb(open, "closedKnown")))
		st.ghost["closedKnown"] = c.True
		out := x.ret(st, cc, x.newErr(st, "ctxerr"))
		if !open.dead {
			out = append(out, x.ret(open, cc, x.nilIface())...)
		}
		return out
	}
	m["recv"] = func(x *Exec, st *State, cc *Call) []*State {
		t := x.reify(st, cc.args[0], nil)
		r.block(st, []*Term{t}, "receive")
		r.received(st, t)
		return x.ret(st, cc, x.fresh(st, "v", cc.resT))
	}
	m["send"] = func(x *Exec, st *State, cc *Call) []*State {
		r.chk(st, "C16", c.False, "signal-never-blocks", "signalling does not block")
		r.signal(st, x.reify(st, cc.args[0], nil))
		st.top().idx++
		return []*State{st}
	}
	x.extra["select"] = r.sel
	x.extra["loadval"] = func(st *State, p *PtrV) (Val, bool) {
		if f := r.fieldName(p); f == "start" || f == "next" {
			if f != r.own() {
				r.chk(st, "C15 C16", c.False, "atomic-positions", "the other side's position is read atomically")
			}
			return r.loadIndex(st, f), true
		}
		if r.isData(p) {
			return r.dataLoad(st, p.path[0].idx), true
		}
		return nil, false
	}
	x.extra["storeval"] = func(st *State, p *PtrV, v Val) bool {
		if f := r.fieldName(p); f != "" {
			if f == "start" || f == "next" {
				r.chk(st, "C15 C16", c.False, "atomic-positions", "positions are published atomically")
				r.storeIndex(st, f, v.(*Term))
			} else {
				x.unsupported(st, "the buffer's "+f+" is changed")
			}
			return true
		}
		if r.isData(p) {
			r.dataStore(st, p.path[0].idx, c.Int(1), func(*Term) *Term { return v.(*Term) })
			return true
		}
		return false
	}
	m["builtin:copy"] = func(x *Exec, st *State, cc *Call) []*State {
		d, ok := cc.args[0].(*SliceV)
		s, ok2 := cc.args[1].(*SliceV)
		if !ok || !ok2 || d.base == nil || s.base == nil {
			x.unsupported(st, "copy")
			return x.ret(st, cc, x.fresh(st, "n", cc.resT))
		}
		k := c.Ite(c.Le(d.len, s.len), d.len, s.len)
		din, sin := d.base.obj == r.data.base.obj, s.base.obj == r.data.base.obj
		switch {
		case din && !sin:
			sc := x.sliceContent(st, s)
			r.dataStore(st, d.off, k, func(q *Term) *Term { return c.Select(sc, c.Add(s.off, q)) })
		case sin && !din && !r.write:
			a := r.pos(st, c.Sub(s.off, r.data.off))
			some := c.Lt(c.Int(0), k)
			r.chk(st, "C15", c.Imp(some, c.Le(c.Add(a, k), r.g(st, "Wk"))), "reads-published-bytes", "the reader reads only bytes that the writer has handed over")
			old := x.sliceContent(st, d)
			arr := c.Fresh("copied", arrSort("Int"))
			at := c.Add(r.arg.off, r.J)
			in := c.And(c.Le(d.off, at), c.Lt(at, c.Add(d.off, k)))
			x.assume(st, c.Eq(c.Select(arr, at), c.Ite(in, c.Select(r.T, c.Add(a, c.Sub(at, d.off))), c.Select(old, at))))
			x.store(st, d.base, arr)
			rp := r.g(st, "rp")
			e := c.Add(a, k)
			st.ghost["rp"] = c.Ite(c.Or(c.Not(some), c.Le(e, rp)), rp, e)
		default:
			x.unsupported(st, "copy")
		}
		return x.ret(st, cc, k)
	}
	x.cands = r.candidates
}

func (r *ringRun) candidates(lc *LoopCtx) []*Cand {
	x := r.x
	c := x.c
	var out []*Cand
	add := func(text string, f func(s *State) *Term) { out = append(out, &Cand{text: text, eval: f}) }
	mine, theirs := "wp", "Rk"
	pub := "W"
	if !r.write {
		mine, theirs, pub = "rp", "Wk", "R"
	}
	spub := "s" + pub
	add("published slot in range", func(s *State) *Term { return r.inRange(r.g(s, spub)) })
	add("entry <= published <= own position", func(s *State) *Term {
		return c.And(c.Le(r.P0, r.g(s, pub)), c.Le(r.g(s, pub), r.g(s, mine)))
	})
	add("own position within what the other side allows", func(s *State) *Term {
		if r.write {
			return c.And(c.Le(r.g(s, theirs), r.g(s, pub)), c.Le(r.g(s, mine), c.Add(r.g(s, theirs), c.Sub(r.N, c.Int(1)))))
		}
		return c.And(c.Le(r.g(s, mine), r.g(s, theirs)), c.Le(r.g(s, theirs), c.Add(r.g(s, pub), c.Sub(r.N, c.Int(1)))))
	})
	add("published == own position", func(s *State) *Term { return c.Eq(r.g(s, pub), r.g(s, mine)) })
	add("own position == entry", func(s *State) *Term { return c.Eq(r.g(s, mine), r.P0) })
	add("nothing to signal", func(s *State) *Term { return r.gb(s, "signalled") })
	add("own position <= entry+max(n,0)", func(s *State) *Term {
		return c.Le(r.g(s, mine), c.Add(r.P0, c.Ite(c.Le(c.Int(0), r.n), r.n, c.Int(0))))
	})
	// loop counters, and values fixed during this loop (inner loops)
	type iv struct {
		name string
		get  func(*State) *Term
	}
	var vals []iv
	for _, a := range lc.ints() {
		if a.phi {
			vals = append(vals, iv{a.name, a.get})
		}
	}
	for _, t := range lc.invInts() {
		t := t
		if t.op != "int" {
			vals = append(vals, iv{c.Str(t), func(*State) *Term { return t }})
		}
	}
	for _, v := range vals {
		v := v
		add(v.name+" in range", func(s *State) *Term { return r.inRange(v.get(s)) })
		add(v.name+" is the slot of the own position", func(s *State) *Term {
			return c.Eq(r.pos(s, v.get(s)), r.g(s, mine))
		})
		add(v.name+" is the slot last seen of the other side", func(s *State) *Term {
			if r.write {
				return c.Eq(c.Sub(r.g(s, "W"), r.dist(v.get(s), r.g(s, "sW"))), r.g(s, "Rk"))
			}
			return c.Eq(r.pos(s, v.get(s)), r.g(s, "Wk"))
		})
		add("own position == entry + "+v.name, func(s *State) *Term { return c.Eq(r.g(s, mine), c.Add(r.P0, v.get(s))) })
		add("own position == entry + n - "+v.name, func(s *State) *Term { return c.Eq(r.g(s, mine), c.Add(r.P0, c.Sub(r.n, v.get(s)))) })
	}
	if !r.write {
		add("the bytes read so far are the stream's", func(s *State) *Term {
			at := c.Add(r.arg.off, r.J)
			return c.Imp(c.Lt(r.J, c.Sub(r.g(s, "rp"), r.P0)), c.Eq(c.Select(x.sliceContent(s, r.arg), at), c.Select(r.T, c.Add(r.P0, r.J))))
		})
	}
	return out
}

func (w *Worker) ringSide(prop string, write bool, unroll int) *FuncResult {
	name := "ring.(*Buffer).ReadN"
	if write {
		name = "ring.(*Buffer).WriteN"
	}
	fn := w.p.funcs[name]
	bufT := w.p.types["ring.Buffer"]
	if fn == nil || bufT == nil || len(fn.Params) != 3 {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := w.newExec()
	x.partial = true
	x.unroll = unroll
	c := x.c
	r := &ringRun{w: w, x: x, prop: prop, write: write, bufT: bufT}
	for _, f := range []string{"ctx", "data", "start", "next", "readLock", "writeLock", "size"} {
		if fieldIndex(bufT, f) < 0 {
			panic("no field " + f + " in ring.Buffer")
		}
	}
	r.models()
	return x.runFn(fn, name, []string{"r", "data", "n"}, func(st *State, vars map[string]Val) {
		r.r = vars["r"].(*PtrV)
		r.arg = vars["data"].(*SliceV)
		r.n = vars["n"].(*Term)
		r.data = x.fieldOf(st, r.r, "data").(*SliceV)
		r.N = x.fieldOf(st, r.r, "size").(*Term)
		r.ctx = x.reify(st, x.fieldOf(st, r.r, "ctx"), nil)
		ch := map[string]*Term{}
		for _, f := range []string{"readLock", "writeLock"} {
			p := x.fieldOf(st, r.r, f).(*PtrV)
			if rt := x.refPtr[p.obj]; rt != nil {
				x.assume(st, c.Not(c.Eq(rt, x.nilRef())))
			}
			ch[f] = x.reify(st, x.fieldOf(st, p, "ch"), nil)
			mc := x.reify(st, x.fieldOf(st, p, "ctx"), nil)
			if mc != r.ctx {
				// invariant of the buffer, established by New
				r.shareCtx(st, p)
			}
		}
		r.mine, r.other = ch["readLock"], ch["writeLock"]
		if write {
			r.mine, r.other = r.other, r.mine
		}
		// invariant of the buffer
		x.assume(st, c.And(c.Le(c.Int(2), r.N), c.Eq(r.N, r.data.len), c.Not(r.data.isnil), c.Not(c.Eq(r.mine, r.other))))
		x.assume(st, c.Not(c.Eq(r.ctx, x.nilIface())))
		// precondition: n bytes of the caller's slice
		x.assume(st, c.And(c.Le(c.Int(0), r.n), c.Le(r.n, r.arg.len)))
		if r.arg.base != nil {
			r.arg0 = x.sliceContent(st, r.arg)
		} else {
			r.arg0 = c.Var("none", arrSort("Int"))
		}
		r.T = c.Var("stream", arrSort("Int"))
		r.J = c.Var("J", "Int")
		x.assume(st, c.Le(c.Int(0), r.J))
		r.P0 = c.Var("P0", "Int")
		s0 := c.Var("s0", "Int")
		x.assume(st, c.And(c.Le(c.Int(0), r.P0), r.inRange(s0)))
		o0 := c.Var("other0", "Int")
		if write {
			st.ghost["W"], st.ghost["sW"], st.ghost["wp"], st.ghost["Rk"] = r.P0, s0, r.P0, o0
			x.assume(st, c.And(c.Le(c.Int(0), o0), c.Le(o0, r.P0), c.Le(r.P0, c.Add(o0, c.Sub(r.N, c.Int(1))))))
		} else {
			st.ghost["R"], st.ghost["sR"], st.ghost["rp"], st.ghost["Wk"] = r.P0, s0, r.P0, o0
			x.assume(st, c.And(c.Le(r.P0, o0), c.Le(o0, c.Add(r.P0, c.Sub(r.N, c.Int(1))))))
			st.ghost["Wc"] = c.Int(0)
			st.ghost["afterClose"] = c.False
		}
		st.ghost["signalled"] = c.True
		st.ghost["checked"] = c.False
		st.ghost["closedKnown"] = c.False
	}, func(e, init *State, vars map[string]Val) {
		ok, isT := e.result.(*Term)
		if !isT {
			x.unsupported(e, "result")
			return
		}
		want := c.Add(r.P0, c.Ite(c.Le(c.Int(0), r.n), r.n, c.Int(0)))
		if x.possible(e, ok) {
			g := e.clone()
			x.assume(g, ok)
			if write {
				r.chk(g, "C15", c.And(c.Eq(r.g(g, "W"), want), c.Eq(r.g(g, "wp"), want)), "writes-all", "a successful write has handed over all n bytes")
				if r.arg.base != nil {
					at := c.Add(r.arg.off, r.J)
					r.chk(g, "C15", c.Eq(c.Select(x.sliceContent(g, r.arg), at), c.Select(r.arg0, at)), "input-unchanged", "the caller's bytes are not changed")
				}
			} else {
				r.chk(g, "C15", c.And(c.Eq(r.g(g, "R"), want), c.Eq(r.g(g, "rp"), want)), "reads-all", "a successful read has taken exactly n bytes")
				if r.arg.base != nil {
					at := c.Add(r.arg.off, r.J)
					r.chk(g, "C15", c.Imp(c.Lt(r.J, r.n), c.Eq(c.Select(x.sliceContent(g, r.arg), at), c.Select(r.T, c.Add(r.P0, r.J)))), "reads-the-stream", "the bytes returned are the next n bytes of the stream")
				}
			}
			r.chk(g, "C16", r.gb(g, "signalled"), "signals-at-end", "the other side is signalled after the last progress")
		}
		if x.possible(e, c.Not(ok)) {
			b := e.clone()
			x.assume(b, c.Not(ok))
			r.chk(b, "C15 C16", r.gb(b, "closedKnown"), "fails-only-if-closed", "failure is reported only after the buffer was closed")
			if !write {
				r.chk(b, "C15 C16", c.And(r.gb(b, "afterClose"), c.Lt(r.g(b, "Wc"), c.Add(r.P0, r.n))), "drains-after-close", "failure is reported only if fewer than n bytes had been written by a time after the close")
			}
		}
	})
}

// shareCtx makes the context of a mutex that of the buffer.
func (r *ringRun) shareCtx(st *State, p *PtrV) {
	x := r.x
	i := fieldIndex(x.obj(st, p.obj).typ, "ctx")
	o := x.obj(st, p.obj)
	n := &Obj{id: o.id, typ: o.typ, val: o.val.(*StructV).with(i, r.ctx), fresh: o.fresh}
	st.heap[p.obj] = n
	x.initObj[p.obj] = n
}

func (w *Worker) ringNew(prop string, unroll int) *FuncResult {
	name := "ring.New"
	fn := w.p.funcs[name]
	if fn == nil || len(fn.Params) != 1 {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := w.newExec()
	x.partial = true
	x.unroll = unroll
	c := x.c
	connModels(x)
	delete(x.models, "ring.New")
	x.models["context.WithCancel"] = func(x *Exec, st *State, cc *Call) []*State {
		x.modeled["context.WithCancel: the context is done once cancel is called"] = true
		ctx, cancel := x.newErr(st, "ctx"), x.newRef(st, "cancel")
		st.ghost["ctx"], st.ghost["cancel"] = ctx, cancel
		return x.ret(st, cc, &TupleV{[]Val{ctx, cancel}})
	}
	var size *Term
	return x.runFn(fn, name, []string{"size"}, func(st *State, vars map[string]Val) {
		size = vars["size"].(*Term)
		x.assume(st, c.And(c.Le(c.Int(2), size), c.Le(size, c.Int(1<<31-1))))
	}, func(e, init *State, vars map[string]Val) {
		p, ok := e.result.(*PtrV)
		if !ok {
			x.assert(e, c.False, "post", "returns-buffer", "New returns a buffer")
			return
		}
		f := func(n ...string) *Term { return x.reify(e, x.fieldOf(e, p, n...), nil) }
		chk := func(props string, cond *Term, n, d string) {
			if strings.Contains(props, prop) {
				x.assert(e, cond, "post", n, d)
			}
		}
		d := x.fieldOf(e, p, "data").(*SliceV)
		chk("C15", c.And(c.Eq(d.len, size), c.Eq(f("size"), size)), "buffer-size", "the buffer has the size asked for")
		chk("C15", c.Bool(d.base != nil && x.obj(e, d.base.obj).fresh), "own-data", "the buffer has memory of its own")
		chk("C15", c.And(c.Eq(f("start"), c.Int(0)), c.Eq(f("next"), c.Int(0))), "starts-empty", "the buffer starts empty")
		ctx, _ := e.ghost["ctx"].(*Term)
		cancel, _ := e.ghost["cancel"].(*Term)
		if ctx == nil {
			x.unsupported(e, "no cancellable context")
			return
		}
		chk("C16", c.And(c.Eq(f("ctx"), ctx), c.Eq(f("cancel"), cancel)), "close-wired", "close reaches both sides")
		var chs []*Term
		for _, l := range []string{"readLock", "writeLock"} {
			lp, ok := x.fieldOf(e, p, l).(*PtrV)
			if !ok {
				chk("C16", c.False, "signal-wired", "each side has a signal")
				return
			}
			chk("C16", c.Eq(x.reify(e, x.fieldOf(e, lp, "ctx"), nil), ctx), "close-wired", "close reaches both sides")
			ch := x.reify(e, x.fieldOf(e, lp, "ch"), nil)
			chs = append(chs, ch)
			n, fresh := e.ghost["chancap:"+ch.name].(*Term)
			if !fresh {
				n = c.Int(0)
			}
			chk("C16", c.Le(c.Int(1), n), "signal-kept", "a signal sent before the other side waits is kept")
		}
		chk("C16", c.Not(c.Eq(chs[0], chs[1])), "signals-distinct", "the two sides have signals of their own")
	})
}

func (w *Worker) ringClose(prop string, unroll int) *FuncResult {
	name := "ring.(*Buffer).Close"
	fn := w.p.funcs[name]
	if fn == nil {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := w.newExec()
	x.partial = true
	x.unroll = unroll
	c := x.c
	var p *PtrV
	x.models["dynamic"] = func(x *Exec, st *State, cc *Call) []*State {
		if x.reify(st, cc.funv, nil) == x.reify(st, x.fieldOf(st, p, "cancel"), nil) {
			st.ghost["cancelled"] = c.True
		} else {
			x.unsupported(st, "call of an unknown function value")
		}
		return x.ret(st, cc, x.fresh(st, "r", cc.resT))
	}
	x.extra["select"] = func(st *State, in *ssa.Select) []*State {
		if in.Blocking {
			x.assert(st, c.False, "post", "close-never-blocks", "Close does not block")
		}
		x.unsupported(st, "select in Close")
		st.end = "cut"
		return []*State{st}
	}
	return x.runFn(fn, name, []string{"r"}, func(st *State, vars map[string]Val) {
		p = vars["r"].(*PtrV)
		st.ghost["cancelled"] = c.False
	}, func(e, init *State, vars map[string]Val) {
		x.assert(e, x.ghost(e, "cancelled", "Bool"), "post", "close-cancels", "Close wakes both sides")
	})
}

func ringTasks(prop string) []*Task {
	var out []*Task
	add := func(name string, f func(w *Worker, unroll int) *FuncResult) {
		out = append(out, &Task{Name: name, Fn: name, Key: name, Custom: f})
	}
	add("ring.(*Buffer).WriteN", func(w *Worker, u int) *FuncResult { return w.ringSide(prop, true, u) })
	add("ring.(*Buffer).ReadN", func(w *Worker, u int) *FuncResult { return w.ringSide(prop, false, u) })
	add("ring.New", func(w *Worker, u int) *FuncResult { return w.ringNew(prop, u) })
	if prop == "C16" {
		add("ring.(*Buffer).Close", func(w *Worker, u int) *FuncResult { return w.ringClose(prop, u) })
	}
	return out
}
