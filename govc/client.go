package main

// C20, C21, C22: the client, NewBroker, Connect and the options, with ghost
// state for the connections that are open and the addresses that are dialled.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- small helpers shared by the hand-written call rules

func (x *Exec) fieldOf(st *State, v Val, names ...string) Val {
	for _, n := range names {
		if p, ok := v.(*PtrV); ok {
			v = x.load(st, p)
		}
		sv, ok := v.(*StructV)
		if !ok {
			panic(fmt.Sprintf("field %s of %T", n, v))
		}
		i := fieldIndex(sv.typ, n)
		if i < 0 {
			panic("no field " + n + " in " + typeName(sv.typ))
		}
		v = x.field(st, sv, i)
	}
	return v
}

func (x *Exec) gint(st *State, k string) (int64, bool) {
	t := x.ghost(st, k, "Int")
	if t.op == "int" {
		return t.ival.Int64(), true
	}
	return 0, false
}

// newObjPtr allocates a fresh, non-nil object with an arbitrary value.
func (x *Exec) newObjPtr(st *State, hint string, t types.Type) *PtrV {
	return x.alloc(st, t, x.fresh(st, hint, t))
}

// resources: open connections are counted, and each has its own flag.
func (x *Exec) openRes(st *State, ref *Term) {
	c := x.c
	st.ghost["nopen"] = c.Add(x.ghost(st, "nopen", "Int"), c.Int(1))
	st.ghost["open:"+fmt.Sprint(ref.id)] = c.True
}
func (x *Exec) isOpen(st *State, ref *Term) (*Term, bool) {
	v, ok := st.ghost["open:"+fmt.Sprint(ref.id)]
	if !ok {
		return x.c.False, false
	}
	return v.(*Term), true
}
func (x *Exec) closeRes(st *State, ref *Term) {
	c := x.c
	o, ok := x.isOpen(st, ref)
	if !ok {
		x.unsupported(st, "close of a connection of unknown origin")
		return
	}
	st.ghost["nopen"] = c.Sub(x.ghost(st, "nopen", "Int"), c.Ite(o, c.Int(1), c.Int(0)))
	st.ghost["open:"+fmt.Sprint(ref.id)] = c.False
}

func (x *Exec) sameSlice(st *State, a, b Val) *Term {
	return x.c.Eq(x.reify(st, a, nil), x.reify(st, b, nil))
}

// override puts contracts in front of the usual lookup.
func (x *Exec) override(m map[string]func(x *Exec, st *State, cc *Call) []*State) {
	base := x.contracts
	x.contracts = func(n string, f *ssa.Function) *Contract {
		if h := m[n]; h != nil {
			return &Contract{name: n, apply: h}
		}
		return base(n, f)
	}
}

// ---- the client

type clientRun struct {
	w       *Worker
	x       *Exec
	prop    string
	entry   string
	present bool

	boot, opts Val
	topic      *Term // DialLeader
	part       *Term
	group      *Term
	topics     *SliceV // Metadata
	G          *Term   // ghost index into topics

	respT   types.Type
	resp    *Term // the cluster's answer
	node    *Term // broker dialled for the node
	ghosts  []*Term
	TI, PI  *Term
	BI      *Term
	loaded  map[int]bool
	metaTop *SliceV
}

func (r *clientRun) chk(st *State, prop string, cond *Term, name, desc string) {
	if prop != r.prop {
		return
	}
	r.x.assert(st, cond, "post", name, desc)
}

func (r *clientRun) elemField(st *State, s *SliceV, i *Term, f string) Val {
	x := r.x
	el := x.unreify(st, x.c.Select(x.sliceContent(st, s), x.c.Add(s.off, i)), s.elem)
	return x.fieldOf(st, el, f)
}

// indices read from the array of s on this path
func (r *clientRun) indices(st *State, s *SliceV) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, e := range st.trace {
		if e.kind == "load" && e.args[0].(int) == s.base.obj {
			t := r.x.c.Sub(e.args[1].(*Term), s.off)
			if !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
	}
	return out
}
func (r *clientRun) in(i *Term, s *SliceV) *Term {
	return r.x.c.And(r.x.c.Le(r.x.c.Int(0), i), r.x.c.Lt(i, s.len))
}

func (r *clientRun) respSlice(st *State, f string) *SliceV {
	x := r.x
	return x.fieldOf(st, x.unreify(st, r.resp, r.respT), f).(*SliceV)
}

// target: the address is that of the node the metadata names.
func (r *clientRun) target(st *State, addr *Term) *Term {
	x := r.x
	c := x.c
	hp := func(host, port Val) *Term {
		return x.joinHostPort(host.(*Term), c.App("itoa", "Str", port.(*Term)))
	}
	if r.entry == "DialGroupCoordinator" {
		v := x.unreify(st, r.resp, r.respT)
		return c.Eq(addr, hp(x.fieldOf(st, v, "Host"), x.fieldOf(st, v, "Port")))
	}
	bs := r.respSlice(st, "Brokers")
	type cnd struct{ cond, id *Term }
	var ids []cnd
	if r.entry == "DialController" {
		ids = append(ids, cnd{c.True, x.fieldOf(st, x.unreify(st, r.resp, r.respT), "ControllerId").(*Term)})
	} else {
		ts := r.respSlice(st, "Topics")
		for _, ti := range r.indices(st, ts) {
			ps, ok := r.elemField(st, ts, ti, "Partitions").(*SliceV)
			if !ok {
				continue
			}
			for _, pi := range r.indices(st, ps) {
				cond := c.And(r.in(ti, ts), r.in(pi, ps),
					c.Eq(r.elemField(st, ts, ti, "Name").(*Term), r.topic),
					c.Eq(r.elemField(st, ps, pi, "PartitionIndex").(*Term), r.part))
				ids = append(ids, cnd{cond, r.elemField(st, ps, pi, "LeaderId").(*Term)})
			}
		}
	}
	var or []*Term
	for _, id := range ids {
		for _, bi := range r.indices(st, bs) {
			or = append(or, c.And(id.cond, r.in(bi, bs), c.Eq(r.elemField(st, bs, bi, "NodeId").(*Term), id.id),
				c.Eq(addr, hp(r.elemField(st, bs, bi, "Host"), r.elemField(st, bs, bi, "Port")))))
		}
	}
	return c.Or(or...)
}

func (r *clientRun) newBroker(x *Exec, st *State, cc *Call) []*State {
	c := x.c
	addr := cc.args[0].(*Term)
	ph, known := x.gint(st, "phase")
	if !known {
		x.unsupported(st, "connecting in a loop with other connections")
	}
	r.chk(st, "C22", x.sameSlice(st, cc.args[1], r.opts), "client-options", "connections are made with the options given to the client")
	next := int64(1)
	switch ph {
	case 0:
		k := x.ghost(st, "k", "Int")
		b := r.boot.(*SliceV)
		r.chk(st, "C20", c.And(c.Lt(k, b.len), c.Eq(addr, c.Select(x.sliceContent(st, b), c.Add(b.off, k)))), "bootstrap-order", "bootstrap servers are tried in order")
		st.ghost["k"] = c.Add(k, c.Int(1))
	case 2:
		if r.entry == "Metadata" {
			r.chk(st, "C20", c.False, "dials-no-node", "Metadata dials bootstrap servers only")
		} else {
			r.chk(st, "C20", r.target(st, addr), "node-address", "the address is that of the node the cluster names")
		}
		next = 4
	default:
		r.chk(st, "C20", c.False, "dials-no-node", fmt.Sprintf("no further connection is made (phase %d)", ph))
		next = 4
	}
	bad := st.clone()
	if next == 4 {
		bad.ghost["phase"] = c.Int(5)
	}
	st.ghost["phase"] = c.Int(next)
	bt := cc.resT.(*types.Tuple).At(0).Type().(*types.Pointer).Elem()
	p := x.newObjPtr(st, "broker", bt)
	ref := x.reify(st, p, nil)
	x.openRes(st, ref)
	if next == 4 {
		st.ghost["node"] = ref
	}
	out := x.ret(st, cc, &TupleV{[]Val{p, x.nilIface()}})
	return append(out, x.ret(bad, cc, &TupleV{[]Val{NilPtr{}, x.newErr(bad, "newbroker")}})...)
}

func (r *clientRun) ask(api string) func(x *Exec, st *State, cc *Call) []*State {
	return func(x *Exec, st *State, cc *Call) []*State {
		c := x.c
		ref := x.reify(st, cc.args[0], nil)
		o, ok := x.isOpen(st, ref)
		if !ok {
			x.unsupported(st, "request on a connection of unknown origin")
		}
		r.chk(st, "C20", o, "request-on-open-connection", "requests are sent on a connection that is still open")
		ph, known := x.gint(st, "phase")
		if !known {
			x.unsupported(st, "request in a loop")
		}
		want := "Metadata"
		if r.entry == "DialGroupCoordinator" {
			want = "FindCoordinator"
		}
		if ph != 1 || api != want {
			x.unsupported(st, "cluster request "+api+" in phase "+fmt.Sprint(ph))
		}
		req := cc.args[1]
		switch r.entry {
		case "DialGroupCoordinator":
			r.chk(st, "C20", c.And(c.Eq(x.fieldOf(st, req, "Key").(*Term), r.group), c.Eq(x.fieldOf(st, req, "KeyType").(*Term), c.Int(0))), "coordinator-request", "the coordinator of exactly that group is looked up")
		case "DialLeader":
			ts := x.fieldOf(st, req, "Topics").(*SliceV)
			if ts.base == nil {
				r.chk(st, "C20", c.False, "metadata-request", "metadata of the topic is requested")
			} else {
				r.chk(st, "C20", c.And(c.Lt(c.Int(0), ts.len), c.Eq(r.elemField(st, ts, c.Int(0), "Name").(*Term), r.topic)), "metadata-request", "metadata of the topic is requested")
			}
		case "Metadata":
			ts := x.fieldOf(st, req, "Topics").(*SliceV)
			g := c.And(c.Le(c.Int(0), r.G), c.Lt(r.G, r.topics.len))
			if ts.base == nil {
				r.chk(st, "C20", c.Not(g), "metadata-request", "metadata of every given topic is requested")
			} else {
				r.chk(st, "C20", c.Imp(g, c.And(c.Lt(r.G, ts.len), c.Eq(r.elemField(st, ts, r.G, "Name").(*Term), c.Select(x.sliceContent(st, r.topics), c.Add(r.topics.off, r.G))))), "metadata-request", "metadata of every given topic is requested")
			}
		}
		bad := st.clone()
		bad.ghost["phase"] = c.Int(3)
		tup := cc.resT.(*types.Tuple)
		r.respT = tup.At(0).Type()
		r.resp = c.Var("answer", sortOf(r.respT))
		st.ghost["phase"] = c.Int(2)
		v := x.unreify(st, r.resp, r.respT)
		var outs []*State
		if api == "FindCoordinator" {
			ec := x.fieldOf(st, v, "ErrorCode").(*Term)
			er := st.clone()
			x.assume(er, c.Not(c.Eq(ec, c.Int(0))))
			er.ghost["phase"] = c.Int(3)
			outs = append(outs, x.ret(er, cc, &TupleV{[]Val{v, x.nilIface()}})...)
			x.assume(st, c.Eq(ec, c.Int(0)))
		} else if r.present {
			r.presentFacts(st)
		}
		outs = append(outs, x.ret(st, cc, &TupleV{[]Val{v, x.nilIface()}})...)
		return append(outs, x.ret(bad, cc, &TupleV{[]Val{x.fresh(bad, "partial", r.respT), x.newErr(bad, "apierr")}})...)
	}
}

// presentFacts: the topic, partition and node are in the metadata.
func (r *clientRun) presentFacts(st *State) {
	x := r.x
	c := x.c
	bs := r.respSlice(st, "Brokers")
	x.assume(st, r.in(r.BI, bs))
	id := Val(nil)
	if r.entry == "DialController" {
		id = x.fieldOf(st, x.unreify(st, r.resp, r.respT), "ControllerId")
	} else {
		ts := r.respSlice(st, "Topics")
		x.assume(st, r.in(r.TI, ts))
		x.assume(st, c.Eq(r.elemField(st, ts, r.TI, "Name").(*Term), r.topic))
		ps := r.elemField(st, ts, r.TI, "Partitions").(*SliceV)
		x.assume(st, r.in(r.PI, ps))
		x.assume(st, c.Eq(r.elemField(st, ps, r.PI, "PartitionIndex").(*Term), r.part))
		id = r.elemField(st, ps, r.PI, "LeaderId")
	}
	x.assume(st, c.Eq(r.elemField(st, bs, r.BI, "NodeId").(*Term), id.(*Term)))
}

func (r *clientRun) onLoad(st *State, p *PtrV) {
	if len(p.path) == 0 || p.path[0].idx == nil {
		return
	}
	x := r.x
	c := x.c
	i := p.path[0].idx
	st.trace = append(st.trace, Event{kind: "load", args: []Val{p.obj, i}})
	if r.resp == nil || !r.present || r.entry == "DialGroupCoordinator" {
		return
	}
	// the entries are the only ones with their names
	only := func(s *SliceV, g *Term, f string, v *Term) {
		if s.base != nil && s.base.obj == p.obj {
			j := c.Sub(i, s.off)
			x.assume(st, c.Or(c.Eq(j, g), c.Not(c.Eq(r.elemField(st, s, j, f).(*Term), v))))
		}
	}
	if ph, _ := x.gint(st, "phase"); ph < 2 {
		return
	}
	if r.entry == "DialLeader" {
		ts := r.respSlice(st, "Topics")
		only(ts, r.TI, "Name", r.topic)
		for _, ti := range append(r.indices(st, ts), r.TI) {
			ps, ok := r.elemField(st, ts, ti, "Partitions").(*SliceV)
			if ok && ps.base != nil && ps.base.obj == p.obj {
				j := c.Sub(i, ps.off)
				x.assume(st, c.Imp(c.Eq(ti, r.TI), c.Or(c.Eq(j, r.PI), c.Not(c.Eq(r.elemField(st, ps, j, "PartitionIndex").(*Term), r.part)))))
			}
		}
	}
}

func (r *clientRun) cands(lc *LoopCtx) []*Cand {
	x := r.x
	c := x.c
	var out []*Cand
	for _, p := range lc.ints() {
		p := p
		if !p.phi {
			continue
		}
		for _, d := range []int64{0, 1} {
			d := d
			at := func(s *State) *Term { return c.Add(p.get(s), c.Int(d)) }
			for _, g := range r.ghosts {
				g := g
				out = append(out, &Cand{text: fmt.Sprintf("%s+%d <= %s", p.name, d, c.Str(g)), eval: func(s *State) *Term { return c.Le(at(s), g) }})
			}
			if r.topics == nil {
				continue
			}
			for _, l := range lc.leaves {
				l := l
				if !strings.HasPrefix(l.sort, "Sl:") {
					continue
				}
				out = append(out, &Cand{text: fmt.Sprintf("%s+%d > G => %s names topic G", p.name, d, l.key), eval: func(s *State) *Term {
					v := x.leafVal(s, l).(*SliceV)
					if v.base == nil {
						return c.Not(c.Lt(r.G, at(s)))
					}
					return c.Imp(c.Lt(r.G, at(s)), c.And(c.Lt(r.G, v.len), c.Eq(r.elemField(s, v, r.G, "Name").(*Term), c.Select(x.sliceContent(s, r.topics), c.Add(r.topics.off, r.G)))))
				}})
			}
		}
	}
	return out
}

func (w *Worker) client(entry, prop string, present bool, unroll int) *FuncResult {
	name := "kafka.(*Client)." + entry
	fn := w.p.funcs[name]
	if present {
		name += "#present"
	}
	if fn == nil {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := w.newExec()
	x.unroll = unroll
	c := x.c
	r := &clientRun{w: w, x: x, prop: prop, entry: entry, present: present}
	clientModels(x)
	x.cands = r.cands
	x.override(map[string]func(*Exec, *State, *Call) []*State{
		"kafka.NewBroker": r.newBroker,
		"kafka.(*Broker).Close": func(x *Exec, st *State, cc *Call) []*State {
			if _, ok := cc.args[0].(NilPtr); ok {
				x.assert(st, c.False, "panic", "no-panic", "close of a nil broker")
				st.dead = true
				return nil
			}
			x.closeRes(st, x.reify(st, cc.args[0], nil))
			return x.ret(st, cc, x.freshErr(st, "closeerr"))
		},
		"kafka.(*Broker).Metadata":        r.ask("Metadata"),
		"kafka.(*Broker).FindCoordinator": r.ask("FindCoordinator"),
	})
	x.extra["onload"] = r.onLoad
	for _, g := range []struct {
		p **Term
		n string
	}{{&r.TI, "TI"}, {&r.PI, "PI"}, {&r.BI, "BI"}, {&r.G, "G"}} {
		*g.p = c.Var("ghost:"+g.n, "Int")
	}
	if present {
		r.ghosts = []*Term{r.TI, r.PI, r.BI}
	}
	x.modeled["NewBroker: fails, or opens one connection to the given address with the given options (proved for NewBroker and Connect under C12, C21, C22)"] = true
	x.modeled["Broker.Metadata, Broker.FindCoordinator: an error, or the cluster's answer (proved under C10, C11)"] = true
	params := map[string][]string{"Metadata": {"c", "ctx", "topics"}, "DialController": {"c", "ctx"}, "DialGroupCoordinator": {"c", "ctx", "groupId"}, "DialLeader": {"c", "ctx", "topic", "partition"}}[entry]
	return x.runFn(fn, name, params, func(st *State, vars map[string]Val) {
		if len(fn.Params) != len(params) {
			panic("signature changed")
		}
		cl := x.load(st, vars["c"].(*PtrV))
		r.boot, r.opts = x.fieldOf(st, cl, "bootstrap"), x.fieldOf(st, cl, "opts")
		switch entry {
		case "Metadata":
			r.topics = vars["topics"].(*SliceV)
			x.assume(st, c.Le(c.Int(0), r.G))
		case "DialGroupCoordinator":
			r.group = vars["groupId"].(*Term)
		case "DialLeader":
			r.topic, r.part = vars["topic"].(*Term), vars["partition"].(*Term)
			r.topics = nil
		}
		for _, g := range []string{"k", "nopen", "phase"} {
			st.ghost[g] = c.Int(0)
		}
		if entry == "DialLeader" {
			r.G = c.Int(0)
			r.topics = &SliceV{base: x.alloc(st, types.NewArray(types.Typ[types.String], -1), c.Store(c.Var("dummy", arrSort("Str")), c.Int(0), r.topic)), off: c.Int(0), len: c.Int(1), cap: c.Int(1), isnil: c.False, elem: types.Typ[types.String]}
		}
	}, func(e, init *State, vars map[string]Val) {
		tv := e.result.(*TupleV)
		ok := x.isNilErr(tv.vs[1])
		ph, known := x.gint(e, "phase")
		if !known {
			x.unsupported(e, "phase at return")
		}
		nopen := x.ghost(e, "nopen", "Int")
		if ph == 0 {
			r.chk(e, "C20", c.Eq(x.ghost(e, "k", "Int"), r.boot.(*SliceV).len), "all-bootstrap-tried", "all bootstrap servers are tried")
		}
		if entry == "Metadata" {
			r.chk(e, "C21", c.Eq(nopen, c.Int(0)), "all-closed", "every connection opened by the call is closed")
			if ph == 2 {
				r.chk(e, "C20", c.And(ok, c.Eq(x.reify(e, tv.vs[0], r.respT), r.resp)), "metadata-result", "the cluster's answer is returned")
			} else {
				r.chk(e, "C20", c.Not(ok), "error-reported", "the failure is reported")
			}
			return
		}
		var isNode *Term = c.False
		if ph == 4 {
			isNode = c.Eq(x.reify(e, tv.vs[0], nil), x.ghost(e, "node", "Ref"))
		}
		r.chk(e, "C20", c.Imp(ok, isNode), "returns-node", "success returns the connection to the node")
		if ph == 5 || ph == 3 || ph == 0 || ph == 1 {
			r.chk(e, "C20", c.Not(ok), "error-reported", "the failure is reported")
		}
		if ph == 2 {
			if entry == "DialGroupCoordinator" || present {
				r.chk(e, "C20", c.False, "node-dialled", "the node the cluster names is dialled")
			}
		}
		if ph == 4 && prop == "C20" {
			x.assert(e, ok, "post", "node-returned", "the connection to the node is returned")
		}
		op := c.False
		if ph == 4 {
			op, _ = x.isOpen(e, x.ghost(e, "node", "Ref"))
		}
		r.chk(e, "C21", c.Imp(c.Not(ok), c.Eq(nopen, c.Int(0))), "closed-on-error", "a call that fails leaves no connection open")
		r.chk(e, "C21", c.Imp(ok, c.And(isNode, op, c.Eq(nopen, c.Int(1)))), "only-returned-open", "the returned connection is open and the only one left")
	})
}

// joinHostPort is what net.JoinHostPort documents: a host with a colon in it is
// put in brackets.
func (x *Exec) joinHostPort(host, port *Term) *Term {
	plain := x.concat(x.concat(host, x.strConst(":")), port)
	br := x.concat(x.concat(x.concat(x.strConst("["), host), x.strConst("]:")), port)
	return x.c.Ite(x.hasColon(host), br, plain)
}
func (x *Exec) hasColon(s *Term) *Term { return x.c.App("hascolon", "Bool", s) }

// clientModels: standard library used by the client.
func clientModels(x *Exec) {
	c := x.c
	m := x.models
	itoa := m["strconv.Itoa"]
	m["strconv.FormatInt"] = func(x *Exec, st *State, cc *Call) []*State {
		if b, ok := cc.args[1].(*Term); !ok || b != c.Int(10) {
			x.unsupported(st, "FormatInt base")
		}
		return itoa(x, st, cc)
	}
	m["net.JoinHostPort"] = func(x *Exec, st *State, cc *Call) []*State {
		x.modeled["net.JoinHostPort as documented"] = true
		return x.ret(st, cc, x.joinHostPort(cc.args[0].(*Term), cc.args[1].(*Term)))
	}
	colon := func(name string, sep func(v Val) bool, res func(x *Exec, st *State, has *Term) Val) {
		m[name] = func(x *Exec, st *State, cc *Call) []*State {
			h, ok := cc.args[0].(*Term)
			if !ok || !sep(cc.args[1]) {
				x.unsupported(st, name)
				return x.ret(st, cc, x.fresh(st, "r", cc.resT))
			}
			x.modeled[name+" of a colon"] = true
			return x.ret(st, cc, res(x, st, x.hasColon(h)))
		}
	}
	isStr := func(v Val) bool { t, ok := v.(*Term); return ok && t == x.strConst(":") }
	isChr := func(v Val) bool { t, ok := v.(*Term); return ok && t == c.Int(':') }
	yes := func(x *Exec, st *State, has *Term) Val { return has }
	idx := func(x *Exec, st *State, has *Term) Val {
		i := c.Fresh("idx", "Int")
		x.assume(st, c.And(c.Le(c.Int(-1), i), c.Eq(c.Le(c.Int(0), i), has)))
		return i
	}
	colon("strings.Contains", isStr, yes)
	colon("strings.ContainsRune", isChr, yes)
	colon("strings.Index", isStr, idx)
	colon("strings.IndexByte", isChr, idx)
	colon("strings.IndexRune", isChr, idx)
	m["fmt.Sprintf"] = func(x *Exec, st *State, cc *Call) []*State {
		f, ok := cc.args[0].(*Term)
		if ok && f.op == "var" && strings.HasPrefix(f.name, "str:") {
			if r := x.sprintf(st, f.name[4:], cc.args[1]); r != nil {
				x.modeled["fmt.Sprintf of strings and integers"] = true
				return x.ret(st, cc, r)
			}
		}
		x.unsupported(st, "Sprintf")
		return x.ret(st, cc, x.fresh(st, "sprintf", cc.resT))
	}
}

func (x *Exec) sprintf(st *State, f string, args Val) *Term {
	sv, ok := args.(*SliceV)
	if !ok {
		return nil
	}
	out := x.strConst("")
	n := int64(0)
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = x.concat(out, x.strConst(f[i:i+1]))
			continue
		}
		i++
		if i >= len(f) || sv.base == nil {
			return nil
		}
		if f[i] == '%' {
			out = x.concat(out, x.strConst("%"))
			continue
		}
		v := x.load(st, sv.base.step(Step{field: -1, idx: x.c.Add(sv.off, x.c.Int(n))}, sv.elem))
		n++
		if t, ok := v.(*Term); ok {
			if u, ok := x.unre[t]; ok {
				v = u
			}
		}
		iv, ok := v.(*IfaceV)
		if !ok {
			return nil
		}
		t, ok := iv.val.(*Term)
		if !ok {
			return nil
		}
		b, isB := iv.typ.(*types.Basic)
		if !isB {
			return nil
		}
		switch {
		case (f[i] == 's' || f[i] == 'v') && b.Info()&types.IsString != 0:
			out = x.concat(out, t)
		case (f[i] == 'd' || f[i] == 'v') && b.Info()&types.IsInteger != 0:
			out = x.concat(out, x.c.App("itoa", "Str", t))
		default:
			return nil
		}
	}
	return out
}

// ---- NewBroker (C12, C21, C22)

func (w *Worker) newBroker(prop string, unroll int) *FuncResult {
	name := "kafka.NewBroker"
	fn := w.p.funcs[name]
	if fn == nil || len(fn.Params) != 2 {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := w.newExec()
	x.unroll = unroll
	c := x.c
	chk := func(st *State, p string, cond *Term, n, d string) {
		if p == prop {
			x.assert(st, cond, "post", n, d)
		}
	}
	var addr, opts Val
	var connRef, keys *Term
	closeConn := func(x *Exec, st *State, cc *Call) []*State {
		x.closeRes(st, x.reify(st, cc.args[0], nil))
		return x.ret(st, cc, x.freshErr(st, "closeerr"))
	}
	cfgT := w.p.types["kafka.config"]
	cfgOf := func(st *State, o Val) *Term { return c.App("cfgof", sortOf(cfgT), x.reify(st, o, nil)) }
	negErr := func(k *Term) *Term { return c.App("negerr", "Iface", k) }
	x.override(map[string]func(*Exec, *State, *Call) []*State{
		"kafka.buildConfig": func(x *Exec, st *State, cc *Call) []*State {
			return x.ret(st, cc, x.unreify(st, cfgOf(st, cc.args[0]), cc.resT))
		},
		"kafka.Connect": func(x *Exec, st *State, cc *Call) []*State {
			chk(st, "C22", c.Eq(x.ghost(st, "connects", "Int"), c.Int(0)), "one-connection", "one connection is made")
			st.ghost["connects"] = c.Int(1)
			chk(st, "C22", c.And(c.Eq(cc.args[0].(*Term), addr.(*Term)), x.sameSlice(st, cc.args[1], opts)), "connect-arguments", "the connection is made to the given address with the given options")
			bad := st.clone()
			p := x.newObjPtr(st, "conn", cc.resT.(*types.Tuple).At(0).Type().(*types.Pointer).Elem())
			connRef = x.reify(st, p, nil)
			x.openRes(st, connRef)
			out := x.ret(st, cc, &TupleV{[]Val{p, x.nilIface()}})
			return append(out, x.ret(bad, cc, &TupleV{[]Val{NilPtr{}, x.newErr(bad, "connecterr")}})...)
		},
		"kafka.(*Conn).Close": closeConn,
		"kafka.(*Broker).ApiVersions": func(x *Exec, st *State, cc *Call) []*State {
			b := x.load(st, cc.args[0].(*PtrV))
			ref := x.reify(st, x.fieldOf(st, b, "conn"), nil)
			chk(st, "C12", c.Bool(ref == connRef), "asks-broker", "the versions are asked from the connected broker")
			if o, ok := x.isOpen(st, ref); ok {
				chk(st, "C12", o, "asks-open", "the versions are asked on the open connection")
			}
			bad := st.clone()
			st.ghost["asked"] = c.Int(1)
			bad.ghost["asked"] = c.Int(2)
			tup := cc.resT.(*types.Tuple)
			resp := x.fresh(st, "versions", tup.At(0).Type())
			keys = x.reify(st, x.fieldOf(st, resp, "ApiKeys"), nil)
			out := x.ret(st, cc, &TupleV{[]Val{resp, x.nilIface()}})
			return append(out, x.ret(bad, cc, &TupleV{[]Val{x.fresh(bad, "v", tup.At(0).Type()), x.newErr(bad, "apierr")}})...)
		},
		"kafka.negotiateApiVersions": func(x *Exec, st *State, cc *Call) []*State {
			k := x.reify(st, cc.args[0], nil)
			tup := cc.resT.(*types.Tuple)
			av := c.App("negotiated", sortOf(tup.At(0).Type()), k)
			return x.ret(st, cc, &TupleV{[]Val{x.unreify(st, av, tup.At(0).Type()), negErr(k)}})
		},
	})
	x.modeled["Connect, ApiVersions, negotiateApiVersions, buildConfig: by the contracts proved for them under C22, C11, C12, C22"] = true
	return x.runFn(fn, name, []string{"addr", "opts"}, func(st *State, vars map[string]Val) {
		addr, opts = vars["addr"], vars["opts"]
		for _, g := range []string{"connects", "nopen", "asked"} {
			st.ghost[g] = c.Int(0)
		}
	}, func(e, init *State, vars map[string]Val) {
		tv := e.result.(*TupleV)
		ok := x.isNilErr(tv.vs[1])
		nopen := x.ghost(e, "nopen", "Int")
		chk(e, "C21", c.Imp(c.Not(ok), c.Eq(nopen, c.Int(0))), "closed-on-error", "a failed NewBroker leaves no connection open")
		if !x.possible(e, ok) {
			return
		}
		g := e.clone()
		x.assume(g, ok)
		p, isP := tv.vs[0].(*PtrV)
		if !isP {
			x.assert(g, c.False, "post", "returns-broker", "success returns a broker")
			return
		}
		b := x.load(g, p)
		cref := x.reify(g, x.fieldOf(g, b, "conn"), nil)
		o, _ := x.isOpen(g, cref)
		chk(g, "C21", c.And(o, c.Eq(nopen, c.Int(1))), "returned-open", "the returned broker is connected and its connection open")
		asked := x.ghost(g, "asked", "Int")
		chk(g, "C12", c.Eq(asked, c.Int(1)), "negotiates", "a broker is returned only after its versions are known")
		if keys != nil {
			avT := fieldType(w.p.types["kafka.Broker"], "apiVersion")
			av := c.App("negotiated", sortOf(avT), keys)
			chk(g, "C12", c.And(c.Eq(x.reify(g, x.fieldOf(g, b, "apiVersion"), avT), av), c.Eq(negErr(keys), x.nilIface())), "uses-negotiated", "the broker uses the negotiated versions")
		}
		chk(g, "C22", c.Eq(x.reify(g, x.fieldOf(g, b, "config"), cfgT), cfgOf(g, opts)), "broker-config", "the broker's configuration is the one built from the options")
	})
}

func fieldType(t types.Type, name string) types.Type {
	u := under(t).(*types.Struct)
	return u.Field(fieldIndex(t, name)).Type()
}

// resolve finds the object a pointer is known to point to.
func (x *Exec) resolve(st *State, p *PtrV) *PtrV {
	r, ok := x.refPtr[p.obj]
	if !ok || len(p.path) > 0 {
		return p
	}
	t := x.obj(st, p.obj).typ
	for _, id := range sortedIDs(st.heap) {
		o := st.heap[id]
		if o.fresh && types.Identical(o.typ, t) {
			q := &PtrV{obj: id, elem: p.elem}
			if x.valid(st, x.c.Eq(x.reify(st, q, nil), r)) {
				return q
			}
		}
	}
	return p
}

// ---- options (C22)

func (w *Worker) option(name string, unroll int) *FuncResult {
	fn := w.p.funcs["kafka."+name]
	if fn == nil {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	cfgT := w.p.types["kafka.config"]
	var res *FuncResult
	for _, isNil := range []bool{false, true} {
		x := w.newExec()
		x.unroll = unroll
		c := x.c
		x.fnName = "kafka." + name
		st, vars := x.start(fn, &Contract{params: []string{"v"}}, map[string]bool{"v": isNil})
		for _, e := range x.explore([]*State{st}, nil) {
			if e.end != "return" {
				continue
			}
			fv, ok := e.result.(*FuncV)
			if !ok {
				x.unsupported(e, "option is not a function literal")
				continue
			}
			p := x.newPtr(e, "config", cfgT)
			init := e.clone()
			e.end = ""
			call := &Call{name: funcName(fv.fn), fn: fv.fn, funv: fv, args: []Val{p}, argT: []types.Type{types.NewPointer(cfgT)}, resT: types.NewTuple()}
			call.onRet = func(s *State, _ Val) []*State { s.end = "return"; return []*State{s} }
			for _, s := range x.explore(x.call(e, call), nil) {
				if s.end != "return" {
					continue
				}
				own := map[string]string{"WithDialer": "dialer", "WithTLS": "tlsConfig"}[name]
				u := under(cfgT).(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					f := u.Field(i).Name()
					nv := x.fieldOf(s, p, f)
					if f != own {
						x.assert(s, c.Eq(x.reify(s, nv, u.Field(i).Type()), x.reify(init, x.fieldOf(init, p, f), u.Field(i).Type())), "post", "other-settings-kept", "the option changes its own setting only")
						continue
					}
					if isNil && name == "WithDialer" {
						q, ok := nv.(*PtrV)
						if !ok {
							x.assert(s, c.False, "post", "default-dialer", "a nil dialer means the default one")
							continue
						}
						ob := x.obj(s, q.obj)
						zero := x.reify(s, x.zero(ob.typ), ob.typ)
						x.assert(s, c.Eq(x.reify(s, x.load(s, q), ob.typ), zero), "post", "default-dialer", "a nil dialer means the default one")
						continue
					}
					x.assert(s, c.Eq(x.reify(s, nv, u.Field(i).Type()), x.reify(s, vars["v"], fn.Params[0].Type())), "post", "setting", "the option sets exactly the given value")
				}
			}
		}
		r := &FuncResult{Func: x.fnName, Obligs: x.obligs, Inlined: keysOf(x.inlined), Used: keysOf(x.called), Assumed: keysOf(x.modeled), Unsup: x.fail, Covered: true, Visited: x.visited}
		if res != nil {
			r.Obligs = append(res.Obligs, r.Obligs...)
			r.Unsup = firstNonEmpty(res.Unsup, r.Unsup)
			for b := range res.Visited {
				r.Visited[b] = true
			}
		}
		res = r
	}
	return res
}

func (w *Worker) buildConfig(unroll int) *FuncResult {
	name := "kafka.buildConfig"
	fn := w.p.funcs[name]
	cfgT := w.p.types["kafka.config"]
	if fn == nil || cfgT == nil || len(fn.Params) != 1 {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := w.newExec()
	x.unroll = unroll
	c := x.c
	srt := sortOf(cfgT)
	u := under(cfgT).(*types.Struct)
	proj := func(t *Term, i int) *Term { return c.App(srt+"."+u.Field(i).Name(), sortOf(u.Field(i).Type()), t) }
	eta := func(t *Term) *Term {
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, proj(t, i))
		}
		return c.Eq(c.App("mk:"+srt, srt, as...), t)
	}
	var opts *SliceV
	defaults := func(st *State, v Val) *Term {
		d := x.fieldOf(st, v, "dialer")
		q, ok := d.(*PtrV)
		if !ok {
			return c.False
		}
		q = x.resolve(st, q)
		ob := x.obj(st, q.obj)
		return c.And(c.Eq(x.reify(st, x.load(st, q), ob.typ), x.reify(st, x.zero(ob.typ), ob.typ)), c.Not(c.Eq(x.reify(st, q, nil), x.nilRef())),
			c.Eq(x.reify(st, x.fieldOf(st, v, "tlsConfig"), nil), x.nilRef()))
	}
	x.models["dynamic"] = func(x *Exec, st *State, cc *Call) []*State {
		f := x.reify(st, cc.funv, nil)
		k := x.ghost(st, "k", "Int")
		cur := x.ghost(st, "cur", srt)
		p, ok := cc.args[0].(*PtrV)
		if !ok || len(cc.args) != 1 {
			x.unsupported(st, "option call")
			return x.ret(st, cc, nil)
		}
		v := x.load(st, p)
		x.assert(st, c.And(c.Lt(k, opts.len), c.Eq(f, c.Select(x.sliceContent(st, opts), c.Add(opts.off, k)))), "post", "option-order", "options are applied in order, each once")
		arg := x.reify(st, v, cfgT)
		first := c.Eq(k, c.Int(0))
		x.assert(st, c.Imp(c.Not(first), c.Eq(arg, cur)), "post", "option-chain", "each option is applied to the result of the earlier ones")
		if x.possible(st, first) {
			g := st.clone()
			x.assume(g, first)
			x.assert(g, defaults(g, v), "post", "defaults", "the first option is applied to the defaults")
		}
		nw := c.App("applyopt", srt, f, arg)
		st.ghost["k"] = c.Add(k, c.Int(1))
		st.ghost["cur"] = nw
		x.assume(st, eta(nw))
		x.store(st, p, x.unreify(st, nw, cfgT))
		return x.ret(st, cc, nil)
	}
	x.cands = func(lc *LoopCtx) []*Cand {
		var out []*Cand
		for _, l := range lc.leaves {
			l := l
			fi := -1
			if l.ptr != nil && len(l.ptr.path) == 1 && types.Identical(x.obj(lc.entry, l.ptr.obj).typ, cfgT) {
				fi = l.ptr.path[0].field
			}
			if fi < 0 {
				continue
			}
			e := x.reify(lc.entry, x.leafVal(lc.entry, l), l.typ)
			k := func(s *State) *Term { return x.ghost(s, "k", "Int") }
			val := func(s *State) *Term { return x.reify(s, x.leafVal(s, l), l.typ) }
			out = append(out, &Cand{text: "k > 0 => " + u.Field(fi).Name() + " is that of the options so far", eval: func(s *State) *Term {
				return c.Or(c.Eq(k(s), c.Int(0)), c.Eq(val(s), proj(x.ghost(s, "cur", srt), fi)))
			}}, &Cand{text: "k == 0 => " + u.Field(fi).Name() + " is the default", eval: func(s *State) *Term {
				return c.Or(c.Not(c.Eq(k(s), c.Int(0))), c.Eq(val(s), e))
			}})
		}
		out = append(out, &Cand{text: "eta", eval: func(s *State) *Term {
			return c.Or(c.Eq(x.ghost(s, "k", "Int"), c.Int(0)), eta(x.ghost(s, "cur", srt)))
		}})
		return out
	}
	return x.runFn(fn, name, []string{"opts"}, func(st *State, vars map[string]Val) {
		opts = vars["opts"].(*SliceV)
		st.ghost["k"] = c.Int(0)
		st.ghost["cur"] = c.Var("cfg0", srt)
	}, func(e, init *State, vars map[string]Val) {
		k := x.ghost(e, "k", "Int")
		x.assert(e, c.Eq(k, opts.len), "post", "all-options", "every option is applied")
		none := c.Eq(k, c.Int(0))
		x.assert(e, c.Or(none, c.Eq(x.reify(e, e.result, cfgT), x.ghost(e, "cur", srt))), "post", "result", "the result is that of the last option")
		if x.possible(e, none) {
			g := e.clone()
			x.assume(g, none)
			x.assert(g, defaults(g, e.result), "post", "defaults", "without options the defaults are used")
		}
	})
}

// ---- Connect (C21, C22)

func (w *Worker) connect(prop string, unroll int) *FuncResult {
	name := "kafka.Connect"
	fn := w.p.funcs[name]
	cfgT := w.p.types["kafka.config"]
	if fn == nil || cfgT == nil || len(fn.Params) != 2 {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := w.newExec()
	x.unroll = unroll
	c := x.c
	chk := func(st *State, p string, cond *Term, n, d string) {
		if p == prop {
			x.assert(st, cond, "post", n, d)
		}
	}
	var addr *Term
	var cfg Val
	fld := func(st *State, n string) *Term { return x.reify(st, x.fieldOf(st, cfg, n), fieldType(cfgT, n)) }
	dialled := func(dialer, network, ad, tlsc func(st *State, cc *Call) *Term, isTLS bool) Model {
		return func(x *Exec, st *State, cc *Call) []*State {
			chk(st, "C22", c.Eq(x.ghost(st, "dials", "Int"), c.Int(0)), "one-dial", "one connection is made")
			st.ghost["dials"] = c.Int(1)
			chk(st, "C22", c.Eq(dialer(st, cc), fld(st, "dialer")), "dialer", "the configured dialer is used")
			chk(st, "C22", c.Eq(network(st, cc), x.strConst("tcp")), "network", "the connection is made over tcp")
			chk(st, "C22", c.Eq(ad(st, cc), addr), "address", "the given address is dialled")
			plain := c.Eq(fld(st, "tlsConfig"), x.nilRef())
			if isTLS {
				chk(st, "C22", c.And(c.Not(plain), c.Eq(tlsc(st, cc), fld(st, "tlsConfig"))), "tls-config", "TLS is used with exactly the given configuration, if one was given")
			} else {
				chk(st, "C22", plain, "tls-config", "plain TCP is used only without a TLS configuration")
			}
			bad := st.clone()
			var raw Val
			rt := cc.resT.(*types.Tuple).At(0).Type()
			if pt, ok := rt.(*types.Pointer); ok {
				raw = x.newObjPtr(st, "tlsconn", pt.Elem())
			} else {
				raw = x.newErr(st, "rawconn") // a non-nil interface value
			}
			ref := x.reify(st, raw, rt)
			st.ghost["raw"] = ref
			st.ghost["nopen"] = c.Int(1)
			out := x.ret(st, cc, &TupleV{[]Val{raw, x.nilIface()}})
			return append(out, x.ret(bad, cc, &TupleV{[]Val{x.zero(rt), x.newErr(bad, "dialerr")}})...)
		}
	}
	arg := func(i int) func(st *State, cc *Call) *Term {
		return func(st *State, cc *Call) *Term { return x.reify(st, cc.args[i], cc.argT[i]) }
	}
	x.models["net.(*Dialer).Dial"] = dialled(arg(0), arg(1), arg(2), nil, false)
	x.models["net.(*Dialer).DialContext"] = dialled(arg(0), arg(2), arg(3), nil, false)
	x.models["tls.DialWithDialer"] = dialled(arg(0), arg(1), arg(2), arg(3), true)
	connModels(x)
	x.override(map[string]func(*Exec, *State, *Call) []*State{
		"kafka.buildConfig": func(x *Exec, st *State, cc *Call) []*State {
			return x.ret(st, cc, x.unreify(st, c.App("cfgof", sortOf(cfgT), x.reify(st, cc.args[0], nil)), cc.resT))
		},
		"kafka.(*Conn).Close": func(x *Exec, st *State, cc *Call) []*State {
			st.ghost["nopen"] = c.Int(0)
			return x.ret(st, cc, x.freshErr(st, "closeerr"))
		},
	})
	x.models["invoke:net.Conn.Close"] = func(x *Exec, st *State, cc *Call) []*State {
		st.ghost["nopen"] = c.Int(0)
		return x.ret(st, cc, x.freshErr(st, "closeerr"))
	}
	x.modeled["net.Dialer.Dial, tls.DialWithDialer: an error or an open connection made as asked"] = true
	sw := newStartRules(x, chk)
	return x.runFn(fn, name, []string{"addr", "opts"}, func(st *State, vars map[string]Val) {
		addr = vars["addr"].(*Term)
		cfg = x.unreify(st, c.App("cfgof", sortOf(cfgT), x.reify(st, vars["opts"], nil)), cfgT)
		// contract of buildConfig
		x.assume(st, c.Not(c.Eq(fld(st, "dialer"), x.nilRef())))
		st.ghost["dials"] = c.Int(0)
		st.ghost["nopen"] = c.Int(0)
		sw.init(st)
	}, func(e, init *State, vars map[string]Val) {
		tv := e.result.(*TupleV)
		ok := x.isNilErr(tv.vs[1])
		nopen := x.ghost(e, "nopen", "Int")
		chk(e, "C21", c.Imp(c.Not(ok), c.Eq(nopen, c.Int(0))), "closed-on-error", "a failed Connect leaves no connection open")
		chk(e, "C21", c.Imp(ok, c.Eq(nopen, c.Int(1))), "returned-open", "the returned connection is open")
		chk(e, "C22", c.Imp(ok, c.Eq(nopen, c.Int(1))), "dial-error", "a failed dial is reported")
		if !x.possible(e, ok) {
			return
		}
		g := e.clone()
		x.assume(g, ok)
		p, isP := tv.vs[0].(*PtrV)
		if !isP {
			x.assert(g, c.False, "post", "returns-conn", "success returns a connection")
			return
		}
		raw := x.reify(g, x.fieldOf(g, p, "raw"), nil)
		want, _ := g.ghost["raw"].(*Term)
		same := c.False
		if want != nil {
			if raw.sort == want.sort {
				same = c.Eq(raw, want)
			} else if raw.op == "app" && strings.HasPrefix(raw.name, "iface:") {
				same = c.Bool(raw.args[0] == want)
			}
		}
		chk(g, "C22", same, "dialled-connection", "the connection uses the stream that was dialled")
		if prop == "C13" || prop == "C14" || prop == "C18" {
			sw.atReturn(g, p, same)
		}
	})
}

// connModels: what Connect and the connection use of the standard library.
func connModels(x *Exec) {
	m := x.models
	m["context.Background"] = func(x *Exec, st *State, cc *Call) []*State {
		return x.ret(st, cc, x.newErr(st, "bgctx"))
	}
	m["context.WithCancel"] = func(x *Exec, st *State, cc *Call) []*State {
		x.modeled["context.WithCancel"] = true
		return x.ret(st, cc, &TupleV{[]Val{x.newErr(st, "ctx"), x.newRef(st, "cancel")}})
	}
	m["bufio.NewWriter"] = func(x *Exec, st *State, cc *Call) []*State {
		x.modeled["bufio.NewWriter"] = true
		el := cc.resT.(*types.Pointer).Elem()
		p := x.newObjPtr(st, "bufio", el)
		i := x.reify(st, &IfaceV{typ: cc.resT, val: p}, nil)
		k := fmt.Sprintf("bufof:%d", i.id)
		st.ghost[k], st.ghost[k+":i"] = x.reify(st, cc.args[0], nil), i
		return x.ret(st, cc, p)
	}
	m["bufio.NewWriterSize"] = m["bufio.NewWriter"]
	m["ring.New"] = func(x *Exec, st *State, cc *Call) []*State {
		p := x.newObjPtr(st, "rb", cc.resT.(*types.Pointer).Elem())
		st.ghost[fmt.Sprintf("rbsize:%d", x.reify(st, p, cc.resT).id)] = cc.args[0].(*Term)
		return x.ret(st, cc, p)
	}
}

func clientTasks(prop string) []*Task {
	var out []*Task
	add := func(name string, f func(w *Worker, unroll int) *FuncResult) {
		out = append(out, &Task{Name: name, Fn: strings.SplitN(name, "#", 2)[0], Key: name, Custom: f})
	}
	for _, e := range []string{"Metadata", "DialController", "DialGroupCoordinator", "DialLeader"} {
		e := e
		if prop != "C12" {
			add("kafka.(*Client)."+e, func(w *Worker, u int) *FuncResult { return w.client(e, prop, false, u) })
		}
		if prop == "C20" && (e == "DialController" || e == "DialLeader") {
			add("kafka.(*Client)."+e+"#present", func(w *Worker, u int) *FuncResult { return w.client(e, prop, true, u) })
		}
	}
	if prop == "C20" || prop == "C22" {
		add("kafka.NewClient", func(w *Worker, u int) *FuncResult { return w.newClient(prop, u) })
	}
	if prop == "C20" {
		return out
	}
	add("kafka.NewBroker", func(w *Worker, u int) *FuncResult { return w.newBroker(prop, u) })
	if prop == "C12" {
		return out
	}
	add("kafka.Connect", func(w *Worker, u int) *FuncResult { return w.connect(prop, u) })
	if prop == "C22" {
		add("kafka.buildConfig", func(w *Worker, u int) *FuncResult { return w.buildConfig(u) })
		add("kafka.WithDialer", func(w *Worker, u int) *FuncResult { return w.option("WithDialer", u) })
		add("kafka.WithTLS", func(w *Worker, u int) *FuncResult { return w.option("WithTLS", u) })
	}
	return out
}
