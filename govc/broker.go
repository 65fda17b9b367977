package main

// Contracts of the broker API methods (C10, C11): each method is run against
// a call rule for Conn.Do, which runs the encode function on a stream and then
// either fails or runs the decode function on a response.

import (
	"bufio"
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Api struct {
	Name      string
	Key       int64
	Req, Resp string
	Min, Max  int64
}

func loadApis(path string) []*Api {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var out []*Api
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		p := strings.Fields(sc.Text())
		if len(p) == 0 || p[0] != "api" {
			continue
		}
		a := &Api{Name: p[1], Req: p[3], Resp: p[4]}
		fmt.Sscan(p[2], &a.Key)
		fmt.Sscan(p[5], &a.Min)
		fmt.Sscan(p[6], &a.Max)
		out = append(out, a)
	}
	return out
}

var apisCache []*Api

func apis() []*Api {
	if apisCache == nil {
		apisCache = loadApis(*verifDir + "/contracts/apis.table")
	}
	return apisCache
}

// reachable lists the message types used by T, itself included.
func (s *Schema) reachable(T string, seen map[string]bool) {
	if seen[T] {
		return
	}
	seen[T] = true
	for _, f := range s.types[T] {
		if strings.HasPrefix(f.Kind, "msgarr:") {
			s.reachable(f.Kind[7:], seen)
		}
		if strings.HasPrefix(f.Kind, "msg:") {
			s.reachable(f.Kind[4:], seen)
		}
	}
}

// newPtr makes a symbolic object of the type and a pointer to it.
func (x *Exec) newPtr(st *State, name string, el types.Type) *PtrV {
	id := x.newObjID()
	tm := x.c.Var("in:"+name, sortOf(el))
	x.initObj[id] = &Obj{id: id, typ: el, val: x.unreify(st, tm, el)}
	return &PtrV{obj: id, elem: el}
}

// runFn is the custom counterpart of Verify.
func (x *Exec) runFn(fn *ssa.Function, name string, params []string, setup func(st *State, vars map[string]Val), done func(e, init *State, vars map[string]Val)) *FuncResult {
	x.fnName = name
	x.self = fn
	res := &FuncResult{Func: name}
	st, vars := x.start(fn, &Contract{params: params}, nil)
	if setup != nil {
		setup(st, vars)
	}
	if st.dead || x.s.Check(x.c, st.pc) == "unsat" {
		x.obligs = append(x.obligs, &Oblig{Func: name, Name: "precondition-satisfiable", Class: "vacuity", Status: "refuted", Desc: "the precondition is contradictory"})
	} else {
		res.Covered = true
	}
	init := st.clone()
	for _, e := range x.explore([]*State{st}, nil) {
		if e.end == "cut" {
			res.Bounded = true
		}
		if e.end != "return" {
			continue
		}
		res.Paths++
		x.live(res, e)
		done(e, init, vars)
	}
	if res.Paths > 0 && !res.Live && x.fail == "" {
		x.fail = "no path to a return can be taken"
	}
	res.Visited = x.visited
	if res.Paths == 0 && x.fail == "" && len(x.obligs) == 0 {
		x.fail = "no path returns"
	}
	res.Obligs = x.obligs
	res.Inlined, res.Used, res.Assumed = keysOf(x.inlined), keysOf(x.called), keysOf(x.modeled)
	res.Unsup = x.fail
	res.Invs = x.invUsed
	res.Loops = x.sawLoop
	return res
}

// live notes whether some path to a return can be taken: if none can, what was
// proved holds of nothing.
func (x *Exec) live(res *FuncResult, e *State) {
	if !res.Live && x.s.Check(x.c, e.pc) != "unsat" {
		res.Live = true
	}
}

func (x *Exec) isNilErr(v Val) *Term {
	switch e := v.(type) {
	case *IfaceV:
		return x.c.False
	case *Term:
		return x.c.Eq(e, x.nilIface())
	case NilPtr:
		return x.c.True
	}
	return x.c.Fresh("isnil", "Bool")
}

// revealed wraps the contract lookup so that the methods of T are used by
// their field-wise meaning at constant versions.
func (w *Worker) revealed(x *Exec, T string) {
	base := x.contracts
	x.contracts = func(name string, fn *ssa.Function) *Contract {
		if !w.sch.isMsgMethod(name) {
			return base(name, fn)
		}
		if t, _ := msgMethod(name); t != T {
			return base(name, fn)
		}
		return &Contract{name: name, apply: func(x *Exec, st *State, cc *Call) []*State {
			v, ok := cc.args[len(cc.args)-1].(*Term)
			if ok && v.op == "int" {
				for _, r := range w.sch.regions(T) {
					if int64(r[0]) <= v.ival.Int64() && v.ival.Int64() <= int64(r[1]) {
						m := &MsgCtx{sch: w.sch, T: T, region: r, pkg: fn.Pkg.Pkg}
						return x.applyContract(st, cc, msgContract(w.specs, name, m))
					}
				}
			}
			return x.applyContract(st, cc, msgContract(w.specs, name, nil))
		}}
	}
}

func (w *Worker) apiMethod(a *Api, prop string) *FuncResult {
	name := "kafka.(*Broker)." + a.Name
	fn := w.p.funcs[name]
	if fn == nil {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := w.newExec()
	c := x.c
	w.revealed(x, "RequestHeader")
	encT, decT := w.p.types["message.Encoder"], w.p.types["message.Decoder"]
	reqT, respT := w.p.types["message."+a.Req], w.p.types["message."+a.Resp]
	if encT == nil || decT == nil || reqT == nil || respT == nil {
		return &FuncResult{Func: name, Unsup: "message types not found"}
	}
	var b *PtrV
	var req Val
	field := func(st *State, v Val, names ...string) Val {
		for _, n := range names {
			sv, ok := v.(*StructV)
			if !ok {
				panic("broker field " + n)
			}
			i := fieldIndex(sv.typ, n)
			if i < 0 {
				panic("no field " + n)
			}
			v = x.field(st, sv, i)
		}
		return v
	}
	parse := func(s string) *node { return parseExpr(s) }
	encInv, dinv := parse("encInv(e)"), parse("dinv(d)")
	var ver *Term
	x.extra["onDo"] = true
	do := &Contract{name: "kafka.(*Conn).Do", apply: func(x *Exec, st *State, cc *Call) []*State {
		n := x.ghost(st, "do", "Int")
		x.assert(st, c.Eq(n, c.Int(0)), "post", "one-request", "the call sends one request")
		st.ghost["do"] = c.Int(1)
		x.assert(st, x.eq(st, cc.args[0], field(st, x.load(st, b), "conn"), cc.argT[0]), "post", "own-connection", "the request is sent on the broker's connection")
		encf, ok1 := cc.args[1].(*FuncV)
		decf, ok2 := cc.args[2].(*FuncV)
		if !ok1 || !ok2 {
			x.unsupported(st, "functions given to Do")
			return x.ret(st, cc, x.fresh(st, "r", cc.resT))
		}
		e := x.newPtr(st, "encoder", encT)
		corr := x.fresh(st, "correlationID", types.Typ[types.Int32]).(*Term)
		env := &Env{x: x, st: st, old: st, vars: map[string]Val{"e": e}}
		x.assume(st, env.evalBool(w.specs, encInv))
		pre := st.clone()
		if x.fnName == "" || prop != "C11" {
			x.names = append(x.names, namedTerm{"correlationID", corr})
		}
		encCall := &Call{name: funcName(encf.fn), fn: encf.fn, funv: encf, args: []Val{e, corr}, argT: []types.Type{types.NewPointer(encT), types.Typ[types.Int32]}, resT: types.NewTuple()}
		encCall.onRet = func(st *State, _ Val) []*State {
			if prop == "C10" {
				e1 := &Env{x: x, st: st, old: pre, vars: map[string]Val{"e": e}}
				e0 := &Env{x: x, st: pre, old: pre, vars: map[string]Val{"e": e}}
				F, p0, p := e0.strF(w.specs), e0.pos(w.specs), e1.pos(w.specs)
				good := st.clone()
				x.assume(good, c.Not(e1.failed(w.specs)))
				// header, then the request
				vals := map[string]Val{"RequestApiKey": c.Int(a.Key), "RequestApiVersion": ver, "CorrelationId": corr, "ClientId": field(good, x.load(good, b), "config", "clientID")}
				o := c.Add(p0, c.Int(4))
				for _, f := range w.sch.carried("RequestHeader", [2]int{2, 2}) {
					v, ok := vals[f.Name]
					if !ok {
						panic("header field " + f.Name)
					}
					x.assert(good, x.encField(good, f.Kind, F, o, v, c.Int(2)), "post", "header "+f.Name, "the frame header carries "+f.Name)
					o = c.Add(o, x.szField(good, f.Kind, v, c.Int(2)))
				}
				rt := x.reify(pre, req, reqT)
				x.assert(good, x.encElem("msg:"+a.Req, F, o, rt, []*Term{ver}), "post", "body", "the request is encoded at the negotiated version after the header")
				end := c.Add(o, x.msgSize(a.Req, rt, ver))
				x.assert(good, c.Eq(p, end), "post", "frame-end", "nothing follows the request")
				x.assert(good, c.Eq(x.at("i32", F, p0), x.w32(c.Sub(end, c.Add(p0, c.Int(4))))), "post", "frame-size", "the size prefix equals the number of bytes that follow it")
			}
			// the exchange fails
			s1 := st.clone()
			s1.ghost["case"] = c.Int(1)
			out := x.ret(s1, cc, x.newErr(s1, "doerr"))
			if prop == "C10" {
				return append(out, x.ret(st, cc, x.fresh(st, "r", cc.resT))...)
			}
			// or a response is decoded
			st.ghost["case"] = c.Int(2)
			d := x.newPtr(st, "decoder", decT)
			dv := &Env{x: x, st: st, old: st, vars: map[string]Val{"d": d}}
			x.assume(st, dv.evalBool(w.specs, dinv))
			Y := c.Var("ghost:Y", sortOf(respT))
			x.extra["Y"] = Y
			x.assume(st, x.encElem("msg:"+a.Resp, dv.evalInt(w.specs, parse("R(d)")), dv.evalInt(w.specs, parse("O(d)")), Y, []*Term{ver}))
			x.assume(st, x.domElem("msg:"+a.Resp, Y, []*Term{ver}))
			st.ghost["fits"] = c.Le(c.Add(dv.evalInt(w.specs, parse("d.offset")), x.msgSize(a.Resp, Y, ver)), dv.evalInt(w.specs, parse("d.length")))
			decCall := &Call{name: funcName(decf.fn), fn: decf.fn, funv: decf, args: []Val{d}, argT: []types.Type{types.NewPointer(decT)}, resT: cc.resT}
			decCall.onRet = func(st *State, v Val) []*State { return x.ret(st, cc, v) }
			return append(out, x.call(st, decCall)...)
		}
		return x.call(st, encCall)
	}}
	base := x.contracts
	x.contracts = func(n string, f *ssa.Function) *Contract {
		if n == "kafka.(*Conn).Do" {
			return do
		}
		return base(n, f)
	}
	x.modeled["Conn.Do(encode, decode): runs encode once with the call's correlation id on the connection's encoder; returns a non-nil error or what decode returned for the response (proved for Conn.Do and messageLoop under C13, C14)"] = true
	params := []string{"b", "req"}
	return x.runFn(fn, name, params, func(st *State, vars map[string]Val) {
		b = vars["b"].(*PtrV)
		req = vars["req"]
		if len(fn.Params) != 2 {
			panic("signature changed")
		}
		ver = field(st, x.load(st, b), "apiVersion", a.Name).(*Term)
		x.names = append(x.names, namedTerm{"apiVersion", ver})
		st.ghost["do"] = c.Int(0)
		st.ghost["case"] = c.Int(0)
	}, func(e, init *State, vars map[string]Val) {
		tv, ok := e.result.(*TupleV)
		if !ok || len(tv.vs) != 2 {
			panic("result changed")
		}
		nilerr := x.isNilErr(tv.vs[1])
		k := x.ghost(e, "case", "Int").ival
		switch {
		case x.ghost(e, "do", "Int").ival.Sign() == 0:
			x.assert(e, c.Not(nilerr), "post", "one-request", "a call that sends no request returns an error")
		case prop == "C10":
		case k.Int64() == 1:
			x.assert(e, c.Not(nilerr), "post", "exchange-error", "a failed exchange is reported as an error")
		case k.Int64() == 2:
			Y := x.extra["Y"].(*Term)
			fits := e.ghost["fits"].(*Term)
			r := x.reify(e, tv.vs[0], respT)
			x.assert(e, c.Imp(fits, c.And(nilerr, x.eqElem("msg:"+a.Resp, r, Y, []*Term{ver}))), "post", "response-value", "the response the broker encoded is returned, without an error")
			x.assert(e, c.Imp(c.Not(fits), c.Not(nilerr)), "post", "decode-error", "a response that cannot be decoded is reported as an error")
		}
	})
}

func apiTasks(prop string) []*Task {
	var out []*Task
	for _, a := range apis() {
		a := a
		n := "kafka.(*Broker)." + a.Name
		out = append(out, &Task{Name: n, Fn: n, Key: a.Name, Custom: func(w *Worker, unroll int) *FuncResult { return w.apiMethod(a, prop) }})
	}
	return out
}

// apiTypes are the message types the property of the API methods rests on.
func apiTypes(s *Schema, prop string) map[string]bool {
	seen := map[string]bool{}
	for _, a := range apis() {
		if prop == "C10" {
			s.reachable(a.Req, seen)
			s.reachable("RequestHeader", seen)
		} else {
			s.reachable(a.Resp, seen)
		}
	}
	return seen
}
