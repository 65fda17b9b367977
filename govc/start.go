package main

// How Connect starts the two workers of a connection: what the contracts of
// readLoop, messageLoop, Do and Close assume of the connection they are given.

import (
	"fmt"
	"strings"
)

type startRules struct {
	x   *Exec
	chk func(st *State, p string, cond *Term, n, d string)
}

func newStartRules(x *Exec, chk func(st *State, p string, cond *Term, n, d string)) *startRules {
	s := &startRules{x, chk}
	x.extra["ongo"] = func(st *State, cc *Call) { s.start(st, cc) }
	return s
}

func (s *startRules) init(st *State) {
	for w := range workerFields {
		st.ghost["started:"+w] = s.x.c.Int(0)
	}
}

func (s *startRules) all(st *State, cond *Term, n, d string) {
	for _, p := range []string{"C13", "C14", "C18"} {
		s.chk(st, p, cond, n, d)
	}
}

var workerFields = map[string][]string{
	"kafka.(*Conn).readLoop":    {"doneRead", "rb", "raw"},
	"kafka.(*Conn).messageLoop": {"doneMessage", "rb", "requests", "raw"},
}

func (s *startRules) start(st *State, cc *Call) {
	x := s.x
	c := x.c
	fields, ok := workerFields[cc.name]
	if !ok || len(cc.args) == 0 {
		x.unsupported(st, "start of an unknown goroutine")
		return
	}
	p, ok := cc.args[0].(*PtrV)
	if !ok {
		x.unsupported(st, "worker of an unknown connection")
		return
	}
	k := "started:" + cc.name
	s.all(st, c.Eq(x.ghost(st, k, "Int"), c.Int(0)), "started-once", "each worker is started once")
	st.ghost[k] = c.Int(1)
	st.ghost[k+":conn"] = c.Int(int64(p.obj))
	for _, f := range fields {
		v := x.fieldOf(st, p, f)
		st.ghost[k+":"+f] = x.reify(st, v, fieldType(x.obj(st, p.obj).typ, f))
	}
	for i, a := range cc.args[1:] {
		t := typeName(cc.argT[i+1])
		var f string
		switch {
		case strings.HasSuffix(t, "ring.Buffer"):
			f = "rb"
		case strings.HasSuffix(t, "net.Conn"):
			f = "raw"
		default:
			continue
		}
		s.all(st, c.Eq(x.reify(st, a, cc.argT[i+1]), x.reify(st, x.fieldOf(st, p, f), fieldType(x.obj(st, p.obj).typ, f))), "worker-"+f, "the workers use the stream and the buffer of the connection")
	}
}

// atReturn: Connect hands out a connection whose workers run. same says that
// its stream is the one that was dialled.
func (s *startRules) atReturn(st *State, p *PtrV, same *Term) {
	x := s.x
	c := x.c
	connT := x.obj(st, p.obj).typ
	fld := func(n string) *Term { return x.reify(st, x.fieldOf(st, p, n), fieldType(connT, n)) }
	for _, f := range []string{mapLock, encLock, "requests", "encoder", "doneMessage", "doneRead", "rb", "raw"} {
		if fieldIndex(connT, f) < 0 {
			x.unsupported(st, "no field "+f+" in Conn")
			return
		}
	}
	s.all(st, same, "dialled-connection", "the connection uses the stream that was dialled")
	for w, fields := range workerFields {
		k := "started:" + w
		n, ok := x.gint(st, k)
		s.all(st, c.Bool(ok && n == 1), "workers-started", "a connection is returned with both workers started")
		if !ok || n != 1 {
			continue
		}
		s.all(st, c.Eq(x.ghost(st, k+":conn", "Int"), c.Int(int64(p.obj))), "worker-conn", "the workers serve the connection that is returned")
		for _, f := range fields {
			if t, ok := st.ghost[k+":"+f].(*Term); ok {
				s.all(st, c.Eq(t, fld(f)), "set-before-start", "what the workers use is set before they start and kept")
			}
		}
	}
	made := func(t *Term) bool { _, ok := st.ghost["made:"+t.name]; return ok }
	dm, dr := fld("doneMessage"), fld("doneRead")
	s.all(st, c.And(c.Bool(made(dm) && made(dr)), c.Not(c.Eq(dm, dr))), "done-channels", "each worker has a channel of its own to announce its end")
	s.chk(st, "C13", c.Bool(made(fld("requests"))), "map-made", "the map of pending requests is made by Connect")
	s.chk(st, "C18", c.Bool(made(fld("requests"))), "map-made", "the map of pending requests is made by Connect")
	// the buffer between the workers
	rb, _ := x.fieldOf(st, p, "rb").(*PtrV)
	var size *Term
	if rb != nil {
		size, _ = st.ghost[fmt.Sprintf("rbsize:%d", x.reify(st, rb, nil).id)].(*Term)
	}
	if size == nil {
		s.all(st, c.False, "buffer-made", "the buffer between the workers is made by Connect")
	} else {
		s.all(st, c.Lt(c.Int(0), size), "buffer-made", "the buffer between the workers has room")
	}
	// frames go to the dialled stream, directly or through one writer
	ep, ok := x.fieldOf(st, p, "encoder").(*PtrV)
	if !ok {
		s.all(st, c.False, "encoder-target", "requests are written to the stream of the connection")
		return
	}
	tgt := x.reify(st, x.fieldOf(st, ep, "target"), fieldType(x.obj(st, ep.obj).typ, "target"))
	raw := fld("raw")
	okT := c.Eq(tgt, raw)
	for _, k := range keysOfVal(st.ghost) {
		if strings.HasPrefix(k, "bufof:") && strings.HasSuffix(k, ":i") {
			of := st.ghost[strings.TrimSuffix(k, ":i")].(*Term)
			okT = c.Or(okT, c.And(c.Eq(tgt, st.ghost[k].(*Term)), c.Eq(of, raw)))
		}
	}
	s.all(st, okT, "encoder-target", "requests are written to the stream of the connection")
}

// newClient: the client keeps exactly the servers (C20) and the options (C22)
// it was given.
func (w *Worker) newClient(prop string, unroll int) *FuncResult {
	name := "kafka.NewClient"
	fn := w.p.funcs[name]
	if fn == nil || len(fn.Params) != 2 {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := w.newExec()
	x.unroll = unroll
	c := x.c
	field, desc := "bootstrap", "the client asks the servers it was given"
	if prop == "C22" {
		field, desc = "opts", "the client uses the options it was given"
	}
	return x.runFn(fn, name, []string{"bootstrap", "opts"}, nil, func(e, init *State, vars map[string]Val) {
		p, ok := e.result.(*PtrV)
		if !ok {
			x.assert(e, c.False, "post", "returns-client", "a client is returned")
			return
		}
		got, ok1 := x.fieldOf(e, p, field).(*SliceV)
		want, ok2 := vars[field].(*SliceV)
		if !ok1 || !ok2 {
			x.unsupported(e, "representation of the client")
			return
		}
		x.assert(e, c.Eq(got.len, want.len), "post", field+"-length", desc)
		k := c.Fresh("k", "Int")
		in := c.And(c.Le(c.Int(0), k), c.Lt(k, want.len))
		if !x.possible(e, in) {
			return
		}
		g := e.clone()
		x.assume(g, in)
		x.assert(g, c.Eq(c.Select(x.sliceContent(g, got), c.Add(got.off, k)), c.Select(x.sliceContent(init, want), c.Add(want.off, k))), "post", field+"-elements", desc)
	})
}
