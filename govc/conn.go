package main

// C13, C14, C17, C18: the connection. Monitor-style reasoning: readLock
// protects the map of pending requests, writeLock the encoder; an entry taken
// out of the map carries the permission to send once on its reply channel.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	mapLock = "readLock"
	encLock = "writeLock"
)

type connRun struct {
	w     *Worker
	x     *Exec
	prop  string
	c     *PtrV
	connT types.Type

	encode, decode *Term // Do
	ctx            *Term
	rb, raw        *Term
	S              *Term // bytes received on the connection
	done           map[*Term]string
}

func (r *connRun) chk(st *State, props string, cond *Term, name, desc string) {
	if strings.Contains(props, r.prop) {
		r.x.assert(st, cond, "post", name, desc)
	}
}
func (r *connRun) g(st *State, k string) *Term  { return r.x.ghost(st, k, "Int") }
func (r *connRun) gb(st *State, k string) *Term { return r.x.ghost(st, k, "Bool") }

func (r *connRun) field(st *State, n string) *Term {
	return r.x.reify(st, r.x.fieldOf(st, r.c, n), fieldType(r.connT, n))
}
func (r *connRun) held(st *State, lock string) *Term { return r.gb(st, "held:"+lock) }

func (r *connRun) lockName(st *State, v Val) string {
	p, ok := v.(*PtrV)
	if ok && p.obj == r.c.obj && len(p.path) == 1 {
		return under(r.connT).(*types.Struct).Field(p.path[0].field).Name()
	}
	r.x.unsupported(st, "lock that is not a field of the connection")
	return "?"
}

// needLocks: the fields the monitor reasoning is about must exist.
func (r *connRun) needLocks() {
	for _, f := range []string{mapLock, encLock, "requests", "encoder", "doneMessage", "doneRead", "rb", "raw"} {
		if fieldIndex(r.connT, f) < 0 {
			panic("no field " + f + " in Conn")
		}
	}
}

func (r *connRun) models() {
	x := r.x
	c := x.c
	m := x.models
	connModels(x)
	lock := func(x *Exec, st *State, cc *Call) []*State {
		n := r.lockName(st, cc.args[0])
		r.chk(st, "C13 C14 C17 C18", c.Not(r.held(st, n)), "no-self-deadlock", "a lock is not taken twice")
		if n == encLock {
			r.chk(st, "C18", c.Not(r.held(st, mapLock)), "lock-order", "the write lock is not awaited while the map is locked")
		}
		st.ghost["held:"+n] = c.True
		if n == mapLock {
			// what was looked up before is no longer current
			st.ghost["looked"] = c.Int(0)
		}
		return x.ret(st, cc, nil)
	}
	unlock := func(x *Exec, st *State, cc *Call) []*State {
		n := r.lockName(st, cc.args[0])
		r.chk(st, "C13 C14 C17 C18", r.held(st, n), "unlock-held", "only a held lock is released")
		if n == encLock {
			r.chk(st, "C14", c.Not(r.gb(st, "dirty")), "flush-before-unlock", "the frame is flushed before another call may write")
		}
		st.ghost["held:"+n] = c.False
		return x.ret(st, cc, nil)
	}
	m["sync.(*Mutex).Lock"], m["sync.(*Mutex).Unlock"] = lock, unlock
	m["sync.(*RWMutex).Lock"], m["sync.(*RWMutex).Unlock"] = lock, unlock
	x.modeled["sync.Mutex: mutual exclusion"] = true
	m["invoke:context.Context.Done"] = func(x *Exec, st *State, cc *Call) []*State {
		return x.ret(st, cc, c.App("ctxdone", "Ref", cc.recvI))
	}
	m["invoke:context.Context.Err"] = func(x *Exec, st *State, cc *Call) []*State {
		return x.ret(st, cc, x.freshErr(st, "ctxerr"))
	}
	x.override(map[string]func(*Exec, *State, *Call) []*State{
		"ring.(*Buffer).Close": func(x *Exec, st *State, cc *Call) []*State {
			if x.reify(st, cc.args[0], nil) == r.rbTerm(st) {
				st.ghost["rbclosed"] = c.True
			}
			return x.ret(st, cc, x.nilIface())
		},
		"ring.(*Buffer).ReadN":  r.readN,
		"ring.(*Buffer).WriteN": r.writeN,
		"message.(*Encoder).Flush": func(x *Exec, st *State, cc *Call) []*State {
			r.chk(st, "C14", r.held(st, encLock), "flush-locked", "the encoder is flushed under the write lock")
			e := x.freshErr(st, "flusherr")
			st.ghost["dirty"] = c.False
			st.ghost["flushes"] = c.Add(r.g(st, "flushes"), c.Int(1))
			st.ghost["flusherr"] = e
			return x.ret(st, cc, e)
		},
	})
	m["builtin:close"] = func(x *Exec, st *State, cc *Call) []*State {
		t := x.reify(st, cc.args[0], nil)
		for _, n := range []string{"doneMessage", "doneRead"} {
			if t == r.field(st, n) {
				k := r.g(st, "closed:"+n)
				x.assert(st, c.Eq(k, c.Int(0)), "panic", "no-panic", "close of closed channel")
				st.ghost["closed:"+n] = c.Int(1)
				return x.ret(st, cc, nil)
			}
		}
		x.unsupported(st, "close of a channel")
		return x.ret(st, cc, nil)
	}
	m["builtin:delete"] = func(x *Exec, st *State, cc *Call) []*State {
		r.mapLocked(st, cc.args[0])
		k := cc.args[1].(*Term)
		if r.decode != nil { // in Do
			r.chk(st, "C13 C14", c.Eq(k, x.ghost(st, "id", "Int")), "own-entry", "a call removes only its own entry")
			st.ghost["reg"] = c.Int(0)
		} else {
			cur := c.And(c.Eq(r.g(st, "looked"), c.Int(1)), c.Eq(k, x.ghost(st, "lkey", "Int")))
			r.chk(st, "C13 C18", cur, "removes-looked-up", "only the entry that is about to be answered is removed")
			st.ghost["perm"] = x.ghost(st, "lok", "Bool")
		}
		return x.ret(st, cc, nil)
	}
	m["maplookup"] = r.lookup
	m["mapupdate"] = r.mapUpdate
	m["send"] = r.send
	m["recv"] = func(x *Exec, st *State, cc *Call) []*State {
		t := x.reify(st, cc.args[0], nil)
		return r.recv(st, []*Term{t}, true, func(st *State, i int, v Val) []*State {
			var res Val = v
			if _, ok := cc.resT.(*types.Tuple); ok {
				res = &TupleV{[]Val{v, c.Fresh("ok", "Bool")}}
			}
			return x.ret(st, cc, res)
		})
	}
	x.extra["select"] = r.sel
	m["dynamic"] = r.dynamic
}

func (r *connRun) rbTerm(st *State) *Term {
	if r.rb != nil {
		return r.rb
	}
	return r.field(st, "rb")
}

func (r *connRun) mapLocked(st *State, mv Val) {
	x := r.x
	if x.reify(st, mv, nil) != r.field(st, "requests") {
		x.unsupported(st, "map other than the pending requests")
	}
	r.chk(st, "C13 C18", r.held(st, mapLock), "map-locked", "the pending requests are accessed under their lock")
}

func (r *connRun) mapUpdate(x *Exec, st *State, cc *Call) []*State {
	c := x.c
	r.mapLocked(st, cc.args[0])
	k := cc.args[1].(*Term)
	if r.decode == nil {
		r.chk(st, "C13", c.False, "no-new-entries", "only calls register entries")
		st.top().idx++
		return []*State{st}
	}
	r.chk(st, "C13", c.Eq(r.g(st, "reg"), c.Int(0)), "registered-once", "a call registers one entry")
	r.chk(st, "C13 C14", c.And(c.Eq(r.g(st, "ids"), c.Int(1)), c.Eq(k, x.ghost(st, "id", "Int"))), "own-id", "the entry is registered under the call's own unique id")
	v := cc.args[2]
	dec := x.reify(st, x.fieldOf(st, v, "decode"), nil)
	r.chk(st, "C13", c.Eq(dec, r.decode), "own-decode", "the entry decodes with the call's own function")
	rep := x.reify(st, x.fieldOf(st, v, "reply"), nil)
	n, fresh := st.ghost["chancap:"+rep.name].(*Term)
	if !fresh {
		r.chk(st, "C13 C18", c.False, "own-reply", "the entry has a reply channel of its own")
	} else {
		r.chk(st, "C13 C18", c.Le(c.Int(1), n), "reply-buffered", "the reply channel has room for the reply")
	}
	st.ghost["reply"] = rep
	st.ghost["reg"] = c.Int(1)
	st.ghost["regs"] = c.Int(1)
	st.top().idx++
	return []*State{st}
}

func (r *connRun) lookup(x *Exec, st *State, cc *Call) []*State {
	c := x.c
	r.mapLocked(st, cc.args[0])
	k := cc.args[1].(*Term)
	et := cc.resT
	tup, comma := et.(*types.Tuple)
	if comma {
		et = tup.At(0).Type()
	}
	ok := c.Fresh("found", "Bool")
	v := x.fresh(st, "entry", et)
	no := st.clone()
	x.assume(st, ok)
	x.assume(no, c.Not(ok))
	ret := func(s *State, v Val) []*State {
		s.ghost["looked"] = c.Int(1)
		s.ghost["lkey"] = k
		s.ghost["lok"] = ok
		s.ghost["owe"] = ok
		s.ghost["perm"] = c.False
		if r.S != nil {
			r.chk(s, "C13", c.Eq(k, x.at("i32", r.S, c.Add(r.g(s, "fs"), c.Int(4)))), "key-is-correlation-id", "the entry looked up is that of the response's correlation id")
		}
		var res Val = v
		if comma {
			res = &TupleV{[]Val{v, ok}}
		}
		return x.ret(s, cc, res)
	}
	st.ghost["ldecode"] = x.reify(st, x.fieldOf(st, v, "decode"), nil)
	st.ghost["lreply"] = x.reify(st, x.fieldOf(st, v, "reply"), nil)
	x.assume(st, c.Not(c.Eq(st.ghost["ldecode"].(*Term), x.nilRef())))
	x.assume(st, c.Not(c.Eq(st.ghost["lreply"].(*Term), x.nilRef())))
	no.ghost["ldecode"] = x.nilRef()
	no.ghost["lreply"] = x.nilRef()
	return append(ret(st, v), ret(no, x.zero(et))...)
}

func (r *connRun) send(x *Exec, st *State, cc *Call) []*State {
	c := x.c
	ch := x.reify(st, cc.args[0], nil)
	if r.decode != nil {
		x.unsupported(st, "send in Do")
	}
	r.chk(st, "C13 C18", c.And(r.gb(st, "owe"), c.Eq(ch, x.ghost(st, "lreply", "Ref"))), "reply-to-matching-call", "the reply goes to the call whose entry was looked up, once")
	r.chk(st, "C13 C18", r.gb(st, "perm"), "reply-once", "the entry was removed from the map when it was looked up, so that it is answered once")
	r.chk(st, "C13", c.And(c.Eq(r.g(st, "decoded"), c.Int(1)), c.Eq(x.reify(st, cc.args[1], nil), x.ghost(st, "dres", "Iface"))), "reply-is-decode-result", "the call gets exactly what its decode function returned")
	st.ghost["owe"] = c.False
	st.ghost["perm"] = c.False
	st.ghost["decoded"] = c.Int(0)
	st.top().idx++
	return []*State{st}
}

func (r *connRun) dynamic(x *Exec, st *State, cc *Call) []*State {
	c := x.c
	f := x.reify(st, cc.funv, nil)
	switch {
	case r.encode != nil && f == r.encode:
		r.chk(st, "C13", c.Eq(r.g(st, "reg"), c.Int(1)), "registered-before-write", "the call is registered before its request can be answered")
		r.chk(st, "C13 C14", c.And(c.Eq(r.g(st, "ids"), c.Int(1)), c.Eq(cc.args[1].(*Term), x.ghost(st, "id", "Int"))), "own-id", "the request carries the id the call is registered under")
		r.chk(st, "C14", r.held(st, encLock), "write-locked", "frames are written under the write lock")
		r.chk(st, "C14", c.Eq(r.g(st, "encodes"), c.Int(0)), "one-frame", "a call writes one frame")
		r.chk(st, "C14", c.Eq(x.reify(st, cc.args[0], nil), r.field(st, "encoder")), "own-encoder", "frames are written to the connection's encoder")
		st.ghost["encodes"] = c.Add(r.g(st, "encodes"), c.Int(1))
		st.ghost["dirty"] = c.True
		return x.ret(st, cc, nil)
	case r.decode != nil && f == r.decode:
		x.unsupported(st, "decode called by the calling goroutine")
		return x.ret(st, cc, x.fresh(st, "r", cc.resT))
	case f == x.ghost(st, "ldecode", "Ref") && r.S != nil:
		d, ok := cc.args[0].(*PtrV)
		if !ok {
			x.unsupported(st, "decoder")
			return x.ret(st, cc, x.fresh(st, "r", cc.resT))
		}
		e := &Env{x: x, st: st, old: st, vars: map[string]Val{"d": d}}
		sp := r.w.specs
		raw := x.fieldOf(st, d, "raw").(*SliceV)
		size := x.at("i32", r.S, r.g(st, "fs"))
		r.chk(st, "C13", c.Bool(raw.base != nil), "decodes-payload", "the response's own bytes are decoded")
		if raw.base != nil {
			key := fmt.Sprintf("filled:%d", raw.base.obj)
			at, okf := st.ghost[key].(*Term)
			if !okf {
				r.chk(st, "C13", c.False, "decodes-payload", "the response's own bytes are decoded")
			} else {
				off := e.evalInt(sp, parseExpr("d.offset"))
				r.chk(st, "C13", c.And(c.Eq(at, c.Add(r.g(st, "fs"), c.Int(4))), c.Eq(x.sliceContent(st, raw), x.ghost(st, key+":c", arrSort("Int"))), c.Eq(raw.off, c.Int(0)), c.Eq(off, c.Int(4)), c.Eq(e.evalInt(sp, parseExpr("d.length")), size)), "decodes-payload", "the response's own bytes after the header are decoded")
			}
			st.ghost[fmt.Sprintf("escaped:%d", raw.base.obj)] = c.True
		}
		r.chk(st, "C13", c.Eq(r.g(st, "decoded"), c.Int(0)), "decodes-once", "a response is decoded once")
		res := x.freshErr(st, "decoded")
		st.ghost["dres"] = res
		st.ghost["decoded"] = c.Int(1)
		return x.ret(st, cc, res)
	case f == r.fieldOr(st, "cancel"):
		st.ghost["cancelled"] = c.True
		return x.ret(st, cc, nil)
	}
	x.unsupported(st, "call of an unknown function value")
	return x.ret(st, cc, x.fresh(st, "r", cc.resT))
}
func (r *connRun) fieldOr(st *State, n string) *Term {
	if fieldIndex(r.connT, n) < 0 {
		return nil
	}
	return r.field(st, n)
}

// recv: a receive from one of several channels.
func (r *connRun) recv(st *State, chans []*Term, blocking bool, cont func(st *State, i int, v Val) []*State) []*State {
	x := r.x
	c := x.c
	reply, hasReply := st.ghost["reply"].(*Term)
	hasR, hasD := false, false
	doneM, doneR := r.field(st, "doneMessage"), r.field(st, "doneRead")
	for _, t := range chans {
		if hasReply && t == reply {
			hasR = true
		}
		if t == doneM {
			hasD = true
		}
	}
	if blocking {
		switch {
		case r.decode != nil:
			got := c.Eq(r.g(st, "got"), c.Int(0))
			r.chk(st, "C18 C13", c.And(c.Bool(hasR && hasD), got), "wait-can-end", "a call waits for its reply and for the end of the connection")
			r.chk(st, "C18 C13", c.Not(r.held(st, mapLock)), "wait-unlocked", "a call does not wait while holding the lock of the map")
		case r.prop == "C18" && x.fnName == "kafka.(*Conn).Close":
			ok := hasD
			for _, t := range chans {
				ok = ok || t == doneR
			}
			r.chk(st, "C18", c.And(c.Bool(ok), c.Or(r.gb(st, "rawclosed"), r.gb(st, "rbclosed"))), "close-waits-after-close", "Close waits for the workers only after closing the stream or the buffer, either of which ends both")
			r.chk(st, "C18", c.And(c.Not(r.held(st, mapLock)), c.Not(r.held(st, encLock))), "wait-unlocked", "Close does not wait while holding a lock")
		default:
			r.chk(st, "C18", c.False, "worker-never-blocks", "a worker blocks on nothing but the stream and the buffer")
		}
	}
	var out []*State
	for i, t := range chans {
		s := st.clone()
		var v Val = c.Fresh("recv", "Int")
		switch {
		case hasReply && t == reply:
			x.assume(s, c.Eq(r.g(s, "got"), c.Int(0)))
			x.assume(s, c.Not(r.gb(s, "empty")))
			if s.dead {
				continue
			}
			s.ghost["got"] = c.Int(1)
			v = c.App("replyvalue", "Iface", t)
		case t == doneM || t == doneR:
			s.ghost["doneSeen"] = c.True
			v = x.zero(types.NewStruct(nil, nil))
		case r.ctx != nil && t == c.App("ctxdone", "Ref", r.ctx):
			v = x.zero(types.NewStruct(nil, nil))
		default:
			x.unsupported(s, "receive from an unknown channel")
		}
		out = append(out, cont(s, i, v)...)
	}
	if !blocking {
		if hasR {
			// nothing there, and nothing will come once the worker has ended
			st.ghost["empty"] = r.gb(st, "doneSeen")
		}
		out = append(out, cont(st, -1, nil)...)
	}
	return out
}

func (r *connRun) sel(st *State, in *ssa.Select) []*State {
	x := r.x
	c := x.c
	var chans []*Term
	for _, s := range in.States {
		if s.Dir != types.RecvOnly {
			x.unsupported(st, "select with send")
		}
		chans = append(chans, x.term(st, s.Chan))
	}
	return r.recv(st, chans, in.Blocking, func(s *State, i int, v Val) []*State {
		tv := &TupleV{vs: []Val{c.Int(int64(i)), c.Fresh("ok", "Bool")}}
		for j, ss := range in.States {
			et := under(ss.Chan.Type()).(*types.Chan).Elem()
			if j == i {
				tv.vs = append(tv.vs, v)
			} else {
				tv.vs = append(tv.vs, x.zero(et))
			}
		}
		s.top().env[in] = tv
		s.top().idx++
		return []*State{s}
	})
}

// readN is the contract of ring.Buffer.ReadN (C15, C16): true with the next n
// bytes of the stream, or false once the buffer is closed and drained.
func (r *connRun) readN(x *Exec, st *State, cc *Call) []*State {
	c := x.c
	p, ok := cc.args[1].(*SliceV)
	if !ok || r.S == nil || x.reify(st, cc.args[0], nil) != r.rbTerm(st) {
		x.unsupported(st, "read of another buffer")
		return x.ret(st, cc, x.fresh(st, "r", cc.resT))
	}
	n := cc.args[2].(*Term)
	x.assert(st, c.And(c.Le(c.Int(0), n), c.Le(n, p.len)), "panic", "no-panic", "ReadN: 0 <= n <= len(data)")
	r.chk(st, "C13 C18", c.Not(r.gb(st, "owe")), "reply-sent", "a call whose entry was found is answered before the next response is read")
	r.chk(st, "C18", c.Not(r.gb(st, "ended")), "stops-at-end", "the worker stops once the buffer is closed")
	r.chk(st, "C18", c.Not(r.held(st, mapLock)), "read-unlocked", "the worker does not wait for bytes while holding the lock of the map")
	rp, nx := r.g(st, "rpos"), r.g(st, "next")
	start := c.And(c.Eq(rp, nx), c.Lt(c.Int(0), n)) // reading nothing begins nothing
	var outs []*State
	for _, isStart := range []bool{true, false} {
		s := st.clone()
		if isStart {
			x.assume(s, start)
		} else {
			x.assume(s, c.Not(start))
		}
		if s.dead || !x.possible(s, c.True) {
			continue
		}
		if isStart {
			r.chk(s, "C13", c.Le(n, c.Int(4)), "frame-start", "a response starts with its size")
			s.ghost["fs"] = rp
			s.ghost["next"] = c.Add(rp, c.Int(4), x.at("i32", r.S, rp))
		} else {
			r.chk(s, "C13", c.Le(c.Add(rp, n), nx), "frame-bounds", "no more than the current response is read")
		}
		bad := s.clone()
		bad.ghost["ended"] = c.True
		fill := func(s *State) {
			if p.base == nil {
				return
			}
			r.chk(s, "C17", c.Not(r.escaped(s, p.base.obj)), "fresh-buffer", "bytes handed to a decoder are not overwritten")
			arr := c.Fresh("filled", arrSort("Int"))
			x.store(s, p.base, arr)
			key := fmt.Sprintf("filled:%d", p.base.obj)
			s.ghost[key] = c.Sub(r.g(s, "rpos"), p.off)
			s.ghost[key+":c"] = arr
		}
		fill(bad)
		fill(s)
		if p.base != nil {
			arr := x.sliceContent(s, p)
			for i := int64(0); i < 8; i++ {
				x.assume(s, c.Imp(c.Lt(c.Int(i), n), c.Eq(c.Select(arr, c.Add(p.off, c.Int(i))), c.Select(r.S, c.Add(rp, c.Int(i))))))
			}
		}
		s.ghost["rpos"] = c.Ite(c.Le(c.Int(0), n), c.Add(rp, n), rp)
		outs = append(outs, x.ret(s, cc, c.True)...)
		outs = append(outs, x.ret(bad, cc, c.False)...)
	}
	x.modeled["ring.Buffer.ReadN: true with the next n bytes of the stream, false once closed and drained (C15, C16)"] = true
	return outs
}

func (r *connRun) writeN(x *Exec, st *State, cc *Call) []*State {
	c := x.c
	p, ok := cc.args[1].(*SliceV)
	if !ok || x.reify(st, cc.args[0], nil) != r.rbTerm(st) || r.raw == nil {
		x.unsupported(st, "write to another buffer")
		return x.ret(st, cc, x.fresh(st, "r", cc.resT))
	}
	n := cc.args[2].(*Term)
	x.assert(st, c.And(c.Le(c.Int(0), n), c.Le(n, p.len)), "panic", "no-panic", "WriteN: 0 <= n <= len(data)")
	pend := r.g(st, "pending")
	zero := c.Le(n, c.Int(0))
	if p.base != nil {
		at := x.ghost(st, fmt.Sprintf("readat:%d", p.base.obj), "Int")
		r.chk(st, "C13 C18", c.Or(c.And(zero, c.Eq(pend, c.Int(0))), c.And(c.Eq(n, pend), c.Eq(p.off, at), c.Eq(x.sliceContent(st, p), x.ghost(st, "readc", arrSort("Int"))))), "forwards-bytes", "the bytes received are handed on as they are")
	}
	st.ghost["pending"] = c.Int(0)
	r.chk(st, "C18", c.Not(r.gb(st, "ended")), "stops-at-end", "the worker stops once the buffer is closed")
	bad := st.clone()
	bad.ghost["ended"] = c.True
	x.modeled["ring.Buffer.WriteN: true once all bytes are taken over, false if closed (C15, C16)"] = true
	return append(x.ret(st, cc, c.True), x.ret(bad, cc, c.False)...)
}

func (w *Worker) connExec(prop, name string, unroll int) (*connRun, *ssa.Function) {
	x := w.newExec()
	x.unroll = unroll
	x.partial = true // the workers run as long as the connection
	r := &connRun{w: w, x: x, prop: prop}
	if t := w.p.types["kafka.Conn"]; t != nil {
		r.connT = t
		r.needLocks()
	}
	r.models()
	return r, w.p.funcs[name]
}

func (r *connRun) initGhost(st *State) {
	c := r.x.c
	for _, k := range []string{"reg", "regs", "ids", "encodes", "flushes", "got", "looked", "decoded", "closed:doneMessage", "closed:doneRead", "rpos", "next", "fs", "pending", "lkey", "id"} {
		st.ghost[k] = c.Int(0)
	}
	for _, k := range []string{"held:" + mapLock, "held:" + encLock, "dirty", "empty", "doneSeen", "rbclosed", "rawclosed", "cancelled", "owe", "perm", "ended", "lok"} {
		st.ghost[k] = c.False
	}
	st.ghost["ldecode"], st.ghost["lreply"] = r.x.nilRef(), r.x.nilRef()
	st.ghost["dres"] = r.x.nilIface()
}

func (r *connRun) released(e *State) {
	r.chk(e, "C13 C14 C18", r.x.c.And(r.x.c.Not(r.held(e, mapLock)), r.x.c.Not(r.held(e, encLock))), "locks-released", "no lock is held on return")
}

func (w *Worker) connDo(prop string, unroll int) *FuncResult {
	name := "kafka.(*Conn).Do"
	r, fn := w.connExec(prop, name, unroll)
	if fn == nil || len(fn.Params) != 3 {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := r.x
	c := x.c
	addI := func(x *Exec, st *State, cc *Call) []*State {
		p, ok := cc.args[0].(*PtrV)
		if !ok || p.obj != r.c.obj {
			x.unsupported(st, "atomic add")
			return x.ret(st, cc, x.fresh(st, "id", cc.resT))
		}
		d := cc.args[1].(*Term)
		r.chk(st, "C13", c.And(c.Eq(r.g(st, "ids"), c.Int(0)), c.Bool(d.op == "int" && d.ival.Bit(0) == 1)), "unique-id", "every call draws one id from an atomic counter with an odd step")
		id := x.fresh(st, "id", cc.resT).(*Term)
		st.ghost["ids"] = c.Add(r.g(st, "ids"), c.Int(1))
		st.ghost["id"] = id
		x.modeled["atomic.AddInt32 with an odd step gives 2^32 distinct values"] = true
		return x.ret(st, cc, id)
	}
	x.models["atomic.AddInt32"] = addI
	x.models["atomic.AddUint32"] = addI
	x.models["atomic.(*Int32).Add"] = addI
	idField := fieldIndex(r.connT, "id")
	x.extra["onload"] = func(st *State, p *PtrV) {
		if r.c != nil && p.obj == r.c.obj && len(p.path) == 1 && p.path[0].field == idField {
			r.chk(st, "C13", c.Or(r.held(st, mapLock), r.held(st, encLock)), "unique-id", "the id counter is not read without synchronisation")
			x.unsupported(st, "id counter used without atomics")
		}
	}
	return x.runFn(fn, name, []string{"c", "encode", "decode"}, func(st *State, vars map[string]Val) {
		r.c = vars["c"].(*PtrV)
		r.encode, r.decode = x.reify(st, vars["encode"], nil), x.reify(st, vars["decode"], nil)
		r.initGhost(st)
	}, func(e, init *State, vars map[string]Val) {
		r.released(e)
		res := x.reify(e, e.result, nil)
		nilres := c.Eq(res, x.nilIface())
		if n, _ := x.gint(e, "encodes"); n == 0 {
			r.chk(e, "C13 C14 C18", c.And(c.Not(nilres), c.Eq(r.g(e, "reg"), c.Int(0))), "not-sent-error", "a call that sends nothing fails and leaves no entry")
			return
		}
		r.chk(e, "C14", c.Eq(r.g(e, "flushes"), c.Int(1)), "flushed", "the frame is flushed")
		fe := x.ghost(e, "flusherr", "Iface")
		failed := e.clone()
		x.assume(failed, c.Not(c.Eq(fe, x.nilIface())))
		if x.possible(failed, c.True) && !failed.dead {
			r.chk(failed, "C14", c.Eq(res, fe), "write-error-returned", "a call that failed to write its frame returns that error")
			r.chk(failed, "C14", c.Eq(r.g(failed, "reg"), c.Int(0)), "write-error-no-entry", "a call that failed to write its frame leaves no entry")
		}
		good := e.clone()
		x.assume(good, c.Eq(fe, x.nilIface()))
		if good.dead || !x.possible(good, c.True) {
			return
		}
		if n, _ := x.gint(good, "got"); n == 1 {
			rep := x.ghost(good, "reply", "Ref")
			r.chk(good, "C13", c.Eq(res, c.App("replyvalue", "Iface", rep)), "returns-reply", "the call returns exactly what decoding its response returned")
			return
		}
		r.chk(good, "C13 C18", c.Not(nilres), "no-reply-error", "a call without a response returns an error")
		r.chk(good, "C18 C13", r.gb(good, "empty"), "gives-up-after-end", "a call gives up only after the connection ended and no reply is there")
	})
}

func (w *Worker) connMessageLoop(prop string, unroll int) *FuncResult {
	name := "kafka.(*Conn).messageLoop"
	r, fn := w.connExec(prop, name, unroll)
	if fn == nil {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := r.x
	c := x.c
	x.opts["bytes"] = true
	r.modelRawClose()
	base := x.contracts
	x.contracts = func(n string, f *ssa.Function) *Contract {
		if n == "message.(*ResponseHeader).Decode" {
			return nil // by its body: the correlation id is what is read
		}
		return base(n, f)
	}
	x.cands = func(lc *LoopCtx) []*Cand {
		cs := []*Cand{
			{text: "at a frame boundary", eval: func(s *State) *Term { return c.Eq(r.g(s, "rpos"), r.g(s, "next")) }},
			{text: "nothing decoded", eval: func(s *State) *Term { return c.Eq(r.g(s, "decoded"), c.Int(0)) }},
		}
		for _, l := range lc.leaves {
			l := l
			if x.leafSlice(lc.entry, l) == nil {
				continue
			}
			cs = append(cs, &Cand{text: l.key + " is not memory a decoder was handed", eval: func(s *State) *Term {
				sl := x.leafSlice(s, l)
				if sl == nil || sl.base == nil {
					return c.True
				}
				return c.Not(r.escaped(s, sl.base.obj))
			}})
		}
		return cs
	}
	x.extra["onhavoc"] = func(st *State, p *PtrV) {
		st.ghost[fmt.Sprintf("escaped:%d", p.obj)] = c.Fresh("escaped", "Bool")
	}
	x.extra["onstore"] = func(st *State, p *PtrV) bool {
		if e := r.escaped(st, p.obj); e != c.False {
			r.chk(st, "C17", c.Not(e), "fresh-buffer", "bytes handed to a decoder are not overwritten")
		}
		return true
	}
	return x.runFn(fn, name, nil, func(st *State, vars map[string]Val) {
		r.bindWorker(st, fn, vars)
		r.S = c.Var("S", arrSort("Int"))
		r.initGhost(st)
	}, func(e, init *State, vars map[string]Val) {
		r.released(e)
		r.chk(e, "C18", c.Eq(r.g(e, "closed:doneMessage"), c.Int(1)), "announces-end", "the worker announces its end to the waiting calls")
		r.chk(e, "C18", r.gb(e, "rbclosed"), "stops-peer", "the worker closes the buffer when it ends")
		r.chk(e, "C18", r.gb(e, "rawclosed"), "closes-stream", "the worker closes the stream when it ends, so that the other worker and calls that are writing go on")
		r.chk(e, "C13 C18", c.Not(r.gb(e, "owe")), "reply-sent", "a call whose entry was found is answered before the worker ends")
	})
}

// escaped tells whether an object, or one that may be the same memory, was
// handed to a decoder. Memory the worker did not allocate counts as handed
// out unless a decoder never saw it.
func (r *connRun) escaped(st *State, id int) *Term {
	c := r.x.c
	t := c.False
	for o := range st.heap {
		if g, ok := st.ghost[fmt.Sprintf("escaped:%d", o)].(*Term); ok && r.x.mayShare(st, o, id) {
			t = c.Or(t, g)
		}
	}
	if !r.x.obj(st, id).fresh {
		t = c.Or(t, r.gb(st, fmt.Sprintf("escaped:%d", id)))
	}
	return t
}

// modelRawClose: closing the stream ends reads and writes that wait for it.
func (r *connRun) modelRawClose() {
	m := func(x *Exec, st *State, cc *Call) []*State {
		raw := r.raw
		if raw == nil {
			raw = r.field(st, "raw")
		}
		if cc.recvI == raw || cc.recvI == r.field(st, "raw") {
			st.ghost["rawclosed"] = x.c.True
		}
		x.modeled["net.Conn.Close ends pending reads and writes"] = true
		return x.ret(st, cc, x.freshErr(st, "closeerr"))
	}
	r.x.models["invoke:net.Conn.Close"] = m
	r.x.models["invoke:io.Closer.Close"] = m
}

// bindWorker identifies the parameters of a worker by their types.
func (r *connRun) bindWorker(st *State, fn *ssa.Function, vars map[string]Val) {
	x := r.x
	for i, p := range fn.Params {
		v := vars[p.Name()]
		if v == nil {
			v = st.top().env[p]
		}
		switch t := typeName(p.Type()); {
		case i == 0:
			r.c = v.(*PtrV)
		case strings.HasSuffix(t, "ring.Buffer"):
			r.rb = x.reify(st, v, nil)
		case strings.HasSuffix(t, "context.Context"):
			r.ctx = x.reify(st, v, nil)
		case strings.HasSuffix(t, "net.Conn"):
			r.raw = x.reify(st, v, nil)
		}
	}
	if r.rb == nil {
		r.rb = r.field(st, "rb")
	}
	if r.raw == nil {
		r.raw = r.field(st, "raw")
	}
}

func (w *Worker) connReadLoop(prop string, unroll int) *FuncResult {
	name := "kafka.(*Conn).readLoop"
	r, fn := w.connExec(prop, name, unroll)
	if fn == nil {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := r.x
	c := x.c
	read := func(x *Exec, st *State, cc *Call) []*State {
		p, ok := cc.args[len(cc.args)-1].(*SliceV)
		if !ok || p.base == nil || cc.recvI != r.raw {
			x.unsupported(st, "read")
			return x.ret(st, cc, x.fresh(st, "r", cc.resT))
		}
		r.chk(st, "C13 C18", c.Eq(r.g(st, "pending"), c.Int(0)), "forwards-bytes", "the bytes received are handed on before more are read")
		r.chk(st, "C18", c.Not(r.gb(st, "ended")), "stops-at-end", "the worker stops after a read error or once the buffer is closed")
		r.chk(st, "C18", c.Lt(c.Int(0), p.len), "reads-something", "the worker reads into a buffer that is not empty")
		n := c.Fresh("n", "Int")
		x.assume(st, c.And(c.Le(c.Int(0), n), c.Le(n, p.len)))
		arr := c.Fresh("rbuf", arrSort("Int"))
		x.store(st, p.base, arr)
		st.ghost["readc"] = arr
		st.ghost[fmt.Sprintf("readat:%d", p.base.obj)] = p.off
		st.ghost["pending"] = n
		err := x.freshErr(st, "readerr")
		st.ghost["ended"] = c.Or(r.gb(st, "ended"), c.Not(c.Eq(err, x.nilIface())))
		x.modeled["net.Conn.Read: 0 <= n <= len(p) bytes read, possibly with an error"] = true
		// the permission to go on after an error is to write what was read
		st.ghost["readerr"] = err
		return x.ret(st, cc, &TupleV{[]Val{n, err}})
	}
	x.models["invoke:net.Conn.Read"] = read
	x.models["invoke:io.Reader.Read"] = read
	x.cands = func(lc *LoopCtx) []*Cand {
		return []*Cand{{text: "nothing pending", eval: func(s *State) *Term { return c.Eq(r.g(s, "pending"), c.Int(0)) }}}
	}
	// writes are allowed after a read error
	wn := r.writeN
	x.override(map[string]func(*Exec, *State, *Call) []*State{
		"ring.(*Buffer).WriteN": func(x *Exec, st *State, cc *Call) []*State {
			keep := r.gb(st, "ended")
			st.ghost["ended"] = r.gb(st, "wended")
			outs := wn(x, st, cc)
			for _, o := range outs {
				bad := r.gb(o, "ended")
				o.ghost["wended"] = bad
				o.ghost["ended"] = c.Or(keep, bad)
			}
			return outs
		},
	})
	return x.runFn(fn, name, nil, func(st *State, vars map[string]Val) {
		r.bindWorker(st, fn, vars)
		r.initGhost(st)
		st.ghost["wended"] = c.False
	}, func(e, init *State, vars map[string]Val) {
		r.released(e)
		r.chk(e, "C13 C18", c.Or(c.Eq(r.g(e, "pending"), c.Int(0)), r.gb(e, "wended")), "forwards-bytes", "all bytes received are handed on")
		r.chk(e, "C18", c.Eq(r.g(e, "closed:doneRead"), c.Int(1)), "announces-end", "the worker announces its end")
		r.chk(e, "C18", r.gb(e, "rbclosed"), "stops-peer", "the worker closes the buffer when it ends")
		r.chk(e, "C18", r.gb(e, "ended"), "reads-on", "the worker ends only at the end of the stream or of the buffer")
	})
}

func (w *Worker) connClose(prop string, unroll int) *FuncResult {
	name := "kafka.(*Conn).Close"
	r, fn := w.connExec(prop, name, unroll)
	if fn == nil {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := r.x
	c := x.c
	r.modelRawClose()
	return x.runFn(fn, name, []string{"c"}, func(st *State, vars map[string]Val) {
		r.c = vars["c"].(*PtrV)
		r.initGhost(st)
	}, func(e, init *State, vars map[string]Val) {
		r.released(e)
		r.chk(e, "C18", c.Or(r.gb(e, "rawclosed"), r.gb(e, "rbclosed")), "closes-stream", "Close closes the stream or the buffer, either of which ends the workers")
	})
}

func connTasks(prop string) []*Task {
	var out []*Task
	add := func(name string, f func(w *Worker, unroll int) *FuncResult) {
		out = append(out, &Task{Name: name, Fn: name, Key: name, Custom: f})
	}
	if prop != "C17" {
		add("kafka.(*Conn).Do", func(w *Worker, u int) *FuncResult { return w.connDo(prop, u) })
	}
	if prop != "C14" {
		add("kafka.(*Conn).messageLoop", func(w *Worker, u int) *FuncResult { return w.connMessageLoop(prop, u) })
	}
	if prop == "C13" || prop == "C18" {
		add("kafka.(*Conn).readLoop", func(w *Worker, u int) *FuncResult { return w.connReadLoop(prop, u) })
	}
	if prop == "C18" {
		add("kafka.(*Conn).Close", func(w *Worker, u int) *FuncResult { return w.connClose(prop, u) })
	}
	if prop != "C17" {
		add("kafka.Connect", func(w *Worker, u int) *FuncResult { return w.connect(prop, u) })
	}
	return out
}
