package main

// C12: version negotiation. One task per API, with a ghost index J at which
// the API is announced, and one task for the absence of spurious errors.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) negotiate(a *Api, unroll int) *FuncResult {
	name := "kafka.negotiateApiVersions"
	fn := w.p.funcs[name]
	if fn == nil {
		return &FuncResult{Func: name, Unsup: "function not found"}
	}
	x := w.newExec()
	x.unroll = unroll
	x.opts["phionly"] = true
	c := x.c
	if a != nil {
		name += "#" + a.Name
	} else {
		name += "#no-spurious-error"
	}
	if len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 {
		return &FuncResult{Func: name, Unsup: "signature changed"}
	}
	sl, ok := under(fn.Params[0].Type()).(*types.Slice)
	if !ok {
		return &FuncResult{Func: name, Unsup: "signature changed"}
	}
	elem := sl.Elem()
	var J, arr *Term
	var keys *SliceV
	fld := func(st *State, el *Term, n string) *Term {
		v := x.unreify(st, el, elem).(*StructV)
		return x.field(st, v, fieldIndex(elem, n)).(*Term)
	}
	meets := func(st *State, el *Term, b *Api) *Term {
		lo, hi := fld(st, el, "MinVersion"), fld(st, el, "MaxVersion")
		return c.And(c.Le(lo, hi), c.Le(c.Int(b.Min), hi), c.Le(lo, c.Int(b.Max)))
	}
	best := func(st *State, el *Term, b *Api) *Term {
		hi := fld(st, el, "MaxVersion")
		return c.Ite(c.Le(hi, c.Int(b.Max)), hi, c.Int(b.Max))
	}
	x.extra["onload"] = func(st *State, p *PtrV) {
		if keys == nil || keys.base == nil || p.obj != keys.base.obj || len(p.path) == 0 || p.path[0].idx == nil {
			return
		}
		i := p.path[0].idx
		el := c.Select(arr, i)
		k := fld(st, el, "ApiKey")
		if a != nil {
			x.assume(st, c.Or(c.Eq(i, c.Add(keys.off, J)), c.Not(c.Eq(k, c.Int(a.Key)))))
			return
		}
		for _, b := range apis() {
			x.assume(st, c.Imp(c.Eq(k, c.Int(b.Key)), meets(st, el, b)))
		}
	}
	x.cands = func(lc *LoopCtx) []*Cand {
		var out []*Cand
		if a == nil {
			return nil
		}
		elJ := c.Select(arr, c.Add(keys.off, J))
		// the place that collects the version of this API, if it can be told
		var leaves []*leaf
		for _, l := range lc.leaves {
			if l.ptr != nil && len(l.ptr.path) > 0 {
				t := x.obj(lc.entry, l.ptr.obj).typ
				if u, ok := under(t).(*types.Struct); ok && len(l.ptr.path) == 1 && u.Field(l.ptr.path[0].field).Name() != a.Name {
					continue
				}
			}
			leaves = append(leaves, l)
		}
		for _, p := range lc.ints() {
			p := p
			if !p.phi {
				continue
			}
			for _, d := range []int64{0, 1} {
				d := d
				passed := func(s *State) *Term { return c.Lt(J, c.Add(p.get(s), c.Int(d))) }
				out = append(out, &Cand{text: fmt.Sprintf("%s+%d > J => ranges of J meet", p.name, d), eval: func(s *State) *Term { return c.Imp(passed(s), meets(s, elJ, a)) }})
				for _, l := range leaves {
					l := l
					if l.sort != "Int" || l.phi != nil && l.key == p.name {
						continue
					}
					out = append(out, &Cand{text: fmt.Sprintf("%s+%d > J => %s is the best version of J", p.name, d, l.key), eval: func(s *State) *Term {
						return c.Imp(passed(s), c.Eq(x.leafVal(s, l).(*Term), best(s, elJ, a)))
					}})
				}
			}
			passed := func(s *State) *Term { return c.Lt(p.get(s), J) }
			out = append(out, &Cand{text: p.name + " < J => ranges of J meet", eval: func(s *State) *Term { return c.Imp(passed(s), meets(s, elJ, a)) }})
			for _, l := range leaves {
				l := l
				if l.sort == "Int" && !(l.phi != nil && l.key == p.name) {
					out = append(out, &Cand{text: fmt.Sprintf("%s < J => %s is the best version of J", p.name, l.key), eval: func(s *State) *Term {
						return c.Imp(passed(s), c.Eq(x.leafVal(s, l).(*Term), best(s, elJ, a)))
					}})
				}
			}
		}
		return out
	}
	return x.runFn(fn, name, []string{"apiKeys"}, func(st *State, vars map[string]Val) {
		keys = vars["apiKeys"].(*SliceV)
		arr = x.sliceContent(st, keys)
		if a != nil {
			J = c.Var("ghost:J", "Int")
			x.assume(st, c.And(c.Le(c.Int(0), J), c.Lt(J, keys.len)))
			el := c.Select(arr, c.Add(keys.off, J))
			x.assume(st, c.Eq(fld(st, el, "ApiKey"), c.Int(a.Key)))
			x.names = append(x.names, namedTerm{"J", J}, namedTerm{"MinVersion", fld(st, el, "MinVersion")}, namedTerm{"MaxVersion", fld(st, el, "MaxVersion")})
		}
	}, func(e, init *State, vars map[string]Val) {
		tv := e.result.(*TupleV)
		ok := x.isNilErr(tv.vs[1])
		if a == nil {
			x.assert(e, ok, "post", "no-spurious-error", "negotiation succeeds if the ranges of every known API meet")
			return
		}
		el := c.Select(arr, c.Add(keys.off, J))
		sv := tv.vs[0].(*StructV)
		i := fieldIndex(sv.typ, a.Name)
		if i < 0 {
			panic("no version for " + a.Name)
		}
		v := x.field(e, sv, i).(*Term)
		x.assert(e, c.Imp(ok, meets(e, el, a)), "post", "disjoint-error", "negotiation fails if the ranges do not meet")
		x.assert(e, c.Imp(ok, c.Eq(v, best(e, el, a))), "post", "highest-common", "the negotiated version is the highest common one")
	})
}

func negotiateTasks() []*Task {
	var out []*Task
	add := func(a *Api, n string) {
		out = append(out, &Task{Name: "kafka.negotiateApiVersions#" + n, Fn: "kafka.negotiateApiVersions", Key: n, Custom: func(w *Worker, unroll int) *FuncResult { return w.negotiate(a, unroll) }})
	}
	for _, a := range apis() {
		add(a, a.Name)
	}
	add(nil, "no-spurious-error")
	return out
}

var _ = ssa.NaiveForm
