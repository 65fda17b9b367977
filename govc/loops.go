package main

// Loops: detection, discovery of what a loop changes, and invariants.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Loops struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
}

func (x *Exec) loops(fn *ssa.Function) *Loops {
	if l := x.loopInfo[fn]; l != nil {
		return l
	}
	l := &Loops{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				m := l.body[s]
				if m == nil {
					m = map[*ssa.BasicBlock]bool{s: true}
					l.body[s] = m
				}
				var walk func(n *ssa.BasicBlock)
				walk = func(n *ssa.BasicBlock) {
					if m[n] {
						return
					}
					m[n] = true
					for _, p := range n.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	x.loopInfo[fn] = l
	return l
}

// leaf is a piece of state a loop may change.
type leaf struct {
	key   string
	phi   *ssa.Phi
	ptr   *PtrV
	ghost string
	typ   types.Type
	sort  string

	// slices
	moved  bool // the memory is not that of the entry
	offs   bool // the offset is not that of the entry
	cut    bool
	alias  map[int]bool   // objects of the entry it may share memory with
	aliasL map[*leaf]bool // other leaves it may share memory with
}

func (x *Exec) leafVal(st *State, l *leaf) Val {
	switch {
	case l.phi != nil:
		return st.top().env[l.phi]
	case l.ptr != nil:
		return x.load(st, l.ptr)
	}
	return x.ghost(st, l.ghost, l.sort)
}
func (x *Exec) setLeaf(st *State, l *leaf, v Val) {
	switch {
	case l.phi != nil:
		st.top().env[l.phi] = v
	case l.ptr != nil:
		x.store(st, l.ptr, v)
	default:
		st.ghost[l.ghost] = v
	}
}

// Cand is a candidate invariant.
type Cand struct {
	text string
	eval func(st *State) *Term // st is positioned at the loop header
	must bool
}

type LoopCtx struct {
	x      *Exec
	entry  *State
	head   *ssa.BasicBlock
	leaves []*leaf
	fn     *ssa.Function
	depth  int
}

var debugInv = os.Getenv("GOVC_INV") != ""

func (x *Exec) handleLoop(st *State, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []*State {
	x.sawLoop = true
	t0 := time.Now()
	depth := len(st.frames)
	fn := st.top().fn
	entry := st.clone()
	stop := func(s *State) string {
		if len(s.frames) < depth {
			return "left"
		}
		if len(s.frames) == depth {
			f := s.top()
			if f.block == head && f.idx == x.firstIdx(head) && body[f.prev] {
				return "back"
			}
			if !body[f.block] {
				return "exit"
			}
		}
		return ""
	}
	isBack := func(s *State) bool {
		return s.end == "" && len(s.frames) == depth && s.top().block == head && s.top().idx == x.firstIdx(head) && body[s.top().prev]
	}
	var leaves []*leaf
	known := map[string]bool{}
	spoiled := map[int]bool{}  // memory written in the loop under another name
	grouped := map[int][]int{} // memory that becomes shared in the loop
	havoced := func() *State {
		h := entry.clone()
		for _, l := range leaves {
			if l.phi != nil || l.ptr != nil {
				x.setLeaf(h, l, x.freshLike(h, x.leafVal(entry, l), l))
			} else {
				h.ghost[l.ghost] = x.c.Fresh("lg", l.sort)
			}
		}
		for _, l := range leaves {
			s := x.leafSlice(h, l)
			if s == nil || s.base == nil || !l.moved {
				continue
			}
			for id := range l.alias {
				x.share(h, id, s.base.obj)
			}
			for m := range l.aliasL {
				if t := x.leafSlice(h, m); t != nil && t.base != nil {
					x.share(h, t.base.obj, s.base.obj)
				}
			}
		}
		for a, bs := range grouped {
			for _, b := range bs {
				x.share(h, a, b)
			}
		}
		for id := range spoiled {
			k := *x.obj(h, id)
			k.stale = true
			h.heap[id] = &k
		}
		return h
	}
	// aliasing notes what the memory of a slice at a back edge may be.
	aliasing := func(hs, o *State) bool {
		changed := false
		set := func(p *bool, v bool) {
			if v && !*p {
				*p, changed = true, true
			}
		}
		first := map[int]int{}
		for _, id := range sortedIDs(o.heap) {
			ob := o.heap[id]
			if hs.heap[id] == nil && x.initObj[id] == nil || entry.heap[id] == nil && x.initObj[id] == nil {
				continue
			}
			if ob.stale && !x.obj(hs, id).stale {
				spoiled[id], changed = true, true
			}
			if ob.grp == 0 {
				continue
			}
			if a, ok := first[ob.grp]; !ok {
				first[ob.grp] = id
			} else if !x.mayShare(hs, a, id) {
				grouped[a], changed = append(grouped[a], id), true
			}
		}
		for _, l := range leaves {
			es, s := x.leafSlice(entry, l), x.leafSlice(o, l)
			if es == nil || s == nil {
				continue
			}
			hv := x.leafSlice(hs, l)
			set(&l.moved, es.base == nil || s.base == nil || s.base.obj != es.base.obj || len(s.base.path)+len(es.base.path) > 0)
			set(&l.offs, s.off != hv.off)
			set(&l.cut, s.cut)
			if l.alias == nil {
				l.alias, l.aliasL = map[int]bool{}, map[*leaf]bool{}
			}
			note := func(id int) {
				if !l.alias[id] {
					l.alias[id], changed = true, true
				}
			}
			if es.base != nil && l.moved {
				note(es.base.obj)
			}
			if s.base == nil {
				continue
			}
			for id := range entry.heap {
				if x.mayShare(o, id, s.base.obj) {
					note(id)
				}
			}
			for id := range x.initObj {
				if id == s.base.obj {
					note(id)
				}
			}
			for _, m := range leaves {
				if m == l || l.aliasL[m] {
					continue
				}
				if t := x.leafSlice(o, m); t != nil && t.base != nil && x.mayShare(o, t.base.obj, s.base.obj) {
					l.aliasL[m], changed = true, true
				}
			}
		}
		return changed
	}
	// 1. what changes
	x.quiet++
	fail0 := x.fail
	for round := 0; round < 8; round++ {
		h := havoced()
		hs := h.clone()
		outs := x.explore([]*State{h}, stop)
		var added []*leaf
		add := func(l *leaf) {
			if !known[l.key] {
				known[l.key] = true
				added = append(added, l)
			}
		}
		for _, o := range outs {
			if !isBack(o) {
				continue
			}
			if len(o.top().defers) != len(hs.top().defers) {
				x.unsupported(entry, "defer in a loop")
				x.unsupported(st, "defer in a loop")
				fail0 = x.fail
			}
			for _, in := range head.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !x.same(hs, o, hs.top().env[ph], o.top().env[ph], ph.Type()) {
					add(&leaf{key: "phi:" + ph.Name(), phi: ph, typ: ph.Type(), sort: sortOf(ph.Type())})
				}
			}
			for _, id := range sortedIDs(o.heap) {
				ob := o.heap[id]
				var old *Obj
				if old = hs.heap[id]; old == nil {
					old = x.initObj[id]
				}
				if old == nil || (ob.fresh && hs.heap[id] == nil) || entry.heap[id] == nil && x.initObj[id] == nil {
					continue
				}
				x.diff(hs, o, old.val, ob.val, ob.typ, &PtrV{obj: id}, func(p *PtrV, a, b Val, t types.Type) {
					add(&leaf{key: fmt.Sprintf("heap:%d%v", p.obj, pathStr(p.path)), ptr: p, typ: t, sort: sortOf(t)})
				})
			}
			for _, k := range keysOfVal(o.ghost) {
				v := o.ghost[k].(*Term)
				if id, ok := ghostObj(k); ok && hs.heap[id] == nil && x.initObj[id] == nil {
					continue // about an object made in this round
				}
				if x.ghost(hs, k, v.sort) != v {
					add(&leaf{key: "ghost:" + k, ghost: k, sort: v.sort})
				}
			}
		}
		leaves = append(leaves, added...)
		moved := false
		for _, o := range outs {
			if isBack(o) && aliasing(hs, o) {
				moved = true
			}
		}
		if len(added) == 0 && !moved {
			break
		}
	}
	x.fail = fail0
	x.quiet--
	lc := &LoopCtx{x: x, entry: entry, head: head, leaves: leaves, fn: fn, depth: depth}
	var cands []*Cand
	if x.cands != nil {
		cands = x.cands(lc)
	}
	cands = append(cands, lc.generic()...)
	// 2. keep those that hold on entry
	var keep []*Cand
	for _, cd := range cands {
		t := lc.safeEval(cd, entry)
		if t != nil && x.valid(entry, t) {
			keep = append(keep, cd)
		}
	}
	// 3. Houdini
	x.quiet++
	for round := 0; round < 12 && len(keep) > 0; round++ {
		h := havoced()
		for _, cd := range keep {
			if t := lc.safeEval(cd, h); t != nil {
				x.assume(h, t)
			}
		}
		lc.instantiate(h)
		outs := x.explore([]*State{h}, stop)
		drop := map[*Cand]bool{}
		for _, o := range outs {
			if !isBack(o) || o.dead {
				continue
			}
			var all []*Term
			for _, cd := range keep {
				if t := lc.safeEval(cd, o); t != nil {
					all = append(all, t)
				} else {
					drop[cd] = true
				}
			}
			if len(drop) == 0 && x.valid(o, x.c.And(all...)) {
				continue
			}
			for _, cd := range keep {
				if drop[cd] {
					continue
				}
				if t := lc.safeEval(cd, o); !x.valid(o, t) {
					drop[cd] = true
				}
			}
		}
		if len(drop) == 0 {
			break
		}
		var nk []*Cand
		for _, cd := range keep {
			if !drop[cd] {
				nk = append(nk, cd)
			}
		}
		keep = nk
	}
	x.quiet--
	x.fail = fail0
	if debugInv {
		fmt.Fprintf(os.Stderr, "loop in %s quiet=%d t=%v\n", funcName(fn), x.quiet, time.Since(t0))
		for _, l := range leaves {
			fmt.Fprintln(os.Stderr, "   leaf", l.key)
		}
		for _, cd := range keep {
			fmt.Fprintln(os.Stderr, "   inv", cd.text)
		}
	}
	// 4. the loop under its invariant
	h := havoced()
	for _, cd := range keep {
		if x.quiet == 0 {
			x.assert(entry, lc.safeEval(cd, entry), "invariant", "invariant holds on entry", cd.text)
		}
		if t := lc.safeEval(cd, h); t != nil {
			x.assume(h, t)
		}
	}
	lc.instantiate(h)
	if x.quiet == 0 {
		for _, cd := range keep {
			x.invUsed = append(x.invUsed, funcName(fn)+": "+cd.text)
		}
	}
	hs := h.clone()
	var res, backs []*State
	for _, o := range x.explore([]*State{h}, stop) {
		if isBack(o) {
			backs = append(backs, o)
			for _, cd := range keep {
				if x.quiet == 0 {
					x.assert(o, lc.safeEval(cd, o), "invariant", "invariant is preserved", cd.text)
				}
			}
			continue
		}
		res = append(res, o)
	}
	if x.quiet == 0 {
		x.decreases(hs, backs, head, body)
	}
	return res
}

func (x *Exec) firstIdx(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}
func sortedIDs(m map[int]*Obj) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}
func pathStr(p []Step) string {
	s := ""
	for _, e := range p {
		if e.idx != nil {
			s += fmt.Sprintf("[%d]", e.idx.id)
		} else {
			s += fmt.Sprintf(".%d", e.field)
		}
	}
	return s
}

// freshLike returns an arbitrary value of the shape of v.
func (x *Exec) freshLike(st *State, v Val, l *leaf) Val {
	c := x.c
	if s, ok := v.(*SliceV); ok {
		n := c.Fresh("llen", "Int")
		c.Attach(n, c.Le(c.Int(0), n))
		c.Attach(n, c.Le(n, c.Big(maxLen)))
		k := c.Fresh("lcap", "Int")
		c.Attach(k, c.Le(n, k))
		c.Attach(k, c.Le(k, c.Big(maxLen)))
		nl := c.Fresh("lnil", "Bool")
		c.Attach(n, c.Imp(nl, c.Eq(n, c.Int(0))))
		off := s.off
		if l.offs {
			off = c.Fresh("loff", "Int")
			c.Attach(off, c.Le(c.Int(0), off))
			c.Attach(off, c.Le(off, c.Big(maxLen)))
		}
		if !l.moved && s.base != nil {
			return &SliceV{base: s.base, off: off, len: n, cap: k, isnil: nl, elem: s.elem, cut: s.cut || l.cut}
		}
		p := x.alloc(st, types.NewArray(s.elem, -1), c.Fresh("larr", arrSort(sortOf(s.elem))))
		for id := range l.alias {
			if !x.obj(st, id).fresh {
				st.heap[p.obj].fresh = false
			}
		}
		if h, ok := x.extra["onhavoc"].(func(*State, *PtrV)); ok {
			h(st, p)
		}
		return &SliceV{base: p, off: off, len: n, cap: k, isnil: nl, elem: s.elem, cut: s.cut || l.cut}
	}
	return x.fresh(st, "lv", l.typ)
}

// ghostObj is the object that a piece of ghost state (name:object...) is about.
func ghostObj(k string) (int, bool) {
	p := strings.Split(k, ":")
	if len(p) < 2 || p[0] != "filled" && p[0] != "escaped" && p[0] != "readat" {
		return 0, false
	}
	id, err := strconv.Atoi(p[1])
	return id, err == nil
}

func (x *Exec) leafSlice(st *State, l *leaf) *SliceV {
	if l.phi == nil && l.ptr == nil {
		return nil
	}
	s, _ := x.leafVal(st, l).(*SliceV)
	return s
}

func (lc *LoopCtx) safeEval(cd *Cand, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			t = nil
		}
	}()
	return cd.eval(st)
}

// intVals are the integer-valued leaves (slice lengths included).
type intLeaf struct {
	name string
	get  func(st *State) *Term
	phi  bool
	typ  types.Type
}

func (lc *LoopCtx) ints() []intLeaf {
	x := lc.x
	var out []intLeaf
	for _, l := range lc.leaves {
		l := l
		v := x.leafVal(lc.entry, l)
		switch v := v.(type) {
		case *Term:
			if v.sort == "Int" {
				out = append(out, intLeaf{l.key, func(st *State) *Term { return x.leafVal(st, l).(*Term) }, l.phi != nil, l.typ})
			}
		case *SliceV:
			out = append(out, intLeaf{"len(" + l.key + ")", func(st *State) *Term { return x.leafVal(st, l).(*SliceV).len }, l.phi != nil, nil})
		}
	}
	return out
}

// invInts are loop-invariant integers a bound may mention.
func (lc *LoopCtx) invInts() []*Term {
	x := lc.x
	seen := map[*Term]bool{}
	var out []*Term
	add := func(t *Term) {
		if t != nil && t.sort == "Int" && !seen[t] && len(out) < 24 {
			seen[t] = true
			out = append(out, t)
		}
	}
	add(x.c.Int(0))
	f := lc.entry.top()
	body := x.loops(lc.fn).body[lc.head]
	var vs []ssa.Value
	for b := range body {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					vs = append(vs, *op)
				}
			}
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
			continue
		}
		switch r := f.env[v].(type) {
		case *Term:
			if _, _, ok := intType(v.Type()); ok {
				add(r)
			}
		case *SliceV:
			add(r.len)
		}
	}
	// lengths of the arrays in scope: a loop may read them afresh each time
	for _, a := range lc.arrays() {
		add(a.n)
	}
	return out
}

func (lc *LoopCtx) generic() []*Cand {
	x := lc.x
	c := x.c
	var out []*Cand
	ints := lc.ints()
	inv := lc.invInts()
	for _, a := range ints {
		a := a
		if x.opts["phionly"] && !a.phi {
			continue
		}
		e := a.get(lc.entry)
		out = append(out,
			&Cand{text: a.name + " >= entry", eval: func(s *State) *Term { return c.Le(e, a.get(s)) }},
			&Cand{text: a.name + " <= entry", eval: func(s *State) *Term { return c.Le(a.get(s), e) }},
			&Cand{text: a.name + " >= 0", eval: func(s *State) *Term { return c.Le(c.Int(0), a.get(s)) }},
			&Cand{text: a.name + " >= -1", eval: func(s *State) *Term { return c.Le(c.Int(-1), a.get(s)) }})
		for _, m := range inv {
			m := m
			out = append(out,
				&Cand{text: a.name + " < " + c.Str(m), eval: func(s *State) *Term { return c.Lt(a.get(s), m) }},
				&Cand{text: a.name + " <= " + c.Str(m), eval: func(s *State) *Term { return c.Le(a.get(s), m) }})
		}
	}
	// linear relations between leaves and a counting phi
	for _, b := range ints {
		if !b.phi {
			continue
		}
		b := b
		be := b.get(lc.entry)
		for _, a := range ints {
			a := a
			if a.name == b.name || x.opts["phionly"] {
				continue
			}
			ae := a.get(lc.entry)
			for _, k := range []int64{1, -1, 2, 4, 8} {
				k := k
				out = append(out, &Cand{text: fmt.Sprintf("%s == entry + %d*(%s-entry)", a.name, k, b.name), eval: func(s *State) *Term {
					return c.Eq(a.get(s), c.Add(ae, c.Mul(c.Int(k), c.Sub(b.get(s), be))))
				}})
			}
		}
	}
	// a ghost flag that says what a variable says
	for _, g := range lc.leaves {
		g := g
		if g.sort != "Bool" || !strings.HasPrefix(g.key, "ghost:") {
			continue
		}
		gv := func(s *State) *Term { return x.reify(s, x.leafVal(s, g), g.typ) }
		for _, l := range lc.leaves {
			l := l
			lv := func(s *State) *Term { return x.reify(s, x.leafVal(s, l), l.typ) }
			if l.phi == nil {
				continue
			}
			switch l.sort {
			case "Iface":
				out = append(out, &Cand{text: g.key + " == (" + l.key + " != nil)", eval: func(s *State) *Term { return c.Eq(gv(s), c.Not(c.Eq(lv(s), x.nilIface()))) }})
			case "Bool":
				out = append(out, &Cand{text: g.key + " == " + l.key, eval: func(s *State) *Term { return c.Eq(gv(s), lv(s)) }},
					&Cand{text: g.key + " == !" + l.key, eval: func(s *State) *Term { return c.Eq(gv(s), c.Not(lv(s))) }})
			}
		}
	}
	for _, l := range lc.leaves {
		l := l
		if v, ok := x.leafVal(lc.entry, l).(*SliceV); ok {
			out = append(out, &Cand{text: "isnil(" + l.key + ") == entry", eval: func(s *State) *Term {
				if w, ok := x.leafVal(s, l).(*SliceV); ok {
					return c.Eq(w.isnil, v.isnil)
				}
				return c.True
			}})
		}
		if l.sort == "Iface" || l.sort == "Bool" || l.sort == "Ref" {
			e := x.reify(lc.entry, x.leafVal(lc.entry, l), l.typ)
			out = append(out, &Cand{text: l.key + " == entry", eval: func(s *State) *Term { return c.Eq(x.reify(s, x.leafVal(s, l), l.typ), e) }})
			if l.sort == "Iface" {
				out = append(out, &Cand{text: l.key + " == nil => entry == nil", eval: func(s *State) *Term {
					return c.Imp(c.Eq(x.reify(s, x.leafVal(s, l), l.typ), x.nilIface()), c.Eq(e, x.nilIface()))
				}},
					&Cand{text: l.key + " != nil", eval: func(s *State) *Term { return c.Not(c.Eq(x.reify(s, x.leafVal(s, l), l.typ), x.nilIface())) }},
					&Cand{text: l.key + " == nil", eval: func(s *State) *Term { return c.Eq(x.reify(s, x.leafVal(s, l), l.typ), x.nilIface()) }})
			}
		}
	}
	return out
}

// instantiate adds the instances of the array lemmas (elimination of encArr
// and domArr, monotonicity of szArr) at the loop's counters.
func (lc *LoopCtx) instantiate(st *State) {
	x := lc.x
	var ids []*Term
	seen := map[*Term]bool{}
	for _, a := range lc.ints() {
		if a.phi || len(a.name) > 4 && a.name[:4] == "len(" {
			t := a.get(st)
			us := []*Term{t, x.c.Add(t, x.c.Int(1))}
			if e := a.get(lc.entry); e.op == "int" && e.ival.Sign() < 0 {
				us = append(us, x.c.Add(t, x.c.Int(2))) // range loops count from -1
			}
			for _, u := range us {
				if !seen[u] {
					seen[u] = true
					ids = append(ids, u)
				}
			}
		}
	}
	x.arrayLemmas(st, ids)
}

func (x *Exec) arrayLemmas(st *State, ids []*Term) {
	for _, t := range x.findApps(st, "encArr:*") {
		kind := t.name[7:]
		v := t.args[4:]
		for _, j := range ids {
			x.elim(st, kind, t.args[0], t.args[1], t.args[2], t.args[3], j, v)
			x.monotone(st, kind, t.args[2], j, t.args[3], v)
		}
	}
}
