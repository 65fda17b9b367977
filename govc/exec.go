package main

// Path-wise symbolic execution of SSA functions: calls are replaced by
// contracts, loops are cut by invariants.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn      *ssa.Function
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	idx     int
	env     map[ssa.Value]Val
	defers  []*deferred
	retTo   ssa.Value // instruction of the caller that receives the result
	isDefer bool
	loops   map[*ssa.BasicBlock]int // unroll counters
	onRet   func(st *State, v Val) []*State
}
type deferred struct {
	call *Call
}

type Event struct {
	kind string
	args []Val
	pos  string
}

type State struct {
	frames  []*Frame
	heap    map[int]*Obj
	ghost   map[string]Val
	pc      []*Term
	pcset   map[*Term]bool
	bounds  map[*Term]ival
	trace   []Event
	end     string // "", return, panic, cut, stop
	result  Val
	taint   string // reason the path is only approximated
	bounded bool   // a loop was cut at the unrolling bound
	dead    bool
}
type ival struct{ lo, hi *big.Int }

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }
func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env)+4)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]*deferred{}, f.defers...)
		if f.loops != nil {
			g.loops = map[*ssa.BasicBlock]int{}
			for k, v := range f.loops {
				g.loops[k] = v
			}
		}
		n.frames[i] = &g
	}
	n.heap = make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]Val, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pcset = make(map[*Term]bool, len(s.pcset))
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.bounds = make(map[*Term]ival, len(s.bounds))
	for k, v := range s.bounds {
		n.bounds[k] = v
	}
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	return &n
}

type Oblig struct {
	Func   string
	Name   string
	Pos    string
	Status string // proved, refuted, unknown
	Taint  string
	Desc   string
	Model  string
	Class  string // post, pre, frame, panic, invariant, lemma
	Bound  bool
}

var traceSteps = os.Getenv("GOVC_TRACE") != ""

// taskBudget bounds one run of one function.
const taskBudget = 100 * time.Second

func (x *Exec) late() bool {
	d := time.Since(x.born)
	return d > taskBudget || x.unroll > 0 && d > taskBudget/2
}

type Model func(x *Exec, st *State, cc *Call) []*State

type Exec struct {
	partial bool // termination is not asked for
	p       *Prog
	c       *Ctx
	s       *Solver
	strIDs  map[string]int
	unre    map[*Term]Val
	refObj  map[*Term]int
	refPtr  map[int]*Term
	initObj map[int]*Obj
	nobj    int
	visited map[*ssa.BasicBlock]bool // blocks reached while proving
	ngrp    int

	contracts func(name string, fn *ssa.Function) *Contract
	models    map[string]Model
	fnName    string
	self      *ssa.Function // function under verification: its own contract applies to recursive calls only
	obligs    []*Oblig
	quiet     int
	unroll    int // >0: unroll loops this many times instead of using invariants
	steps     int
	maxSteps  int
	born      time.Time
	stop      bool // a violation has been found on an exact path
	loopInfo  map[*ssa.Function]*Loops
	cands     func(lc *LoopCtx) []*Cand
	invUsed   []string
	sawLoop   bool
	inlined   map[string]bool
	called    map[string]bool // contracts used
	modeled   map[string]bool // assumed external contracts used
	fail      string          // unsupported construct
	opts      map[string]bool
	extra     map[string]interface{}
	vstrArgs  []*Term
	names     []namedTerm // terms worth showing in a model
}
type namedTerm struct {
	name string
	t    *Term
}

func NewExec(p *Prog, s *Solver) *Exec {
	x := &Exec{p: p, c: NewCtx(), s: s, strIDs: map[string]int{}, unre: map[*Term]Val{}, refObj: map[*Term]int{}, refPtr: map[int]*Term{},
		initObj: map[int]*Obj{}, models: map[string]Model{}, loopInfo: map[*ssa.Function]*Loops{}, inlined: map[string]bool{},
		called: map[string]bool{}, modeled: map[string]bool{}, maxSteps: 200000, born: time.Now(), opts: map[string]bool{}, visited: map[*ssa.BasicBlock]bool{}, extra: map[string]interface{}{}}
	return x
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, ghost: map[string]Val{}, pcset: map[*Term]bool{}, bounds: map[*Term]ival{}}
}

// ---- path condition

func (x *Exec) assume(st *State, t *Term) {
	c := x.c
	switch t.op {
	case "true":
		return
	case "false":
		st.dead = true
		return
	case "and":
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	if st.pcset[t] {
		return
	}
	if st.pcset[c.Not(t)] {
		st.dead = true
		return
	}
	st.pcset[t] = true
	st.pc = append(st.pc, t)
	x.learn(st, t)
}

// learn keeps constant bounds of atoms.
func (x *Exec) learn(st *State, t *Term) {
	neg := false
	if t.op == "not" {
		t = t.args[0]
		neg = true
	}
	if (t.op != "<=" && t.op != "=") || t.args[0].sort != "Int" {
		return
	}
	d := t.args[0]
	var a *Term
	k := new(big.Int)
	sign := 1
	switch {
	case d.op == "lin" && len(d.args) == 1 && d.coef[0].IsInt64() && (d.coef[0].Int64() == 1 || d.coef[0].Int64() == -1):
		a, k, sign = d.args[0], d.ival, int(d.coef[0].Int64())
	case d.op != "lin" && d.op != "int":
		a = d
	default:
		return
	}
	b := st.bounds[a]
	set := func(lo, hi *big.Int) {
		if lo != nil && (b.lo == nil || lo.Cmp(b.lo) > 0) {
			b.lo = lo
		}
		if hi != nil && (b.hi == nil || hi.Cmp(b.hi) < 0) {
			b.hi = hi
		}
	}
	nk := new(big.Int).Neg(k)
	one := big.NewInt(1)
	switch {
	case t.op == "=" && !neg: // sign*a + k = 0
		v := nk
		if sign < 0 {
			v = k
		}
		set(v, v)
	case t.op == "=":
		v := nk
		if sign < 0 {
			v = k
		}
		if b.lo != nil && b.lo.Cmp(v) == 0 {
			set(new(big.Int).Add(v, one), nil)
		}
		if b.hi != nil && b.hi.Cmp(v) == 0 {
			set(nil, new(big.Int).Sub(v, one))
		}
	case !neg && sign > 0: // a + k <= 0
		set(nil, nk)
	case !neg: // -a + k <= 0
		set(k, nil)
	case sign > 0: // a + k > 0 : a >= 1-k
		set(new(big.Int).Add(nk, one), nil)
	default: // -a + k > 0: a <= k-1
		set(nil, new(big.Int).Sub(k, one))
	}
	st.bounds[a] = b
	if b.lo != nil && b.hi != nil && b.lo.Cmp(b.hi) > 0 {
		st.dead = true
	}
}

// rng is a constant interval for an integer term, nil ends if unknown.
func (x *Exec) rng(st *State, t *Term) ival {
	switch t.op {
	case "int":
		return ival{t.ival, t.ival}
	case "lin":
		lo, hi := new(big.Int).Set(t.ival), new(big.Int).Set(t.ival)
		for i, a := range t.args {
			r := x.rng(st, a)
			k := t.coef[i]
			l, h := r.lo, r.hi
			if k.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil && l != nil {
				lo.Add(lo, new(big.Int).Mul(l, k))
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi.Add(hi, new(big.Int).Mul(h, k))
			} else {
				hi = nil
			}
		}
		if b, ok := st.bounds[t]; ok {
			if b.lo != nil && (lo == nil || b.lo.Cmp(lo) > 0) {
				lo = b.lo
			}
			if b.hi != nil && (hi == nil || b.hi.Cmp(hi) < 0) {
				hi = b.hi
			}
		}
		return ival{lo, hi}
	case "mod":
		return ival{new(big.Int), new(big.Int).Sub(t.args[1].ival, big.NewInt(1))}
	case "div":
		r := x.rng(st, t.args[0])
		k := t.args[1].ival
		if r.lo != nil {
			r.lo, _ = new(big.Int).DivMod(r.lo, k, new(big.Int))
		}
		if r.hi != nil {
			r.hi, _ = new(big.Int).DivMod(r.hi, k, new(big.Int))
		}
		return r
	case "ite":
		a, b := x.rng(st, t.args[1]), x.rng(st, t.args[2])
		r := ival{}
		if a.lo != nil && b.lo != nil {
			r.lo = a.lo
			if b.lo.Cmp(r.lo) < 0 {
				r.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			r.hi = a.hi
			if b.hi.Cmp(r.hi) > 0 {
				r.hi = b.hi
			}
		}
		return r
	}
	r := st.bounds[t]
	if t.op == "app" && t.name == "low8" {
		return meet(r, ival{new(big.Int), big.NewInt(255)})
	}
	if t.op == "app" && t.name == "shr8" {
		k := x.rng(st, t.args[0])
		if k.lo != nil {
			k.lo, _ = new(big.Int).DivMod(k.lo, big.NewInt(256), new(big.Int))
		}
		if k.hi != nil {
			k.hi, _ = new(big.Int).DivMod(k.hi, big.NewInt(256), new(big.Int))
		}
		return meet(r, k)
	}
	if bits, s, ok := wrapOf(t); ok {
		lo, hi := typeRange(bits, s)
		r = meet(r, ival{lo, hi})
	}
	for _, f := range t.ax {
		if f.op == "<=" {
			d := f.args[0]
			if d == t {
				r = meet(r, ival{nil, new(big.Int)})
			} else if d.op == "lin" && len(d.args) == 1 && d.args[0] == t {
				if d.coef[0].Cmp(big.NewInt(1)) == 0 {
					r = meet(r, ival{nil, new(big.Int).Neg(d.ival)})
				} else if d.coef[0].Cmp(big.NewInt(-1)) == 0 {
					r = meet(r, ival{d.ival, nil})
				}
			}
		}
	}
	return r
}
func meet(a, b ival) ival {
	if b.lo != nil && (a.lo == nil || b.lo.Cmp(a.lo) > 0) {
		a.lo = b.lo
	}
	if b.hi != nil && (a.hi == nil || b.hi.Cmp(a.hi) < 0) {
		a.hi = b.hi
	}
	return a
}

// quick decides a condition from the path without the solver: 1 true, -1 false, 0 unknown.
func (x *Exec) quick(st *State, t *Term) int {
	switch t.op {
	case "true":
		return 1
	case "false":
		return -1
	case "not":
		return -x.quick(st, t.args[0])
	case "and":
		r := 1
		for _, a := range t.args {
			q := x.quick(st, a)
			if q < 0 {
				return -1
			}
			if q == 0 {
				r = 0
			}
		}
		if r == 1 {
			return 1
		}
	case "or":
		r := -1
		for _, a := range t.args {
			q := x.quick(st, a)
			if q > 0 {
				return 1
			}
			if q == 0 {
				r = 0
			}
		}
		if r == -1 {
			return -1
		}
	}
	if st.pcset[t] {
		return 1
	}
	if st.pcset[x.c.Not(t)] {
		return -1
	}
	if t.op == "<=" {
		r := x.rng(st, t.args[0])
		if r.hi != nil && r.hi.Sign() <= 0 {
			return 1
		}
		if r.lo != nil && r.lo.Sign() > 0 {
			return -1
		}
	}
	if t.op == "=" && t.args[0].sort == "Int" {
		r := x.rng(st, t.args[0])
		if r.lo != nil && r.lo.Sign() > 0 || r.hi != nil && r.hi.Sign() < 0 {
			return -1
		}
		if r.lo != nil && r.hi != nil && r.lo.Sign() == 0 && r.hi.Sign() == 0 {
			return 1
		}
	}
	return 0
}

// possible reports whether cond may hold on this path (unknown counts as yes).
func (x *Exec) possible(st *State, cond *Term) bool {
	switch x.quick(st, cond) {
	case 1:
		return true
	case -1:
		return false
	}
	return x.s.Check(x.c, append(st.pc[:len(st.pc):len(st.pc)], cond)) != "unsat"
}

// valid reports whether cond holds on this path.
func (x *Exec) valid(st *State, cond *Term) bool {
	switch x.quick(st, cond) {
	case 1:
		return true
	}
	if st.dead {
		return true
	}
	return x.s.Check(x.c, append(st.pc[:len(st.pc):len(st.pc)], x.c.Not(cond))) == "unsat"
}

func (x *Exec) where(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		for j := f.idx; j >= 0 && j < len(f.block.Instrs); j-- {
			if p := f.block.Instrs[j].Pos(); p.IsValid() {
				ps := x.p.ssa.Fset.Position(p)
				return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, x.p.dir+"/"), ps.Line)
			}
		}
	}
	return ""
}

// assert is a proof obligation.
func (x *Exec) assert(st *State, cond *Term, class, name, desc string) {
	if x.quiet > 0 {
		x.assume(st, cond)
		return
	}
	if st.dead {
		return
	}
	if cond.op == "and" {
		for i, a := range cond.args {
			_ = i
			x.assert(st, a, class, name, desc)
		}
		return
	}
	o := &Oblig{Func: x.fnName, Name: name, Class: class, Pos: x.where(st), Desc: desc, Bound: st.bounded}
	x.obligs = append(x.obligs, o)
	if x.quick(st, cond) == 1 {
		o.Status = "proved"
		return
	}
	fs := append(st.pc[:len(st.pc):len(st.pc)], x.c.Not(cond))
	r := x.s.Check(x.c, fs)
	switch r {
	case "unsat":
		o.Status = "proved"
	case "sat":
		o.Status = "refuted"
		o.Taint = st.taint
		x.stop = x.unroll > 0 && o.Taint == ""
	default:
		o.Status = "unknown"
		o.Taint = "solver gave no answer"
	}
	if o.Status != "proved" {
		o.Desc += "  [goal " + x.c.Str(cond) + "]"
		o.Model = x.showModel(st, fs)
	}
	x.assume(st, cond)
}

func (x *Exec) showModel(st *State, fs []*Term) string {
	var want []*Term
	for _, n := range x.names {
		want = append(want, n.t)
	}
	m := x.s.Model(x.c, fs, want)
	var sb strings.Builder
	for _, n := range x.names {
		if v, ok := m[n.t]; ok {
			fmt.Fprintf(&sb, "%s = %s; ", n.name, v)
		}
	}
	sb.WriteString(" path: ")
	for i, t := range st.pc {
		if i > 60 {
			break
		}
		sb.WriteString(x.c.Str(t))
		sb.WriteString(" ∧ ")
	}
	s := sb.String()
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func (x *Exec) unsupported(st *State, what string) {
	if st.taint == "" {
		st.taint = what + " at " + x.where(st)
	}
	if x.fail == "" {
		x.fail = st.taint
	}
}

// ---- values of operands

func (x *Exec) get(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(v)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Global:
		return x.global(v)
	case *ssa.Builtin:
		return x.c.Var("builtin:"+v.Name(), "Ref")
	}
	r, ok := st.top().env[v]
	if !ok {
		panic(fmt.Sprintf("%s: no value for %s", funcName(st.top().fn), v))
	}
	return r
}

func (x *Exec) global(g *ssa.Global) Val {
	name := g.Name()
	if g.Pkg != nil {
		name = g.Pkg.Pkg.Name() + "." + g.Name()
	}
	t := x.c.Var("global:"+name, "Ref")
	id, ok := x.refObj[t]
	el := g.Type().(*types.Pointer).Elem()
	if !ok {
		id = x.newObjID()
		x.refObj[t] = id
		x.refPtr[id] = t
		val := x.c.Var("globalval:"+name, sortOf(el))
		if _, isI := under(el).(*types.Interface); isI {
			// an error variable is initialised once and never nil: for
			// those of the module every store in it has been looked at
			own := x.p.globals[g] != nil
			if !own || x.p.constError(g) {
				x.c.Attach(val, x.c.Not(x.c.Eq(val, x.nilIface())))
				x.c.Attach(val, x.c.Eq(x.c.App("errtag", "Int", val), x.c.Int(int64(id))))
			}
			if !own {
				x.modeled["the error variable "+name+" of the standard library is set once, non-nil and distinct"] = true
			}
		}
		x.initObj[id] = &Obj{id: id, typ: el, val: x.unreify(nil, val, el)}
	}
	return &PtrV{obj: id, elem: el}
}

func (x *Exec) term(st *State, v ssa.Value) *Term {
	r := x.get(st, v)
	if t, ok := r.(*Term); ok {
		return t
	}
	return x.reify(st, r, v.Type())
}

// ---- running

// explore runs start until every path has ended or stop says so.
func (x *Exec) explore(start []*State, stop func(*State) string) []*State {
	var out []*State
	work := append([]*State{}, start...)
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if st.dead {
			continue
		}
		if st.end != "" {
			out = append(out, st)
			continue
		}
		if stop != nil {
			if k := stop(st); k != "" {
				out = append(out, st)
				continue
			}
		}
		succ := x.runBlock(st)
		for i := len(succ) - 1; i >= 0; i-- {
			work = append(work, succ[i])
		}
	}
	return out
}

// runBlock executes instructions until control transfers.
func (x *Exec) runBlock(st *State) []*State {
	for {
		if traceSteps {
			fmt.Fprintln(os.Stderr, "step", x.quiet, st.dead, st.end, st.top().fn.Name(), st.top().block.Index, st.top().block.Instrs[st.top().idx])
		}
		if st.dead {
			return nil
		}
		if st.end != "" {
			return []*State{st}
		}
		x.steps++
		if x.stop {
			st.end = "cut"
			return []*State{st}
		}
		if x.steps > x.maxSteps || x.late() {
			x.unsupported(st, "step limit")
			st.end = "cut"
			return []*State{st}
		}
		f := st.top()
		if x.quiet == 0 {
			x.visited[f.block] = true
		}
		in := f.block.Instrs[f.idx]
		switch in := in.(type) {
		case *ssa.Jump:
			return x.jump(st, f.block.Succs[0])
		case *ssa.If:
			cond := x.term(st, in.Cond)
			switch x.quick(st, cond) {
			case 1:
				x.assume(st, cond)
				return x.jump(st, f.block.Succs[0])
			case -1:
				x.assume(st, x.c.Not(cond))
				return x.jump(st, f.block.Succs[1])
			}
			var out []*State
			pt := x.possible(st, cond)
			pf := true
			if pt {
				pf = x.possible(st, x.c.Not(cond))
			}
			if pt && pf {
				st2 := st.clone()
				x.assume(st, cond)
				x.assume(st2, x.c.Not(cond))
				if !st.dead {
					out = append(out, x.jump(st, f.block.Succs[0])...)
				}
				if !st2.dead {
					out = append(out, x.jump(st2, st2.top().block.Succs[1])...)
				}
				return out
			}
			if pt {
				x.assume(st, cond)
				return x.jump(st, f.block.Succs[0])
			}
			x.assume(st, x.c.Not(cond))
			return x.jump(st, f.block.Succs[1])
		case *ssa.Return:
			var v Val
			switch len(in.Results) {
			case 0:
			case 1:
				v = x.get(st, in.Results[0])
			default:
				tv := &TupleV{}
				for _, r := range in.Results {
					tv.vs = append(tv.vs, x.get(st, r))
				}
				v = tv
			}
			return x.doReturn(st, v)
		case *ssa.Panic:
			x.assert(st, x.c.False, "panic", "no-panic", "explicit panic is unreachable")
			st.end = "panic"
			return []*State{st}
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				cc := *d.call
				cc.isDefer = true
				return x.call(st, &cc)
			}
			f.idx++
		case *ssa.Call:
			cc := x.mkCall(st, in, &in.Call)
			return x.call(st, cc)
		case *ssa.Defer:
			cc := x.mkCall(st, nil, &in.Call)
			f.defers = append(f.defers, &deferred{cc})
			f.idx++
		case *ssa.Go:
			cc := x.mkCall(st, nil, &in.Call)
			if h, ok := x.extra["ongo"].(func(*State, *Call)); ok {
				h(st, cc)
			}
			st.trace = append(st.trace, Event{kind: "go:" + cc.name, args: cc.args, pos: x.where(st)})
			f.idx++
		case *ssa.Select:
			return x.doSelect(st, in)
		default:
			if succ, forked := x.instr(st, in); forked {
				return succ
			}
			f.idx++
		}
	}
}

func (x *Exec) doReturn(st *State, v Val) []*State {
	f := st.top()
	if len(st.frames) == 1 {
		st.end = "return"
		st.result = v
		return []*State{st}
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		return f.onRet(st, v)
	}
	if f.isDefer {
		return []*State{st} // RunDefers is executed again
	}
	g := st.top()
	if f.retTo != nil {
		g.env[f.retTo] = v
	}
	g.idx++
	return []*State{st}
}

// ret binds the result of a modelled call and advances.
func (x *Exec) ret(st *State, cc *Call, v Val) []*State {
	if cc.isDefer {
		return []*State{st}
	}
	if cc.onRet != nil {
		return cc.onRet(st, v)
	}
	f := st.top()
	if cc.instr != nil {
		f.env[cc.instr] = v
	}
	f.idx++
	return []*State{st}
}

func (x *Exec) jump(st *State, to *ssa.BasicBlock) []*State {
	f := st.top()
	from := f.block
	// phis
	var k int
	for k = range from.Succs {
		if from.Succs[k] == to {
			break
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.get(st, ph.Edges[pi]))
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	f.prev = from
	f.block = to
	f.idx = len(phis)
	lo := x.loops(f.fn)
	if body := lo.body[to]; body != nil {
		if body[from] {
			if x.unroll > 0 {
				f.loops[to]++
				if f.loops[to] > x.unroll {
					st.end = "cut"
					st.bounded = true
				}
			}
			return []*State{st}
		}
		if x.unroll > 0 {
			if f.loops == nil {
				f.loops = map[*ssa.BasicBlock]int{}
			}
			f.loops[to] = 0
			st.bounded = true
			return []*State{st}
		}
		return x.handleLoop(st, to, body)
	}
	return []*State{st}
}

// ---- calls

type Call struct {
	instr   ssa.Value
	name    string // contract / model key
	fn      *ssa.Function
	args    []Val
	argT    []types.Type
	resT    types.Type
	recvI   *Term // interface receiver of an invoke
	funv    Val   // dynamic function value
	method  *types.Func
	isDefer bool
	onRet   func(st *State, v Val) []*State
	builtin string
}

func (x *Exec) mkCall(st *State, in ssa.Value, c *ssa.CallCommon) *Call {
	cc := &Call{instr: in}
	sig := c.Signature()
	switch sig.Results().Len() {
	case 0:
		cc.resT = sig.Results()
	case 1:
		cc.resT = sig.Results().At(0).Type()
	default:
		cc.resT = sig.Results()
	}
	for _, a := range c.Args {
		cc.args = append(cc.args, x.get(st, a))
		cc.argT = append(cc.argT, a.Type())
	}
	if c.IsInvoke() {
		r := x.get(st, c.Value)
		cc.method = c.Method
		if iv, ok := r.(*IfaceV); ok {
			if m := x.p.ssa.LookupMethod(iv.typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				cc.fn = m
				cc.name = funcName(m)
				cc.args = append([]Val{iv.val}, cc.args...)
				cc.argT = append([]types.Type{iv.typ}, cc.argT...)
				return cc
			}
		}
		cc.recvI = x.reify(st, r, c.Value.Type())
		cc.funv = r
		cc.name = "invoke:" + typeName(c.Value.Type()) + "." + c.Method.Name()
		return cc
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		cc.builtin = v.Name()
		cc.name = "builtin:" + v.Name()
	case *ssa.Function:
		cc.fn = v
		cc.name = funcName(v)
	default:
		fv := x.get(st, c.Value)
		x.setFunc(cc, fv)
	}
	return cc
}
func (x *Exec) setFunc(cc *Call, fv Val) {
	cc.funv = fv
	if f, ok := fv.(*FuncV); ok {
		cc.fn = f.fn
		cc.name = funcName(f.fn)
	} else {
		cc.name = "dynamic"
	}
}

func (x *Exec) call(st *State, cc *Call) []*State {
	if cc.builtin != "" {
		return x.builtin(st, cc)
	}
	if cc.fn != nil {
		fn := cc.fn
		// bound method wrappers and thunks
		if strings.HasSuffix(fn.Name(), "$bound") && len(fn.FreeVars) == 1 {
			if m := boundTarget(fn); m != nil {
				fv := cc.funv.(*FuncV)
				n := *cc
				n.fn = m
				n.name = funcName(m)
				n.funv = nil
				n.args = append([]Val{fv.bind[0]}, cc.args...)
				n.argT = append([]types.Type{fn.FreeVars[0].Type()}, cc.argT...)
				return x.call(st, &n)
			}
		}
		if ct := x.contracts(cc.name, fn); ct != nil {
			x.called[cc.name] = true
			if !x.partial && x.p.reaches(fn, st.frames[0].fn) {
				x.unsupported(st, "recursion through "+cc.name+": no measure shows that it ends")
			}
			return x.applyContract(st, cc, ct)
		}
	}
	if m := x.models[cc.name]; m != nil {
		return m(x, st, cc)
	}
	if cc.fn != nil && len(cc.fn.Blocks) > 0 && (x.p.inRepo(cc.fn) || x.opts["std"]) {
		if len(st.frames) < 30 {
			x.inlined[cc.name] = true
			return x.enter(st, cc)
		}
		x.unsupported(st, "recursion through "+cc.name)
	} else if m := x.models["*"]; m != nil {
		return m(x, st, cc)
	}
	x.unsupported(st, "call of "+cc.name)
	return x.ret(st, cc, x.fresh(st, "unk", cc.resT))
}

func boundTarget(fn *ssa.Function) *ssa.Function {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				return c.Call.StaticCallee()
			}
		}
	}
	return nil
}

// enter inlines a call.
func (x *Exec) enter(st *State, cc *Call) []*State {
	fn := cc.fn
	f := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]Val{}, retTo: cc.instr, isDefer: cc.isDefer, onRet: cc.onRet}
	for i, p := range fn.Params {
		f.env[p] = cc.args[i]
	}
	if fv, ok := cc.funv.(*FuncV); ok {
		for i, b := range fv.bind {
			f.env[fn.FreeVars[i]] = b
		}
	}
	st.frames = append(st.frames, f)
	return []*State{st}
}

// ---- arithmetic

func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	b, s, ok := intType(typ)
	if !ok {
		return t
	}
	lo, hi := typeRange(b, s)
	r := x.rng(st, t)
	if r.lo != nil && r.hi != nil && r.lo.Cmp(lo) >= 0 && r.hi.Cmp(hi) <= 0 {
		return t
	}
	w := x.c.Wrap(t, b, s)
	if b2, s2, ok := wrapOf(w); ok && b2 == b && s2 == s && w.args[0] != t {
		// flattening may have brought the argument into range
		if r := x.rng(st, w.args[0]); r.lo != nil && r.hi != nil && r.lo.Cmp(lo) >= 0 && r.hi.Cmp(hi) <= 0 {
			return w.args[0]
		}
	}
	if b == 64 || x.opts["nowrap32"] {
		in := x.c.And(x.c.Le(x.c.Big(lo), t), x.c.Le(t, x.c.Big(hi)))
		if x.valid(st, in) {
			x.assume(st, in)
			return t
		}
	}
	return w
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, t types.Type, rt types.Type) Val {
	c := x.c
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		e = x.eq(st, a, b, t)
		if op == token.NEQ {
			return c.Not(e)
		}
		return e
	}
	at, bt := x.reify(st, a, t), x.reify(st, b, t)
	if at.sort == "Str" {
		switch op {
		case token.ADD:
			return x.concat(at, bt)
		}
		x.unsupported(st, "string comparison")
		return c.Fresh("strcmp", "Bool")
	}
	if at.sort == "Bool" {
		switch op {
		case token.AND, token.LAND:
			return c.And(at, bt)
		case token.OR, token.LOR:
			return c.Or(at, bt)
		}
	}
	if at.sort != "Int" {
		x.unsupported(st, "operator "+op.String()+" on "+at.sort)
		return x.fresh(st, "op", rt)
	}
	switch op {
	case token.LSS:
		return c.Lt(at, bt)
	case token.LEQ:
		return c.Le(at, bt)
	case token.GTR:
		return c.Gt(at, bt)
	case token.GEQ:
		return c.Ge(at, bt)
	case token.ADD:
		return x.wrap(st, c.Add(at, bt), rt)
	case token.SUB:
		return x.wrap(st, c.Sub(at, bt), rt)
	case token.MUL:
		if at.op != "int" && bt.op != "int" {
			x.unsupported(st, "nonlinear multiplication")
		}
		return x.wrap(st, c.Mul(at, bt), rt)
	case token.QUO, token.REM:
		x.assert(st, c.Not(c.Eq(bt, c.Int(0))), "panic", "no-panic", "division by zero")
		if bt.op == "int" && bt.ival.Sign() > 0 {
			k := bt.ival
			q := c.Ite(c.Le(c.Int(0), at), c.Div(at, k), c.Neg(c.Div(c.Neg(at), k)))
			if r := x.rng(st, at); r.lo != nil && r.lo.Sign() >= 0 {
				q = c.Div(at, k)
			}
			if op == token.QUO {
				return q
			}
			if r := x.rng(st, at); r.lo != nil && r.lo.Sign() >= 0 {
				return c.Mod(at, k)
			}
			return c.Sub(at, c.MulK(q, k))
		}
		if op == token.REM {
			return x.symRem(st, at, bt, rt)
		}
	case token.SHL:
		if bt.op == "int" && bt.ival.IsInt64() && bt.ival.Int64() < 64 {
			return x.wrap(st, c.MulK(at, pow2(uint(bt.ival.Int64()))), rt)
		}
	case token.SHR:
		if bt.op == "int" && bt.ival.IsInt64() && bt.ival.Int64() < 64 {
			return c.Div(at, pow2(uint(bt.ival.Int64())))
		}
	case token.AND:
		if at.op == "int" {
			at, bt = bt, at
		}
		if bt.op == "int" && bt.ival.Sign() >= 0 {
			k := new(big.Int).Add(bt.ival, big.NewInt(1))
			if k.BitLen()-1 >= 0 && new(big.Int).Lsh(big.NewInt(1), uint(k.BitLen()-1)).Cmp(k) == 0 {
				return c.Mod(at, k)
			}
		}
	case token.OR, token.XOR:
		// disjoint bits: addition
		for i := 0; i < 2; i++ {
			r := x.rng(st, bt)
			if r.lo != nil && r.lo.Sign() >= 0 && r.hi != nil {
				k := uint(r.hi.BitLen())
				if x.valid(st, c.Eq(c.Mod(at, pow2(k)), c.Int(0))) {
					return c.Add(at, bt)
				}
			}
			at, bt = bt, at
		}
		if v, ok := x.bitOr(st, op, at, bt, rt); ok {
			return v
		}
	}
	x.unsupported(st, "operator "+op.String())
	return x.fresh(st, "op", rt)
}

// bitOr is a|b or a^b where one side is a constant of few bits, or a^b where
// one side is a sign mask (no bits or all).
func (x *Exec) bitOr(st *State, op token.Token, a, b *Term, rt types.Type) (Val, bool) {
	c := x.c
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" && b.ival.Sign() >= 0 {
		if r := x.rng(st, a); r.lo == nil || r.lo.Sign() < 0 {
			return nil, false
		}
		t, n := a, 0
		for m := 0; m < b.ival.BitLen(); m++ {
			if b.ival.Bit(m) == 0 {
				continue
			}
			if n++; n > 8 {
				return nil, false
			}
			off := c.Int(0)
			if op == token.XOR {
				off = c.Big(new(big.Int).Neg(pow2(uint(m))))
			}
			bit := c.Mod(c.Div(a, pow2(uint(m))), big.NewInt(2))
			t = c.Add(t, c.Ite(c.Eq(bit, c.Int(0)), c.Big(pow2(uint(m))), off))
		}
		return t, true
	}
	if op != token.XOR {
		return nil, false
	}
	bits, s, ok := intType(rt)
	if !ok {
		return nil, false
	}
	ones := c.Int(-1)
	if !s {
		ones = c.Big(new(big.Int).Sub(pow2(bits), big.NewInt(1)))
	}
	for i := 0; i < 2; i++ {
		none, all := c.Eq(b, c.Int(0)), c.Eq(b, ones)
		if x.valid(st, c.Or(none, all)) {
			return c.Ite(none, a, c.Sub(ones, a)), true
		}
		a, b = b, a
	}
	return nil, false
}

// symRem is the remainder by a symbolic positive divisor, given by its
// defining property.
func (x *Exec) symRem(st *State, a, b *Term, rt types.Type) Val {
	c := x.c
	if !x.valid(st, c.And(c.Le(c.Int(0), a), c.Lt(c.Int(0), b))) {
		x.unsupported(st, "remainder of possibly negative operands")
	}
	r := c.App("gorem", "Int", a, b)
	x.assume(st, c.And(c.Le(c.Int(0), r), c.Lt(r, b), c.Le(r, a)))
	x.assume(st, c.Imp(c.Lt(a, b), c.Eq(r, a)))
	x.assume(st, c.Imp(c.And(c.Le(b, a), c.Lt(a, c.Add(b, b))), c.Eq(r, c.Sub(a, b))))
	return r
}

func (x *Exec) eq(st *State, a, b Val, t types.Type) *Term {
	c := x.c
	if sa, ok := a.(*SliceV); ok {
		if sb, ok := b.(*SliceV); ok {
			if sb.base == nil {
				return sa.isnil
			}
			if sa.base == nil {
				return sb.isnil
			}
		}
	}
	if pa, ok := a.(*PtrV); ok {
		if _, ok := b.(NilPtr); ok {
			if r, ok := x.refPtr[pa.obj]; ok && len(pa.path) == 0 {
				return c.Eq(r, x.nilRef())
			}
			return c.False
		}
		if pb, ok := b.(*PtrV); ok && pa.obj == pb.obj && len(pa.path) == 0 && len(pb.path) == 0 {
			return c.True
		}
	}
	if _, ok := a.(NilPtr); ok {
		if _, ok := b.(NilPtr); ok {
			return c.True
		}
		if _, ok := b.(*PtrV); ok {
			return x.eq(st, b, a, t)
		}
	}
	if _, ok := a.(*IfaceV); ok && b == Val(x.nilIface()) {
		return c.False
	}
	if _, ok := b.(*IfaceV); ok && a == Val(x.nilIface()) {
		return c.False
	}
	if _, ok := a.(*FuncV); ok && b == Val(x.nilRef()) {
		return c.False
	}
	ta, tb := x.reify(st, a, t), x.reify(st, b, t)
	if ta.sort != tb.sort {
		x.unsupported(st, "comparison of "+ta.sort+" and "+tb.sort)
		return c.Fresh("cmp", "Bool")
	}
	return c.Eq(ta, tb)
}
