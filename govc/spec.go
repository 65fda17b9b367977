package main

// Contracts: the specification language and its evaluation.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type Env struct {
	x    *Exec
	st   *State // state in which locations are read
	old  *State
	vars map[string]Val
}

func (e *Env) with(st *State) *Env { n := *e; n.st = st; return &n }

type Clause struct {
	name  string
	props []string
	text  string
	eval  func(*Env) *Term
}

// Behavior holds clauses that quantify over a ghost value.
type Behavior struct {
	name    string
	props   []string
	ghost   func(x *Exec, st *State, vars map[string]Val)       // introduces the ghosts when verifying
	match   func(x *Exec, st *State, env *Env) []map[string]Val // finds them at a call site
	when    []*Clause
	ensures []*Clause
}

type Contract struct {
	name     string
	params   []string
	requires []*Clause
	modifies []func(*Env) []*Loc
	nullable []string
	modText  []string
	ensures  []*Clause
	behav    []*Behavior
	reveal   []string
	trusted  bool
	apply    func(x *Exec, st *State, cc *Call) []*State // hand-written call rule
	setup    func(x *Exec, st *State, vars map[string]Val)
	splits   func(x *Exec, vars map[string]Val) []*Term // case split assumed one at a time (must cover)
}

// Loc is a heap location or a ghost variable.
type Loc struct {
	ptr   *PtrV
	ghost string
	typ   types.Type
	sort  string
}

func (c *Clause) forProp(p string) bool {
	for _, q := range c.props {
		if q == p {
			return true
		}
	}
	return false
}

// ---- expression syntax

type node struct {
	op   string // num, str, id, call, sel, idx, un, bin, imp
	s    string
	args []*node
}

type lexer struct {
	toks []string
	p    int
	src  string
}

func lex(s string) []string {
	var out []string
	rs := []rune(s)
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case unicode.IsSpace(r):
			i++
		case unicode.IsLetter(r) || r == '_':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_') {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		case unicode.IsDigit(r):
			j := i
			for j < len(rs) && unicode.IsDigit(rs[j]) {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		case r == '"':
			j := i + 1
			for rs[j] != '"' {
				j++
			}
			out = append(out, string(rs[i:j+1]))
			i = j + 1
		default:
			for _, op := range []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||"} {
				if strings.HasPrefix(string(rs[i:]), op) {
					out = append(out, op)
					i += len(op)
					goto next
				}
			}
			out = append(out, string(r))
			i++
		next:
		}
	}
	return out
}

func parseExpr(s string) *node {
	l := &lexer{toks: lex(s), src: s}
	n := l.expr(0)
	if l.p != len(l.toks) {
		panic("spec syntax: " + s + " at " + l.peek())
	}
	return n
}
func (l *lexer) peek() string {
	if l.p < len(l.toks) {
		return l.toks[l.p]
	}
	return ""
}
func (l *lexer) next() string { t := l.peek(); l.p++; return t }

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7}

func (l *lexer) expr(min int) *node {
	left := l.unary()
	for {
		op := l.peek()
		p, ok := prec[op]
		if !ok || p < min {
			return left
		}
		l.next()
		q := p + 1
		if op == "==>" {
			q = p
		}
		right := l.expr(q)
		left = &node{op: "bin", s: op, args: []*node{left, right}}
	}
}
func (l *lexer) unary() *node {
	switch t := l.peek(); t {
	case "!", "-", "*":
		l.next()
		return &node{op: "un", s: t, args: []*node{l.unary()}}
	}
	return l.postfix()
}
func (l *lexer) postfix() *node {
	t := l.next()
	var n *node
	switch {
	case t == "(":
		n = l.expr(0)
		if l.next() != ")" {
			panic("spec syntax: missing ) in " + l.src)
		}
	case t == "":
		panic("spec syntax: unexpected end in " + l.src)
	case unicode.IsDigit(rune(t[0])):
		n = &node{op: "num", s: t}
	case t[0] == '"':
		n = &node{op: "str", s: t[1 : len(t)-1]}
	default:
		n = &node{op: "id", s: t}
	}
	for {
		switch l.peek() {
		case ".":
			l.next()
			n = &node{op: "sel", s: l.next(), args: []*node{n}}
		case "(":
			l.next()
			c := &node{op: "call", s: n.s}
			for l.peek() != ")" {
				c.args = append(c.args, l.expr(0))
				if l.peek() == "," {
					l.next()
				}
			}
			l.next()
			n = c
		case "[":
			l.next()
			i := l.expr(0)
			if l.next() != "]" {
				panic("spec syntax: missing ] in " + l.src)
			}
			n = &node{op: "idx", args: []*node{n, i}}
		default:
			return n
		}
	}
}

type specFun func(e *Env, as []Val) Val

var specFuns = map[string]specFun{}

type macro struct {
	params []string
	body   *node
}

type SpecSet struct {
	macros    map[string]macro
	contracts map[string]*Contract
	order     []string
}

func (e *Env) evalBool(s *SpecSet, n *node) *Term {
	v := e.eval(s, n)
	t, ok := v.(*Term)
	if !ok || t.sort != "Bool" {
		panic(fmt.Sprintf("spec: not a boolean: %v", v))
	}
	return t
}
func (e *Env) evalInt(s *SpecSet, n *node) *Term { return e.eval(s, n).(*Term) }

func (e *Env) eval(s *SpecSet, n *node) Val {
	x := e.x
	c := x.c
	switch n.op {
	case "num":
		b, _ := new(big.Int).SetString(n.s, 10)
		return c.Big(b)
	case "str":
		return x.strConst(n.s)
	case "id":
		switch n.s {
		case "nil":
			return NilPtr{}
		case "true":
			return c.True
		case "false":
			return c.False
		}
		if v, ok := e.vars[n.s]; ok {
			return v
		}
		if m, ok := s.macros[n.s]; ok && len(m.params) == 0 {
			return e.eval(s, m.body)
		}
		panic("spec: unknown name " + n.s)
	case "sel":
		return e.selectField(e.eval(s, n.args[0]), n.s)
	case "idx":
		v := e.eval(s, n.args[0])
		i := e.evalInt(s, n.args[1])
		switch v := v.(type) {
		case *SliceV:
			return x.unreify(e.st, c.Select(x.sliceContent(e.st, v), c.Add(v.off, i)), v.elem)
		case *Term:
			return c.Select(v, i)
		}
		panic("spec: index")
	case "un":
		switch n.s {
		case "!":
			return c.Not(e.evalBool(s, n.args[0]))
		case "-":
			return c.Neg(e.evalInt(s, n.args[0]))
		case "*":
			return x.load(e.st, e.eval(s, n.args[0]).(*PtrV))
		}
	case "bin":
		switch n.s {
		case "==>":
			l := e.evalBool(s, n.args[0])
			if l == c.False {
				return c.True
			}
			return c.Imp(l, e.evalBool(s, n.args[1]))
		case "<==>":
			return c.Eq(e.evalBool(s, n.args[0]), e.evalBool(s, n.args[1]))
		case "&&":
			return c.And(e.evalBool(s, n.args[0]), e.evalBool(s, n.args[1]))
		case "||":
			return c.Or(e.evalBool(s, n.args[0]), e.evalBool(s, n.args[1]))
		case "==", "!=":
			t := e.equal(e.eval(s, n.args[0]), e.eval(s, n.args[1]))
			if n.s == "!=" {
				return c.Not(t)
			}
			return t
		}
		a, b := e.evalInt(s, n.args[0]), e.evalInt(s, n.args[1])
		switch n.s {
		case "<":
			return c.Lt(a, b)
		case "<=":
			return c.Le(a, b)
		case ">":
			return c.Gt(a, b)
		case ">=":
			return c.Ge(a, b)
		case "+":
			return c.Add(a, b)
		case "-":
			return c.Sub(a, b)
		case "*":
			return c.Mul(a, b)
		}
	case "call":
		if n.s == "old" {
			return e.with(e.old).eval(s, n.args[0])
		}
		if m, ok := s.macros[n.s]; ok {
			sub := &Env{x: x, st: e.st, old: e.old, vars: map[string]Val{}}
			for k, v := range e.vars {
				sub.vars[k] = v
			}
			for i, p := range m.params {
				sub.vars[p] = e.eval(s, n.args[i])
			}
			return sub.eval(s, m.body)
		}
		f := specFuns[n.s]
		if f == nil {
			panic("spec: unknown function " + n.s)
		}
		var as []Val
		for _, a := range n.args {
			as = append(as, e.eval(s, a))
		}
		return f(e, as)
	}
	panic("spec: " + n.op + " " + n.s)
}

func (e *Env) selectField(v Val, name string) Val {
	x := e.x
	switch p := v.(type) {
	case *PtrV:
		v = x.load(e.st, p)
	}
	sv, ok := v.(*StructV)
	if !ok {
		panic(fmt.Sprintf("spec: field %s of %T", name, v))
	}
	u := under(sv.typ).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return x.field(e.st, sv, i)
		}
	}
	panic("spec: no field " + name + " in " + typeName(sv.typ))
}

func (e *Env) equal(a, b Val) *Term {
	x := e.x
	if _, ok := a.(NilPtr); ok {
		a, b = b, a
	}
	if _, ok := b.(NilPtr); ok {
		switch a := a.(type) {
		case *Term:
			switch a.sort {
			case "Iface":
				return x.c.Eq(a, x.nilIface())
			case "Ref":
				return x.c.Eq(a, x.nilRef())
			}
		case *SliceV:
			return a.isnil
		case *IfaceV, *FuncV:
			return x.c.False
		case NilPtr:
			return x.c.True
		case *PtrV:
			return x.eq(e.st, a, b, nil)
		}
		panic(fmt.Sprintf("spec: %T == nil", a))
	}
	return x.c.Eq(x.reify(e.st, a, nil), x.reify(e.st, b, nil))
}

func (e *Env) loc(s *SpecSet, n *node) *Loc {
	switch n.op {
	case "un":
		p := e.eval(s, n.args[0])
		if q, ok := p.(*PtrV); ok {
			return &Loc{ptr: q, typ: q.elem}
		}
	case "sel":
		base := n.args[0]
		var p *PtrV
		if v := e.tryPtr(s, base); v != nil {
			p = v
		} else {
			l := e.loc(s, base)
			p = l.ptr
		}
		u := under(p.elem).(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == n.s {
				return &Loc{ptr: p.step(Step{field: i}, u.Field(i).Type()), typ: u.Field(i).Type()}
			}
		}
	case "call": // ghost variable
		var as []string
		for _, a := range n.args {
			as = append(as, fmt.Sprint(e.x.reify(e.st, e.eval(s, a), nil).id))
		}
		return &Loc{ghost: n.s + ":" + strings.Join(as, ","), sort: ghostSorts[n.s]}
	}
	panic("spec: location " + n.op + " " + n.s)
}

// locs evaluates a modifies item; except(p, f, g) is every field of *p but f, g.
func (e *Env) locs(s *SpecSet, n *node) []*Loc {
	if n.op != "call" || n.s != "except" {
		return []*Loc{e.loc(s, n)}
	}
	p := e.eval(s, n.args[0]).(*PtrV)
	u := under(p.elem).(*types.Struct)
	var out []*Loc
next:
	for i := 0; i < u.NumFields(); i++ {
		for _, a := range n.args[1:] {
			if a.s == u.Field(i).Name() {
				continue next
			}
		}
		out = append(out, &Loc{ptr: p.step(Step{field: i}, u.Field(i).Type()), typ: u.Field(i).Type()})
	}
	return out
}
func (e *Env) tryPtr(s *SpecSet, n *node) *PtrV {
	defer func() { recover() }()
	if n.op == "sel" {
		if p, ok := e.eval(s, n).(*PtrV); ok {
			return p
		}
		return nil
	}
	p, _ := e.eval(s, n).(*PtrV)
	return p
}

var ghostSorts = map[string]string{"pos": "Int", "failed": "Bool", "first": "Iface"}

// ghost reads a ghost variable, creating an arbitrary initial value.
func (x *Exec) ghost(st *State, key, sort string) *Term {
	if v, ok := st.ghost[key]; ok {
		return v.(*Term)
	}
	return x.c.Var("g0:"+key, sort)
}

// ---- files

func (s *SpecSet) parseFile(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var cur *Contract
	var beh *Behavior
	lines := strings.Split(string(b), "\n")
	for i := 0; i < len(lines); i++ {
		ln := lines[i]
		if k := strings.Index(ln, "//"); k >= 0 {
			ln = ln[:k]
		}
		ln = strings.TrimSpace(ln)
		for strings.HasSuffix(ln, "\\") && i+1 < len(lines) {
			i++
			nx := lines[i]
			if k := strings.Index(nx, "//"); k >= 0 {
				nx = nx[:k]
			}
			ln = strings.TrimSuffix(ln, "\\") + " " + strings.TrimSpace(nx)
		}
		if ln == "" {
			continue
		}
		word := ln
		rest := ""
		if k := strings.IndexAny(ln, " [("); k >= 0 {
			word, rest = ln[:k], strings.TrimSpace(ln[k:])
		}
		switch word {
		case "spec":
			k := strings.Index(rest, "=")
			head, body := strings.TrimSpace(rest[:k]), rest[k+1:]
			m := macro{}
			name := head
			if j := strings.Index(head, "("); j >= 0 {
				name = head[:j]
				for _, p := range strings.Split(strings.TrimSuffix(head[j+1:], ")"), ",") {
					m.params = append(m.params, strings.TrimSpace(p))
				}
			}
			m.body = parseExpr(body)
			s.macros[name] = m
		case "func":
			k := strings.LastIndex(rest, "(")
			cur = &Contract{name: strings.TrimSpace(rest[:k])}
			beh = nil
			for _, p := range strings.Split(strings.TrimSuffix(rest[k+1:], ")"), ",") {
				if p = strings.TrimSpace(p); p != "" {
					cur.params = append(cur.params, p)
				}
			}
			s.contracts[cur.name] = cur
			s.order = append(s.order, cur.name)
		case "reveal":
			cur.reveal = append(cur.reveal, strings.Fields(rest)...)
		case "nullable":
			cur.nullable = append(cur.nullable, strings.Fields(rest)...)
		case "trusted":
			cur.trusted = true
		case "modifies":
			for _, p := range splitTop(rest) {
				n := parseExpr(p)
				cur.modText = append(cur.modText, p)
				cur.modifies = append(cur.modifies, func(e *Env) []*Loc { return e.locs(s, n) })
			}
		case "requires", "ensures", "when":
			var props []string
			if strings.HasPrefix(rest, "[") {
				k := strings.Index(rest, "]")
				for _, p := range strings.Split(rest[1:k], ",") {
					props = append(props, strings.TrimSpace(p))
				}
				rest = strings.TrimSpace(rest[k+1:])
			}
			name := ""
			if k := strings.Index(rest, ":"); k > 0 && isIdent(rest[:k]) {
				name = rest[:k]
				rest = strings.TrimSpace(rest[k+1:])
			}
			n := parseExpr(rest)
			txt := rest
			cl := &Clause{name: name, props: props, text: txt, eval: func(e *Env) *Term { return e.evalBool(s, n) }}
			switch {
			case word == "requires":
				cur.requires = append(cur.requires, cl)
			case word == "when":
				beh.when = append(beh.when, cl)
			case beh != nil:
				beh.ensures = append(beh.ensures, cl)
			default:
				cur.ensures = append(cur.ensures, cl)
			}
		case "behavior":
			// behavior NAME exists KIND VAR at EXPR: VAR is an array encoded at EXPR
			fs := strings.SplitN(rest, " ", 5)
			beh = &Behavior{name: fs[0]}
			kind, v := fs[2], fs[3]
			var at *node
			if len(fs) > 4 {
				at = parseExpr(strings.TrimPrefix(fs[4], "at "))
			}
			arrayGhost(s, beh, kind, v, at)
			cur.behav = append(cur.behav, beh)
		default:
			return fmt.Errorf("%s:%d: %s", path, i+1, ln)
		}
	}
	return nil
}

func isIdent(s string) bool {
	for i, r := range s {
		if !(unicode.IsLetter(r) || r == '_' || r == '-' || i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return s != ""
}
func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, r := range s {
		switch r {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

// ---- using a contract at a call

func (x *Exec) bindVars(ct *Contract, args []Val) map[string]Val {
	m := map[string]Val{}
	for i, p := range ct.params {
		if i < len(args) {
			m[p] = args[i]
		}
	}
	return m
}
func bindResult(m map[string]Val, v Val) {
	if tv, ok := v.(*TupleV); ok {
		for i, r := range tv.vs {
			m[fmt.Sprintf("result%d", i)] = r
		}
		return
	}
	m["result"] = v
	m["result0"] = v
}

func (x *Exec) havoc(st *State, l *Loc) {
	if l.ptr != nil {
		x.store(st, l.ptr, x.fresh(st, "hv", l.typ))
		return
	}
	st.ghost[l.ghost] = x.c.Fresh("g", l.sort)
}

func (x *Exec) applyContract(st *State, cc *Call, ct *Contract) []*State {
	if ct.apply != nil {
		return ct.apply(x, st, cc)
	}
	pre := st.clone()
	env := &Env{x: x, st: pre, old: pre, vars: x.bindVars(ct, cc.args)}
	for _, r := range ct.requires {
		x.assert(st, r.eval(env), "pre", cc.name+"/requires "+r.name, "precondition of "+cc.name+": "+r.text)
	}
	if st.dead {
		return nil
	}
	pre.pc, pre.pcset, pre.bounds = st.pc, st.pcset, st.bounds
	var locs []*Loc
	for _, m := range ct.modifies {
		locs = append(locs, m(env)...)
	}
	for _, l := range locs {
		x.havoc(st, l)
	}
	var res Val
	if t, ok := cc.resT.(*types.Tuple); !ok || t.Len() > 0 {
		res = x.fresh(st, "r", cc.resT)
	}
	post := &Env{x: x, st: st, old: pre, vars: env.vars}
	bindResult(post.vars, res)
	for _, en := range ct.ensures {
		x.assume(st, en.eval(post))
	}
	if st.dead {
		x.unsupported(st, "the contract of "+cc.name+" cannot be met by a value made here")
		return nil
	}
	for _, b := range ct.behav {
		if b.match == nil {
			continue
		}
		for _, g := range b.match(x, pre, env) {
			ge := &Env{x: x, st: pre, old: pre, vars: map[string]Val{}}
			for k, v := range post.vars {
				ge.vars[k] = v
			}
			for k, v := range g {
				ge.vars[k] = v
			}
			ok := true
			for _, w := range b.when {
				if !x.valid(st, w.eval(ge)) {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			ge2 := *ge
			ge2.st = st
			for _, en := range b.ensures {
				x.assume(st, en.eval(&ge2))
			}
			break
		}
	}
	if st.dead {
		return nil
	}
	return x.ret(st, cc, res)
}

// ---- verifying a function against its contract

type FuncResult struct {
	Func     string
	Obligs   []*Oblig
	Inlined  []string
	Used     []string
	Assumed  []string
	Invs     []string
	Unsup    string
	Paths    int
	Bounded  bool
	Loops    bool
	Notes    []string
	Covered  bool
	Live     bool
	Visited  map[*ssa.BasicBlock]bool
	Behavior string
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// start builds the initial state of a function.
func (x *Exec) start(fn *ssa.Function, ct *Contract, nils map[string]bool) (*State, map[string]Val) {
	st := newState()
	f := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]Val{}}
	vars := map[string]Val{}
	for i, p := range fn.Params {
		name := p.Name()
		if i < len(ct.params) {
			name = ct.params[i]
		}
		var v Val
		t := p.Type()
		if nils[name] {
			v = NilPtr{}
		} else if pt, ok := under(t).(*types.Pointer); ok {
			id := x.newObjID()
			el := pt.Elem()
			tm := x.c.Var("in:"+name, sortOf(el))
			x.initObj[id] = &Obj{id: id, typ: el, val: x.unreify(st, tm, el)}
			v = &PtrV{obj: id, elem: el}
			x.nameFields(name, tm, el)
		} else {
			tm := x.c.Var("in:"+name, sortOf(t))
			v = x.unreify(st, tm, t)
			if tm.sort == "Int" || tm.sort == "Bool" {
				x.names = append(x.names, namedTerm{name, tm})
			} else {
				x.nameFields(name, tm, t)
			}
			if sv, ok := v.(*StructV); ok && len(sv.fields) == 0 {
				v = x.zero(t)
			}
		}
		f.env[p] = v
		vars[name] = v
	}
	st.frames = []*Frame{f}
	return st, vars
}
func (x *Exec) nameFields(name string, tm *Term, t types.Type) {
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			s := sortOf(u.Field(i).Type())
			ft := x.c.App(tm.sort+"."+u.Field(i).Name(), s, tm)
			switch {
			case s == "Int" || s == "Bool":
				x.names = append(x.names, namedTerm{name + "." + u.Field(i).Name(), ft})
			case s == "Str":
				x.names = append(x.names, namedTerm{"len(" + name + "." + u.Field(i).Name() + ")", x.c.App("slen", "Int", ft)})
			case strings.HasPrefix(s, "Sl:"):
				x.names = append(x.names, namedTerm{"len(" + name + "." + u.Field(i).Name() + ")", x.c.App("sllen:"+s, "Int", ft)})
			}
		}
	case *types.Slice:
		x.names = append(x.names, namedTerm{"len(" + name + ")", x.c.App("sllen:"+tm.sort, "Int", tm)})
	}
}

// Verify runs one behaviour (nil: the plain contract) of fn against ct,
// checking the clauses selected by want.
func (x *Exec) Verify(fn *ssa.Function, ct *Contract, beh *Behavior, want func(*Clause) bool) *FuncResult {
	var res *FuncResult
	for m := 0; m < 1<<len(ct.nullable); m++ {
		nils := map[string]bool{}
		for i, n := range ct.nullable {
			nils[n] = m>>i&1 == 1
		}
		r := x.verify(fn, ct, beh, want, nils)
		if res != nil {
			r.Paths += res.Paths
			r.Covered = r.Covered && res.Covered
			r.Bounded = r.Bounded || res.Bounded
			if r.Unsup == "no path to a return can be taken" && res.Live {
				r.Unsup = ""
			}
			r.Live = r.Live || res.Live
		}
		res = r
	}
	return res
}
func (x *Exec) verify(fn *ssa.Function, ct *Contract, beh *Behavior, want func(*Clause) bool, nils map[string]bool) *FuncResult {
	x.fnName = ct.name
	x.self = fn
	if beh != nil {
		x.fnName += "#" + beh.name
	}
	st, vars := x.start(fn, ct, nils)
	if ct.setup != nil {
		ct.setup(x, st, vars)
	}
	if beh != nil && beh.ghost != nil {
		beh.ghost(x, st, vars)
	}
	init := st.clone()
	env := &Env{x: x, st: init, old: init, vars: vars}
	for _, r := range ct.requires {
		x.assume(st, r.eval(env))
	}
	if beh != nil {
		for _, w := range beh.when {
			x.assume(st, w.eval(env))
		}
	}
	if d, ok := vars["d"].(*PtrV); ok && x.opts["alloc"] {
		if n, ok := d.elem.(*types.Named); ok && n.Obj().Name() == "Decoder" {
			left := env.evalInt(nil, parseExpr("d.length - d.offset"))
			x.extra["onmake"] = func(s *State, k *Term, _ types.Type) {
				x.assert(s, x.c.Le(k, left), "post", "alloc-bounded", "no collection has room for more elements than there were bytes left to read")
			}
		}
	}
	var inv []*Cand
	for _, r := range ct.requires {
		r := r
		inv = append(inv, &Cand{text: "requires " + r.name, eval: func(s *State) *Term {
			return r.eval(&Env{x: x, st: s, old: init, vars: vars})
		}})
	}
	x.extra["loopinv"] = inv
	cases := []*Term{x.c.True}
	if ct.splits != nil {
		cases = ct.splits(x, vars)
	}
	res := &FuncResult{Func: x.fnName}
	if st.dead || x.s.Check(x.c, st.pc) == "unsat" {
		x.obligs = append(x.obligs, &Oblig{Func: x.fnName, Name: "precondition-satisfiable", Class: "vacuity", Status: "refuted", Desc: "the precondition is contradictory"})
	} else {
		res.Covered = true
	}
	pc0, ps0, b0 := st.pc, st.pcset, st.bounds
	init.pc, init.pcset, init.bounds = pc0, ps0, b0
	var mods []*Loc
	for _, m := range ct.modifies {
		mods = append(mods, m(env)...)
	}
	for _, cs := range cases {
		s := st.clone()
		x.assume(s, cs)
		if s.dead {
			continue
		}
		ends := x.explore([]*State{s}, nil)
		for _, e := range ends {
			if e.end == "cut" {
				res.Bounded = true
			}
			if e.end != "return" {
				continue
			}
			res.Paths++
			x.live(res, e)
			ev := &Env{x: x, st: e, old: init, vars: map[string]Val{}}
			for k, v := range vars {
				ev.vars[k] = v
			}
			bindResult(ev.vars, e.result)
			cls := ct.ensures
			if beh != nil {
				cls = beh.ensures
			}
			for _, en := range cls {
				if !want(en) {
					continue
				}
				x.assert(e, en.eval(ev), "post", "ensures "+en.name, en.text)
			}
			if beh == nil {
				x.frame(init, e, mods)
			}
		}
	}
	if res.Paths > 0 && !res.Live && x.fail == "" {
		x.fail = "no path to a return can be taken"
	}
	res.Visited = x.visited
	res.Obligs = x.obligs
	res.Inlined, res.Used, res.Assumed = keysOf(x.inlined), keysOf(x.called), keysOf(x.modeled)
	res.Unsup = x.fail
	res.Invs = x.invUsed
	res.Loops = x.sawLoop
	return res
}

// frame checks that nothing outside mods changed in objects that existed
// before the call.
func (x *Exec) frame(init, end *State, mods []*Loc) {
	ids := make([]int, 0, len(end.heap))
	for id := range end.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := end.heap[id]
		if o.fresh && init.heap[id] == nil {
			continue
		}
		var old *Obj
		if old = init.heap[id]; old == nil {
			old = x.initObj[id]
		}
		if old == nil {
			continue
		}
		x.diff(init, end, old.val, o.val, o.typ, &PtrV{obj: id}, func(p *PtrV, a, b Val, t types.Type) {
			for _, m := range mods {
				if m.ptr != nil && covers(m.ptr, p) {
					return
				}
			}
			x.assert(end, x.eq(end, x.reify(init, a, t), x.reify(end, b, t), t), "frame", "modifies", "only the listed locations change: "+fmt.Sprint(p.path))
		})
	}
	for _, k := range keysOfVal(end.ghost) {
		v := end.ghost[k].(*Term)
		o := x.ghost(init, k, v.sort)
		if o == v || strings.HasPrefix(k, "chancap:") || strings.HasPrefix(k, "made:") {
			continue
		}
		ok := false
		for _, m := range mods {
			if m.ghost == k {
				ok = true
			}
		}
		if !ok {
			x.assert(end, x.c.Eq(o, v), "frame", "modifies", "only the listed ghost state changes: "+k)
		}
	}
}
func keysOfVal(m map[string]Val) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func covers(m, p *PtrV) bool {
	if m.obj != p.obj || len(m.path) > len(p.path) {
		return false
	}
	for i, s := range m.path {
		if s.idx == nil && p.path[i].idx == nil && s.field == p.path[i].field {
			continue
		}
		return false
	}
	return true
}

// diff visits the leaves in which two values of a location differ.
func (x *Exec) diff(sa, sb *State, a, b Val, t types.Type, p *PtrV, f func(p *PtrV, a, b Val, t types.Type)) {
	if a == b {
		return
	}
	if u, ok := under(t).(*types.Struct); ok {
		va, ok1 := a.(*StructV)
		vb, ok2 := b.(*StructV)
		if ok1 && ok2 {
			for i := 0; i < u.NumFields(); i++ {
				if va.term != nil && va.term == vb.term && va.fields[i] == nil && vb.fields[i] == nil {
					continue
				}
				x.diff(sa, sb, x.field(sa, va, i), x.field(sb, vb, i), u.Field(i).Type(), p.step(Step{field: i}, u.Field(i).Type()), f)
			}
			return
		}
	}
	if x.same(sa, sb, a, b, t) {
		return
	}
	f(p, a, b, t)
}
func (x *Exec) same(sa, sb *State, a, b Val, t types.Type) bool {
	if s1, ok := a.(*SliceV); ok {
		if s2, ok := b.(*SliceV); ok {
			if s1.base == nil || s2.base == nil {
				return s1.base == s2.base
			}
			return s1.base.obj == s2.base.obj && fmt.Sprint(s1.base.path) == fmt.Sprint(s2.base.path) && s1.off == s2.off && s1.len == s2.len && s1.cap == s2.cap && s1.isnil == s2.isnil
		}
	}
	return x.reify(sa, a, t) == x.reify(sb, b, t)
}
