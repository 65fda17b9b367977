package main

// Hash-consed first-order terms over UF + linear integer arithmetic + arrays.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Term struct {
	id    int
	op    string // int, true, false, var, app, lin, mul, div, mod, ite, =, <=, and, or, not, select, store, constarr
	name  string // var / app symbol
	args  []*Term
	sort  string
	ival  *big.Int   // int; constant part of lin
	coef  []*big.Int // lin: coefficients of args
	ax    []*Term    // facts that hold of this term in every model of Go
	axGen func() []*Term
	axRun bool
}

type Ctx struct {
	tab    map[string]*Term
	n      int
	fresh  int
	True   *Term
	False  *Term
	funs   map[string]funDecl
	consts map[string]bool
}

type funDecl struct {
	args []string
	res  string
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, funs: map[string]funDecl{}, consts: map[string]bool{}}
	c.True = c.intern(&Term{op: "true", sort: "Bool"})
	c.False = c.intern(&Term{op: "false", sort: "Bool"})
	return c
}

func (c *Ctx) key(t *Term) string {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(t.sort)
	for i, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if t.coef != nil {
			sb.WriteByte('*')
			sb.WriteString(t.coef[i].String())
		}
	}
	if t.ival != nil {
		sb.WriteByte('#')
		sb.WriteString(t.ival.String())
	}
	return sb.String()
}

func (c *Ctx) intern(t *Term) *Term {
	k := c.key(t)
	if o := c.tab[k]; o != nil {
		return o
	}
	c.n++
	t.id = c.n
	c.tab[k] = t
	return t
}

func (c *Ctx) Int(i int64) *Term { return c.Big(big.NewInt(i)) }
func (c *Ctx) Big(b *big.Int) *Term {
	return c.intern(&Term{op: "int", sort: "Int", ival: new(big.Int).Set(b)})
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name, sort string) *Term {
	return c.intern(&Term{op: "var", name: name, sort: sort})
}
func (c *Ctx) Fresh(hint, sort string) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", hint, c.fresh), sort)
}

// App applies an uninterpreted function.
func (c *Ctx) App(name, sort string, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Var(name, sort)
	}
	d := funDecl{res: sort}
	for _, a := range args {
		d.args = append(d.args, a.sort)
	}
	if o, ok := c.funs[name]; ok {
		if fmt.Sprint(o) != fmt.Sprint(d) {
			panic(fmt.Sprintf("function %s redeclared: %v / %v", name, o, d))
		}
	} else {
		c.funs[name] = d
	}
	return c.intern(&Term{op: "app", name: name, sort: sort, args: args})
}

// Attach records a fact that is always true of t.
func (c *Ctx) Attach(t *Term, f *Term) {
	if f == c.True {
		return
	}
	for _, o := range t.ax {
		if o == f {
			return
		}
	}
	t.ax = append(t.ax, f)
}

type linComb struct {
	m map[*Term]*big.Int
	k *big.Int
}

func (c *Ctx) toLin(t *Term) linComb {
	l := linComb{map[*Term]*big.Int{}, new(big.Int)}
	l.add(t, big.NewInt(1))
	return l
}
func (l linComb) add(t *Term, f *big.Int) {
	switch t.op {
	case "int":
		l.k.Add(l.k, new(big.Int).Mul(t.ival, f))
	case "lin":
		l.k.Add(l.k, new(big.Int).Mul(t.ival, f))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(t.coef[i], f))
		}
	default:
		l.addAtom(t, f)
	}
}
func (l linComb) addAtom(a *Term, f *big.Int) {
	o := l.m[a]
	if o == nil {
		o = new(big.Int)
	}
	o = new(big.Int).Add(o, f)
	if o.Sign() == 0 {
		delete(l.m, a)
	} else {
		l.m[a] = o
	}
}
func (c *Ctx) fromLin(l linComb) *Term {
	if len(l.m) == 0 {
		return c.Big(l.k)
	}
	t := &Term{op: "lin", sort: "Int", ival: l.k}
	for a := range l.m {
		t.args = append(t.args, a)
	}
	sort.Slice(t.args, func(i, j int) bool { return t.args[i].id < t.args[j].id })
	for _, a := range t.args {
		t.coef = append(t.coef, l.m[a])
	}
	if len(t.args) == 1 && l.k.Sign() == 0 && t.coef[0].IsInt64() && t.coef[0].Int64() == 1 {
		return t.args[0]
	}
	return c.intern(t)
}

func (c *Ctx) Add(ts ...*Term) *Term {
	l := linComb{map[*Term]*big.Int{}, new(big.Int)}
	for _, t := range ts {
		l.add(t, big.NewInt(1))
	}
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := c.toLin(a)
	l.add(b, big.NewInt(-1))
	return c.fromLin(l)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Int(0), a) }
func (c *Ctx) MulK(a *Term, k *big.Int) *Term {
	l := linComb{map[*Term]*big.Int{}, new(big.Int)}
	l.add(a, k)
	return c.fromLin(l)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == "int" {
		return c.MulK(b, a.ival)
	}
	if b.op == "int" {
		return c.MulK(a, b.ival)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: "mul", sort: "Int", args: []*Term{a, b}})
}

// Div and Mod: Euclidean by a positive constant (SMT-LIB semantics).
func (c *Ctx) Div(a *Term, k *big.Int) *Term {
	if a.op == "int" {
		q, _ := new(big.Int).DivMod(a.ival, k, new(big.Int))
		return c.Big(q)
	}
	if k.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if n := k.BitLen() - 1; n%8 == 0 && k.Cmp(pow2(uint(n))) == 0 {
		for i := 0; i < n; i += 8 {
			a, _ = c.split8(a)
		}
		return a
	}
	return c.intern(&Term{op: "div", sort: "Int", args: []*Term{a, c.Big(k)}})
}

// split8 splits off the low byte: a = 256*q + d with 0 <= d <= 255.
func (c *Ctx) split8(a *Term) (q, d *Term) {
	if a.op == "int" {
		x, m := new(big.Int).DivMod(a.ival, big.NewInt(256), new(big.Int))
		return c.Big(x), c.Big(m)
	}
	q, d = c.App("shr8", "Int", a), c.App("low8", "Int", a)
	if q.ax == nil {
		f := c.And(c.Eq(a, c.Add(c.MulK(q, big.NewInt(256)), d)), c.Le(c.Int(0), d), c.Le(d, c.Int(255)))
		c.Attach(q, f)
		c.Attach(d, f)
	}
	return q, d
}
func (c *Ctx) Mod(a *Term, k *big.Int) *Term {
	if a.op == "int" {
		_, m := new(big.Int).DivMod(a.ival, k, new(big.Int))
		return c.Big(m)
	}
	if k.IsInt64() && k.Int64() == 256 {
		_, d := c.split8(a)
		return d
	}
	return c.intern(&Term{op: "mod", sort: "Int", args: []*Term{a, c.Big(k)}})
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.args[0]
	}
	return c.intern(&Term{op: "not", sort: "Bool", args: []*Term{a}})
}
func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t.op == "true" || seen[t] {
			return true
		}
		if t.op == "false" || seen[c.Not(t)] {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !walk(t) {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.intern(&Term{op: "and", sort: "Bool", args: out})
}
func (c *Ctx) Or(ts ...*Term) *Term {
	var ns []*Term
	for _, t := range ts {
		ns = append(ns, c.Not(t))
	}
	r := c.And(ns...)
	if r.op == "and" {
		var ps []*Term
		for _, t := range r.args {
			ps = append(ps, c.Not(t))
		}
		return c.intern(&Term{op: "or", sort: "Bool", args: ps})
	}
	return c.Not(r)
}
func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.sort, b.sort, c.Str(a), c.Str(b)))
	}
	if a.sort == "Int" {
		d := c.Sub(a, b)
		if d.op == "int" {
			return c.Bool(d.ival.Sign() == 0)
		}
		// normalise sign by smallest id coefficient
		if d.op == "lin" && d.coef[0].Sign() < 0 {
			d = c.Neg(d)
		}
		return c.intern(&Term{op: "=", sort: "Bool", args: []*Term{d, c.Int(0)}})
	}
	if a.sort == "Bool" {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: "=", sort: "Bool", args: []*Term{a, b}})
}
func (c *Ctx) Le(a, b *Term) *Term { // a <= b  as  a-b <= 0
	d := c.Sub(a, b)
	if d.op == "int" {
		return c.Bool(d.ival.Sign() <= 0)
	}
	return c.intern(&Term{op: "<=", sort: "Bool", args: []*Term{d, c.Int(0)}})
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.Add(a, c.Int(1)), b) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Ite(p, a, b *Term) *Term {
	switch {
	case p == c.True:
		return a
	case p == c.False:
		return b
	case a == b:
		return a
	}
	if a.sort == "Bool" {
		return c.And(c.Imp(p, a), c.Imp(c.Not(p), b))
	}
	return c.intern(&Term{op: "ite", sort: a.sort, args: []*Term{p, a, b}})
}

func arrSort(elem string) string { return "(Array Int " + elem + ")" }
func elemSort(arr string) string {
	return strings.TrimSuffix(strings.TrimPrefix(arr, "(Array Int "), ")")
}

func (c *Ctx) Select(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		d := c.Sub(a.args[1], i)
		if d.op == "int" && d.ival.Sign() != 0 {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return c.intern(&Term{op: "select", sort: elemSort(a.sort), args: []*Term{a, i}})
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	if elemSort(a.sort) != v.sort {
		panic("store sort " + a.sort + " " + v.sort)
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return c.intern(&Term{op: "store", sort: a.sort, args: []*Term{a, i, v}})
}
func (c *Ctx) ConstArr(v *Term) *Term {
	return c.intern(&Term{op: "constarr", sort: arrSort(v.sort), args: []*Term{v}})
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// Wrap reduces an integer to the Go type of the given width, exactly.
func (c *Ctx) Wrap(t *Term, bits uint, signed bool) *Term {
	lo, hi := typeRange(bits, signed)
	if t.op == "int" {
		v := new(big.Int).Sub(t.ival, lo)
		v.Mod(v, pow2(bits))
		return c.Big(v.Add(v, lo))
	}
	// wrap(a + k*wrap(b)) = wrap(a + k*b) when the inner width is at least as wide
	if t.op == "lin" || t.op == "app" {
		l := linComb{map[*Term]*big.Int{}, new(big.Int)}
		changed := false
		var flat func(t *Term, f *big.Int)
		flat = func(t *Term, f *big.Int) {
			if t.op == "lin" {
				l.k.Add(l.k, new(big.Int).Mul(t.ival, f))
				for i, a := range t.args {
					flat(a, new(big.Int).Mul(t.coef[i], f))
				}
				return
			}
			if b, _, ok := wrapOf(t); ok && b >= bits {
				changed = true
				flat(t.args[0], f)
				return
			}
			l.add(t, f)
		}
		flat(t, big.NewInt(1))
		if changed {
			return c.Wrap(c.fromLin(l), bits, signed)
		}
	}
	if bits == 8 && !signed {
		_, d := c.split8(t)
		return d
	}
	name := fmt.Sprintf("wrap_s%d", bits)
	if !signed {
		name = fmt.Sprintf("wrap_u%d", bits)
	}
	w := c.App(name, "Int", t)
	if w.ax == nil {
		q := c.App(name+"_q", "Int", t)
		c.Attach(w, c.And(c.Le(c.Big(lo), w), c.Le(w, c.Big(hi))))
		c.Attach(w, c.Eq(t, c.Add(w, c.MulK(q, pow2(bits)))))
	}
	return w
}
func wrapOf(t *Term) (uint, bool, bool) {
	if t.op == "app" && strings.HasPrefix(t.name, "wrap_") && !strings.HasSuffix(t.name, "_q") {
		var b uint
		var s byte
		fmt.Sscanf(t.name, "wrap_%c%d", &s, &b)
		return b, s == 's', true
	}
	return 0, false, false
}
func typeRange(bits uint, signed bool) (*big.Int, *big.Int) {
	if signed {
		h := pow2(bits - 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1))
}

// Subst replaces terms; used to instantiate lambda-bodies.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			as[i] = rec(a)
			same = same && as[i] == a
		}
		r := t
		if !same {
			r = c.rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// reAttach is set by the spec layer: it re-creates an application through its
// constructor so that the facts of the new term are attached.
var reAttach func(c *Ctx, name string, sort string, args []*Term) *Term

func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "app":
		if b, s, ok := wrapOf(t); ok {
			return c.Wrap(as[0], b, s)
		}
		if reAttach != nil {
			if r := reAttach(c, t.name, t.sort, as); r != nil {
				return r
			}
		}
		return c.App(t.name, t.sort, as...)
	case "lin":
		l := linComb{map[*Term]*big.Int{}, new(big.Int).Set(t.ival)}
		for i, a := range as {
			l.add(a, t.coef[i])
		}
		return c.fromLin(l)
	case "mul":
		return c.Mul(as[0], as[1])
	case "div":
		return c.Div(as[0], as[1].ival)
	case "mod":
		return c.Mod(as[0], as[1].ival)
	case "ite":
		return c.Ite(as[0], as[1], as[2])
	case "=":
		return c.Eq(as[0], as[1])
	case "<=":
		return c.Le(as[0], as[1])
	case "and":
		return c.And(as...)
	case "or":
		return c.Or(as...)
	case "not":
		return c.Not(as[0])
	case "select":
		return c.Select(as[0], as[1])
	case "store":
		return c.Store(as[0], as[1], as[2])
	case "constarr":
		return c.ConstArr(as[0])
	}
	panic("rebuild " + t.op)
}

func smtInt(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func smtName(s string) string { return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|" }

// Str renders a term for reports.
func (c *Ctx) Str(t *Term) string {
	var sb strings.Builder
	c.str(&sb, t, 0)
	s := sb.String()
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}
func (c *Ctx) str(sb *strings.Builder, t *Term, depth int) {
	if sb.Len() > 4000 {
		return
	}
	switch t.op {
	case "int":
		sb.WriteString(t.ival.String())
	case "true", "false":
		sb.WriteString(t.op)
	case "var":
		sb.WriteString(t.name)
	case "lin":
		sb.WriteByte('(')
		for i, a := range t.args {
			if i > 0 {
				sb.WriteString(" + ")
			}
			if t.coef[i].Cmp(big.NewInt(1)) != 0 {
				sb.WriteString(t.coef[i].String() + "*")
			}
			c.str(sb, a, depth+1)
		}
		if t.ival.Sign() != 0 {
			sb.WriteString(" + " + t.ival.String())
		}
		sb.WriteByte(')')
	default:
		n := t.op
		if t.op == "app" {
			n = t.name
		}
		sb.WriteString(n + "(")
		for i, a := range t.args {
			if i > 0 {
				sb.WriteString(", ")
			}
			c.str(sb, a, depth+1)
		}
		sb.WriteByte(')')
	}
}
